"""Regenerates MANIFEST.json: claims every property with a module in vf/props."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'P01': 'runtime monitoring: shadow execution of operator programs and online contracts in realistic sessions',
 'P02': 'runtime monitoring: built models compared with direct evaluation of the generated expression tree',
 'P03': 'runtime monitoring: shadow evaluation at the substituted / rotated point',
 'P04': 'runtime monitoring: round trips and shadow evaluation of every representation',
 'P05': 'runtime monitoring: reference-model oracle for equality and lookup over generated pairs',
 'P06': 'runtime monitoring: content digests around every call, history replay and fresh-process comparison',
 'P07': 'runtime monitoring: algebraic-law oracles over operator histories, reference matrices',
 'P08': 'runtime monitoring: shadow evaluation of the documented action, online contracts in sessions',
 'P09': 'runtime monitoring: comparison with numerical derivative of the finite transformation',
 'P10': 'runtime monitoring: brute-force closure and subgroup enumeration as reference, multiplication counter',
 'P11': 'runtime monitoring: independent geometric reference (Rodrigues, spin covariance) for every operator',
 'P12': 'runtime monitoring: reference permutation action, space-group lattices',
 'P13': 'runtime monitoring: every returned symmetry evaluated; independent intertwiner search as completeness oracle',
 'P14': 'runtime monitoring: independent commutant computation as oracle on recorded results',
 'P15': 'runtime monitoring: finite-angle evaluation and independent unreduced linear system as oracle',
 'P16': 'runtime monitoring: metamorphic relations between executions on transformed inputs',
 'P17': 'runtime monitoring: evaluation of members and independent dimension count',
 'P18': 'runtime monitoring: explicit BdG construction and independent dimension count',
 'P19': 'runtime monitoring: evaluation of members and independent dimension count in hopping space',
 'P20': 'runtime monitoring: independent span / projection oracles for family operations',
 'P21': 'runtime monitoring: brute-force lattice isometries as reference',
 'P22': 'runtime monitoring: brute-force lattice search as reference',
 'P23': 'runtime monitoring: residual, rank and completeness oracles (SVD) on every call, also nested ones',
 'P24': 'runtime monitoring: residual and completeness oracles for Lie algebra decompositions',
 'P25': 'runtime monitoring: symmetry residuals and statistical accumulators over recorded samples',
 'P26': 'runtime monitoring: independent parser of printed names reconstructs the operator',
 'P27': 'runtime monitoring: round trip generate -> find -> generate with independent span comparison',
 'P28': 'runtime monitoring: generated expressions with directly evaluated meaning',
}
LEVEL = ('Held on the executions explored (random inputs derived from VERIF_SEED; counts and distinct states are in the '
         'evidence file); nothing is claimed for inputs the workloads cannot generate. Trusts numpy/scipy/sympy number '
         'arithmetic and the oracle code in vf/, which does not use the code under test to decide.')
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'vf', 'props', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='./check %s --tier quick' % p,
                           thorough_cmd='./check %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
                           technique=TECH[p], level='exploration', level_note=LEVEL))
    else:
        na.append(dict(property=p, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the monitors are installed by the harness at run time (see DESIGN.md).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
