#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below (run by hand; the output is committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = 'abstract interpretation of the source to index-notation terms, value numbering against reference terms'
NOTE = ('The functions are lowered from the AST of /repo to symbolic tensor terms (model callbacks uninterpreted, sizes symbolic where '
        'possible) and each output is compared with a reference term. Identical normal forms prove equality for every input of those sizes; '
        'otherwise random interpretation of the two terms decides (no false alarm up to rounding; a pass then is up to hash collision). '
        'Trusts the library models in mfsa/ (numpy, jax, tme) and real arithmetic; sizes that stay symbolic or fixed are listed in the evidence.')
TECH = {p: VN for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22'.split()}
TECH.update({
    'C17': 'linearity (typestate) analysis of random keys over lowered call sites, with value numbering of key terms',
    'C23': 'abstract interpretation of the source, first-order (generator) consistency of lowered trajectory and law terms',
    'C24': 'ownership and effect analysis over the syntax tree with interprocedural summaries',
    'C25': 'taint analysis of traced values during abstract interpretation of the source',
    'C27': 'string and effect (information-flow) analysis of the scripts by abstract interpretation of the syntax tree',
    'C31': 'interprocedural call-binding and arity analysis by abstract interpretation of the syntax tree',
    'C26': 'dependence (non-interference) analysis of lowered output terms on measurement terms',
})
EXTRA = {
    'C17': 'Sites are enumerated from the lowered routines at symbolic or listed sizes; key terms are compared by value numbering under random interpretation (a hash collision could hide, never fabricate, a reuse up to 1e-10). Trusts that jax.random.split/fold_in give independent keys.',
    'C23': 'The model functions are lowered from the AST; the simulated trajectory, the supplied drift/dispersion, the emission, the measurement probability and the initial law are terms, compared at first order in the step size (a trajectory term and its reference polygon under the same noise term). Higher orders of the transition are covered by C22; a pass is up to hash collision of the random interpretation.',
    'C24': 'May-analysis over every function of the package: no effect found means no such construct reaches a non-local object, under the listed library view/copy model. Calls through callbacks supplied by the user are outside.',
    'C25': 'Covers every routine lowered for the other properties with all inputs traced; the list of gradient-breaking constructs is fixed (mfsa/check.py TRACE_RULES). Numerical finiteness of gradients is not decided.',
    'C27': 'Every script is interpreted abstractly under every assignment of its flag and text options (numbers are one symbolic value per option name); file names are texts with tagged holes. Names with unknown pieces are not judged and counted in the evidence. Taint is over-approximated, so a reported missing dependence is real up to exotic aliasing.',
    'C31': 'Calls whose callee is not resolved to a repository function, and calls only reached under unknown conditions, are not judged. Attribute and arity facts come from class and function definitions of the current tree.',
    'C26': 'Dependence is decided on the lowered terms at the listed sizes by perturbing one measurement under random interpretation of callbacks: a reported dependence is real; independence is up to hash collision.',
}
NA = {
    'C28': 'asymptotic in the number of moments: a limit statement about runtime distributions; no static argument over the source bounds it',
    'C29': 'depends on conditioning and rounding of runtime values (Hankel matrices of unbounded condition); no sound static bound in reach',
    'C30': 'asymptotic and probabilistic in the number of particles; not decidable from the source text',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append(dict(property=i, quick_cmd='python3-vt run.py --property %s --tier quick' % i,
                           thorough_cmd='python3-vt run.py --property %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='other', level_note=EXTRA.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='One engine (mfsa/), one driver (run.py); obligations/ and specs/ hold the per-property rules and references. DESIGN.md explains.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
