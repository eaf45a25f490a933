"""python3-vt run.py --property Cxx : decide one property from /repo's current source.

exit 0 = no violation found; exit 1 = at least one VIOLATION line."""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('MFSA_OUT', HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


EXPLAIN = {
    'C17': ('Static analysis: linearity (typestate) analysis of random keys. Key-taking routines are lowered from the AST; each draw, split and '
            'key-consuming callback is a consumption site whose key term is closed over the enclosing loops; key terms of all instances are value-numbered.',
            'no key term is consumed twice (two draws, draw and split, two different splits), every key term depends on the given key, no host randomness'),
    'C23': ('Static analysis: the model constructors are lowered from the AST by abstract interpretation; simulator, drift, dispersion, emission, measurement '
            'probability and initial law are terms; the simulator is compared with the drift and dispersion it is returned with at first order in the step.',
            'each returned piece of a model describes the same state-space model as the other pieces'),
    'C24': ('Static analysis: ownership and effect analysis over the AST of every function of the package (origins: argument, module object, enclosing '
            'variable, fresh), summaries propagated over the call graph to a fixpoint.',
            'no effect reaches an argument, a default value, a module-level object, an object attribute or an escaping closure variable; no ambient reads; no shared memoised mutables'),
    'C25': ('Static analysis: taint analysis during lowering. Every filter, smoother and quadrature routine is lowered with traced inputs; each host '
            'conversion, Python branch, host-library call, rounding, gradient stop or replacement on a traced value is an event with its call site.',
            'no such event on the path from traced inputs to outputs (outside resampling choices)'),
    'C26': ('Static analysis: dependence analysis of lowered terms. The outputs of every filter are terms over the measurements; dependence of output k on '
            'measurement j is decided by non-interference on the terms; smoothers by equality with reference terms anchored at the last filtering result.',
            'output k depends on measurements 0..k, on each of them, and on none later; one output per measurement; last smoothing = last filtering result'),
    'C27': ('Static analysis: abstract interpretation of every script under every option assignment (flags and texts enumerated, numbers symbolic): '
            'file names as texts with tagged holes, array names, and the options each value depends on; run files parsed for invocations, folders and removals.',
            'each read name and array is written by some script for the same options; saved data depend on what names the file; options declared; run files consistent'),
    'C31': ('Static analysis: abstract interpretation of scripts, notebooks and library functions with interprocedural resolution of callees, decorators and '
            'returned closures; every call site with a resolved callee is an obligation.',
            'names exist, arguments bind to the signature, result counts match the unpacking, attributes exist'),
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    import obligations
    from mfsa import check
    for m in pkgutil.iter_modules(obligations.__path__):
        importlib.import_module('obligations.' + m.name)
    prop = a.property
    obs = [o for o in check.OBLIGATIONS if prop in o.props and (a.tier == 'thorough' or not o.thorough)]
    if not obs:
        print('no obligations registered for', prop)
        return 2
    res = check.run_all(obs, a.tier, prop, a.jobs)
    if not any(x[1] == 'violation' for r in res for x in r['results']):
        g = check.grow(obs, res)
        if g:
            for (site, want, q), r in zip(g, check.run_all([q for _, _, q in g], a.tier, prop, a.jobs, deadline=180)):
                got = (r.get('sites') or {}).get(site, (0, set()))[1]
                if r['status'] == 'undecided' or bool(want) not in got:
                    continue
                r['results'] = [x for x in r['results'] if x[1] != 'violation' or isinstance(x[2], dict) or 'expected' in str(x[2])]
                r['notes'].append('raised past %s in %s' % (site[1], site[0]))
                obs, res = obs + [q], res + [r]
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'open']
    cnt = {'proved': 0, 'agree': 0, 'violation': 0, 'undecided': 0}
    nviol = 0
    samples = []
    replay_dir = os.path.join(OUT, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for o, r in zip(obs, res):
        for label, st, detail in r['results']:
            cnt[st] += 1
            if st == 'violation':
                kn = [k for k in known if k['obligation'] == o.name and k['label'] == label and k.get('match', '') in json.dumps(detail)]
                if kn:
                    print('KNOWN-FINDING: property=%s %s: %s' % (prop, o.name, kn[0]['what']))
                    continue
                nviol += 1
                p = os.path.join(replay_dir, '%s-%d.json' % (prop, nviol))
                with open(p, 'w') as f:
                    json.dump(dict(property=prop, obligation=o.name, clause=label, anchors=o.anchors, functions=r['functions'],
                                   detail=detail, sizes=r.get('sizes'),
                                   rerun='python3-vt run.py --property %s' % prop), f, indent=1)
                d = str(detail) if not isinstance(detail, dict) else 'value %s, reference value %s at index %s, sizes %s' % (
                    detail['value'], detail['expected'], detail['index'], detail['sizes'])
                print('%s: %s: %s does not satisfy its reference: %s' % (prop, ','.join(o.anchors), label, d[:600]))
                print('VIOLATION property=%s replay=%s' % (prop, p))
        if r['status'] == 'undecided':
            cnt['undecided'] += 1
            print('UNDECIDED %s: %s: %s' % (prop, o.name, str(r.get('detail'))[:300]))
        if len(samples) < 12 and r['results']:
            x = r['results'][0]
            samples.append(dict(obligation=o.name, clause=x[0], outcome=x[1], detail=x[2].get('value') if isinstance(x[2], dict) else str(x[2]),
                                sizes=r.get('sizes'), functions=r['functions'][:12]))
    fns = sorted(set(f for r in res for f in r['functions']))
    tot = sum(cnt.values())
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')),
              level='other',
              coverage=dict(
                  explanation=EXPLAIN.get(prop, ('Static analysis: the functions listed were lowered from the AST of /repo to index-notation terms by abstract '
                              'interpretation and compared with reference terms; an obligation is one output of one function in one configuration.',))[0],
                  obligations=tot, discharged=cnt['proved'] + cnt['agree'],
                  discharged_identical_normal_form=cnt['proved'], discharged_no_distinguishing_interpretation=cnt['agree'],
                  undecided=cnt['undecided'], call_sites_resolved=sum(r['calls'] for r in res),
                  functions_analysed=fns, files=sorted(set(f for r in res for f in r['files'])),
                  rule=EXPLAIN[prop][1] if prop in EXPLAIN else 'output term of the implementation equals the output term of the reference for every callback, input and (where sizes say any) size',
                  samples=samples,
                  per_obligation=[dict(name=r['name'], status=r['status'], sizes=r.get('sizes'), seconds=r['seconds'], detail=r.get('detail')) for r in res]),
              assumptions=['the library models of numpy/jax/tme in mfsa/lib*.py', 'real arithmetic (no rounding)'],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d by identical normal form, %d by no distinguishing interpretation, %d undecided, %d violated; %d functions; %.1fs'
          % (prop, tot, cnt['proved'], cnt['agree'], cnt['undecided'], nviol, len(fns), time.time() - t0))
    return 1 if nviol else 0


if __name__ == '__main__':
    sys.exit(main())
