"""C27 (experiment scripts, run files, plots) and C31 (calls bind): abstract runs of the scripts, see mfsa/scripts.py."""
from .common import *
import ast
import glob
import os
from mfsa import scriptcheck as SC
from mfsa.scripts import Runner, Raised, GiveUp, unk
from mfsa.check import REPO

KINDS27 = [('file', 'every file and array read is written by a script under the same name for the same options'),
           ('depend', 'what is saved depends on the options and runs that name the file'),
           ('arg', 'every option used is declared'),
           ('run', 'run files start existing scripts with options they accept, make the folders written to and keep the files read later'),
           ('reject', 'every script accepts some options'), ('syntax', 'every script parses')]
KINDS31 = [('import', 'imported names exist'), ('name', 'names are defined'), ('call', 'arguments bind to the signature of the callee'),
           ('unpack', 'as many results are unpacked as returned'), ('index', 'results are indexed within their number'),
           ('attr', 'attributes of library objects exist')]


def report(c, probs, kinds, what):
    for k, txt in kinds:
        bad = sorted(set((f, l, t) for kk, f, l, t in probs if kk == k))
        for f, l, t in bad:
            c.results.append((txt, 'violation', '%s:%s %s' % (f, l, t)))
        if not bad:
            c.results.append((txt, 'proved', what))


@ob('C27', 'files, arrays, options and run files', 'dardel reproduce_paper_plots', limit=500)
def _(c):
    W = SC.World(REPO)
    n, unknown = W.check_files()
    d = W.check_depends()
    o = W.check_options()
    s = W.shell.check()
    c.it.functions_lowered |= set(W.scripts)
    c.it.files |= set(os.path.join(REPO, x) for x in W.scripts)
    c.it.calls_resolved += n + d + o + s
    report(c, W.problems, KINDS27, '%d abstract runs of %d scripts: %d reads, %d writes, %d option uses, %d run-file facts; %d reads with unknown names not judged'
           % (W.nruns, len(W.scripts), n, d, o, s, len(unknown)))


@ob('C31', 'calls made by the experiment scripts and plots', 'dardel reproduce_paper_plots', limit=500)
def _(c):
    W = SC.World(REPO)
    n, libs = W.check_calls()
    c.it.functions_lowered |= set(q for _, _, q in libs) | set(W.scripts)
    c.it.files |= set(os.path.join(REPO, x) for x in W.scripts)
    c.it.calls_resolved += n
    report(c, W.problems, KINDS31, '%d abstract runs of %d scripts, %d calls, %d library call sites' % (W.nruns, len(W.scripts), n, len(libs)))


@ob('C31', 'calls made by the example notebooks', 'examples', limit=300)
def _(c):
    probs = []
    n = 0
    libs = set()
    names = []
    for nm, src in SC.notebooks(REPO):
        if src is None:
            continue
        try:
            r = Runner(REPO, nm, {}, source=src).run()
        except (Raised, GiveUp, SyntaxError):
            continue
        names.append(nm)
        n += r.calls
        libs |= r.libcalls
        probs += [(i['kind'], i['file'], i['line'], i['text'] + ' (run of %s)' % nm) for i in r.issues]
    c.it.functions_lowered |= set(q for _, _, q in libs) | set(names)
    c.it.files |= set(os.path.join(REPO, x) for x in names)
    c.it.calls_resolved += n
    report(c, probs, KINDS31, '%d notebooks, %d calls, %d library call sites' % (len(names), n, len(libs)))


@ob('C31', 'calls inside the library', 'mfs', limit=300)
def _(c):
    r = Runner(REPO, 'mfs/__init__.py', {}, source='')
    r.run()
    probs = []
    nf = 0
    for p in sorted(glob.glob(os.path.join(REPO, 'mfs', '**', '*.py'), recursive=True)):
        q = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
        if q.endswith('.__init__'):
            q = q[:-9]
        m = r.load(q)
        c.it.files.add(p)
        for n, v in list(m.env.items()):
            fs = []
            if v.k in ('fn', 'wrap'):
                fs = [v]
            elif v.k == 'cls' and v.v.mod is m:
                fs = [r.getattr(V31('inst', v.v), k, None, None, m) if v.v.kinds[k] not in ('property',) else None for k in v.v.methods]
            for f in fs:
                if f is None or f.k not in ('fn', 'wrap') or (f.k == 'fn' and f.v.mod is not m):
                    continue
                nf += 1
                c.it.functions_lowered.add(q + '.' + n)
                try:
                    call_top(r, f)
                except (GiveUp, Raised):
                    r.steps = 0
    probs += [(i['kind'], i['file'], i['line'], i['text']) for i in r.issues]
    c.it.calls_resolved += r.calls
    report(c, probs, KINDS31, '%d functions, %d calls' % (nf, r.calls))


def V31(k, v):
    from mfsa.scripts import V
    return V(k, v, frozenset(), {})


def call_top(r, f):
    """the body of a library function, all arguments unknown"""
    while f.k == 'wrap':
        f = f.v[1]
        if f is None:
            return
    fn = f.v
    a = fn.node.args
    pos = a.posonlyargs + a.args
    args = [unk() for _ in range(len(pos) - (1 if fn.bound is not None else 0))]
    kw = {k.arg: unk() for k in a.kwonlyargs if k.arg not in fn.defaults}
    r.steps = 0
    r.call_fn(fn, args, kw, fn.node, None, fn.mod)
