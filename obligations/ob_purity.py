"""C24 (and the host-randomness clause of C17): ownership / effect analysis over the syntax tree of every function of the package."""
from .common import *
from mfsa import purity
from mfsa.check import REPO

RULES = [('argument', 'no function modifies an argument'), ('default', 'no function modifies a default value'),
         ('state', 'no method changes its object'), ('global', 'no function modifies module-level objects'),
         ('closure', 'no returned function keeps state in its closure'), ('ambient', 'no function reads clocks, environment or processes'),
         ('random', 'no function draws host randomness'), ('config', 'no function changes library settings'),
         ('memo', 'no memoised function hands out shared mutable results')]


def judge(c, A, kinds):
    c.it.functions_lowered |= set(A.fns)
    c.it.files |= set(m.path for m in A.mods.values())
    for k, text in RULES:
        if k not in kinds:
            continue
        bad = [f for f in A.findings if f['kind'] == k]
        for f in bad:
            c.results.append((text, 'violation', '%s:%s %s %s' % (f['file'], f['line'], f['function'], f['text'])))
        if not bad:
            c.results.append((text, 'proved', '%d functions, %d call sites, %d local effects, none escapes' % (len(A.fns), A.ncalls, sum(len(f.mut) for f in A.fns.values()))))


@ob('C24', 'effects of every library function', 'mfs')
def _(c):
    judge(c, purity.Analysis(REPO), [k for k, _ in RULES])


@ob('C17', 'host randomness', 'mfs')
def _(c):
    judge(c, purity.Analysis(REPO), ['random'])
