"""Obligations: build implementation and specification terms, decide equality, collect results."""
import os
import sys
import time
import json
import signal
import traceback
import itertools
import multiprocessing as mp
from fractions import Fraction
from math import comb
import numpy as np
from .values import *
from .expr import *
from . import expr as X
from . import ops, lib, libattr, libjax, evalir
from .evalir import Ev, Inconclusive, close, h01
from .interp import Interp

REPO = os.environ.get('MFSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBLIGATIONS = []


class Ob:
    def __init__(self, props, name, anchors, fn, sizes, insts, limit, cfg, thorough):
        self.props, self.name, self.anchors, self.fn = props, name, anchors, fn
        self.sizes, self.insts, self.limit, self.cfg, self.thorough = sizes, insts, limit, cfg, thorough


def ob(props, name, anchors, sizes=({},), insts=({},), limit=150, cfgs=({},), thorough=False):
    """register an obligation. sizes: list of {dim: int|None}; None = symbolic. insts: evaluation sizes for symbolic dims"""
    if isinstance(props, str):
        props = props.split()
    if isinstance(anchors, str):
        anchors = anchors.split()

    def deco(fn):
        for cfg in cfgs:
            nm = name + ('' if not cfg else '[' + ','.join('%s=%s' % kv for kv in cfg.items()) + ']')
            OBLIGATIONS.append(Ob(props, nm, anchors, fn, list(sizes), list(insts), limit, cfg, thorough))
        return fn
    return deco


class Skip(Exception):
    pass


class Missing(Exception):
    pass


class Lazy:
    def __init__(self, f):
        self.f = f


class Ctx:
    def __init__(self, ob_, sizes, tier='quick', prop=None):
        self.ob = ob_
        self.prop = prop
        self.cfg = ob_.cfg
        self.tier = tier
        self.it = Interp(REPO, {}, [VERIF])
        self.size = {}
        self.symbolic = False
        for k, v in sizes.items():
            if k.startswith('_'):
                continue
            if v is None:
                self.size[k] = dim(k)
                self.symbolic = True
            elif isinstance(v, tuple):         # symbolic with lower bound
                self.size[k] = dim(k, v[0])
                set_dim(k, v[0])
                self.symbolic = True
            else:
                self.size[k] = ex(v)
        self.concrete = {k: v for k, v in sizes.items() if isinstance(v, int)}
        self.only = None
        self.directed = 0
        self.dirtime = 0.0
        self.gens = {}
        self.inputs = {}
        self.interps = {}
        self.results = []       # (label, status, detail)
        self.facts = []

    def __getattr__(self, k):
        s = self.__dict__.get('size', {})
        if k in s:
            return s[k]
        raise AttributeError(k)

    # ---- sources
    def repo(self, qual):
        f = self.it.get(qual)
        if f is None:
            raise Missing(qual)
        if isinstance(f, Unk):
            raise Unsupported('%s: %s' % (qual, f.reason))
        return f

    def spec(self, qual):
        f = self.it.get('specs.' + qual)
        assert f is not None, qual
        return f

    def call(self, f, *args, **kw):
        if (self.prop == 'C26' or self.prop == 'C25' and 'C03' in self.ob.props) and (getattr(f, 'qual', None) or '').startswith('specs.'):
            return Lazy(lambda: self.it.call(f, list(args), kw))
        try:
            r = self.it.call(f, list(args), kw)
        except PyRaise as e:
            q = getattr(f, 'qual', None) or ''
            e.in_repo = not q.startswith('specs.')
            raise
        if isinstance(r, Unk):
            raise Unsupported(r.reason)
        return r

    # ---- inputs
    def arr(self, name, shape=(), gen=None, **kw):
        shape = tuple(ex(s) for s in shape)
        if gen is not None:
            self.gens[name] = gen
        self.inputs[name] = shape
        return input_array(name, shape, **kw)

    def scalar(self, name, gen=None, **kw):
        return self.arr(name, (), gen, **kw)

    def raw_moments(self, name, n, lo=-1.0, hi=1.3, central=False, scaled=False):
        """moment vector of a discrete distribution with many atoms (positive definite Hankel matrices)"""
        def gen(ev, name=name, n=n):
            N = int(round(ev.E(ex(n), {})))
            xs = np.array([lo + (hi - lo) * h01(ev.seed, name, 'x', j) for j in range(24)]) * ev.mag(name, 0.5)
            ws = np.array([0.2 + h01(ev.seed, name, 'w', j) for j in range(24)])
            ws /= ws.sum()
            ws = ev.signed(ws, xs ** 2, 4)
            if central:
                xs = xs - ws @ xs
            if scaled:
                xs = xs / np.sqrt(np.abs(ws @ xs ** 2))
            return np.array([ws @ xs ** k for k in range(N)])
        return self.arr(name, (n,), gen)

    def fn(self, name, interp=None):
        if interp is not None:
            self.interps[name] = interp
        return name

    def native(self, f, name='callback'):
        return NativeFn(lambda it, a, k: f(*[ops.to_arr(x) if not isinstance(x, (tuple, list, dict, type(None))) else x for x in a], **k), name)

    def cb(self, name, ins, outs, positive=False, psd=False, sym=False):
        """opaque callback: ins = ranks of the arguments; outs = output shapes (list for tuple).
        Leading batch axes are not accepted; args are whole arrays"""
        return self.native(lambda *a: self.opaque_call(name, a, outs, sym), name)

    def opaque_call(self, name, args, outs, sym=False):
        A = [a.body if not a.shape else a.lam() for a in args]
        tup = isinstance(outs, list)
        res = []
        for k, sh in enumerate(outs if tup else [outs]):
            nm = name if not tup else '%s.%d' % (name, k)
            res.append(mkarr(sh, lambda *i, nm=nm: mkfn(nm, tuple(A), tuple(i)), 'f', 'jnp', True))
        return tuple(res) if tup else res[0]

    # ---- deciding
    def equal(self, label, impl, spec, tol=1e-6):
        """obligation: impl == spec (trees of arrays)"""
        if self.prop == 'C25':
            return
        if self.prop == 'C26':
            if 'ys' in self.inputs:
                self.causal(label, impl)
            else:
                self.anchored(label, impl)
            return
        if isinstance(spec, Lazy):
            spec = spec.f()
        self._cmp(label, impl, spec, tol)

    def split3(self, label, r, s):
        """filters: the last output is the negative log likelihood (property C03), the others the estimates"""
        if self.prop == 'C25':
            return
        if self.prop == 'C26':
            self.causal(label, r)
            return
        if len(r) != len(s):
            self.results.append((label, 'violation', 'returns %d values, expected %d' % (len(r), len(s))))
            return
        if self.prop in ('C03', None):
            self.equal(label + ' nell', r[-1], s[-1])
        if self.prop != 'C03':
            self.equal(label + ' estimates', tuple(r[:-1]), tuple(s[:-1]))

    def causal(self, label, r, data='ys'):
        """every output at step k depends on data[0..k], on each of them, and on nothing later; a scalar output on all data"""
        insts = [{}]
        if self.symbolic:       # one-node rules carry no information: at least two nodes
            insts = [dict(i, T=2 if 'z' in i else 3) for i in self.ob.insts if i.get('n', 2) > 1][:1]
        n = 0
        for inst in insts:
            dims = dict(self.concrete)
            dims.update(inst)
            s0 = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)
            base = self.gens.get(data)
            n0 = data

            def mk(j, s0=s0, by=0.37):
                g = dict(self.gens)
                ev = Ev(dims, g, self.interps, seed=s0)
                sh = tuple(int(round(ev.E(q, {}))) for q in self.inputs[data])

                def gen(ev):
                    a = np.array(base(ev), dtype=float) if base is not None else np.array(
                        [ev.auto(n0, t) for t in np.ndindex(*sh)]).reshape(sh)
                    if j is not None:
                        a[j] = a[j] + by
                    return a
                g[data] = gen
                return ev.__class__(dims, g, self.interps, seed=s0)
            evs = {None: mk(None)}
            for j in range(dims['T']):
                evs[j] = mk(j)
            outs = []

            def flat(v):
                if isinstance(v, Inst):
                    v = tuple(v.fields.values())
                if isinstance(v, (tuple, list)):
                    for q in v:
                        flat(q)
                elif v is not None:
                    outs.append(ops.to_arr(v))
            flat(r)
            dep = {}
            for k, A in enumerate(outs):
                lab = '%s output %d' % (label, k)
                sh = tuple(int(round(evs[None].E(q, {}))) for q in A.shape)
                if not sh:
                    steps = [(dims['T'] - 1, [()])]
                else:
                    if sh[0] != dims['T']:
                        self.results.append((lab, 'violation', 'has %d entries for %d measurements' % (sh[0], dims['T'])))
                        return
                    steps = [(t, [(t,) + q for q in list(np.ndindex(*sh[1:]))[:5]]) for t in range(sh[0])]
                for t, cells in steps:
                    for j in range(dims['T']):
                        ch = False
                        for cell in cells:
                            try:
                                a, b = evs[None].E(A.at(cell), {}), evs[j].E(A.at(cell), {})
                            except (Inconclusive, OverflowError):
                                continue
                            n += 1
                            if not (_finite(a) and _finite(b)):
                                continue
                            d = abs(a - b) > 1e-9 * (1 + abs(a))
                            ch = ch or d
                            if d and j > t:
                                self.results.append((lab, 'violation', dict(sizes=dims, seed=s0, index=list(cell), value='depends on measurement %d' % j,
                                                                            expected='no dependence on measurements after %d' % t, term=show(A.at(cell))[:800], expected_term='')))
                                return
                        q = (t if sh else 'total', j)
                        dep[q] = dep.get(q, False) or ch
            miss = [q for q, d in sorted(dep.items(), key=str) if not d and (q[0] == 'total' or q[1] <= q[0])]
            for k in range(1, 13):          # discrete choices need not react to one small change
                if not miss:
                    break
                e0 = mk(None, s0 + k)
                ej = {}
                for t, j in list(miss):
                    for by in (0.37, -1.9, 5.0):
                        ej[j] = mk(j, s0 + k, by)
                        if any(self._reacts(e0, ej[j], A, t, dims['T']) for A in outs if bool(A.shape) == (t != 'total')):
                            miss.remove((t, j))
                            dep[t, j] = True
                            break
            for (t, j), d in sorted(dep.items(), key=str):
                if not d and (t == 'total' or j <= t):
                    self.results.append((label, 'violation', 'result %s does not depend on measurement %d (sizes %s)' % (t, j, dims)))
                    return
            if any(b.kind == 'fn' and b.args[0] in ('isnan', 'isfinite') for A in outs for b in subatoms(A.at([ex(fresh(q)) for q in A.shape]))):
                for k in range(6):
                    e0 = mk(None, s0 + k)
                    e0.nanflag = True
                    for j in range(1, dims['T']):
                        ej = mk(j, s0 + k)
                        ej.nanflag = True
                        for o_, A in enumerate(outs):
                            for t in range(j if A.shape else 0):
                                n += 1
                                if self._reacts(e0, ej, A, t, dims['T']):
                                    self.results.append(('%s output %d' % (label, o_), 'violation', 'result %d depends on measurement %d where measurements are missing (NaN) (sizes %s)' % (t, j, dims)))
                                    return
        self.results.append((label + ' causality', 'agree', '%d dependence tests' % n))

    def anchored(self, label, r):
        """smoothers: result k depends on filtering results k, k+1, ... and on none earlier; the last one is the last filtering result"""
        if isinstance(r, Inst):
            r = tuple(r.fields.values())
        if len(r) != 2:
            raise Unsupported('smoother with %d outputs' % len(r))
        outs = [ops.to_arr(x) for x in r]
        n = 0
        for inst in (self.ob.insts if self.symbolic else [{}]):
            dims = dict(self.concrete)
            dims.update(inst)
            T = dims['T']
            s0 = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)

            def mk(j, sd):
                g = dict(self.gens)
                base = {}
                for nm in ('mfs', 'vfs'):
                    ev = Ev(dims, self.gens, self.interps, seed=sd)
                    sh = tuple(int(round(ev.E(q, {}))) for q in self.inputs[nm])
                    base[nm] = np.array(self.gens[nm](ev), dtype=float) if nm in self.gens else np.array(
                        [ev.auto(nm, t) for t in np.ndindex(*sh)]).reshape(sh)
                if j is not None:
                    base['mfs'][j] += 0.37
                    base['vfs'][j] *= 1.4
                for nm in base:
                    g[nm] = lambda ev, a=base[nm]: a
                return Ev(dims, g, self.interps, seed=sd), base
            dep = {}
            for sd in (s0, s0 + 1):
                e0, base = mk(None, sd)
                ej = [mk(j, sd)[0] for j in range(T)]
                for A, nm in zip(outs, ('mfs', 'vfs')):
                    sh = tuple(int(round(e0.E(q, {}))) for q in A.shape)
                    if sh != base[nm].shape:
                        self.results.append((label, 'violation', 'returns shape %s for filtering results of shape %s' % (sh, base[nm].shape)))
                        return
                    for cell in np.ndindex(*sh):
                        try:
                            a = e0.E(A.at(cell), {})
                            if cell[0] == T - 1:
                                n += 1
                                if close(a, base[nm][cell]) is False:
                                    self.results.append((label, 'violation', 'the last smoothing result %s%s differs from the last filtering result (sizes %s)' % (nm, list(cell), dims)))
                                    return
                            for j in range(T):
                                b = ej[j].E(A.at(cell), {})
                                n += 1
                                if not (_finite(a) and _finite(b)):
                                    continue
                                d = abs(a - b) > 1e-8 * (1 + abs(a))
                                dep[cell[0], j] = dep.get((cell[0], j), False) or d
                                if d and j < cell[0]:
                                    self.results.append((label, 'violation', 'smoothing result %d depends on filtering result %d (sizes %s)' % (cell[0], j, dims)))
                                    return
                        except (Inconclusive, OverflowError):
                            continue
            for (k, j), d in dep.items():
                if j >= k and not d:
                    self.results.append((label, 'violation', 'smoothing result %d does not depend on filtering result %d (sizes %s)' % (k, j, dims)))
                    return
        if not n:
            raise Unsupported('evaluation inconclusive')
        self.results.append((label + ' anchored', 'agree', '%d dependence tests' % n))

    def _reacts(self, e0, e1, A, t, T):
        sh = tuple(int(round(e0.E(q, {}))) for q in A.shape)
        for cell in ([()] if not sh else [(t,) + q for q in list(np.ndindex(*sh[1:]))]):
            try:
                a, b = e0.E(A.at(cell), {}), e1.E(A.at(cell), {})
            except (Inconclusive, OverflowError):
                continue
            if _finite(a) and _finite(b) and abs(a - b) > 1e-9 * (1 + abs(a)):
                return True
        return False

    def traceable(self):
        n = 0
        bad = {}
        for e in self.it.events:
            st = [q for q in e['stack'] if q]
            if any(q.startswith('specs.') for q in st) or not (e['func'] or '').startswith('mfs.'):
                continue
            if any(q.startswith('mfs.classical_filters_smoothers.resampling.') for q in st):
                continue        # the discrete resampling choices are exempt
            n += 1
            w = TRACE_RULES.get(e['kind'])
            if w:
                bad.setdefault((w, e['func'], e['line']), e)
        for (w, f, ln), e in bad.items():
            self.results.append((w, 'violation', '%s at %s:%s%s' % (w, f, ln, ' (%s)' % e['what'] if 'what' in e else '')))
        if not bad:
            self.results.append(('traceable', 'proved', '%d events, %d functions, none on a traced value' % (n, len(self.it.functions_lowered))))

    def known(self, label, impl, good, recorded):
        """equality with the reference; if it fails, equality with a recorded defective form is reported under its own label"""
        save = self.results
        self.results = []
        bad = good_r = None
        try:
            self.equal(label, impl, good())
            good_r = self.results
        except (Unsupported, PyRaise):
            good_r = [(label, 'undecided', 'reference')]
        if all(r[1] in ('proved', 'agree') for r in good_r):
            self.results = save + good_r
            return
        self.results = []
        self.equal(label, impl, recorded())
        bad = self.results
        self.results = save
        if all(r[1] in ('proved', 'agree') for r in bad):
            self.results.append((label + ' (recorded form)', 'violation', 'equals the recorded defective form, not the reference'))
        else:
            self.results.extend(bad)

    def raises(self, label, etype, f, *args, **kw):
        try:
            self.call(f, *args, **kw)
        except PyRaise as e:
            self.fact(label, e.etype == etype, 'raises %s, expected %s' % (e.etype, etype))
            return
        self.fact(label, False, 'no %s raised' % etype)

    def fact(self, label, ok, detail=''):
        if self.prop in ('C25', 'C26'):
            return
        self.results.append((label, 'proved' if ok else 'violation', detail))

    def _cmp(self, label, a, b, tol):
        if isinstance(a, Inst) and not isinstance(b, Inst):
            a = tuple(a.fields.values())
        if isinstance(b, Inst) and not isinstance(a, Inst):
            b = tuple(b.fields.values())
        if isinstance(a, Inst) and isinstance(b, Inst):
            a, b = tuple(a.fields.values()), tuple(b.fields.values())
        if isinstance(a, Unk):
            raise Unsupported(a.reason)
        if isinstance(b, Unk):
            raise Unsupported('spec: ' + b.reason)
        if isinstance(b, (tuple, list)) and isinstance(a, (tuple, list)):
            if len(a) != len(b):
                self.results.append((label, 'violation', 'returns %d values, expected %d' % (len(a), len(b))))
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self._cmp('%s[%d]' % (label, k), x, y, tol)
            return
        if a is None or b is None or isinstance(b, (str, bool)) and not isinstance(a, Arr):
            self.results.append((label, 'proved' if a == b else 'violation', '%r vs %r' % (a, b)))
            return
        A, B = ops.to_arr(a), ops.to_arr(b)
        if A.ndim != B.ndim or not all(x is y or (x - y).const() == 0 for x, y in zip(A.shape, B.shape)):
            if A.ndim != B.ndim or any((x - y).const() not in (None, 0) or nonneg(x - y - 1) or nonneg(y - x - 1)
                                       for x, y in zip(A.shape, B.shape)):
                self.results.append((label, 'violation', 'shape %s, expected %s' % (A.shape, B.shape)))
                return
        vs = tuple(fresh(s) for s in B.shape)
        ix = [ex(v) for v in vs]
        x, y = A.at(ix), B.at(ix)
        if x.unk or y.unk:
            raise Unsupported('unknown term')
        shp_same = all(p is q or (p - q).const() == 0 for p, q in zip(A.shape, B.shape))
        if x is y and shp_same:
            self.results.append((label, 'proved', 'identical normal form%s; %d subterms' % ('' if self.symbolic else ' at fixed size', _count(x))))
            return
        # concrete sizes: compare each element
        n = ops.size_const(B.shape)
        if n is not None and n <= 600 and shp_same:
            ok = True
            for t in itertools.product(*[range(int(s.const())) for s in B.shape]):
                if A.at(t) is not B.at(t):
                    ok = False
                    break
            if ok:
                self.results.append((label, 'proved', 'identical normal form element by element; %d elements' % n))
                return
        self._eval(label, A, B, x, y, vs, tol)

    def _stable(self, x, y, env, dims, sd, p, q, scale=None):
        """a difference counts only if it dwarfs the effect of rounding-size input perturbations"""
        fin = _finite(p) and _finite(q)
        noise = 0.0
        for k in range(3 if fin else 8):
            pk = (tuple(sorted(dims.items())), sd, k, fin, tuple(sorted((scale or {}).items())))
            ev = self._pert.get(pk)
            if ev is None:
                ev = self._pert[pk] = Ev(dims, self.gens, self.interps, seed=sd[0], regime=sd[1], pert=1e-11 if fin else 1e-7, pseed=k, junk=k + 1, scale=scale)
            ev.budget = 4000000
            try:
                p2, q2 = ev.E(x, env), ev.E(y, env)
            except (Inconclusive, OverflowError):
                return False
            if fin:
                if not (_finite(p2) and _finite(q2)):
                    return False
                noise = max(noise, abs(p2 - p) + abs(q2 - q))
            elif close(p2, q2) is not False or _finite(p) != _finite(p2) or _finite(q) != _finite(q2):
                return False
        return not fin or abs(p - q) > 30 * noise

    def _directed(self, *a):
        t0 = time.time()
        try:
            return self._directed1(*a)
        finally:
            self.dirtime += time.time() - t0

    def _directed1(self, label, A, B, x, y, vs, tol, truths):
        """conditions on data that only the implementation has and that no evaluated point took both ways: scale the inputs until one does"""
        spec = set(subatoms(y))
        conds = [a for a in subatoms(x) if a.kind in evalir.CMPK and a not in spec and len(truths.get(a, (0, 1))) == 1 and a not in X.SIZECONDS
                 and any(b.kind in ('elem', 'fn', 'sym', 'scan') for b in subatoms(a.args[0]))]
        if not conds:
            return False
        t0 = time.time()
        names = sorted({b.args[0] for b in subatoms(x) if b.kind in ('elem', 'sym', 'fn') and isinstance(b.args[0], str) and b.args[0] not in X.INTARR and b.args[0][0].isalpha()
                        and (b.kind != 'fn' or not hasattr(Ev, 'f_' + b.args[0]) and b.args[0] not in evalir.MATH1)} - {'pi', 'e', 'I'}) + ['cd']
        dims = dict(self.concrete)
        dims.update((self.only or self.ob.insts)[0] if self.symbolic else {})
        s0 = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)
        self.directed = self.directed + len(conds)
        for a in conds[:6]:
            cs = sorted({abs(float(v)) for b in [a.args[0]] for v in b.terms.values() if v} | {abs(float(b.args[0])) for b in subatoms(a.args[0]) if b.kind == 'num' and isinstance(b.args[0], (int, float, Fraction))})
            tries = []
            for c0 in dict.fromkeys([1.0] + [1 / c for c in cs] + cs + [a1 / a2 for a1 in cs[:3] for a2 in cs[:3]]):
                for f in (30., 1 / 30., 1e3, 1e-3):
                    tries += [c0 * f, (c0 * f) ** 0.5, (c0 * f) ** 0.25]
            tries = [s for s in tries if 1e-30 < s < 1e30]
            want = 1 - next(iter(truths[a])) if truths.get(a) else None
            hits = 0
            for sc in dict.fromkeys(tries):
                for nm in [None] + names:
                    if self.dirtime + time.time() - t0 > 25 or hits > 4:
                        break
                    scale = {nm: sc} if nm else {q: sc for q in names}
                    ev = Ev(dims, self.gens, self.interps, seed=s0, regime=0, scale=scale, budget=400000)
                    try:
                        sb = tuple(int(round(ev.E(s, {}))) for s in B.shape)
                        cells = list(itertools.product(*[range(s) for s in sb]))
                        cells = cells[-1:] + cells[:-1][::max(1, len(cells) // 4)]
                        for t in cells[:5]:
                            env = {v.args[0]: q for v, q in zip(vs, t)}
                            p = ev.E(x, env)
                            if want is not None and want not in ev.truths.get(a, ()):
                                continue
                            hits += 1
                            q = ev.E(y, env)
                            if not _finite(p) and not 1e-13 < sc < 1e13:
                                continue             # overflow
                            if not _finite(q) or _relclose(p, q, max(tol, 2e-13 * ev.cond)) is not False or ev.oob:
                                continue
                            if self._stable(x, y, env, dims, (s0, 0), p, q, scale):
                                self.results.append((label, 'violation', dict(
                                    sizes=dims, seed=s0, scale=scale, index=list(t), value=str(p), expected=str(q), condition=show(ex(a))[:400],
                                    term=show(x)[:1500], expected_term=show(y)[:1500])))
                                return True
                    except (Inconclusive, OverflowError, ValueError):
                        continue
        return False

    def _eval(self, label, A, B, x, y, vs, tol):
        s0 = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)
        seeds = [(s0 + k, k % 3) for k in range(3 if self.tier == 'quick' else 9)]
        if self.cfg.get('stable') or self.cfg.get('ldl'):     # the completion only acts on moment matrices that are not positive definite
            seeds = [(s0, 0), (s0 + 3, 3), (s0 + 4, 4)] + (seeds[1:] if self.tier != 'quick' else [])
        pts = 0
        incl = []
        truths = {}
        self._pert = {}
        insts = (self.only or self.ob.insts) if self.symbolic else [{}]
        for inst in insts:
            dims = dict(self.concrete)
            dims.update(inst)
            for sd, rg in seeds:
                ev = Ev(dims, self.gens, self.interps, seed=sd, regime=rg)
                try:
                    sa = tuple(int(round(ev.E(s, {}))) for s in A.shape)
                    sb = tuple(int(round(ev.E(s, {}))) for s in B.shape)
                    if sa != sb:
                        self.results.append((label, 'violation', 'shape %s, expected %s at %s' % (sa, sb, dims)))
                        return
                    cells = list(itertools.product(*[range(s) for s in sb]))
                    if len(cells) > 400:
                        cells = cells[::max(1, len(cells) // 300)]
                    for t in cells:
                        env = {v.args[0]: q for v, q in zip(vs, t)}
                        p = ev.E(x, env)
                        q = ev.E(y, env)
                        c = close(p, q, max(tol, 2e-13 * ev.cond))
                        if c and ev.oob:
                            e2 = Ev(dims, self.gens, self.interps, seed=sd, regime=rg, junk=7)
                            if close(e2.E(x, env), p, tol) is not True:
                                incl.append(ev.oob)
                                continue
                        if c is None or rg >= 3 and not _finite(q):
                            incl.append('nan at %s' % (t,))
                            continue
                        if not c and not self._stable(x, y, env, dims, (sd, rg), p, q):
                            incl.append('ill-conditioned point at %s' % (t,))
                            continue
                        if not c:
                            self.results.append((label, 'violation', dict(
                                sizes=dims, seed=sd, index=list(t), value=str(p), expected=str(q),
                                term=show(x)[:1500], expected_term=show(y)[:1500])))
                            return
                        pts += 1
                except Inconclusive as e:
                    incl.append(str(e))
                except OverflowError as e:
                    incl.append('overflow')
                for a, s in ev.truths.items():
                    truths.setdefault(a, set()).update(s)
        if pts and self._directed(label, A, B, x, y, vs, tol, truths):
            return
        if pts:
            self.results.append((label, 'agree', 'normal forms differ; no distinguishing interpretation at %d points, sizes %s'
                                 % (pts, insts)))
        else:
            self.results.append((label, 'undecided', 'normal forms differ and evaluation inconclusive: %s' % '; '.join(sorted(set(incl))[:3])))


TRACE_RULES = {'host_conversion': 'conversion of a traced value to a host number', 'branch_traced': 'Python branch on a traced value',
               'np_on_traced': 'host library call on a traced value', 'nondiff': 'operation that rounds or cuts gradients',
               'stop_gradient': 'gradient is stopped', 'custom_gradient': 'gradient is replaced by a custom rule', 'narrow_cast': 'values are rounded to a narrower type', 'traced_roots': 'root finding on traced coefficients'}


def _relclose(a, b, tol):
    if not (_finite(a) and _finite(b)):
        return close(a, b, tol)
    return abs(a - b) <= tol * max(abs(a), abs(b))


def _finite(v):
    v = complex(v)
    return v == v and abs(v) != float('inf')


def _count(e, seen=None):
    return len(e.terms)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def flips(o):
    """sizes at which a size condition met during lowering takes a truth value it takes at none of the evaluated sizes"""
    dimsets = [dict(i) for i in o.insts if i]
    out = []
    for a in list(X.SIZECONDS):
        if not all(a.fv <= set(d) for d in dimsets) or not dimsets:
            continue

        def truth(d):
            try:
                return bool(Ev(d).A(a, {}))
            except (Inconclusive, OverflowError, RecursionError):
                return None
        seen = {truth(d) for d in dimsets}
        if len(seen) != 1 or None in seen:
            continue
        best = None
        for d in dimsets:
            if 'z' in d and 'n' in d:           # numbers of multi-indices: tied to the order
                k = o.cfg.get('d', 2)
                cands = [dict(d, n=comb(N - 1 + k, k), z=comb(2 * N - 1 + k, k)) for N in range(1, 7)]
                cands += [dict(d, **{n: v}) for n in sorted(a.fv - {'n', 'z'}) for v in range(max(1, X.DIMLO.get(n, 1)), 1300)]
            else:
                cands = (dict(d, **{n: v}) for n in sorted(a.fv) for v in range(max(1, X.DIMLO.get(n, 1)), 1300))
            for q in cands:
                if truth(q) not in seen and (best is None or sum(q.values()) < sum(best.values())):
                    best = q
        if best is not None and best not in [b for _, b in out]:
            out.append((show(ex(a)), best))
    out.sort(key=lambda p: sum(p[1].values()))
    return out[:4]


def size_cases(o, tier, prop, res):
    """repeat the obligation at sizes on the other side of each size condition"""
    base = next((s for s in o.sizes if any(v is None or isinstance(v, tuple) for v in s.values())), None)
    if base is None:
        return
    for cond, d in flips(o):
        for sz in ([base] if res.get('sizes') and 'any' in str(res['sizes']) else []) + [dict(base, **d)]:
            X.MULTERMS = sz.get('_mul', 200)
            c = Ctx(o, sz, tier, prop)
            c.only = [d]
            signal.alarm(90)
            try:
                o.fn(c)
                signal.alarm(0)
            except PyRaise as e:
                signal.alarm(0)
                if getattr(e, 'in_repo', False):
                    c.results.append(('returns', 'violation', 'raises %s at %s (sizes %s)' % (e.etype, e.where or c.it.where(), d)))
            except Exception as e:
                signal.alarm(0)
                res['notes'].append('size case %s at %s not decided: %s' % (cond, d, type(e).__name__))
                continue
            finally:
                signal.alarm(0)
            res['results'] += [[r[0] + ' at %s' % d] + list(r[1:]) for r in c.results if r[1] == 'violation']
            res['notes'].append('size case %s at %s: %s' % (cond[:200], d, sorted({r[1] for r in c.results})))
            if not any(r[1] == 'undecided' for r in c.results):
                break


def run_ob(o, tier, prop=None):
    """run one obligation (in a child process); returns dict"""
    res = dict(name=o.name, anchors=o.anchors, results=[], status=None, functions=[], files=[], calls=0, lib=[], notes=[], sites={})
    t0 = time.time()
    last = None
    signal.signal(signal.SIGALRM, _alarm)
    done = False
    for k, sz in enumerate(o.sizes):
        if done and not (sz.get('_also') or tier == 'thorough'):
            continue
        X.MULTERMS = sz.get('_mul', 200)
        c = Ctx(o, sz, tier, prop)
        signal.alarm(o.limit)
        try:
            o.fn(c)
            if prop == 'C25':
                c.traceable()
            signal.alarm(0)
        except Missing as e:
            signal.alarm(0)
            q = str(e)
            if q.split('.')[-1].startswith('_'):
                last = ('undecided', 'private function %s is gone' % q)
            else:
                c.results.append(('exists', 'violation', 'public function %s is gone' % q))
                last = None
        except Unsupported as e:
            signal.alarm(0)
            last = ('undecided', 'unsupported construct: %s (in %s)' % (e, c.it.where()))
        except PyRaise as e:
            signal.alarm(0)
            if not getattr(e, 'in_repo', False):
                last = ('undecided', 'reference raises %s' % e.etype)
                res['notes'].append(last[1])
                continue
            c.results.append(('returns', 'violation', 'raises %s at %s (sizes %s)' % (e.etype, e.where or c.it.where(), sz)))
            last = None
        except X.TooBig:
            signal.alarm(0)
            last = ('undecided', 'term too large')
        except Timeout:
            last = ('undecided', 'time limit %ss' % o.limit)
        except MemoryError:
            signal.alarm(0)
            last = ('undecided', 'memory limit')
        except RecursionError:
            signal.alarm(0)
            last = ('undecided', 'recursion limit')
        except (RuntimeError, AssertionError, ZeroDivisionError, IndexError, KeyError, TypeError, AttributeError, ValueError, OverflowError) as e:
            signal.alarm(0)
            tb = traceback.format_exc().strip().split('\n')
            last = ('undecided', 'internal: %s %s | %s' % (type(e).__name__, e, ' '.join(tb[-4:-1])[:300]))
            if os.environ.get('MFSA_DEBUG'):
                traceback.print_exc()
        else:
            last = None
        res['functions'] = sorted(set(res['functions']) | {q for q in c.it.functions_lowered if q and not q.startswith('specs.')})
        res['files'] = sorted(set(res['files']) | {os.path.relpath(f, REPO) for f in c.it.files if f.startswith(REPO)})
        res['lib'] = sorted(set(res['lib']) | c.it.lib_used)
        res['calls'] += c.it.calls_resolved
        for s, (v, os_) in c.it.sites.items():
            res['sites'].setdefault(s, (v, set()))[1].update(os_)
        if last is None and all(r[1] != 'undecided' for r in c.results):
            sd = {a: (b if isinstance(b, int) else ('any' if b is None else 'any>=%d' % b[0])) for a, b in sz.items() if a != '_also'}
            res['results'] = res['results'] + [list(r) for r in c.results]
            if done:
                res['notes'].append('also at sizes %s' % sd)
            else:
                res['sizes'] = sd
                done = True
            if any(r[1] == 'violation' for r in c.results):
                res['sizes'] = sd
                break
            continue
        if last is None:
            last = ('undecided', '; '.join(r[2] for r in c.results if r[1] == 'undecided'))
        if any(r[1] == 'violation' for r in c.results):
            res['results'] = [list(r) for r in c.results]
            res['sizes'] = {a: (b if isinstance(b, int) else 'any') for a, b in sz.items()}
            last = None
            break
        res['notes'].append('sizes %s: %s' % (sz, last[1]))
        if done:
            last = None
            continue
        if k == len(o.sizes) - 1:
            res['results'] = [list(r) for r in c.results if r[1] != 'undecided']
    if last is None and not any(r[1] == 'violation' for r in res['results']):
        size_cases(o, tier, prop, res)
    if last is not None:
        res['status'], res['detail'] = last
    else:
        st = {r[1] for r in res['results']}
        res['status'] = 'violation' if 'violation' in st else ('agree' if 'agree' in st else 'proved')
    res['seconds'] = round(time.time() - t0, 2)
    return res


def grow(obs, res):
    """variants of obligations of fixed size, with one size raised past a literal that a comparison in the implementation has met from one side only"""
    sites = {}
    for o, r in zip(obs, res):
        for s, (k, outs) in (r.get('sites') or {}).items():
            q = sites.setdefault(s, [k, set(), []])
            q[1].update(outs)
            q[2].append(o)
    out = []
    for s, (k, outs, os_) in sorted(sites.items()):
        if len(outs) != 1 or k > 40:
            continue
        seen, num = set(), 0
        for o in sorted(os_, key=lambda o: -sum(v for v in o.cfg.values() if type(v) is int)):
            knobs = [('cfg', n) for n, v in o.cfg.items() if type(v) is int] + [('size', n) for n, v in (o.sizes[0] if o.sizes else {}).items() if type(v) is int and n[0] != '_']
            for kind, n in knobs:
                for v in (k, k + 1):
                    cfg, sz = dict(o.cfg), [dict(q) for q in o.sizes]
                    if kind == 'cfg':
                        if v <= cfg[n]:
                            continue
                        cfg[n] = v
                    else:
                        if v <= sz[0][n]:
                            continue
                        sz[0][n] = v
                        sz = sz[:1]
                    key = (o.name.split('[')[0], str(sorted(cfg.items(), key=str)), str(sz))
                    if key in seen or num >= 12:
                        continue
                    seen.add(key)
                    num += 1
                    q = Ob(o.props, o.name + '{%s=%d}' % (n, v), o.anchors, o.fn, sz, o.insts, 60, cfg, False)
                    out.append((s, 1 - int(next(iter(outs))), q))
    return out[:48]


def _child(o, tier, prop, conn):
    try:
        sys.setrecursionlimit(20000)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        import threading
        threading.stack_size(512 * 1024 * 1024)
        r = run_ob(o, tier, prop)
    except MemoryError:
        r = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='memory', functions=[], files=[], calls=0, lib=[], notes=[], seconds=0)
    except BaseException as e:
        r = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='internal: %r' % e, functions=[], files=[], calls=0, lib=[], notes=[traceback.format_exc()[-800:]], seconds=0)
    conn.send(r)
    conn.close()


def run_all(obs, tier, prop=None, jobs=8, deadline=None):
    tstart = time.time()
    deadline = deadline or (600 if tier == 'quick' else 3000)
    ctx = mp.get_context('fork')
    todo = sorted(enumerate(obs), key=lambda p: -(2 * p[1].cfg['d'] + bool(p[1].cfg.get('stable')) if type(p[1].cfg.get('d')) is int else 0))   # long ones first
    running = {}
    out = [None] * len(obs)
    while todo or running:
        while todo and len(running) < jobs:
            i, o = todo.pop(0)
            if time.time() - tstart > deadline:
                out[i] = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='check deadline', functions=[], files=[], calls=0, lib=[], notes=[], seconds=0)
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(o, tier, prop, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), o)
        from multiprocessing.connection import wait
        if not running:
            continue
        ready = wait([v[1] for v in running.values()] + [v[0].sentinel for v in running.values()], timeout=5)
        for i in list(running):
            p, a, t0, o = running[i]
            if a.poll():
                try:
                    out[i] = a.recv()
                    if any(x[1] == 'violation' for x in out[i]['results']):
                        deadline = min(deadline, time.time() - tstart + 45)
                except EOFError:
                    out[i] = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='worker died', functions=[], files=[], calls=0, lib=[], notes=[], seconds=0)
                p.join()
                del running[i]
            elif not p.is_alive():
                out[i] = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='worker died', functions=[], files=[], calls=0, lib=[], notes=[], seconds=0)
                del running[i]
            elif time.time() - t0 > o.limit * len(o.sizes) + 30 or time.time() - tstart > deadline:
                p.kill()
                p.join()
                out[i] = dict(name=o.name, anchors=o.anchors, results=[], status='undecided', detail='time limit', functions=[], files=[], calls=0, lib=[], notes=[], seconds=0)
                del running[i]
    return out
