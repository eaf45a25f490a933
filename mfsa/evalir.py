"""Random interpretation of IR terms: every uninterpreted function and input array is replaced by a fixed smooth
pseudo-random one and the two terms are compared at small sizes.  Used only to classify terms whose normal forms differ."""
import hashlib
import itertools
import math
import cmath
import sys
import numpy as np
from .expr import *
from . import expr as X
from .values import Unsupported

sys.setrecursionlimit(20000)


class Inconclusive(Exception):
    pass


def h01(*parts):
    d = hashlib.blake2b('|'.join(map(str, parts)).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


FVL = {}


PLANS = {}


class Comp:
    """sum over one index of a plan"""
    __slots__ = ('name', 'ext', 'sub', 'fv', 'guard')


class Plan:
    """product of factors summed over binders: factors free of binders, and connected groups of the others"""
    __slots__ = ('outer', 'comps')

    def __init__(self, binders, facs):
        names = {n for n, _ in binders}
        self.outer = sorted([f for f in facs if not (f[3] & names)], key=lambda f: not f[0])
        rest = [f for f in facs if f[3] & names]
        self.comps = []
        left = list(binders)
        while left:
            grp, todo = [], [left.pop(0)]
            gf = []
            while todo:
                b = todo.pop()
                grp.append(b)
                new = [f for f in rest if b[0] in f[3]]
                rest = [f for f in rest if b[0] not in f[3]]
                gf += new
                touch = set().union(b[1].fv, *[f[3] for f in new])
                nxt = [q for q in left if q[0] in touch or b[0] in q[1].fv]
                left = [q for q in left if q not in nxt]
                todo += nxt
            self.comps.append(self.group(grp, gf))
        self.comps.sort(key=lambda c: not c.guard)

    def group(self, grp, gf):
        ns = {n for n, _ in grp}
        free = [b for b in grp if not (b[1].fv & ns)]
        if not free:
            raise Inconclusive('cyclic extents')
        best = None
        for b in free:                   # the index whose removal leaves the smallest largest group
            sc = (biggest([q for q in grp if q is not b], gf), -sum(b[0] in f[3] for f in gf))
            if best is None or sc < best[0]:
                best = (sc, b)
        b = best[1]
        c = Comp()
        c.name, c.ext = b
        c.sub = Plan([q for q in grp if q is not b], gf)
        fv = set(b[1].fv)
        for f in gf:
            fv |= f[3]
        for q in grp:
            fv |= q[1].fv
        c.fv = tuple(n for n in fv - ns if n[0] in '$%@&')
        c.guard = any(f[0] for f in gf)
        return c


def biggest(grp, gf):
    left, best = list(grp), 0
    while left:
        todo, n = [left.pop(0)], 0
        while todo:
            b = todo.pop()
            n += 1
            touch = set(b[1].fv)
            for f in gf:
                if b[0] in f[3]:
                    touch |= f[3]
            nxt = [q for q in left if q[0] in touch or b[0] in q[1].fv]
            left = [q for q in left if q not in nxt]
            todo += nxt
        best = max(best, n)
    return best


class AV:
    """array value with identity"""
    __slots__ = ('a', 'uid')
    n = 0

    def __init__(self, a):
        self.a = a
        AV.n += 1
        self.uid = ('av', AV.n)


def as_num(v):
    if isinstance(v, complex) and v.imag == 0:
        return v.real
    return v


def npow(b, e):
    try:
        if isinstance(b, complex) or isinstance(e, complex):
            if b == 0:
                return 1.0 if e == 0 else (0.0 if as_num(e).real > 0 else math.inf)
            return complex(b) ** e
        if b == 0:
            return 1.0 if e == 0 else (0.0 if e > 0 else math.inf)
        if b < 0 and e != int(e):
            return math.nan
        return float(b) ** e if e != int(e) or abs(e) > 40 else float(b) ** int(e)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan


class Ev:
    def __init__(self, dims, arrays=None, interps=None, seed=0, budget=4000000, pert=0.0, pseed=0, regime=0, junk=0, scale=None):
        self.scale = scale or {}
        self.truths = {}
        self.nanflag = False
        self.cond = 1.0
        self.junk, self.oob = junk, None
        self.pert, self.pseed, self.regime = pert, pseed, regime
        self.dims = dims
        self.arrays = dict(arrays or {})
        self.interps = dict(interps or {})
        self.seed = seed
        self.memo = {}
        self.force = {}
        self.budget = budget

    # ---- lookup
    def var(self, n, env):
        if n in env:
            return env[n]
        if n in self.dims:
            return self.dims[n]
        raise Inconclusive('unbound %s' % n)

    def key(self, x, env):
        fv = FVL.get(x)
        if fv is None:
            fv = FVL[x] = tuple(n for n in x.fv if n[0] in '$%@&')     # bound names; sizes and inputs are never in env
        if not fv:
            return (x, None)
        if len(fv) == 1:
            return (x, env.get(fv[0]))
        g = env.get
        return (x, tuple([g(n) for n in fv]))

    def array(self, n, env):
        v = env.get(n)
        if v is not None:
            return v.a
        v = self.arrays.get(n)
        if v is None:
            return None
        if callable(v):
            v = self.arrays[n] = self.nudge(n, np.asarray(v(self)))
        return v

    def mag(self, n, r=2.0):
        """magnitude of input n: 1 in the plain regime, log-uniform otherwise"""
        if n in self.scale:
            return self.scale[n]
        if self.regime not in (1, 2):       # 3, 4: moment sequences of no distribution
            return 1.0
        u = h01(self.seed, 'mag', n)
        if r > 5:
            return 10.0 ** (r * (-1 if self.regime == 1 else 1) * (0.8 + 0.2 * u))
        return 10.0 ** (r * (2 * u - 1))

    def signed(self, ws, r2, regime):
        """in the given regime, weights (sum one) that are negative on the outer half: their moments belong to no distribution"""
        if self.regime != regime:
            return ws
        out = r2 > np.median(r2)
        if not out.any():
            return ws
        a, b = ws[~out].sum(), ws[out].sum()
        return np.where(out, -0.5 * ws / b, 1.5 * ws / a)

    def nudge(self, n, v):
        """relative perturbation of an input array (conditioning test)"""
        if not self.pert or v.dtype.kind not in 'fc':
            return v
        v = v.copy()
        for t in np.ndindex(*v.shape):
            k = t[:-2] + tuple(sorted(t[-2:])) if n in X.SYMARR and len(t) >= 2 else t
            v[t] = v[t] * (1 + self.pert * (2 * h01(self.pseed, 'nudge', n, k) - 1))
        return v

    # ---- evaluation
    def E(self, e, env):
        t = e.terms
        if not t:
            return 0.0
        if len(t) == 1:
            (m, c), = t.items()
            if not m.items:
                return float(c) if not isinstance(c, int) else c
        k = self.key(e, env)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Inconclusive('evaluation budget')
        s = 0
        for m, c in t.items():
            v = self.M(m, env)
            if v != 0 or v != v:
                s = s + (c if isinstance(c, int) else float(c)) * v
        if s != s and len(t) > 1:
            s = self.guarded(t, env)
        self.memo[k] = s
        return s

    def guarded(self, t, env):
        """the sum again, merging the terms that selections multiplied out: a value on the branch not taken cancels even if NaN"""
        acc = {}
        for m, c in t.items():
            rest, w = [], c if isinstance(c, int) else float(c)
            for a, x in m.items:
                if a.kind in X.BOOLK and not isinstance(x, E):
                    v = self.A(a, env)
                    if v in (0, 1) and x > 0:
                        w = w * v
                        continue
                rest.append((a, x))
            k = tuple(rest)
            if k in acc:
                acc[k] = (acc[k][0] + w, m)
            else:
                acc[k] = (w, m)
        s = 0
        for k, (w, m) in acc.items():
            if w == 0:
                continue
            r = w
            for a, x in k:
                v = self.A(a, env)
                if isinstance(x, E):
                    x = self.E(x, env)
                r = r * (v if x == 1 else npow(v, float(x) if not isinstance(x, (int, complex)) else x))
            s = s + r
        return s

    def M(self, m, env):
        late = []
        for a, x in m.items:
            if a.kind in X.BOOLK or a.kind == 'var':
                v = self.A(a, env)
                if isinstance(x, E):
                    x = self.E(x, env)
                if v == 0:
                    if x > 0:
                        return 0
                    if x == 0:
                        continue
                    return math.inf
                if v != 1 or a.kind == 'var':
                    late.append((v, x))
            else:
                late.append((a, x))
        r = 1
        for a, x in late:
            v = self.A(a, env) if not isinstance(a, (int, float)) else a
            if isinstance(x, E):
                x = self.E(x, env)
            if x == 1:
                r = r * v
            else:
                r = r * npow(v, float(x) if not isinstance(x, (int, complex)) else x)
        return r

    def idx(self, tup, env):
        out = []
        for i in tup:
            v = self.E(i, env)
            if v != v:
                raise Inconclusive('nan index')
            q = int(round(as_num(v).real if isinstance(v, complex) else v))
            out.append(q)
        return tuple(out)

    def A(self, a, env):
        k = self.key(a, env)
        r = self.memo.get(k)
        if r is None:
            r = self._A(a, env)
            self.memo[k] = r
        return r

    def _A(self, a, env):
        k = a.kind
        if k == 'var':
            return self.var(a.args[0], env)
        if k == 'num':
            return a.args[0]
        if k == 'sym':
            n = a.args[0]
            if n == 'e':
                return math.e
            if n == 'pi':
                return math.pi
            if n == 'I':
                return 1j
            if n in self.dims:
                return self.dims[n]
            v = self.arrays.get(n)
            if v is not None:
                if callable(v):
                    v = self.arrays[n] = self.nudge(n, np.asarray(v(self)))
                return v.item() if hasattr(v, 'item') else v
            return self.sgn(n, ()) * self.mag(n) * (0.4 + 0.9 * h01(self.seed, 'sym', n)) * (1 + (self.pert * (2 * h01(self.pseed, 'nudge', n) - 1) if self.pert else 0))
        if k == 'elem':
            n = a.args[0]
            i = self.idx(a.args[1], env)
            arr = self.array(n, env)
            if arr is None:
                return self.auto(n, i)
            for q, s in zip(i, arr.shape):
                if not 0 <= q < s:
                    # masked reads are expanded by the normal form into terms that cancel; the value must not matter (callers vary junk)
                    self.oob = 'index %s out of range in %s%s' % (i, n, arr.shape)
                    return 0.3 + h01(self.junk, 'oob', n, i)
            return arr[i].item()
        if k == 'paren':
            return self.E(a.args[0], env)
        if k in CMPK:
            r = self._cmp(k, a, env)
            s = self.truths.get(a)
            if s is None:
                s = self.truths[a] = set()
            s.add(r)
            return r
        if k == 'bool':
            return 1 if h01(self.seed, a.dg()) < 0.5 else 0
        if k == 'sum':
            return self.sum(a, env)
        if k == 'prod':
            n, body, ext = a.args
            N = int(round(self.E(ext, env)))
            r = 1
            e2 = dict(env)
            for q in range(N):
                e2[n] = q
                r = r * self.E(body, e2)
            return r
        if k == 'scan':
            return self.scan(a, env)
        if k == 'fn':
            return self.fn(a, env)
        raise Inconclusive('atom ' + k)

    def _cmp(self, k, a, env):
        if k == 'lt' or k == 'rlt':
            return 1 if self.re(a.args[0], env) < (0 if k == 'rlt' else -1e-9) else 0
        if k == 'rle':
            return 1 if self.re(a.args[0], env) <= 0 else 0
        v = self.E(a.args[0], env)
        return 1 if abs(v) < 1e-11 else 0

    def re(self, e, env):
        v = self.E(e, env)
        if isinstance(v, complex):
            v = v.real
        if v != v:
            raise Inconclusive('nan in comparison')
        return v

    def auto(self, n, i):
        v = self._auto(n, i)
        if self.pert and n not in X.INTARR:
            if n in X.SYMARR and len(i) >= 2:
                i = i[:-2] + tuple(sorted(i[-2:]))
            v = v * (1 + self.pert * (2 * h01(self.pseed, 'nudge', n, i) - 1))
        return v

    def _auto(self, n, i):
        if n in X.SYMARR and len(i) >= 2:
            i = i[:-2] + tuple(sorted(i[-2:]))
            v = 0.25 * h01(self.seed, n, i) * (1 if i[-1] == i[-2] else self.sgn(n, i))
            return (v + 1.0 if i[-1] == i[-2] else v) * self.mag(n)
        u = h01(self.seed, n, i)
        if n in X.INTARR:
            lo = X.ARRLO.get(n, 0)
            return lo + int(u * 3)
        return self.sgn(n, i) * (0.35 + 0.9 * u) * self.mag(n)

    def sgn(self, n, i):
        """inputs not declared positive take both signs outside the plain regime"""
        if self.regime not in (1, 2) or n in X.POSITIVE:
            return 1
        u = h01(self.seed - self.regime, 'sgn', n, i) < 0.5         # regimes 1 and 2 of one round take opposite signs
        return -1 if u == (self.regime == 1) else 1

    def sum(self, a, env):
        p = PLANS.get(a)
        if p is None:
            binders, mo = a.args
            facs = []
            for at, x in mo.items:
                fv = at.fv | x.fv if isinstance(x, E) else at.fv
                facs.append((at.kind in X.BOOLK or at.kind == 'var', at, x, fv))
            p = PLANS[a] = Plan(list(binders), facs)
        return self.plan(p, env)

    def factor(self, f, env):
        v = self.A(f[1], env)
        x = f[2]
        if isinstance(x, E):
            x = self.E(x, env)
        if f[0] and v == 0:
            return 0 if x > 0 else (1 if x == 0 else math.inf)
        return v if x == 1 else npow(v, float(x) if not isinstance(x, (int, complex)) else x)

    def plan(self, p, env):
        """sum of products by variable elimination: independent groups of factors are summed separately"""
        r = 1
        for f in p.outer:
            v = self.factor(f, env)
            if f[0] and v == 0:
                return 0
            r = r * v
        for c in p.comps:
            g = env.get
            k = (c, tuple([g(n) for n in c.fv]))
            v = self.memo.get(k)
            if v is None:
                N = int(round(self.E(c.ext, env)))
                e2 = dict(env)
                v = 0
                for q in range(N):
                    e2[c.name] = q
                    v = v + self.plan(c.sub, e2)
                self.memo[k] = v
            if c.guard and v == 0:
                return 0
            r = r * v
        return r

    def lam(self, L, env):
        k = ('lam', L) + self.key(L, env)[1:]
        r = self.memo.get(k)
        if r is None:
            shp = tuple(int(round(self.E(s, env))) for s in L.shape)
            vals = np.zeros(shp, dtype=complex)
            e2 = dict(env)
            for i in itertools.product(*[range(s) for s in shp]):
                for n, q in zip(L.names, i):
                    e2[n] = q
                vals[i] = self.E(L.body, e2)
            if not np.iscomplexobj(vals) or np.all(vals.imag == 0):
                vals = vals.real.copy()
            r = AV(vals)
            self.memo[k] = r
        return r

    def scan(self, a, env):
        sd, t = a.args
        T = int(round(self.E(t, env)))
        base = ('scan', sd) + self.key(sd, env)[1:]
        hist = self.memo.get(base)
        if hist is None:
            hist = self.memo[base] = [[self.lam(i, env) for i in sd.inits]]
        while len(hist) <= T:
            e2 = dict(env)
            for n, v in zip(sd.names, hist[-1]):
                e2[n] = v
            e2[sd.tname] = len(hist) - 1
            hist.append([self.lam(u, e2) for u in sd.updates])
        if T < 0:
            raise Inconclusive('negative iteration')
        e2 = dict(env)
        for n, v in zip(sd.names, hist[T]):
            e2[n] = v
        e2[sd.tname] = T
        return self.lam(sd.out, e2).a.item()

    # ---- functions
    def fn(self, a, env):
        name, args, out, ders = a.args
        o = self.idx(out, env)
        if name in self.interps:
            av = [self.arg(x, env) for x in args]
            dd = tuple((d[0],) + self.idx(d[1:], env) for d in ders)
            return self.interps[name](self, av, o, dd)
        f = getattr(self, 'f_' + name.replace('.', '_').replace(':', '_'), None)
        if f is not None and not ders:
            return f(a, args, o, env)
        if name in MATH1 and not ders and not out:
            v = self.E(args[0], env)
            if self.nanflag and name in ('isnan', 'isfinite'):      # missing-value conditions as unknown conditions
                return int((h01(self.seed, 'nan', '%.9g' % complex(v).real) < 0.4) == (name == 'isnan'))
            try:
                return MATH1[name](v)
            except (ValueError, OverflowError, TypeError):
                return math.nan
        if name == 'lump':
            return self.E(args[0], env)
        if name == 'table' and not ders:
            return self.E(args[o[0]], env)
        if name.startswith('cast:'):
            v = self.E(args[0], env)
            return v * (1 + 1e-3)          # a narrowing cast is visible
        return self.opaque(name, args, o, ders, env)

    def arg(self, x, env):
        if isinstance(x, E):
            return self.E(x, env)
        if isinstance(x, Lam):
            return self.lam(x, env).a
        if isinstance(x, FLam):
            return (x, env)
        return x

    def apply(self, F, env, arrs):
        """outputs of FLam at arrays"""
        e2 = dict(env)
        for n, v in zip(F.names, arrs):
            e2[n] = AV(np.asarray(v))
        return [self.lam(o, e2).a for o in F.outs]

    def opaque(self, name, args, o, ders, env):
        if name in X.SYMFN and len(o) >= 2:
            o = o[:-2] + tuple(sorted(o[-2:]))
        ph = 6.0 * h01(self.seed, name, o, 'ph')
        comp = {}
        for k, x in enumerate(args):
            v = self.arg(x, env)
            if isinstance(v, tuple):
                F, fe = v
                shp = tuple(int(round(self.E(s, env))) for s in F.shapes[0])
                pt = np.array([0.3 + h01('pt', name, k, i) for i in range(int(np.prod(shp)) if shp else 1)]).reshape(shp)
                outs = self.apply(F, fe, [pt])
                v = np.concatenate([np.atleast_1d(q).ravel() for q in outs])
            if isinstance(v, np.ndarray):
                for i in itertools.product(*[range(s) for s in v.shape]):
                    comp[(k,) + i] = v[i]
            else:
                comp[(k,)] = v
        for q, v in comp.items():
            ph = ph + (0.3 + 0.7 * h01(self.seed, name, o, q)) * v
        c = 1.0
        n = 0
        for d in ders:
            q = (d[0],) + self.idx(d[1:], env)
            c *= 0.3 + 0.7 * h01(self.seed, name, o, q)
            n += 1
        ph = ph + n * math.pi / 2
        s = cmath.sin(ph) if isinstance(ph, complex) and ph.imag != 0 else math.sin(ph.real if isinstance(ph, complex) else ph)
        sc = 0.4
        base = 0.0 if n else 1.3
        if self.regime in (1, 2) and not n and name not in POSFN and h01(self.seed, 'sgnf', name, o) < 0.5:
            base = -0.5
        if name in PSDFN and len(o) >= 2 and not n:
            base = 3.0 if o[-1] == o[-2] else 0.1
        return (base + sc * c * s) * self.scale.get(name, 1.0)

    # linear algebra
    def _mat(self, args, env):
        return self.lam(args[0], env).a

    def _mm(self, tag, f, args, env):
        L = args[0]
        k = (tag,) + self.key(L, env)
        r = self.memo.get(k)
        if r is None:
            m = self._mat(args, env)
            bad = not np.all(np.isfinite(m))
            soft = self.regime >= 3 or bool(self.scale)
            if bad and not soft:
                raise Inconclusive('non-finite matrix')
            try:
                r = f(np.eye(m.shape[0]) if m.ndim == 2 else np.zeros(m.shape)) if bad else f(m)
            except np.linalg.LinAlgError:
                if not soft or tag != 'chol':
                    raise Inconclusive(tag + ' failed')
                bad, r = True, m
            if not bad and tag in ('inv', 'eig', 'chol'):
                # rounding in these is relative to the largest entry, not to the result
                if tag == 'eig':
                    c = float(np.max(np.abs(r[0]))) if r[0].size else 0.
                else:
                    q = m
                    for ax in (0, 1, 0, 1):          # scaling rows and columns does not lose accuracy
                        nr = np.abs(q).max(axis=ax, keepdims=True)
                        q = q / np.sqrt(np.where(nr > 0, nr, 1.))
                    sv = np.linalg.svd(q, compute_uv=False)
                    c = float(sv[0] / sv[-1]) if sv.size and sv[-1] > 0 else math.inf
                self.cond = max(self.cond, c)
            if bad:                          # the array libraries return NaN where a factorisation fails
                r = tuple(np.full(np.shape(q), np.nan) for q in r) if isinstance(r, tuple) else np.full(np.shape(r), np.nan)
            self.memo[k] = r
        return r

    def f_chol(self, a, args, o, env):
        return self._mm('chol', np.linalg.cholesky, args, env)[o].item()

    def f_inv(self, a, args, o, env):
        return self._mm('inv', np.linalg.inv, args, env)[o].item()

    def f_det(self, a, args, o, env):
        return np.asarray(self._mm('det', np.linalg.det, args, env)).item()

    def f_expm(self, a, args, o, env):
        def em(m):
            r = np.eye(m.shape[0])
            t = np.eye(m.shape[0])
            s = max(0, int(math.ceil(math.log2(max(1e-9, np.abs(m).sum())))) + 2)
            mm = m / 2 ** s
            for k in range(1, 25):
                t = t @ mm / k
                r = r + t
            for _ in range(s):
                r = r @ r
            return r
        return self._mm('expm', em, args, env)[o].item()

    def _eig(self, args, env):
        def f(m):
            w, v = np.linalg.eigh(m)
            sg = np.sign(v[0] + 1e-300)
            return w, v * sg
        return self._mm('eig', f, args, env)

    def f_eigval(self, a, args, o, env):
        return self._eig(args, env)[0][o].item()

    def f_eigvec(self, a, args, o, env):
        return self._eig(args, env)[1][o].item()

    def f_roots(self, a, args, o, env):
        r = self._mm('roots', lambda p: np.sort_complex(np.roots(p)), args, env)
        return complex(r[o[0]])

    def f_argsort(self, a, args, o, env):
        return int(self._mm('argsort', lambda v: np.argsort(v.real, kind='stable'), args, env)[o[0]])

    def f_sort(self, a, args, o, env):
        return float(self._mm('sort', lambda v: np.sort(v.real), args, env)[o[0]])

    def _red(self, f, args, env):
        v = self.lam(args[0], env).a
        return f(v).item()

    def f_max(self, a, args, o, env):
        return self._red(np.max, args, env)

    def f_min(self, a, args, o, env):
        return self._red(np.min, args, env)

    def f_argmax(self, a, args, o, env):
        return self._red(np.argmax, args, env)

    def f_argmin(self, a, args, o, env):
        return self._red(np.argmin, args, env)

    def f_median(self, a, args, o, env):
        return self._red(np.median, args, env)

    def f_searchsorted(self, a, args, o, env):
        v = self.lam(args[0], env).a
        x = self.re(args[1], env)
        side = 'right' if self.E(args[2], env) else 'left'
        return int(np.searchsorted(v, x, side=side))

    def f_interp(self, a, args, o, env):
        x = self.re(args[0], env)
        xp, fp = self.lam(args[1], env).a, self.lam(args[2], env).a
        return float(np.interp(x, xp, fp, left=self.E(args[3], env), right=self.E(args[4], env)))

    def f_pow0(self, a, args, o, env):
        return 1 if abs(self.E(args[0], env)) < 1e-12 else 0

    def f_comb(self, a, args, o, env):
        n, k = int(round(self.re(args[0], env))), int(round(self.re(args[1], env)))
        if k < 0 or n < 0:
            return 0
        return math.comb(n, k)

    def f_mod(self, a, args, o, env):
        x, y = self.re(args[0], env), self.re(args[1], env)
        return x % y if y else math.nan

    def f_floordiv(self, a, args, o, env):
        x, y = self.re(args[0], env), self.re(args[1], env)
        return x // y if y else math.nan

    def f_inf(self, a, args, o, env):
        return math.inf

    def f_nan(self, a, args, o, env):
        return math.nan

    def f_bernoulli_pmf(self, a, args, o, env):
        k, p = self.re(args[0], env), self.E(args[1], env)
        return p if k == 1 else (1 - p if k == 0 else 0.0)

    # random numbers
    def f_runiform(self, a, args, o, env):
        return (self.opaque('runiform', args, o, (), env) - 0.89) / 0.82

    def f_rnormal(self, a, args, o, env):
        return (self.opaque('rnormal', args, o, (), env) - 1.3) * 2.5

    def _int_below(self, n, v):
        return min(n - 1, int((v - 0.89) / 0.82 * n))

    def f_rchoice(self, a, args, o, env):
        n = None
        nd = len(o)
        n = int(round(self.E(args[1 + nd], env)))
        return self._int_below(n, self.opaque('rchoice', args, o, (), env))

    def f_rbernoulli(self, a, args, o, env):
        return 1 if self.opaque('rbernoulli', args, o, (), env) > 1.3 else 0

    def f_rperm(self, a, args, o, env):
        n = int(round(self.E(args[1], env)))
        vals = [self.opaque('rperm', args, (q,), (), env) for q in range(n)]
        return int(np.argsort(vals)[o[0]])

    def f_rcategorical(self, a, args, o, env):
        lg = self.lam(args[-1], env).a
        return self._int_below(lg.shape[-1], self.opaque('rcategorical', args, o, (), env))

    # TME functional
    def _tme(self, args, env, skip):
        xs, dt, A, B, order = args[skip:]
        x = self.lam(xs, env).a
        h = self.re(dt, env)
        q = self.re(order, env)
        k = ('tme', x.tobytes(), h, q, A, self.key(A, env)[1], B, self.key(B, env)[1])
        r = self.memo.get(k)
        if r is None:
            d = x.shape[0]
            sig = []
            for s in (0.0, 0.13):
                for F in (A, B):
                    sig.append(self.apply(F, env, [x + s])[0].ravel())
            fa = np.concatenate([sig[0], sig[2]])
            fb = np.concatenate([sig[1], sig[3]])
            n = 2 * d + 3
            w = np.array([0.5 + h01(self.seed, 'w', j) for j in range(n)])
            w = w / w.sum()
            z = np.zeros((n, d))
            for j in range(n):
                for i in range(d):
                    s = 0.7 * h * sum((0.3 + h01('za', j, i, p)) * v for p, v in enumerate(fa))
                    s += 0.6 * math.sqrt(abs(h)) * (2 * h01('zc', j, i) - 1) * (1 + 0.2 * math.sin(sum((0.3 + h01('zb', j, i, p)) * v for p, v in enumerate(fb))))
                    s += 0.03 * q * h01('zo', j, i)
                    z[j, i] = x[i] + s
            r = (w, z)
            self.memo[k] = r
        return r

    def f_tme_E(self, a, args, o, env):
        w, z = self._tme(args, env, 1)
        F = args[0]
        return sum(wj * self.apply(F, env, [zj])[0].item() for wj, zj in zip(w, z))

    def f_tme_cov(self, a, args, o, env):
        w, z = self._tme(args, env, 0)
        m = w @ z
        c = (z - m).T @ ((z - m) * w[:, None]) * 1.07
        return c[o].item()


PSDFN = set()

CMPK = ('lt', 'rlt', 'rle', 'eq', 'req')
POSFN = set()


def _r(f):
    def g(v):
        if isinstance(v, complex):
            if v.imag == 0:
                v = v.real
            else:
                return getattr(cmath, f.__name__)(v)
        return f(v)
    return g


def _log(v):
    if isinstance(v, complex) and v.imag != 0:
        return cmath.log(v)
    v = v.real
    if v <= 0:
        return math.nan if v < 0 else -math.inf
    return math.log(v)


MATH1 = {'log': _log, 'sin': _r(math.sin), 'cos': _r(math.cos), 'tan': _r(math.tan), 'tanh': _r(math.tanh), 'sinh': _r(math.sinh),
         'cosh': _r(math.cosh), 'arctan': _r(math.atan), 'erf': lambda v: math.erf(v.real), 'lgamma': lambda v: math.lgamma(v.real),
         'sign': lambda v: float(np.sign(v.real)), 'abs': abs, 'floor': lambda v: math.floor(v.real + 1e-12), 'ceil': lambda v: math.ceil(v.real),
         'round': lambda v: float(np.round(v.real)), 'real': lambda v: complex(v).real, 'imag': lambda v: complex(v).imag,
         'conj': lambda v: complex(v).conjugate(), 'fact': lambda v: math.factorial(int(round(v.real))),
         'fact2': lambda v: float(np.prod(np.arange(int(round(v.real)), 0, -2))) if v.real > 0 else 1.0,
         'trunc': lambda v: math.trunc(v.real), 'isnan': lambda v: 1 if v != v else 0, 'isfinite': lambda v: 1 if abs(v) < math.inf else 0,
         'stop_gradient': lambda v: v,
         'digamma': lambda v: (math.lgamma(v.real + 1e-5) - math.lgamma(v.real - 1e-5)) / 2e-5}


def close(a, b, tol=1e-6):
    a, b = complex(a), complex(b)
    if a != a and b != b:
        return None
    if a != a or b != b:
        return False
    if math.isinf(abs(a)) or math.isinf(abs(b)):
        return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
