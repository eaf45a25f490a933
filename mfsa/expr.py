"""Index-notation tensor IR: hash-consed normal forms.

An expression E is a polynomial with rational coefficients over atoms raised to (possibly
symbolic) exponents.  Arrays are element functions (index variables -> E) with symbolic extents;
contractions are Sum atoms with alpha-canonical binders, loops are Scan atoms (recurrences),
comparisons are idempotent indicator atoms, everything the analyser does not interpret is an
uninterpreted function atom over normal forms.  Two expressions are equal as value numbers iff they
are the same object.
"""
import hashlib
import itertools
from fractions import Fraction

_counter = itertools.count()
BOUNDS = {}      # index variable name -> extent E (0 <= v < extent)
DIMLO = {}       # dimension name -> lower bound (int)
ARRLO = {}       # integer array name -> lower bound
INTARR = set()   # integer-valued arrays
SIZECONDS = {}
POSITIVE = set()  # names of scalar symbols / arrays known positive
SYMARR = set()   # arrays symmetric in their last two axes

MAXTERMS = 6000
MULTERMS = 3000


class TooBig(Exception):
    pass


def _dig(*parts):
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\x00')
    return h.digest()


_EMPTY = frozenset()
_atoms = {}
_monos = {}
_exprs = {}
_lams = {}
_nncache = {}


class Atom:
    __slots__ = ('kind', 'args', 'fv', 'h', 'uid', '_dg', 'isint', 'unk', '_e', '__weakref__')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('atom', self.kind, *[_argdg(a) for a in self.args])
        return self._dg

    def __repr__(self):
        return show_atom(self)


def _argdg(a):
    if isinstance(a, (E, Mono, Atom, Lam, FLam, ScanDef)):
        return a.dg()
    if isinstance(a, tuple):
        return _dig('t', *[_argdg(x) for x in a])
    return _dig('s', repr(a))


def _collect(a, acc):
    """free vars, height, unk over nested args"""
    if isinstance(a, (E, Mono, Atom, Lam, FLam, ScanDef)):
        acc[0] |= a.fv
        if a.h > acc[1]:
            acc[1] = a.h
        acc[2] |= a.unk
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, acc)


INT_FNS = {'floor', 'ceil', 'mod', 'floordiv', 'fact', 'comb', 'fact2', 'argsort', 'searchsorted', 'argmin', 'argmax',
           'digit', 'round', 'maxnonzero', 'sizeof', 'indexof', 'trunc'}


def mkatom(kind, *args, isint=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        acc = [set(), 0, False]
        for x in args:
            _collect(x, acc)
        if kind in ('var', 'elem'):
            acc[0].add(args[0])
        if kind == 'unk':
            acc[2] = True
        a.fv, a.h, a.unk = frozenset(acc[0]), acc[1], acc[2]
        if kind in BOOLK and a.fv and all(n in DIMLO for n in a.fv):
            SIZECONDS[a] = 1                 # a condition on sizes alone: evaluated both ways (check.flips)
        a.uid = next(_counter)
        a._dg = None
        a._e = None
        if isint is None:
            if kind in ('var', 'lt', 'eq', 'rlt', 'rle', 'req', 'bool'):
                isint = True
            elif kind == 'elem':
                isint = args[0] in INTARR
            elif kind == 'fn':
                isint = args[0] in INT_FNS or args[0].startswith('int:')
            elif kind == 'sum':
                isint = args[1].isint
            elif kind == 'paren':
                isint = args[0].isint
            elif kind == 'prod':
                isint = args[1].isint
            else:
                isint = False
        a.isint = isint
        _atoms[key] = a
    return a


class Mono:
    __slots__ = ('items', 'fv', 'h', 'uid', '_dg', 'isint', 'unk', '__weakref__')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('mono', *sorted(_dig(a.dg(), _argdg(e)) for a, e in self.items))
        return self._dg

    def __repr__(self):
        return show_mono(self)


def _mkmono(items):
    """items: iterable of (Atom, exponent) already reduced"""
    items = tuple(sorted(items, key=lambda p: p[0].uid))
    m = _monos.get(items)
    if m is None:
        m = Mono()
        m.items = items
        fv = set()
        h = 0
        unk = False
        isint = True
        for a, e in items:
            fv |= a.fv
            h = max(h, a.h)
            unk |= a.unk
            if isinstance(e, E):
                fv |= e.fv
                h = max(h, e.h)
                unk |= e.unk
                isint = isint and a.isint and e.isint
            else:
                isint = isint and a.isint and e >= 0 and (e.denominator == 1)
        m.fv, m.h, m.unk, m.isint = frozenset(fv), h, unk, isint
        m.uid = next(_counter)
        m._dg = None
        _monos[items] = m
    return m


class E:
    __slots__ = ('terms', 'fv', 'h', 'uid', '_dg', '_int', 'unk', '__weakref__')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('E', *sorted(_dig(m.dg(), c) for m, c in self.terms.items()))
        return self._dg

    @property
    def isint(self):
        if self._int is None:
            self._int = all(m.isint and c.denominator == 1 for m, c in self.terms.items())
        return self._int

    def const(self):
        """Fraction/int value when constant else None"""
        t = self.terms
        if not t:
            return 0
        if len(t) == 1:
            (m, c), = t.items()
            if not m.items:
                return c
        return None

    def __add__(self, o):
        return add(self, ex(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(ex(o)))

    def __rsub__(self, o):
        return add(ex(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, ex(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, pow_(ex(o), ex(-1)))

    def __rtruediv__(self, o):
        return mul(ex(o), pow_(self, ex(-1)))

    def __pow__(self, o):
        return pow_(self, ex(o))

    def __repr__(self):
        return show(self)


def _frac(c):
    if isinstance(c, int):
        return c
    if c.denominator == 1:
        return int(c)
    return c


def mkE(terms):
    terms = {m: _frac(c) for m, c in terms.items() if c != 0}
    if len(terms) > MAXTERMS:
        raise TooBig()
    key = frozenset(terms.items())
    e = _exprs.get(key)
    if e is None:
        e = E()
        e.terms = terms
        fv = set()
        h = 0
        unk = False
        for m in terms:
            fv |= m.fv
            if m.h > h:
                h = m.h
            unk |= m.unk
        e.fv, e.h, e.unk = frozenset(fv), h, unk
        e.uid = next(_counter)
        e._dg = None
        e._int = None
        _exprs[key] = e
    return e


MONO1 = _mkmono(())
ZERO = mkE({})
ONE = mkE({MONO1: 1})


def ex(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return mkE({MONO1: x}) if x else ZERO
    if isinstance(x, Fraction):
        return mkE({MONO1: x}) if x else ZERO
    if isinstance(x, float):
        return mkE({MONO1: Fraction(repr(x)) if x == x and abs(x) != float('inf') else 0})
    if isinstance(x, Atom):
        e = x._e
        if e is None:
            e = x._e = mkE({_mkmono(((x, 1),)): 1})
        return e
    if isinstance(x, Mono):
        return mkE({x: 1})
    raise TypeError(type(x))


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    t = dict(a.terms)
    for m, c in b.terms.items():
        t[m] = t.get(m, 0) + c
    return mkE(t)


def sum_list(lst):
    t = {}
    for a in lst:
        for m, c in a.terms.items():
            t[m] = t.get(m, 0) + c
    return mkE(t)


def neg(a):
    return mkE({m: -c for m, c in a.terms.items()})


def scale(a, k):
    if k == 1:
        return a
    return mkE({m: c * k for m, c in a.terms.items()})


BOOLK = ('lt', 'eq', 'rlt', 'rle', 'req', 'bool')


def _is_simple(d):
    for a, e in d.items():
        if isinstance(e, E):
            return False
        if a.kind in ('num', 'sym', 'paren') or a.kind in BOOLK:
            return False
    return True


def _nexp(e):
    """normalise exponent"""
    if isinstance(e, E):
        c = e.const()
        if c is not None:
            return c
        return e
    return _frac(e)


def _eadd(x, y):
    if isinstance(x, E) or isinstance(y, E):
        return _nexp(add(ex(x), ex(y)))
    return _frac(x + y)


def _emul(x, y):
    if isinstance(x, E) or isinstance(y, E):
        return _nexp(mul(ex(x), ex(y)))
    return _frac(x * y)


def from_factors(d, coef=1):
    """d: dict atom -> exponent. Returns reduced E."""
    if coef == 0:
        return ZERO
    d = {a: e for a, e in d.items() if isinstance(e, E) or e != 0}
    if _is_simple(d):
        return mkE({_mkmono(d.items()): coef})
    out = {}
    extra = []
    for a, e in d.items():
        k = a.kind
        if k in BOOLK:
            if isinstance(e, E):
                out[a] = e
            else:
                out[a] = 1 if e > 0 else e
        elif k == 'num':
            p = a.args[0]
            if p == -1:
                if isinstance(e, E):
                    # (-1)^e, reduce integer-coefficient terms mod 2
                    t = {}
                    for m, c in e.terms.items():
                        if m.isint and c.denominator == 1:
                            if c % 2:
                                t[m] = 1
                        else:
                            t[m] = c
                    e2 = mkE(t)
                    c0 = e2.const()
                    if c0 is not None:
                        if c0 % 2:
                            coef = -coef
                    else:
                        if MONO1 in e2.terms and e2.terms[MONO1] == 1:
                            coef = -coef
                            e2 = e2 - 1
                        out[a] = e2
                elif e.denominator == 1:
                    if e % 2:
                        coef = -coef
                elif e.denominator == 2:
                    # (-1)^(k/2) = I^k
                    d2 = {IATOM: int(e * 2)}
                    extra.append(from_factors(d2))
                else:
                    out[a] = e
            else:
                if isinstance(e, E):
                    c0 = e.terms.get(MONO1, 0)
                    fl = c0.numerator // c0.denominator
                    if fl:
                        coef = coef * Fraction(p) ** fl
                        e = _nexp(e - fl)
                    if isinstance(e, E):
                        out[a] = e
                    elif e != 0:
                        out[a] = e
                else:
                    fl = e.numerator // e.denominator
                    coef = coef * Fraction(p) ** fl
                    r = _frac(e - fl)
                    if r != 0:
                        out[a] = r
        elif a is IATOM:
            if isinstance(e, E) or e.denominator != 1:
                out[a] = e
            else:
                r = e % 4
                if r >= 2:
                    coef = -coef
                if r % 2:
                    out[a] = 1
        elif a is EATOM:
            # e^expr : split off log terms
            ee = ex(e)
            keep = {}
            for m, c in ee.terms.items():
                lg = [(x, y) for x, y in m.items if x.kind == 'fn' and x.args[0] == 'log' and y == 1]
                if len(lg) == 1:
                    rest = from_factors({x: y for x, y in m.items if x is not lg[0][0]}, c)
                    extra.append(pow_(lg[0][0].args[1][0], rest))
                else:
                    keep[m] = c
            ke = mkE(keep)
            if ke.terms:
                out[a] = _nexp(ke)
        elif k == 'paren':
            if not isinstance(e, E) and e.denominator == 1 and e >= 1 and len(a.args[0].terms) ** e <= 80:
                extra.append(_expand_pow(a.args[0], int(e)))
            elif isinstance(e, E) and e.terms.get(MONO1, 0) >= 1 and False:
                pass
            else:
                out[a] = e
        else:
            out[a] = e
    out = {a: e for a, e in out.items() if isinstance(e, E) or e != 0}
    r = mkE({_mkmono(out.items()): coef})
    for x in extra:
        r = mul(r, x)
    return r


def _expand_pow(b, n):
    r = ONE
    for _ in range(n):
        r = mul(r, b)
    return r


_mulcache = {}


def mul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    ca = a.const()
    if ca is not None:
        return scale(b, ca)
    cb = b.const()
    if cb is not None:
        return scale(a, cb)
    key = (a.uid, b.uid) if a.uid <= b.uid else (b.uid, a.uid)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > MULTERMS:
        if len(b.terms) > len(a.terms):
            a, b = b, a
        a = lump(a)
        if len(b.terms) > MULTERMS:
            b = lump(b)
    acc = {}
    for ma, c1 in a.terms.items():
        for mb, c2 in b.terms.items():
            d = dict(ma.items)
            for at, e in mb.items:
                if at in d:
                    d[at] = _eadd(d[at], e)
                else:
                    d[at] = e
            r = from_factors(d, c1 * c2)
            for m, c in r.terms.items():
                acc[m] = acc.get(m, 0) + c
    r = mkE(acc)
    r = bool_reduce(r)
    _mulcache[key] = r
    return r


def bool_reduce(e):
    """products of indicators that contradict or imply each other"""
    return e


def prod_list(lst):
    r = ONE
    for x in lst:
        r = mul(r, x)
    return r


def _factor_int(n):
    res = {}
    n = abs(n)
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            res[p] = res.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        res[n] = res.get(n, 0) + 1
    return res


def num_pow(c, e):
    """rational constant c to exponent e (Fraction or E)"""
    if isinstance(c, int):
        c = Fraction(c)
    if c == 0:
        if isinstance(e, E):
            return from_fn('pow0', (e,))    # 0**e : indicator of e == 0
        if e == 0:
            return ONE
        if e > 0:
            return ZERO
        return from_fn('inf', ())
    if not isinstance(e, E) and e.denominator == 1:
        return ex(c ** int(e))
    d = {}
    if c < 0:
        d[mkatom('num', -1)] = e
    for p, k in _factor_int(c.numerator).items():
        d[mkatom('num', p)] = _emul(k, e)
    for p, k in _factor_int(c.denominator).items():
        at = mkatom('num', p)
        d[at] = _eadd(d.get(at, 0), _emul(-k, e))
    return from_factors(d)


def is_pos_atom(a):
    if a.kind == 'num':
        return a.args[0] > 0
    if a.kind == 'sym' or a.kind == 'elem' or a.kind == 'var':
        return a.args[0] in POSITIVE
    if a is EATOM:
        return True
    if a.kind == 'fn' and a.args[0] in ('abs', 'fact', 'chol_diag'):
        return True
    return False


_powcache = {}


def pow_(b, e):
    """b ** e with e an E"""
    key = (b.uid, e.uid)
    r = _powcache.get(key)
    if r is None:
        r = _pow(b, e)
        _powcache[key] = r
    return r


def _pow(b, e):
    ee = _nexp(e)
    if not isinstance(ee, E):
        if ee == 0:
            return ONE
        if ee == 1:
            return b
    c = b.const()
    if c is not None:
        if c == 0 and isinstance(ee, E):
            lo = nonneg(e - 1)
            if lo:
                return ZERO
            if e.isint:
                return ind_eq(e)
        return num_pow(c, ee)
    if len(b.terms) == 1:
        (m, c), = b.terms.items()
        r = num_pow(c, ee) if c != 1 else ONE
        d = {}
        for a, x in m.items:
            nx = _emul(x, ee)
            if (not isinstance(ee, E) and ee.denominator != 1 and not isinstance(x, E) and x.denominator == 1
                    and x % 2 == 0 and not is_pos_atom(a) and a.kind not in BOOLK):
                a2 = from_fn('abs', (ex(a),))
                r = mul(r, from_factors({a2_: _emul(y, nx) for a2_, y in list(a2.terms)[0].items}))
                continue
            d[a] = _eadd(d.get(a, 0), nx)
        return mul(r, from_factors(d))
    # multi-term
    integer = (not isinstance(ee, E) and ee.denominator == 1) or (isinstance(ee, E) and ee.isint)
    if not isinstance(ee, E) and ee.denominator == 1 and 1 < ee and len(b.terms) ** ee <= 80:
        return _expand_pow(b, int(ee))
    # indicator decomposition: if base is Select-like leave as paren
    coef, mono, core = content(b, integer)
    r = num_pow(coef, ee) if coef != 1 else ONE
    if mono is not None:
        r = mul(r, pow_(ex(mono), e))
    at = mkatom('paren', core)
    return mul(r, from_factors({at: ee}))


def content(b, integer):
    """(rational content with sign, common monomial or None, core)"""
    from math import gcd
    terms = b.terms
    mono = None
    if integer:
        common = None
        for m in terms:
            dm = {a: e for a, e in m.items if not isinstance(e, E) and a.kind not in BOOLK}
            if common is None:
                common = dm
            else:
                common = {a: min(e, dm.get(a, 0)) for a, e in common.items()
                          if a in dm and ((e > 0) == (dm[a] > 0))} if True else None
                # for negative exponents take the most negative
        # negative exponents: clear the most negative power seen in any term
        negs = {}
        for m in terms:
            for a, e in m.items:
                if not isinstance(e, E) and e < 0 and a.kind not in BOOLK:
                    negs[a] = min(negs.get(a, 0), e)
        common = {a: e for a, e in (common or {}).items() if e > 0 and a not in negs}
        common.update(negs)
        if common:
            mono = _mkmono(common.items())
            inv = from_factors({a: -e for a, e in common.items()})
            b = mul(b, inv)
            terms = b.terms
    g = 0
    l = 1
    for c in terms.values():
        c = Fraction(c)
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    k = Fraction(g, l)
    if integer:
        lead = min(terms, key=lambda m: m.dg())
        if terms[lead] < 0:
            k = -k
    if k != 1:
        b = scale(b, 1 / k)
    return _frac(k), mono, b


# ---------------------------------------------------------------- symbols


def sym(name, isint=False, positive=False):
    if positive:
        POSITIVE.add(name)
    return ex(mkatom('sym', name, isint=isint))


def dim(name, lo=1):
    DIMLO.setdefault(name, lo)
    POSITIVE.add(name)
    return ex(mkatom('var', name))


def set_dim(name, lo):
    if DIMLO.get(name) != lo:
        _nncache.clear()
    DIMLO[name] = lo
    return ex(mkatom('var', name))


def fresh(extent, hint='i'):
    name = '$%s%d' % (hint, next(_counter))
    if extent is not None:
        BOUNDS[name] = extent
    return mkatom('var', name)


def fresh_array(hint='A'):
    return '&%s%d' % (hint, next(_counter))


def elem(name, idx):
    idx = tuple(ex(i) for i in idx)
    if name in SYMARR and len(idx) >= 2:
        a, b = idx[-2], idx[-1]
        if b.dg() < a.dg():
            idx = idx[:-2] + (b, a)
    return ex(mkatom('elem', name, idx))


def unknown(reason):
    return ex(mkatom('unk', next(_counter), reason))


def exp_(e):
    return from_factors({EATOM: _nexp(e)})


def log_(e):
    c = e.const()
    if c is not None:
        if c == 1:
            return ZERO
        if c <= 0:
            return from_fn('log', (e,))
        out = ZERO
        f = {}
        for p, k in _factor_int(Fraction(c).numerator).items():
            f[p] = f.get(p, 0) + k
        for p, k in _factor_int(Fraction(c).denominator).items():
            f[p] = f.get(p, 0) - k
        for p, k in f.items():
            out = out + from_fn('log', (ex(p),)) * k
        return out
    if len(e.terms) == 1:
        (m, c), = e.terms.items()
        out = log_(ex(c)) if c > 0 else from_fn('log', (ex(c),))
        if len(m.items) == 1 and m.items[0][1] == 1 and c == 1:
            a = m.items[0][0]
            if a is EATOM:
                return ONE
            return from_fn('log', (e,))
        for a, x in m.items:
            if a is EATOM:
                out = out + ex(x)
            else:
                out = out + from_fn('log', (ex(a),)) * ex(x)
        return out
    k, mono, core = content(e, True)
    if k > 0 and (mono is not None or k != 1):
        out = log_(ex(k)) + from_fn('log', (core,))
        if mono is not None:
            out = out + log_(ex(mono))
        return out
    return from_fn('log', (e,))


def from_fn(name, args, out=(), ders=()):
    return ex(mkatom('fn', name, tuple(args), tuple(out), tuple(ders)))


# ---------------------------------------------------------------- integer reasoning
_ages = {}


def _age(s):
    r = _ages.get(s)
    if r is None:
        if s[0] == '%':
            r = (1, -int(s[1:].split('.')[0]))
        else:
            r = (0, int(''.join(ch for ch in s if ch.isdigit()) or 0))
        _ages[s] = r
    return r


def lower_bound(e, depth=0):
    """a dims-only lower bound E of integer expression e or None"""
    if depth > 12:
        return None
    # pick newest bounded var
    vs = [v for v in e.fv if v in BOUNDS]
    if not vs:
        return e
    v = vs[0] if len(vs) == 1 else max(vs, key=_age)
    at = mkatom('var', v)
    lin, rest = linear_in(e, at)
    if lin is None:
        return None
    c = lin.const()
    if c is None:
        if nonneg(lin, depth + 1):
            return lower_bound(rest, depth + 1)
        if nonneg(neg(lin), depth + 1):
            return lower_bound(rest + lin * (BOUNDS[v] - 1), depth + 1)
        return None
    if c >= 0:
        return lower_bound(rest, depth + 1)
    return lower_bound(rest + lin * (BOUNDS[v] - 1), depth + 1)


def linear_in(e, at):
    """e = lin*at + rest with lin, rest free of at; (None, None) when not linear"""
    name = at.args[0]
    lin = {}
    rest = {}
    for m, c in e.terms.items():
        if name not in m.fv:
            rest[m] = c
            continue
        d = dict(m.items)
        if d.get(at) != 1:
            return None, None
        del d[at]
        mm = _mkmono(d.items())
        if name in mm.fv:
            return None, None
        lin[mm] = c
    return mkE(lin), mkE(rest)


def nonneg(e, depth=0):
    """prove e >= 0 (integers); False when unknown"""
    c = e.const()
    if c is not None:
        return c >= 0
    if depth == 0 and all(v[0] != '%' for v in e.fv):
        r = _nncache.get(e)
        if r is None:
            r = _nncache[e] = _nonneg(e, 0)
        return r
    return _nonneg(e, depth)


def _nonneg(e, depth):
    if not e.isint and not all(_vlike(m) for m in e.terms):
        return False
    lb = lower_bound(e, depth)
    if lb is None:
        return False
    # dims: shift d = lo + d'
    m = {}
    for v in lb.fv:
        if v in DIMLO and DIMLO[v]:
            m[v] = ex(mkatom('var', v)) + DIMLO[v]
    if m:
        lb = subst(lb, m)
    for mo, c in lb.terms.items():
        if not mo.items:
            if c < 0:
                return False
            continue
        if c < 0:
            return False
        for a, x in mo.items:
            if not _nonneg_atom(a):
                return False
            if isinstance(x, E) or x < 0:
                return False
    return True


def _vlike(m):
    return all(a.isint for a, e in m.items)


def _nonneg_atom(a):
    if a.kind == 'var':
        return a.args[0] in DIMLO or a.args[0] in BOUNDS
    if a.kind in BOOLK:
        return True
    if a.kind == 'elem':
        return ARRLO.get(a.args[0], -1) >= 0
    if a.kind == 'fn':
        return a.args[0] in ('fact', 'comb', 'abs', 'digit', 'fact2')
    if a.kind == 'sum':
        return all(_nonneg_atom(x) and not isinstance(y, E) for x, y in a.args[1].items)
    return False


def ind_lt0(e):
    """indicator of e < 0 for integer e"""
    c = e.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    if nonneg(e):
        return ZERO
    if nonneg(neg(e) - 1):
        return ONE
    from math import gcd, floor
    # divide by gcd of non-constant coefficients
    g = 0
    for m, cc in e.terms.items():
        if m.items:
            if Fraction(cc).denominator != 1:
                g = 1
                break
            g = gcd(g, int(cc))
    if g > 1:
        c0 = e.terms.get(MONO1, 0)
        # e = g*f + c0 < 0  <=> f <= floor((-c0-1)/g) <=> f - floor((-c0-1)/g) - 1 < 0
        f = scale(e - c0, Fraction(1, g))
        import math
        k = math.floor(Fraction(-c0 - 1, g)) if Fraction(c0).denominator == 1 else None
        if k is not None:
            e = f - k - 1
    nc = [m for m in e.terms if m.items]
    lead = min(nc, key=lambda m: m.dg())
    if e.terms[lead] < 0:
        # e < 0  <=> not (-e-1 < 0) ... e<0 <=> -e>=1 <=> not(-e-1 < 0)
        return ONE - ex(mkatom('lt', neg(e) - 1))
    return ex(mkatom('lt', e))


def ind_eq(e):
    """indicator of e == 0"""
    c = e.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if e.isint:
        if nonneg(e - 1) or nonneg(neg(e) - 1):
            return ZERO
        from math import gcd
        g = 0
        for m, cc in e.terms.items():
            if m.items:
                g = gcd(g, int(cc))
        c0 = e.terms.get(MONO1, 0)
        if g > 1:
            if c0 % g:
                return ZERO
            e = scale(e, Fraction(1, g))
        nc = [m for m in e.terms if m.items]
        lead = min(nc, key=lambda m: m.dg())
        if e.terms[lead] < 0:
            e = neg(e)
        return ex(mkatom('eq', e))
    k, mono, core = content(e, False)
    lead = min(core.terms, key=lambda m: m.dg())
    if core.terms[lead] < 0:
        core = neg(core)
    return ex(mkatom('req', core))


def real_lt0(e):
    """indicator of e < 0 for real e"""
    if e.isint:
        return ind_lt0(e)
    c = e.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    k, mono, core = content(e, False)
    lead = min(core.terms, key=lambda m: m.dg())
    if core.terms[lead] < 0:
        return ONE - ex(mkatom('rle', neg(core)))
    return ex(mkatom('rlt', core))


def cmp_(op, a, b):
    d = a - b
    if op == '<':
        return real_lt0(d)
    if op == '>':
        return real_lt0(neg(d))
    if op == '<=':
        return ONE - real_lt0(neg(d))
    if op == '>=':
        return ONE - real_lt0(d)
    if op == '==':
        return ind_eq(d)
    if op == '!=':
        return ONE - ind_eq(d)
    raise ValueError(op)


def select(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return mul(c, a) + mul(ONE - c, b)


def floor_(e):
    c = e.const()
    if c is not None:
        return ex(c.numerator // c.denominator)
    if e.isint:
        return e
    t = {}
    r = {}
    for m, cc in e.terms.items():
        if m.isint and m.items:
            fl = cc.numerator // cc.denominator
            fr = cc - fl
            if fl:
                t[m] = fl
            if fr:
                r[m] = fr
        else:
            if not m.items:
                fl = cc.numerator // cc.denominator
                t[m] = fl
                if cc - fl:
                    r[m] = cc - fl
            else:
                r[m] = cc
    whole, rest = mkE(t), mkE(r)
    rc = rest.const()
    if rc is not None:
        return whole
    return whole + from_fn('floor', (rest,))


def mod_(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return ex(ca - cb * ((Fraction(ca) / cb).__floor__()))
    if cb is not None and a.isint:
        t = {}
        for m, c in a.terms.items():
            r = c % cb
            if r:
                t[m] = r
        a2 = mkE(t)
        c2 = a2.const()
        if c2 is not None:
            return ex(c2)
        if nonneg(a2) and nonneg(b - 1 - a2):
            return a2
        return from_fn('mod', (a2, b))
    if nonneg(a) and nonneg(b - 1 - a):
        return a
    return from_fn('mod', (a, b))


# ---------------------------------------------------------------- lambdas
class Lam:
    """element function with shape: canonical index names %h.k"""
    __slots__ = ('shape', 'body', 'fv', 'h', 'uid', '_dg', 'unk', 'names')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('lam', *[s.dg() for s in self.shape], self.body.dg())
        return self._dg

    def open(self):
        vs = tuple(fresh(s) for s in self.shape)
        body = subst(self.body, {n: ex(v) for n, v in zip(self.names, vs)})
        return vs, body

    def at(self, idx):
        return subst(self.body, {n: ex(i) for n, i in zip(self.names, idx)})

    def __repr__(self):
        return show_lam(self)


def mklam(shape, vars_, body):
    shape = tuple(ex(s) for s in shape)
    h = max([body.h] + [s.h for s in shape]) + 1
    names = tuple('%%%d.%d' % (h, k) for k in range(len(vars_)))
    if all(v.args[0] == n for v, n in zip(vars_, names)):
        body2 = body
    else:
        body2 = subst(body, {v.args[0]: ex(mkatom('var', n)) for v, n in zip(vars_, names)})
    if body2.h >= h:
        h2 = body2.h + 1
        names2 = tuple('%%%d.%d' % (h2, k) for k in range(len(vars_)))
        body2 = subst(body2, {n: ex(mkatom('var', m)) for n, m in zip(names, names2)})
        names, h = names2, h2
    key = ('lam', shape, body2, names)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.shape, l.body, l.names, l.h = shape, body2, names, h
        fv = set(body2.fv) - set(names)
        for s in shape:
            fv |= s.fv
        l.fv = frozenset(fv)
        l.unk = body2.unk
        l.uid = next(_counter)
        l._dg = None
        _lams[key] = l
    return l


class FLam:
    """function of array parameters; canonical array names @h.k; outs: tuple of Lam"""
    __slots__ = ('shapes', 'names', 'outs', 'fv', 'h', 'uid', '_dg', 'unk')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('flam', _argdg(self.shapes), *[o.dg() for o in self.outs])
        return self._dg

    def __repr__(self):
        return '\\%s. %r' % (','.join(self.names), self.outs)


def mkflam(shapes, names, outs):
    shapes = tuple(tuple(ex(s) for s in sh) for sh in shapes)
    h = max([o.h for o in outs] + [s.h for sh in shapes for s in sh] + [0]) + 1
    new = tuple('@%d.%d' % (h, k) for k in range(len(names)))
    outs2 = tuple(subst(o, dict(zip(names, new))) for o in outs)
    hh = max([o.h for o in outs2] + [0])
    if hh >= h:
        h = hh + 1
        new2 = tuple('@%d.%d' % (h, k) for k in range(len(names)))
        outs2 = tuple(subst(o, dict(zip(new, new2))) for o in outs2)
        new = new2
    key = ('flam', shapes, new, outs2)
    l = _lams.get(key)
    if l is None:
        l = FLam()
        l.shapes, l.names, l.outs, l.h = shapes, new, outs2, h
        fv = set()
        for o in outs2:
            fv |= o.fv
        fv -= set(new)
        for sh in shapes:
            for s in sh:
                fv |= s.fv
        l.fv = frozenset(fv)
        l.unk = any(o.unk for o in outs2)
        l.uid = next(_counter)
        l._dg = None
        _lams[key] = l
    return l


class ScanDef:
    """recurrence: length, slots ((shape, init Lam, update Lam), ...) canonical carry names @h.k,
    canonical iteration variable %h.t"""
    __slots__ = ('length', 'names', 'tname', 'inits', 'updates', 'out', 'fv', 'h', 'uid', '_dg', 'unk')

    def dg(self):
        if self._dg is None:
            self._dg = _dig('scan', self.length.dg(), *[x.dg() for x in self.inits],
                            *[x.dg() for x in self.updates], self.out.dg())
        return self._dg


def _mkscandef(length, names, tname, inits, updates, out):
    h = max([x.h for x in inits] + [x.h for x in updates] + [out.h, length.h]) + 1
    for _ in range(3):
        new = tuple('@%d.%d' % (h, k) for k in range(len(names)))
        nt = '%%%d.t' % h
        m = dict(zip(names, new))
        m[tname] = ex(mkatom('var', nt))
        updates = tuple(subst(u, m) for u in updates)
        out = subst(out, m)
        names, tname = new, nt
        hh = max([x.h for x in updates] + [out.h])
        if hh < h:
            break
        h = hh + 1
    key = ('scan', length, names, tname, inits, updates, out)
    l = _lams.get(key)
    if l is None:
        l = ScanDef()
        l.length, l.names, l.tname, l.inits, l.updates, l.out, l.h = length, names, tname, inits, updates, out, h
        fv = set()
        for u in updates:
            fv |= u.fv
        fv |= out.fv
        fv -= set(names)
        fv.discard(tname)
        for i in inits:
            fv |= i.fv
        fv |= length.fv
        l.fv = frozenset(fv)
        l.unk = any(x.unk for x in inits + updates) or out.unk
        l.uid = next(_counter)
        l._dg = None
        _lams[key] = l
    return l


def scan_at(length, names, tvar, inits, updates, out, t, idx):
    """value at iteration t (carry-in of iteration t) of `out` (a Lam over carries `names` and tvar), at idx.

    names: tuple of carry array names; inits/updates: tuples of Lam (updates over names and tvar).
    """
    tname = tvar.args[0]
    # does out depend on carries?
    nm = set(names)
    if not (out.fv & nm):
        return subst(out, {tname: t}).at(idx)
    # prune unreachable carries
    need = set(out.fv & nm)
    work = list(need)
    idxof = {n: k for k, n in enumerate(names)}
    while work:
        n = work.pop()
        for x in updates[idxof[n]].fv & nm:
            if x not in need:
                need.add(x)
                work.append(x)
    keep = [k for k, n in enumerate(names) if n in need]
    # loop-invariant carries: update == itself
    inv = {}
    for k in keep:
        u = updates[k]
        vs, b = u.open()
        if b is elem(names[k], [ex(v) for v in vs]):
            inv[names[k]] = inits[k]
    if inv:
        m = {n: l for n, l in inv.items()}
        updates = tuple(subst(u, m) if k in keep and names[k] not in inv else u for k, u in enumerate(updates))
        out = subst(out, m)
        return scan_at(length, names, tvar, inits, updates, out, t, idx)
    c = ex(t).const()
    if c == 0:
        m = {names[k]: inits[k] for k in keep}
        o = subst(subst(out, m), {tname: ZERO})
        return o.at(idx)
    # additive accumulator: out is exactly carry element and update = carry + inc(no dependence on that carry)
    vs, b = out.open()
    if len(b.terms) >= 1:
        acc = ZERO
        rest = ZERO
        changed = False
        for m_, c_ in b.terms.items():
            done = False
            if len(m_.items) == 1 and m_.items[0][1] == 1 and m_.items[0][0].kind == 'elem' and \
                    m_.items[0][0].args[0] in nm:
                a = m_.items[0][0]
                n = a.args[0]
                k = idxof[n]
                uv, ub = updates[k].open()
                inc = ub - elem(n, [ex(v) for v in uv])
                if n not in inc.fv:
                    # value = init + sum_{s<t} inc(s)
                    ci = a.args[1]
                    mm = {v.args[0]: i for v, i in zip(uv, ci)}
                    inc_i = subst(inc, mm)
                    init_i = inits[k].at(ci)
                    s = fresh(t, 's')
                    inner = scan_at(length, names, tvar, inits, updates, mklam((), (), inc_i), ex(s), ())
                    acc = acc + scale(init_i + mk_sum(s, t, inner), c_)
                    done = True
                    changed = True
            if not done:
                rest = rest + mkE({m_: c_})
        if changed:
            acc = subst(acc, {v.args[0]: i for v, i in zip(vs, idx)})
            if rest.terms:
                acc = acc + scan_at(length, names, tvar, inits, updates, mklam(out.shape, vs, rest), t, idx)
            return acc
        # linear split: terms independent of carries
        if len(b.terms) > 1:
            indep = {m_: c_ for m_, c_ in b.terms.items() if not (m_.fv & nm)}
            if indep:
                dep = mkE({m_: c_ for m_, c_ in b.terms.items() if m_ not in indep})
                i0 = subst(subst(mkE(indep), {tname: t}), {v.args[0]: i for v, i in zip(vs, idx)})
                return i0 + scan_at(length, names, tvar, inits, updates, mklam(out.shape, vs, dep), t, idx)
    # instantiate idx into out, so that out is scalar (the carry element functions stay whole)
    # canonical ordering of slots by colour refinement
    outs = mklam((), (), subst(b, {v.args[0]: i for v, i in zip(vs, idx)}))
    colour = {names[k]: _dig('c0', inits[k].dg()) for k in keep}
    for _ in range(len(keep) + 1):
        new = {}
        for k in keep:
            m = {n: '#' + colour[n].hex() for n in colour}
            m[tname] = ex(mkatom('var', '#t'))
            new[names[k]] = _dig('c', colour[names[k]], subst(updates[k], m).dg())
        nparts = len(set(new.values()))
        stable = nparts == len(set(colour.values()))
        colour = new
        if stable:
            break
    # merge identical colours
    rep = {}
    order = []
    for n in sorted(colour, key=lambda x: (colour[x], idxof[x])):
        if colour[n] in rep:
            continue
        rep[colour[n]] = n
        order.append(n)
    m = {n: rep[colour[n]] for n in colour if rep[colour[n]] != n}
    ks = [idxof[n] for n in order]
    ups = tuple(subst(updates[k], m) if m else updates[k] for k in ks)
    ins = tuple(inits[k] for k in ks)
    outs = subst(outs, m) if m else outs
    # length only matters through t: drop it (value at iteration t)
    sd = _mkscandef(ZERO, tuple(order), tname, ins, ups, outs)
    return ex(mkatom('scan', sd, ex(t)))


# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    if not m:
        return x
    if x.fv.isdisjoint(m):
        return x
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, E):
        parts = []
        for mo, c in x.terms.items():
            if mo.fv.isdisjoint(m):
                parts.append(mkE({mo: c}))
            else:
                parts.append(scale(subst_mono(mo, m, memo), c))
        r = sum_list(parts)
    elif isinstance(x, Mono):
        r = subst_mono(x, m, memo)
    elif isinstance(x, Atom):
        r = subst_atom(x, m, memo)
    elif isinstance(x, (Lam, FLam)):
        r = _subst_lam(x, m, memo)
    elif isinstance(x, ScanDef):
        raise RuntimeError('scan def substituted via atom')
    else:
        raise TypeError(type(x))
    memo[x] = r
    return r


_lamcache = {}


def _subst_lam(x, m, memo):
    mm = {k: v for k, v in m.items() if k in x.fv}
    key = (x, frozenset(mm.items()))
    r = _lamcache.get(key)
    if r is not None:
        return r
    bad = False
    for v in mm.values():
        if isinstance(v, str):
            if v in x.names:
                bad = True
        elif not v.fv.isdisjoint(x.names):
            bad = True
    if isinstance(x, Lam):
        shape = tuple(subst(s, mm) for s in x.shape)
        if bad:
            vs, body = x.open()
            r = mklam(shape, vs, subst(body, mm))
        else:
            save = [BOUNDS.get(n) for n in x.names]
            for n, e in zip(x.names, shape):
                BOUNDS[n] = e
            try:
                r = mklam(shape, tuple(mkatom('var', n) for n in x.names), subst(x.body, mm))
            finally:
                for n, e in zip(x.names, save):
                    if e is None:
                        BOUNDS.pop(n, None)
                    else:
                        BOUNDS[n] = e
    else:
        shapes = tuple(tuple(subst(s, mm) for s in sh) for sh in x.shapes)
        nn = tuple(fresh_array('f') for _ in x.names)
        ren = dict(zip(x.names, nn))
        r = mkflam(shapes, nn, tuple(subst(subst(o, ren), mm) for o in x.outs))
    _lamcache[key] = r
    return r


def subst_mono(mo, m, memo):
    plain = {}
    r = None
    facs = []
    for a, e in mo.items:
        e2 = subst(e, m, memo) if isinstance(e, E) else e
        if a.fv.isdisjoint(m):
            if e2 is e:
                plain[a] = e
                continue
            a2 = ex(a)
        else:
            a2 = subst_atom(a, m, memo)
        facs.append((a2, e2))
    r = from_factors(plain)
    # evaluate indicator factors first: zero short-circuits
    facs.sort(key=lambda p: 0 if p[0].const() == 0 else 1)
    for a2, e2 in facs:
        if a2.const() == 0 and (isinstance(e2, E) is False and e2 > 0):
            return ZERO
        r = mul(r, pow_(a2, ex(e2)))
    return r


def subst_atom(a, m, memo=None):
    if a.fv.isdisjoint(m):
        return ex(a)
    if memo is not None:
        r = memo.get(a)
        if r is not None:
            return r
    r = _subst_atom(a, m, memo)
    if memo is not None:
        memo[a] = r
    return r


def _subst_atom(a, m, memo):
    k = a.kind
    if k == 'var':
        return m.get(a.args[0], ex(a))
    if k == 'elem':
        idx = tuple(subst(i, m, memo) for i in a.args[1])
        t = m.get(a.args[0])
        if t is None:
            return elem(a.args[0], idx)
        if isinstance(t, str):
            if t in SYMARR:
                return elem(t, idx)
            return ex(mkatom('elem', t, idx, isint=a.isint))
        if isinstance(t, Lam):
            return t.at(idx)
        vs, body = t
        return subst(body, {v.args[0]: i for v, i in zip(vs, idx)})
    if k == 'fn':
        name, args, out, ders = a.args
        if name == 'table' and not ders:
            i = subst(out[0], m, memo)
            if i.const() is not None:       # one cell is selected: the others need no substitution
                c = int(i.const())
                return subst(args[0 if c < 0 else min(c, len(args) - 1)], m, memo)
        args2 = tuple(_sub_any(x, m, memo) for x in args)
        out2 = tuple(_sub_any(x, m, memo) for x in out)
        ders2 = tuple(_sub_any(x, m, memo) for x in ders)
        return mkfn(name, args2, out2, ders2, isint=a.isint)
    if k == 'sum':
        bs, body = open_sum(a)
        e = subst(body, m)
        for v, ext in reversed(bs):
            e = mk_sum(v, subst(ext, m), e)
        return e
    if k == 'prod':
        v, ext, body = open_prod(a)
        return mk_prod(v, subst(ext, m, memo), subst(body, m))
    if k == 'paren':
        return subst(a.args[0], m, memo)
    if k == 'lt':
        return ind_lt0(subst(a.args[0], m, memo))
    if k in ('eq', 'req'):
        return ind_eq(subst(a.args[0], m, memo))
    if k == 'rlt':
        return real_lt0(subst(a.args[0], m, memo))
    if k == 'rle':
        return ONE - real_lt0(neg(subst(a.args[0], m, memo)))
    if k == 'bool':
        return ex(mkatom('bool', *[_sub_any(x, m, memo) for x in a.args]))
    if k == 'scan':
        mm = {q: v for q, v in m.items() if q in a.fv}
        key = (a, frozenset(mm.items()))
        r = _lamcache.get(key)
        if r is None:
            r = _lamcache[key] = _subst_scan(a, mm)
        return r
    raise RuntimeError(k)


def _subst_scan(a, m):
        memo = None
        sd, t = a.args
        nn = tuple(fresh_array('c') for _ in sd.names)
        tv = fresh(None, 't')
        mm = dict(zip(sd.names, nn))
        mm[sd.tname] = ex(tv)
        ups = tuple(subst(subst(u, mm), m) for u in sd.updates)
        out = subst(subst(sd.out, mm), m)
        ins = tuple(subst(i, m) for i in sd.inits)
        return scan_at(sd.length, nn, tv, ins, ups, out, subst(t, m, memo), ())


def _sub_any(x, m, memo):
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m, memo) for y in x)
    if isinstance(x, (E, Lam, FLam, Mono)):
        return subst(x, m, memo)
    return x


def mkfn(name, args, out=(), ders=(), isint=None):
    """smart constructor used after substitution"""
    if not out and not ders:
        if name == 'log':
            return log_(args[0])
        if name == 'floor':
            return floor_(args[0])
        if name == 'mod':
            return mod_(args[0], args[1])
        if name == 'abs':
            return abs_(args[0])
        if name == 'pow0':
            return pow_(ZERO, args[0])
        if name == 'fact':
            return fact_(args[0])
        if name == 'comb':
            return comb_(args[0], args[1])
        if name in UNARY:
            return unary(name, args[0])
    if name == 'select':
        return select(args[0], args[1], args[2])
    if name in SMART:
        return SMART[name](args, out, ders)
    if ders:
        ders = tuple(sorted(ders, key=_argdg))
    if name in SYMFN and len(out) >= 2 and not ders:
        i, j = out[-2], out[-1]
        if j.dg() < i.dg():
            out = tuple(out[:-2]) + (j, i)
    return ex(mkatom('fn', name, tuple(args), tuple(out), tuple(ders), isint=isint))


SYMFN = set()      # uninterpreted functions whose output is symmetric in its last two indices
SMART = {}


def lump(e):
    """an opaque name for a large polynomial (identity function)"""
    if len(e.terms) <= 12:
        return e
    return ex(mkatom('fn', 'lump', (e,), (), (), isint=e.isint))


SMART['lump'] = lambda args, out, ders: lump(args[0])
UNARY = {'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'lgamma', 'erf', 'arctan', 'sign', 'round', 'conj', 'real',
         'imag', 'stop_gradient', 'isnan', 'isfinite', 'digamma'}


def unary(name, e):
    c = e.const()
    if c is not None:
        if name in ('sin', 'tan', 'tanh', 'sinh', 'erf', 'arctan', 'sign', 'imag') and c == 0:
            return ZERO
        if name in ('cos', 'cosh') and c == 0:
            return ONE
        if name in ('conj', 'real', 'stop_gradient', 'round') and name != 'round':
            return e
        if name == 'round' and Fraction(c).denominator == 1:
            return e
    return from_fn(name, (e,))


def abs_(e):
    c = e.const()
    if c is not None:
        return ex(abs(c))
    if len(e.terms) == 1:
        (m, c), = e.terms.items()
        if all(is_pos_atom(a) or (not isinstance(x, E) and x.denominator == 1 and x % 2 == 0) for a, x in m.items):
            return scale(e, 1 if c > 0 else -1)
        if c < 0:
            return from_fn('abs', (neg(e),))
        if c != 1:
            return scale(abs_(scale(e, Fraction(1) / c)), c)
    return from_fn('abs', (e,))


def fact_(e):
    c = e.const()
    if c is not None and Fraction(c).denominator == 1 and 0 <= c < 200:
        import math
        return ex(math.factorial(int(c)))
    return from_fn('fact', (e,))


def comb_(n, k):
    cn, ck = n.const(), k.const()
    import math
    if cn is not None and ck is not None and Fraction(cn).denominator == 1 and Fraction(ck).denominator == 1:
        if ck < 0 or cn < 0:
            return ZERO if cn >= 0 else from_fn('comb', (n, k))
        return ex(math.comb(int(cn), int(ck)))
    if ck == 0:
        return ONE
    if ck == 1:
        return n
    if n is k:
        return ONE
    if nonneg(n) and nonneg(k - n - 1):
        return ZERO
    if nonneg(k) and nonneg(n - k):
        # canonical symmetric form
        k2 = n - k
        for kk in (k, k2):
            if kk.const() is not None and kk.const() <= 8:      # polynomial in n
                r = ONE
                for j in range(int(kk.const())):
                    r = r * (n - ex(j)) / ex(j + 1)
                return r
        if (len(k2.terms), k2.dg()) < (len(k.terms), k.dg()):
            k = k2
    return from_fn('comb', (n, k))


# ---------------------------------------------------------------- sums
UNROLL = 6


def mk_sum(v, ext, body):
    """sum_{v=0}^{ext-1} body"""
    ext = ex(ext)
    name = v.args[0]
    if not body.terms:
        return ZERO
    if name not in body.fv:
        return mul(ext, body)
    c = ext.const()
    if c is not None and c <= UNROLL:
        if c <= 0:
            return ZERO
        return sum_list([subst(body, {name: ex(i)}) for i in range(int(c))])
    acc = []
    work = [(m, c) for m, c in body.terms.items()]
    while work:
        m, c = work.pop()
        if name not in m.fv:
            acc.append(scale(mul(ext, ex(m)), c))
            continue
        done = False
        for a, e in m.items:
            if name not in a.fv or isinstance(e, E):
                continue
            if a.kind == 'eq' and e == 1:
                lin, rest = linear_in(a.args[0], v)
                if lin is None:
                    continue
                lc = lin.const()
                if lc is None or abs(lc) != 1:
                    continue
                sol = scale(rest, -lc) if lc == 1 else rest
                sol = neg(rest) if lc == 1 else rest
                others = from_factors({x: y for x, y in m.items if x is not a}, c)
                val = subst(others, {name: sol})
                val = mul(val, ONE - ind_lt0(sol))
                val = mul(val, ind_lt0(sol - ext))
                acc.append(val)
                done = True
                break
            if a.kind == 'lt' and e == 1:
                lin, rest = linear_in(a.args[0], v)
                if lin is None:
                    continue
                lc = lin.const()
                if lc is None or abs(lc) != 1:
                    continue
                others = from_factors({x: y for x, y in m.items if x is not a}, c)
                if lc == 1:
                    # v < k, k = -rest
                    k = neg(rest)
                    if nonneg(ext - k) and nonneg(k):
                        v2 = fresh(k)
                        acc.append(mk_sum(v2, k, subst(others, {name: ex(v2)})))
                        done = True
                        break
                    if nonneg(k - ext):
                        acc.append(mk_sum(v, ext, others))
                        done = True
                        break
                    if nonneg(neg(k)):
                        done = True
                        break
                else:
                    # rest - v < 0  <=> v > rest = 1 - [v < rest+1]
                    t = others - mul(others, ind_lt0_raw(ex(v) - rest - 1))
                    for m2, c2 in t.terms.items():
                        work.append((m2, c2))
                    done = True
                    break
        if done:
            continue
        acc.append(scale(_sum_mono([(v, ext)], m), c))
    return sum_list(acc)


def ind_lt0_raw(e):
    """indicator of e<0 kept in the orientation given (used for v < k)"""
    c = e.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    if nonneg(e):
        return ZERO
    if nonneg(neg(e) - 1):
        return ONE
    return ex(mkatom('lt', e))


def _sum_mono(binders, m):
    """sum over binders of a monomial depending on them; flatten inner sums, split components"""
    bnames = {v.args[0] for v, _ in binders}
    factors = []   # (atom, exp)
    coef = ONE
    work = list(m.items)
    binders = list(binders)
    while work:
        a, e = work.pop()
        afv = a.fv | (e.fv if isinstance(e, E) else _EMPTY)
        if not (afv & bnames):
            coef = mul(coef, from_factors({a: e}))
            continue
        if a.kind == 'sum' and not isinstance(e, E) and e.denominator == 1 and 1 <= e <= 3 and len(binders) < 9:
            bs, body = open_sum(a)
            binders.extend(bs)
            bnames |= {v.args[0] for v, _ in bs}
            (m2, c2), = body.terms.items()
            coef = scale(coef, c2)
            work.extend(m2.items)
            if e > 1:
                work.append((a, e - 1))
            # previously pulled-out factors cannot depend on new binders
            continue
        factors.append((a, e))
    # merge equal atoms
    d = {}
    for a, e in factors:
        d[a] = _eadd(d[a], e) if a in d else e
    factors = list(d.items())
    # connected components over binders
    parent = {v.args[0]: v.args[0] for v, _ in binders}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for a, e in factors:
        s = [n for n in (a.fv | (e.fv if isinstance(e, E) else _EMPTY)) if n in parent]
        for n in s[1:]:
            parent[find(n)] = find(s[0])
    for v, ext in binders:
        for n in ext.fv:
            if n in parent:
                parent[find(n)] = find(v.args[0])
    comps = {}
    for v, ext in binders:
        comps.setdefault(find(v.args[0]), ([], []))[0].append((v, ext))
    for a, e in factors:
        s = [n for n in (a.fv | (e.fv if isinstance(e, E) else _EMPTY)) if n in parent]
        comps[find(s[0])][1].append((a, e))
    res = coef
    for bs, fs in comps.values():
        if not fs:
            r = ONE
            for v, ext in bs:
                r = mul(r, ext)
            res = mul(res, r)
        else:
            res = mul(res, _close_sum(bs, fs))
    return res


def _close_sum(bs, fs):
    """canonicalise a connected multi-index sum"""
    m = _mkmono(fs) if _is_simple(dict(fs)) else None
    body = from_factors(dict(fs))
    if len(body.terms) != 1:
        # expanded by reduction; redo termwise
        e = body
        for v, ext in bs:
            e = mk_sum(v, ext, e)
        return e
    n = len(bs)
    # colours
    generic = ex(mkatom('var', '#x'))
    mark = ex(mkatom('var', '#m'))
    if n == 1:
        order = [0]
        return _close_sum_order(bs, body, order)
    cols = []
    allg = {v.args[0]: generic for v, _ in bs}
    for k, (v, ext) in enumerate(bs):
        mm = dict(allg)
        mm[v.args[0]] = mark
        cols.append(_dig(_raw_subst_dg(body, mm), _raw_subst_dg(ext, mm)))
    for rnd in range(3):
        if len(set(cols)) == n:
            break
        new = []
        for k, (v, ext) in enumerate(bs):
            mm = {w.args[0]: ex(mkatom('var', '#c' + cols[q].hex())) for q, (w, _) in enumerate(bs)}
            mm[v.args[0]] = mark
            new.append(_dig(cols[k], _raw_subst_dg(body, mm), _raw_subst_dg(ext, mm)))
        if len(set(new)) == len(set(cols)):
            cols = new
            break
        cols = new
    groups = {}
    for k, c in enumerate(cols):
        groups.setdefault(c, []).append(k)
    keys = sorted(groups)
    perms = [[]]
    for c in keys:
        g = groups[c]
        ps = list(itertools.permutations(g)) if len(g) <= 4 else [tuple(g)]
        perms = [p + list(q) for p in perms for q in ps]
        if len(perms) > 200:
            perms = perms[:200]
    best = None
    for p in perms:
        r = _close_sum_order(bs, body, p)
        k = r.dg()
        if best is None or k < best[0]:
            best = (k, r)
    return best[1]


_rawcache = {}


def _raw_subst_dg(x, m):
    return subst(x, m).dg()


def _close_sum_order(bs, body, order):
    exts = [bs[k][1] for k in order]
    h = max([body.h] + [e.h for e in exts]) + 1
    for _ in range(3):
        names = ['%%%d.%d' % (h, i) for i in range(len(order))]
        m = {bs[k][0].args[0]: ex(mkatom('var', names[i])) for i, k in enumerate(order)}
        b2 = subst(body, m)
        e2 = tuple(subst(e, m) for e in exts)
        hh = max([b2.h] + [e.h for e in e2])
        if hh < h:
            break
        h = hh + 1
    if len(b2.terms) != 1:
        # a comparison changed orientation under the new names: sum term by term
        r = ZERO
        for mo, c in b2.terms.items():
            keep = [(n, e) for n, e in zip(names, e2) if n in mo.fv or any(n in q.fv for q in e2)]
            f = scale(_sum_atom([n for n, _ in keep], tuple(e for _, e in keep), mo, h) if keep else E_of(mo), c)
            for n, e in zip(names, e2):
                if not any(n == q for q, _ in keep):
                    f = mul(f, e)
            r = add(r, f)
        return r
    (mo, c), = b2.terms.items()
    return scale(_sum_atom(names, e2, mo, h), c)


def E_of(mo):
    return mkE({mo: 1})


def _sum_atom(names, e2, mo, h):
    # mkatom computes fv including bound names; build manually
    key = ('sum', (tuple(zip(names, e2)), mo))
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = 'sum', (tuple(zip(names, e2)), mo)
        fv = set(mo.fv)
        for e in e2:
            fv |= e.fv
        a.fv = frozenset(fv - set(names))
        a.h = h
        a.unk = mo.unk
        a.uid = next(_counter)
        a._dg = None
        a._e = None
        a.isint = mo.isint
        _atoms[key] = a
    return ex(a)


def open_sum(a):
    binders, mo = a.args
    m = {}
    bs = []
    for n, ext in binders:
        v = fresh(None)
        m[n] = ex(v)
        bs.append(v)
    out = []
    for (n, ext), v in zip(binders, bs):
        e2 = subst(ext, m)
        BOUNDS[v.args[0]] = e2
        out.append((v, e2))
    # dependent extents: order so that dependencies come first
    names = {v.args[0] for v, _ in out}
    res = []
    rest = list(out)
    while rest:
        for p in rest:
            if not any(q[0].args[0] in p[1].fv for q in rest if q is not p):
                res.append(p)
                rest.remove(p)
                break
        else:
            res.extend(rest)
            break
    return res, subst(ex(mo), m)


def mk_prod(v, ext, body):
    ext = ex(ext)
    name = v.args[0]
    if name not in body.fv:
        return pow_(body, ext)
    c = ext.const()
    if c is not None and c <= UNROLL:
        return prod_list([subst(body, {name: ex(i)}) for i in range(int(c))])
    if len(body.terms) == 1:
        (m, c), = body.terms.items()
        r = num_pow(c, _nexp(ext)) if c != 1 else ONE
        for a, e in m.items:
            if name not in a.fv and not (isinstance(e, E) and name in e.fv):
                r = mul(r, pow_(from_factors({a: e}), ext))
            elif not (isinstance(e, E) and name in e.fv):
                r = mul(r, pow_(_close_prod(v, ext, ex(a)), ex(e)))
            elif name not in a.fv:
                r = mul(r, pow_(ex(a), mk_sum(v, ext, e)))
            else:
                ec = content(e, False) if len(e.terms) > 1 else None
                # sign of exponent
                lead = min(e.terms, key=lambda mm: mm.dg())
                if e.terms[lead] < 0:
                    r = mul(r, pow_(_close_prod(v, ext, from_factors({a: neg(e)})), ex(-1)))
                else:
                    r = mul(r, _close_prod(v, ext, from_factors({a: e})))
        return r
    return _close_prod(v, ext, body)


def _close_prod(v, ext, body):
    h = max(body.h, ext.h) + 1
    for _ in range(3):
        n = '%%%d.0' % h
        b2 = subst(body, {v.args[0]: ex(mkatom('var', n))})
        if b2.h < h:
            break
        h = b2.h + 1
    key = ('prod', (n, b2, ext))
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = 'prod', (n, b2, ext)
        a.fv = frozenset((b2.fv - {n}) | ext.fv)
        a.h = h
        a.unk = b2.unk
        a.uid = next(_counter)
        a._e = None
        a._dg = None
        a.isint = b2.isint
        _atoms[key] = a
    return ex(a)


def open_prod(a):
    n, b, ext = a.args
    v = fresh(ext)
    return v, ext, subst(b, {n: ex(v)})


# ---------------------------------------------------------------- printing
def _sn(c):
    return str(c)


def subatoms(*roots):
    """all atoms below the given terms"""
    seen, out, todo = set(), [], list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, (E, Mono, Atom, Lam, FLam, ScanDef)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, E):
            todo.extend(x.terms)
        elif isinstance(x, Mono):
            for a, e in x.items:
                todo.append(a)
                todo.append(e)
        elif isinstance(x, Atom):
            out.append(x)
            todo.extend(x.args)
        elif isinstance(x, Lam):
            todo.append(x.body)
            todo.append(tuple(x.shape))
        elif isinstance(x, FLam):
            todo.extend(x.outs)
        else:
            todo.extend(x.inits)
            todo.extend(x.updates)
            todo.append(x.out)
            todo.append(x.length)
    return out


def show_atom(a, depth=0):
    k = a.kind
    if depth > 7:
        return '…'
    if k == 'var':
        return a.args[0]
    if k == 'sym':
        return a.args[0]
    if k == 'num':
        return '(%s)' % a.args[0]
    if k == 'elem':
        return '%s[%s]' % (a.args[0], ','.join(show(i, depth + 1) for i in a.args[1])) if a.args[1] else a.args[0]
    if k == 'fn':
        name, args, out, ders = a.args
        s = '%s(%s)' % (name, ', '.join(_show_any(x, depth + 1) for x in args))
        if ders:
            s = 'D%s' % (_show_any(ders, depth + 1)) + s
        if out:
            s += '[%s]' % ','.join(_show_any(i, depth + 1) for i in out)
        return s
    if k == 'sum':
        return 'Sum{%s}(%s)' % (', '.join('%s<%s' % (n, show(e, depth + 1)) for n, e in a.args[0]),
                                show_mono(a.args[1], depth + 1))
    if k == 'prod':
        return 'Prod{%s<%s}(%s)' % (a.args[0], show(a.args[2], depth + 1), show(a.args[1], depth + 1))
    if k == 'paren':
        return '(%s)' % show(a.args[0], depth + 1)
    if k == 'lt':
        return '[%s<0]' % show(a.args[0], depth + 1)
    if k == 'rlt':
        return '[%s<0]' % show(a.args[0], depth + 1)
    if k == 'rle':
        return '[%s<=0]' % show(a.args[0], depth + 1)
    if k in ('eq', 'req'):
        return '[%s==0]' % show(a.args[0], depth + 1)
    if k == 'unk':
        return '?{%s}' % a.args[1]
    if k == 'scan':
        sd, t = a.args
        return 'Rec{%s}@%s' % (show(sd.out.body, depth + 1), show(t, depth + 1))
    return '%s%r' % (k, a.args)


def _show_any(x, depth):
    if isinstance(x, E):
        return show(x, depth)
    if isinstance(x, Lam):
        return show_lam(x, depth)
    if isinstance(x, FLam):
        return '\\' + ','.join(x.names) + '.' + ','.join(show_lam(o, depth) for o in x.outs)
    if isinstance(x, tuple):
        return '(' + ','.join(_show_any(y, depth) for y in x) + ')'
    return str(x)


def show_lam(l, depth=0):
    return '\\%s.%s' % (','.join(l.names), show(l.body, depth)) if l.names else show(l.body, depth)


def show_mono(m, depth=0):
    if not m.items:
        return '1'
    out = []
    for a, e in m.items:
        s = show_atom(a, depth)
        if isinstance(e, E):
            s += '^(%s)' % show(e, depth + 1)
        elif e != 1:
            s += '^%s' % (e if Fraction(e).denominator == 1 and e > 0 else '(%s)' % e)
        out.append(s)
    return '*'.join(out)


def show(e, depth=0):
    if not e.terms:
        return '0'
    if depth > 8:
        return '…'
    out = []
    for m, c in list(e.terms.items())[:40]:
        if not m.items:
            out.append(str(c))
        elif c == 1:
            out.append(show_mono(m, depth))
        else:
            out.append('%s*%s' % (c, show_mono(m, depth)))
    if len(e.terms) > 40:
        out.append('…(%d terms)' % len(e.terms))
    return ' + '.join(out)


IATOM = mkatom('sym', 'I')
EATOM = mkatom('sym', 'e')
PIATOM = mkatom('sym', 'pi')
POSITIVE.update({'pi', 'e'})
PI = ex(PIATOM)
I = ex(IATOM)
