"""Front end: lowers Python/JAX source (by abstract interpretation of the AST) to the tensor IR."""
import ast
import os
from .values import *
from .expr import *
from . import expr as X
from . import ops


class Frame:
    __slots__ = ('locals', 'parent', 'module', 'func', 'globals_decl', 'nonlocal_decl')

    def __init__(self, parent, module, func):
        self.locals = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.frame = Frame(None, self, '<module>')
        self.tree = None


def _copy_container(v, memo):
    if isinstance(v, list):
        if id(v) in memo:
            return memo[id(v)]
        r = []
        memo[id(v)] = r
        r.extend(_copy_container(x, memo) for x in v)
        return r
    if isinstance(v, dict):
        if id(v) in memo:
            return memo[id(v)]
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = _copy_container(x, memo)
        return r
    if isinstance(v, Arr) and v.host == 'np':
        if id(v) in memo:
            return memo[id(v)]
        r = v.copy()
        memo[id(v)] = r
        return r
    return v


class Interp:
    MAXDEPTH = 60

    def __init__(self, root, opaque=None, extra_roots=()):
        self.root = root
        self.extra_roots = list(extra_roots)
        self.modules = {}
        self.opaque = opaque or {}
        self.events = []
        self.stack = []          # (Closure)
        self.loops = []          # enclosing symbolic iteration variables (name, extent)
        self.branch = []         # enclosing alternatives of conditionals
        self.functions_lowered = set()
        self.sites = {}
        self.calls_resolved = 0
        self.lib_used = set()
        self.raises = []         # (guard, etype, where)
        self.inplace_args = []
        self.node = None
        self.files = set()
        self.stopgrad_opaque = False
        self.unsupported = []

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        for root in [self.root] + self.extra_roots:
            p = os.path.join(root, *name.split('.'))
            if os.path.isfile(p + '.py'):
                return p + '.py'
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py')
            if os.path.isdir(p) and any(f.endswith('.py') for f in os.listdir(p)):
                return p
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            return None
        m = Module(name, path)
        self.modules[name] = m
        if os.path.isdir(path):
            return m
        with open(path) as f:
            src = f.read()
        self.files.add(path)
        m.tree = ast.parse(src, path)
        m.frame.locals['__name__'] = name
        self.exec_block(m.tree.body, m.frame)
        return m

    def load_source(self, name, src):
        m = Module(name, '<%s>' % name)
        self.modules[name] = m
        m.tree = ast.parse(src, name)
        self.exec_block(m.tree.body, m.frame)
        return m

    def get(self, qual):
        """resolve 'pkg.mod.name[.attr]'"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = self.load('.'.join(parts[:k]))
            if m is not None and not os.path.isdir(m.path):
                v = m.frame.locals.get(parts[k])
                if v is None:
                    return None
                for a in parts[k + 1:]:
                    v = self.getattr(v, a)
                return v
        return None

    def where(self):
        fn = self.stack[-1] if self.stack else None
        return (fn.qual if fn is not None else '<module>', getattr(self.node, 'lineno', None))

    def event(self, kind, **kw):
        q, line = self.where()
        kw.update(kind=kind, func=q, line=line, loops=tuple(self.loops), branch=tuple(self.branch),
                  stack=tuple(c.qual or c.name for c in self.stack))
        self.events.append(kw)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for i, st in enumerate(stmts):
            self.node = st
            sig = self.exec_stmt(st, frame)
            if sig is None:
                continue
            if sig[0] == 'part':
                rest = self.exec_block(stmts[i + 1:], frame)
                if rest is None:
                    return sig
                _, c, v = sig
                if rest[0] == 'ret':
                    return ('ret', self.merge(c, v, rest[1]))
                if rest[0] == 'part':
                    c2, v2 = rest[1], rest[2]
                    return ('part', c + (ONE - c) * c2, self.merge(c, v, v2))
                raise Unsupported('control flow after conditional return')
            return sig
        return None

    def exec_stmt(self, st, frame):
        meth = getattr(self, 's_' + type(st).__name__, None)
        if meth is None:
            raise Unsupported('statement %s' % type(st).__name__)
        try:
            return meth(st, frame)
        except Unsupported as e:
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.For, ast.FunctionDef,
                               ast.While, ast.With, ast.ClassDef)):
                self.unsupported.append((self.where(), str(e)))
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        frame.locals[n.id] = Unk(str(e))
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        frame.locals[n.value.id] = Unk(str(e))
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    frame.locals[st.name] = Unk(str(e))
                if isinstance(st, (ast.For, ast.While)):
                    for n in ast.walk(st):
                        if isinstance(n, ast.Return):
                            raise
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                                isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'extend', 'insert'):
                            frame.locals[n.func.value.id] = Unk(str(e))
                return None
            raise
        except TooBig:
            raise Unsupported('expression too large')

    def s_Pass(self, st, fr):
        return None

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, fr)

    def s_Return(self, st, fr):
        if st.value is None:
            return ('ret', None)
        try:
            return ('ret', self.eval(st.value, fr))
        except Unsupported as e:
            self.unsupported.append((self.where(), str(e)))
            if isinstance(st.value, ast.Tuple):
                out = []
                for x in st.value.elts:
                    try:
                        out.append(self.eval(x, fr))
                    except Unsupported as e2:
                        out.append(Unk(str(e2)))
                return ('ret', tuple(out))
            return ('ret', Unk(str(e)))

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        rhs = self.eval(st.value, fr)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            if isinstance(cur, list) and op == 'Add':
                cur.extend(self.iterate(rhs))
                return
            v = self.binop(op, cur, rhs)
            if isinstance(cur, Arr) and cur.host == 'np' and cur.shape and isinstance(v, Arr):
                self.inplace(cur, v)
                return
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            cur = self.getitem(base, idx)
            v = self.binop(op, cur, rhs)
            self.setitem(base, idx, v, t, fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            self.event('setattr', target=ast.unparse(t))
            cur = self.getattr(base, t.attr)
            self.setattr(base, t.attr, self.binop(op, cur, rhs))
        else:
            raise Unsupported('augassign target')

    def inplace(self, arr, new):
        if getattr(arr, 'view', None) is not None:
            raise Unsupported('in-place write through a view')
        self.event('inplace', arr=arr)
        new = ops.broadcast_to(new, arr.shape)
        arr.vars, arr.body = new.vars, new.body

    def s_If(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if c is True:
            return self.exec_block(st.body, fr)
        if c is False:
            return self.exec_block(st.orelse, fr)
        return self.gated(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr), fr)

    def gated(self, c, fa, fb, fr):
        save = fr.locals
        memo = {}
        la = {k: _copy_container(v, memo) for k, v in save.items()}
        memo2 = {}
        lb = {k: _copy_container(v, memo2) for k, v in save.items()}
        fr.locals = la
        ra = rb = None
        exca = excb = None
        try:
            ra = fa()
        except PyRaise as e:
            exca = e
        la = fr.locals
        fr.locals = lb
        try:
            rb = fb()
        except PyRaise as e:
            excb = e
        lb = fr.locals
        if exca and excb:
            fr.locals = save
            raise exca
        if exca:
            self.raises.append((c, exca.etype, exca.where))
            self._restore(fr, save, lb)
            return rb
        if excb:
            self.raises.append((ONE - c, excb.etype, excb.where))
            self._restore(fr, save, la)
            return ra
        for r in (ra, rb):
            if r is not None and r[0] in ('break', 'continue'):
                raise Unsupported('break/continue under symbolic condition')
        if ra is not None and ra[0] == 'ret' and rb is not None and rb[0] == 'ret':
            self._restore(fr, save, lb)
            return ('ret', self.merge(c, ra[1], rb[1]))
        if ra is None and rb is None:
            merged = {}
            for k in list(la) + [k for k in lb if k not in la]:
                if k in la and k in lb:
                    merged[k] = self.merge(c, la[k], lb[k])
                else:
                    merged[k] = la.get(k, lb.get(k))
            self._restore(fr, save, merged)
            return None
        if ra is not None and ra[0] == 'ret' and rb is None:
            self._restore(fr, save, lb)
            return ('part', c, ra[1])
        if rb is not None and rb[0] == 'ret' and ra is None:
            self._restore(fr, save, la)
            return ('part', ONE - c, rb[1])
        # partial returns inside
        def norm(r):
            if r is None:
                return ZERO, None
            if r[0] == 'ret':
                return ONE, r[1]
            return r[1], r[2]
        c1, v1 = norm(ra)
        c2, v2 = norm(rb)
        merged = {}
        for k in list(la) + [k for k in lb if k not in la]:
            if k in la and k in lb:
                merged[k] = self.merge(c, la[k], lb[k])
            else:
                merged[k] = la.get(k, lb.get(k))
        self._restore(fr, save, merged)
        cond = select(c, c1, c2)
        if c1 is ZERO:
            val = v2
        elif c2 is ZERO:
            val = v1
        else:
            val = self.merge(c, v1, v2)
        return ('part', cond, val)

    def _restore(self, fr, save, new):
        save.clear()
        save.update(new)
        fr.locals = save

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, E):
            k = c.const()
            if k is not None:
                return a if k else b
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if isinstance(a, (int, bool, Arr)) and isinstance(b, (int, bool, Arr)):
            x, y = ops.to_arr(a), ops.to_arr(b)
            if len(x.shape) == len(y.shape) and all(s is t for s, t in zip(x.shape, y.shape)):
                return self.post(ops.ew(lambda p, q: select(c, p, q), x, y, dt=ops.join_dt(x.dt, y.dt)))
            return Unk('merge of different shapes')
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, p, q) for p, q in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge(c, p, q) for p, q in zip(a, b)]
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            return Inst(a.cls, {k: self.merge(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, (str, type(None), ModuleV)) and a == b:
            return a
        if isinstance(a, (Closure, NativeFn, LibFn, BoundMethod)) and isinstance(b, (Closure, NativeFn, LibFn, BoundMethod)):
            def call(interp, args, kwargs):
                return interp.merge(c, interp.call(a, args, kwargs), interp.call(b, args, kwargs))
            return NativeFn(call, 'gated')
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return RangeV(select(c, a.start, b.start), select(c, a.stop, b.stop), select(c, a.step, b.step))
        return Unk('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    # ---- loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        items = self.concrete_items(it)
        if items is not None:
            if len(items) > 4000:
                raise Unsupported('loop too long')
            for x in items:
                self.assign(st.target, x, fr)
                sig = self.exec_block(st.body, fr)
                if sig is None or sig[0] == 'continue':
                    continue
                if sig[0] == 'break':
                    return None
                if sig[0] == 'ret':
                    return sig
                raise Unsupported('conditional return in loop')
            else:
                if st.orelse:
                    return self.exec_block(st.orelse, fr)
            return None
        return self.symbolic_for(st, it, fr)

    def symbolic_for(self, st, it, fr):
        n, getter = self.sym_iter(it)
        for nd in ast.walk(st):
            if isinstance(nd, (ast.Break, ast.Continue, ast.Return)):
                raise Unsupported('break/continue/return in symbolic loop')
        names = []
        for nd in ast.walk(st):
            nm = None
            if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store):
                nm = nd.id
            elif isinstance(nd, (ast.Assign, ast.AugAssign)):
                ts = nd.targets if isinstance(nd, ast.Assign) else [nd.target]
                for t in ts:
                    while isinstance(t, (ast.Subscript, ast.Attribute)):
                        t = t.value
                    if isinstance(t, ast.Name) and t.id not in names:
                        names.append(t.id)
            if nm and nm not in names:
                names.append(nm)
        tgt = {nd.id for nd in ast.walk(st.target) if isinstance(nd, ast.Name)}
        # names assigned in comprehensions are local to them
        comp = set()
        for nd in ast.walk(st):
            if isinstance(nd, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in nd.generators:
                    comp |= {q.id for q in ast.walk(g.target) if isinstance(q, ast.Name)}
            if isinstance(nd, ast.FunctionDef):
                for s2 in nd.body:
                    for q in ast.walk(s2):
                        if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                            comp.add(q.id)
        carried = [x for x in names if x in fr.locals and x not in tgt and not (x in comp and x not in fr.locals)]
        # lists appended to
        appended = []
        for nd in ast.walk(st):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr == 'append' \
                    and isinstance(nd.func.value, ast.Name) and isinstance(fr.locals.get(nd.func.value.id), list):
                if nd.func.value.id not in appended:
                    appended.append(nd.func.value.id)
        carried = [c for c in carried if not isinstance(fr.locals[c], (Closure, NativeFn, LibFn, ModuleV, str, type(None)))
                   or True]
        init = []
        cnames = []
        for cn in carried:
            v = fr.locals[cn]
            if cn in appended:
                continue
            if isinstance(v, (Closure, NativeFn)):
                raise Unsupported('function carried by a symbolic loop')
            init.append(v)
            cnames.append(cn)
        outer_lists = {a: fr.locals[a] for a in appended}
        loc_before = set(fr.locals)

        def body(carry, t):
            for cn, v in zip(cnames, carry):
                fr.locals[cn] = v
            recs = {}
            for a in appended:
                recs[a] = []
                fr.locals[a] = recs[a]
            self.assign(st.target, getter(t), fr)
            sig = self.exec_block(st.body, fr)
            if sig is not None:
                raise Unsupported('control flow in symbolic loop')
            ys = []
            for a in appended:
                if len(recs[a]) != 1:
                    raise Unsupported('append count in symbolic loop')
                ys.append(recs[a][0])
            return [fr.locals[cn] for cn in cnames], ys
        try:
            finals, ys = self.scan_generic(body, init, n)
        except Unsupported:
            for a in appended:
                fr.locals[a] = Unk('list built in unsupported loop')
            raise
        for cn, v in zip(cnames, finals):
            fr.locals[cn] = v
        for a, y in zip(appended, ys):
            var, val = y
            sl = SymList([(var, n)], val)
            base = outer_lists[a]
            fr.locals[a] = self.list_concat(base, sl) if base else sl
        for k in list(fr.locals):
            if k not in loc_before and k not in cnames:
                fr.locals[k] = Unk('value of loop-local %s after a symbolic loop' % k)
        return None

    def scan_generic(self, body, init, n, reverse=False):
        """body(carry_values, t:Var E) -> (new_values, ys values). Returns final values, ys as (var, value)"""
        leaves = []
        structs = []

        def flat(v):
            if isinstance(v, (int, bool)) and not isinstance(v, bool) or isinstance(v, bool):
                leaves.append(ops.to_arr(v))
                return ('leaf', len(leaves) - 1)
            if isinstance(v, Arr):
                leaves.append(v)
                return ('leaf', len(leaves) - 1)
            if isinstance(v, tuple):
                return ('tuple', [flat(x) for x in v])
            if isinstance(v, list):
                return ('list', [flat(x) for x in v])
            if isinstance(v, dict):
                return ('dict', {k: flat(x) for k, x in v.items()})
            if isinstance(v, Inst):
                return ('inst', v.cls, {k: flat(x) for k, x in v.fields.items()})
            if v is None or isinstance(v, (str, Closure, LibFn, NativeFn)):
                return ('static', v)
            raise Unsupported('loop carries %s' % (v if isinstance(v, Unk) else type(v).__name__))

        def unflat(s, lv):
            if s[0] == 'leaf':
                return lv[s[1]]
            if s[0] == 'tuple':
                return tuple(unflat(x, lv) for x in s[1])
            if s[0] == 'list':
                return [unflat(x, lv) for x in s[1]]
            if s[0] == 'dict':
                return {k: unflat(x, lv) for k, x in s[1].items()}
            if s[0] == 'inst':
                return Inst(s[1], {k: unflat(x, lv) for k, x in s[2].items()})
            return s[1]
        structs = [flat(v) for v in init]
        names = []
        carr = []
        for lf in leaves:
            nm = fresh_array('c')
            if lf.dt == 'i':
                X.INTARR.add(nm)
            names.append(nm)
            carr.append(mkarr(lf.shape, lambda *i, nm=nm: elem(nm, i), lf.dt, lf.host, True if lf.tr else False))
        t = fresh(n, 't')
        self.loops.append((t.args[0], n))
        ev0 = len(self.events)
        try:
            new, ys = body([unflat(s, carr) for s in structs], ex(t))
        finally:
            self.loops.pop()
        newleaves = [None] * len(leaves)

        def match(s, v):
            if s[0] == 'leaf':
                lf = leaves[s[1]]
                if isinstance(v, (int, bool)):
                    v = ops.to_arr(v)
                if not isinstance(v, Arr):
                    raise Unsupported('loop-carried value became %s' % (v if isinstance(v, Unk) else type(v).__name__))
                if len(v.shape) != len(lf.shape) or any(a is not b for a, b in zip(v.shape, lf.shape)):
                    raise Unsupported('loop-carried array changes shape')
                newleaves[s[1]] = v
            elif s[0] in ('tuple', 'list'):
                if not isinstance(v, (tuple, list)) or len(v) != len(s[1]):
                    raise Unsupported('loop-carried structure changes')
                for a, b in zip(s[1], v):
                    match(a, b)
            elif s[0] == 'dict':
                for k, a in s[1].items():
                    match(a, v[k])
            elif s[0] == 'inst':
                for k, a in s[2].items():
                    match(a, v.fields[k])
        for s, v in zip(structs, new):
            match(s, v)
        inits = tuple(lf.lam() for lf in leaves)
        ups = tuple(nl.lam() for nl in newleaves)
        names = tuple(names)
        for e in self.events[ev0:]:
            # close the keys consumed in the body over the loop
            if 'key' not in e or not any(q[0] == t.args[0] for q in e['loops']):
                continue
            q = fresh(n, 'q')
            K = e['key']
            vs = tuple(fresh(s) for s in K.shape)
            e['key'] = mklam(K.shape, vs, scan_at(n, names, t, inits, ups, K, ex(q), [ex(v) for v in vs]))
            e['loops'] = tuple((q.args[0], n) if w[0] == t.args[0] else w for w in e['loops'])
        finals = []
        for k, lf in enumerate(leaves):
            nm = names[k]
            tr = lf.tr or newleaves[k].tr
            dt = ops.join_dt(lf.dt, newleaves[k].dt)

            def f(*idx, nm=nm, lf=lf):
                vs = tuple(fresh(s) for s in lf.shape)
                out = mklam(lf.shape, vs, elem(nm, [ex(v) for v in vs]))
                return scan_at(n, names, t, inits, ups, out, n, idx)
            finals.append(mkarr(lf.shape, f, dt, lf.host, tr))
        fvals = [unflat(s, finals) for s in structs]

        p = fresh(n, 'p')
        tt = (n - 1 - ex(p)) if reverse else ex(p)

        def ymap(v):
            if isinstance(v, (int, bool)):
                return v
            if isinstance(v, Arr):
                if v.body.fv.isdisjoint(set(names) | {t.args[0]}):
                    return v
                vs = tuple(fresh(s) for s in v.shape)
                body_ = scan_at(n, names, t, inits, ups, v.lam(), tt, [ex(q) for q in vs])
                return Arr(v.shape, vs, body_, v.dt, v.host, v.tr)
            if isinstance(v, tuple):
                return tuple(ymap(x) for x in v)
            if isinstance(v, list):
                return [ymap(x) for x in v]
            if isinstance(v, dict):
                return {k: ymap(x) for k, x in v.items()}
            if isinstance(v, Inst):
                return Inst(v.cls, {k: ymap(x) for k, x in v.fields.items()})
            return v
        return fvals, [(p, ymap(y)) for y in ys]

    def counting_while(self, st):
        """`while c < N: ...; c += 1` as `for c in range(c, N): ...` (N fixed in the body), else None"""
        t = st.test
        if st.orelse or not st.body or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, b, op = t.left, t.comparators[0], type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        inc = st.body[-1]
        if op not in (ast.Lt, ast.LtE) or not isinstance(a, ast.Name):
            return None
        if isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name):
            v = inc.value
            if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add)):
                return None
            nm, parts = inc.targets[0].id, (v.left, v.right)
        elif isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name):
            nm, parts = inc.target.id, (inc.target, inc.value)
        else:
            return None
        if nm != a.id or not any(isinstance(x, ast.Constant) and x.value == 1 for x in parts) \
                or not any(isinstance(x, ast.Name) and x.id == nm for x in parts):
            return None
        fixed = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)} | {nm}
        for x in ast.walk(b):
            if not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.Attribute, ast.Subscript,
                                  ast.UnaryOp, ast.unaryop)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'):
                return None
        for s in st.body[:-1]:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in fixed:
                    return None
                if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.FunctionDef, ast.Lambda)):
                    return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                        and x.func.value.id in fixed and x.func.attr in ('append', 'pop', 'extend', 'insert', 'remove', 'clear'):
                    return None
        hi = b if op is ast.Lt else ast.BinOp(b, ast.Add(), ast.Constant(1))
        f = ast.For(target=ast.Name(nm, ast.Store()), iter=ast.Call(func=ast.Name('range', ast.Load()), args=[ast.Name(nm, ast.Load()), hi], keywords=[]),
                    body=st.body[:-1] or [ast.Pass()], orelse=[])
        return ast.fix_missing_locations(ast.copy_location(f, st))

    def s_While(self, st, fr):
        for _ in range(2000):
            c = self.truth(self.eval(st.test, fr))
            if c is False:
                return None
            if c is not True:
                loop = self.counting_while(st)
                if loop is not None:
                    hi = self.eval(loop.iter.args[1], fr)
                    r = self.s_For(loop, fr)
                    self.store(loop.target.id, hi, fr)
                    return r
                raise Unsupported('while with symbolic condition')
            sig = self.exec_block(st.body, fr)
            if sig is None or sig[0] == 'continue':
                continue
            if sig[0] == 'break':
                return None
            return sig
        raise Unsupported('while loop too long')

    def s_Break(self, st, fr):
        return ('break',)

    def s_Continue(self, st, fr):
        return ('continue',)

    def s_FunctionDef(self, st, fr):
        f = self.make_closure(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.call(dv, [v], {})
        self.store(st.name, v, fr)

    def make_closure(self, node, fr, name):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = self.eval(d, fr)
        c = Closure(node, fr, fr.module, name, defaults, kwd)
        base = fr.module.name
        outer = fr.func
        c.qual = base + ('.' + outer if outer != '<module>' else '') + '.' + name
        return c

    def s_ClassDef(self, st, fr):
        cls = ClassV(st.name, fr.module, fr.module.name + '.' + st.name)
        for b in st.bases:
            bn = ast.unparse(b)
            if bn.endswith('NamedTuple'):
                cls.kind = 'namedtuple'
        for d in st.decorator_list:
            if 'dataclass' in ast.unparse(d):
                cls.kind = 'namedtuple'
        cf = Frame(fr, fr.module, st.name)
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                cls.fields.append(s.target.id)
                if s.value is not None:
                    cls.defaults[s.target.id] = self.eval(s.value, fr)
            else:
                self.exec_stmt(s, cf)
        cls.attrs = cf.locals
        self.store(st.name, cls, fr)

    def s_Import(self, st, fr):
        for a in st.names:
            name = a.name
            m = self.load(name)
            if m is not None:
                if a.asname:
                    self.store(a.asname, m, fr)
                else:
                    self.store(name.split('.')[0], ModuleV(name.split('.')[0]), fr)
            else:
                if a.asname:
                    self.store(a.asname, ModuleV(name), fr)
                else:
                    self.store(name.split('.')[0], ModuleV(name.split('.')[0]), fr)

    def s_ImportFrom(self, st, fr):
        base = st.module or ''
        if st.level:
            pkg = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                pkg = pkg[:-1]
            if st.level > 1:
                pkg = pkg[:-(st.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        m = self.load(base)
        for a in st.names:
            nm = a.asname or a.name
            if m is not None:
                if a.name == '*':
                    for k, v in m.frame.locals.items():
                        if not k.startswith('_'):
                            self.store(k, v, fr)
                    continue
                if a.name in m.frame.locals:
                    self.store(nm, m.frame.locals[a.name], fr)
                    continue
                sub = self.load(base + '.' + a.name)
                if sub is not None:
                    self.store(nm, sub, fr)
                    continue
                self.store(nm, Unk('unresolved import %s.%s' % (base, a.name)), fr)
            else:
                self.store(nm, ops.lib_value(base + '.' + a.name), fr)

    def s_Raise(self, st, fr):
        et = 'Exception'
        if st.exc is not None:
            x = st.exc
            if isinstance(x, ast.Call):
                x = x.func
            et = ast.unparse(x)
        raise PyRaise(et, self.where())

    def s_Assert(self, st, fr):
        try:
            c = self.truth(self.eval(st.test, fr))
        except Unsupported:
            return None
        if c is False:
            raise PyRaise('AssertionError', self.where())
        if c is not True:
            self.raises.append((ONE - c, 'AssertionError', self.where()))

    def s_With(self, st, fr):
        for it in st.items:
            try:
                v = self.eval(it.context_expr, fr)
            except Unsupported:
                v = Unk('with')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(st.body, fr)

    def s_Try(self, st, fr):
        sig = None
        try:
            sig = self.exec_block(st.body, fr)
        except PyRaise as e:
            for h in st.handlers:
                sig = self.exec_block(h.body, fr)
                break
            else:
                raise
        if sig is None and st.orelse:
            sig = self.exec_block(st.orelse, fr)
        if st.finalbody:
            s2 = self.exec_block(st.finalbody, fr)
            sig = s2 or sig
        return sig

    def s_Global(self, st, fr):
        for n in st.names:
            fr.globals_decl.add(n)
            self.event('global_decl', name=n)

    def s_Nonlocal(self, st, fr):
        for n in st.names:
            fr.nonlocal_decl.add(n)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)

    # ------------------------------------------------------------ assignment
    def store(self, name, v, fr):
        if name in fr.globals_decl:
            self.event('global_write', name=name)
            fr.module.frame.locals[name] = v
            return
        if name in fr.nonlocal_decl:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    self.event('nonlocal_write', name=name)
                    p.locals[name] = v
                    return
                p = p.parent
        fr.locals[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Unk):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v, fr)
                return
            items = self.iterate(v)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise('ValueError', self.where())
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, list(items[k:len(items) - after]), fr)
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
            else:
                if len(items) != len(t.elts):
                    raise PyRaise('ValueError', self.where())
                for x, y in zip(t.elts, items):
                    self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            self.setitem(base, idx, v, t, fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            self.event('setattr', target=ast.unparse(t))
            self.setattr(base, t.attr, v)
        else:
            raise Unsupported('assignment target')

    def setattr(self, base, attr, v):
        if isinstance(base, Inst):
            base.fields[attr] = v
        elif isinstance(base, ClassV):
            base.attrs[attr] = v
        elif isinstance(base, NativeFn):
            base.attrs[attr] = v
        else:
            raise Unsupported('attribute assignment')

    def setitem(self, base, idx, v, t, fr):
        if isinstance(base, Unk):
            return
        if isinstance(base, list):
            if isinstance(idx, int):
                base[idx] = v
                return
            if isinstance(idx, slice) and isinstance(v, (list, tuple)) and \
                    all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                base[idx] = list(v)
                return
            if isinstance(idx, Arr) and idx.body.const() is not None:
                base[int(idx.body.const())] = v
                return
            if isinstance(idx, Arr) and not idx.shape and all(isinstance(x, (int, Arr)) for x in base):
                for k in range(len(base)):
                    c = ind_eq(idx.body - k)
                    base[k] = self.merge(c, v, base[k])
                return
            raise Unsupported('list store')
        if isinstance(base, dict):
            base[self.hashable(idx)] = v
            return
        if isinstance(base, SymList):
            if len(base.binders) == 1 and base.guard is ONE and isinstance(base.value, (int, Arr)):
                arr = ops.to_arr(base)
                new = ops.at_update(arr, idx, v, 'set')
                var = base.binders[0][0]
                base.value = self.post(ops.getitem(new, scalar(ex(var), 'i', 'py')))
                return
            raise Unsupported('symbolic list store')
        if isinstance(base, Arr):
            if base.host != 'np':
                raise PyRaise('TypeError', self.where())
            if base.view is not None:
                raise Unsupported('store through a view')
            self.event('inplace', arr=base)
            new = ops.at_update(base, idx, v, 'set')
            base.vars, base.body = new.vars, new.body
            base.tr = base.tr or new.tr
            return
        raise Unsupported('item store on %s' % type(base).__name__)

    def hashable(self, k):
        if isinstance(k, Arr):
            c = k.body.const()
            if not k.shape and c is not None:
                return c
            return ('arr', k.body.uid, tuple(s.uid for s in k.shape))
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, (int, str, bool, type(None))):
            return k
        raise Unsupported('dict key')

    # ------------------------------------------------------------ names
    BUILTINS = {'len', 'range', 'sum', 'zip', 'enumerate', 'list', 'tuple', 'int', 'float', 'bool', 'abs', 'min', 'max',
                'map', 'isinstance', 'print', 'str', 'reversed', 'sorted', 'dict', 'pow', 'round', 'any', 'all', 'set',
                'ValueError', 'NotImplementedError', 'TypeError', 'complex', 'type', 'getattr', 'hasattr', 'callable',
                'filter', 'next', 'iter', 'RuntimeError', 'Exception', 'slice', 'repr', 'staticmethod', 'classmethod',
                'property', 'divmod', 'id', 'KeyError', 'IndexError', 'super', 'object', 'AssertionError', 'hash',
                'ArithmeticError', 'frozenset', 'vars', 'globals', 'open', 'UserWarning', 'DeprecationWarning',
                'RuntimeWarning', 'StopIteration', 'AttributeError', 'FloatingPointError', 'ZeroDivisionError'}

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.locals and not (name in fr.globals_decl and f is fr):
                return f.locals[name]
            f = f.parent
        g = fr.module.frame.locals
        if name in g:
            return g[name]
        if name in self.BUILTINS:
            return LibFn('builtins.' + name)
        if name in ops.SPEC_BUILTINS:
            return LibFn('spec.' + name)
        raise Unsupported('unresolved name %s' % name)

    # ------------------------------------------------------------ expressions
    def eval(self, nd, fr):
        meth = getattr(self, 'e_' + type(nd).__name__, None)
        if meth is None:
            raise Unsupported('expression %s' % type(nd).__name__)
        if hasattr(nd, 'lineno'):
            self.node = nd
        return self.post(meth(nd, fr))

    def post(self, v):
        """Python-level integer constants stay Python ints"""
        if isinstance(v, Arr) and v.host == 'py' and not v.shape and v.dt == 'i':
            c = v.body.const()
            if c is not None and Fraction(c).denominator == 1:
                return int(c)
        if isinstance(v, Arr) and v.host == 'py' and not v.shape and v.dt == 'b':
            c = v.body.const()
            if c is not None:
                return bool(c)
        return v

    def e_Constant(self, nd, fr):
        v = nd.value
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            src = repr(v)
            if v in (float('inf'), float('-inf')) or v != v:
                return scalar(from_fn('inf', ()) if v > 0 else -from_fn('inf', ()), 'f', 'py')
            return scalar(ex(Fraction(src)), 'f', 'py')
        if isinstance(v, complex):
            return scalar(ex(Fraction(repr(v.real))) + I * ex(Fraction(repr(v.imag))), 'c', 'py')
        if v is Ellipsis:
            return ELL
        raise Unsupported('constant')

    def e_Name(self, nd, fr):
        return self.lookup(nd.id, fr)

    def e_Tuple(self, nd, fr):
        return tuple(self._elts(nd.elts, fr))

    def e_List(self, nd, fr):
        return list(self._elts(nd.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, nd, fr):
        return [self.eval(x, fr) for x in nd.elts]

    def e_Dict(self, nd, fr):
        d = {}
        for k, v in zip(nd.keys, nd.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.hashable(self.eval(k, fr))] = self.eval(v, fr)
        return d

    def e_JoinedStr(self, nd, fr):
        out = ''
        for v in nd.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                try:
                    x = self.eval(v.value, fr)
                except (Unsupported, PyRaise):
                    x = None
                if isinstance(x, (int, str)):
                    out += str(x)
                else:
                    out += '{…}'
        return out

    def e_Lambda(self, nd, fr):
        return self.make_closure(nd, fr, '<lambda>')

    def e_IfExp(self, nd, fr):
        c = self.truth(self.eval(nd.test, fr))
        if c is True:
            return self.eval(nd.body, fr)
        if c is False:
            return self.eval(nd.orelse, fr)
        try:
            a = self.eval(nd.body, fr)
        except PyRaise as e:
            self.raises.append((c, e.etype, e.where))
            return self.eval(nd.orelse, fr)
        b = self.eval(nd.orelse, fr)
        return self.merge(c, a, b)

    def e_UnaryOp(self, nd, fr):
        v = self.eval(nd.operand, fr)
        op = type(nd.op).__name__
        if op == 'Not':
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            return scalar(ONE - c, 'b', 'py', self.last_tr)
        if isinstance(v, Unk):
            raise Unsupported(v.reason)
        if op == 'USub':
            if isinstance(v, int):
                return -v
            return ops.ew(lambda x: -x, v, dt=None)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            return ops.ew(lambda x: ONE - x, v, dt='b')
        raise Unsupported(op)

    def e_BinOp(self, nd, fr):
        return self.binop(type(nd.op).__name__, self.eval(nd.left, fr), self.eval(nd.right, fr))

    def binop(self, op, a, b):
        return self.post(ops.binop(self, op, a, b))

    def e_BoolOp(self, nd, fr):
        isand = isinstance(nd.op, ast.And)
        acc = None
        tr = False
        for i, x in enumerate(nd.values):
            v = self.eval(x, fr)
            c = self.truth(v)
            tr = tr or self.last_tr
            if isinstance(c, bool):
                if isand and not c:
                    return v if acc is None else False
                if not isand and c:
                    return v if acc is None else True
                if i == len(nd.values) - 1 and acc is None:
                    return v
                continue
            if acc is None:
                acc = c
            else:
                acc = acc * c if isand else acc + c - acc * c
        if acc is None:
            return v
        return scalar(acc, 'b', 'py', tr)

    def e_Compare(self, nd, fr):
        left = self.eval(nd.left, fr)
        res = None
        for op, r in zip(nd.ops, nd.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            cb = c if isinstance(c, bool) else None
            if isinstance(c, Arr) and not c.shape and not c.tr and c.body.const() is not None:
                cb = bool(c.body.const())
            if cb is not None and (isinstance(nd.left, ast.Constant) or isinstance(r, ast.Constant)):
                k = nd.left if isinstance(nd.left, ast.Constant) else r
                if type(k.value) is int and k.value >= 2:
                    self.site(nd, k.value, cb)
            if res is None:
                res = c
            else:
                if res is True:
                    res = c
                elif res is False or c is False:
                    res = False
                elif c is True:
                    pass
                else:
                    res = self.post(ops.ew(lambda x, y: x * y, res, c, dt='b'))
            left = right
        return res

    def site(self, nd, k, outcome):
        """outcome of a comparison of a concrete size with a literal"""
        q = self.where()[0] or ''
        u = ast.unparse(nd)
        if not q.startswith('specs.') and 'ndim' not in u and '.shape)' not in u:         # ranks are not sizes
            self.sites.setdefault((q, u), (k, set()))[1].add(bool(outcome))

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, Unk) or isinstance(b, Unk):
                raise Unsupported('is on unknown')
            r = (a is b) or (a is None and b is None) or (isinstance(a, (bool, int, str)) and type(a) == type(b) and a == b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = None
            if isinstance(a, str) and isinstance(b, str):
                r = a in b
            elif isinstance(b, (tuple, list)):
                acc = False
                for x in b:
                    e = self.compare('Eq', a, x)
                    if e is True:
                        acc = True
                        break
                    if e is not False:
                        acc = self.post(ops.ew(lambda p, q: p + q - p * q, ops.to_arr(acc), e, dt='b'))
                r = acc
            elif isinstance(b, dict):
                r = self.hashable(a) in b
            if r is None:
                raise Unsupported('in')
            if op == 'NotIn':
                if isinstance(r, bool):
                    return not r
                return ops.ew(lambda x: ONE - x, r, dt='b')
            return r
        sym_ = {'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}[op]
        if isinstance(a, Unk) or isinstance(b, Unk):
            raise Unsupported('comparison with unknown')
        if not (ops.is_num(a) and ops.is_num(b)):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                if sym_ == '==':
                    return a == b if type(a) == type(b) else False
                if sym_ == '!=':
                    return a != b if type(a) == type(b) else True
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and sym_ in ('==', '!='):
                if len(a) != len(b):
                    return sym_ == '!='
                acc = True
                for x, y in zip(a, b):
                    e = self.compare('Eq', x, y)
                    if e is False:
                        acc = False
                        break
                    if e is not True:
                        acc = e if acc is True else ops.ew(lambda p, q: p * q, acc, e, dt='b')
                if isinstance(acc, bool):
                    return acc if sym_ == '==' else not acc
                return acc if sym_ == '==' else ops.ew(lambda p: ONE - p, acc, dt='b')
            raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
        return self.post(ops.ew(lambda x, y: cmp_(sym_, x, y), a, b, dt='b'))

    last_tr = False

    def truth(self, v):
        self.last_tr = False
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, Arr):
            if v.shape:
                n = ONE
                for s in v.shape:
                    n = n * s
                if n.const() != 1:
                    raise Unsupported('truth of array')
                v = scalar(v.at([0] * len(v.shape)), v.dt, v.host, v.tr)
            e = v.body if v.dt == 'b' else ONE - ind_eq(v.body)
            c = e.const()
            self.last_tr = v.tr
            if v.tr:
                self.event('branch_traced', cond=e)
            if c is not None:
                return bool(c)
            return e
        if isinstance(v, (Closure, NativeFn, LibFn, ModuleV, ClassV, Inst)):
            return True
        if isinstance(v, SymList):
            return True
        if isinstance(v, RangeV):
            return self.truth(scalar(v.length(), 'i', 'py'))
        raise Unsupported('truth of %s' % (v.reason if isinstance(v, Unk) else type(v).__name__))

    def e_Attribute(self, nd, fr):
        return self.getattr(self.eval(nd.value, fr), nd.attr)

    def getattr(self, v, attr):
        if isinstance(v, Module):
            if attr in v.frame.locals:
                return v.frame.locals[attr]
            sub = self.load(v.name + '.' + attr)
            if sub is not None:
                return sub
            raise Unsupported('module attribute %s.%s' % (v.name, attr))
        if isinstance(v, ModuleV):
            p = v.path + '.' + attr
            m = self.load(p) if p.split('.')[0] in ('mfs',) else None
            if m is not None:
                return m
            if v.path.split('.')[0] == 'mfs':
                mm = self.load(v.path)
                if mm is not None and attr in mm.frame.locals:
                    return mm.frame.locals[attr]
            return ops.lib_value(p)
        if isinstance(v, Unk):
            raise Unsupported(v.reason)
        if isinstance(v, Inst):
            if attr in v.fields:
                return v.fields[attr]
            if attr in v.cls.attrs:
                return self.bind_method(v.cls.attrs[attr], v, v.cls)
            if attr == '_replace':
                def rep(interp, args, kw, v=v):
                    f = dict(v.fields)
                    f.update(kw)
                    return Inst(v.cls, f)
                return NativeFn(rep, '_replace')
            if attr == '_asdict':
                return NativeFn(lambda it, a, k, v=v: dict(v.fields), '_asdict')
            raise Unsupported('attribute %s' % attr)
        if isinstance(v, ClassV):
            if attr in v.attrs:
                return self.bind_method(v.attrs[attr], None, v)
            if attr in v.defaults:
                return v.defaults[attr]
            if attr == '_make':
                def make(interp, args, kw, v=v):
                    return interp.call(v, list(interp.iterate(args[0])), {})
                return NativeFn(make, '_make')
            if attr == '_fields':
                return tuple(v.fields)
            raise Unsupported('class attribute %s' % attr)
        if isinstance(v, (Closure, NativeFn)) and attr in ('__name__', '__doc__'):
            return 'f'
        if isinstance(v, NativeFn) and attr in v.attrs:
            return v.attrs[attr]
        return ops.getattr_value(self, v, attr)

    def bind_method(self, m, inst, cls):
        if isinstance(m, tuple) and m and m[0] == 'staticmethod':
            return m[1]
        if isinstance(m, tuple) and m and m[0] == 'classmethod':
            return BoundMethod(m[1], cls)
        if isinstance(m, tuple) and m and m[0] == 'property':
            return self.call(m[1], [inst], {})
        if isinstance(m, (Closure, NativeFn)) and inst is not None:
            return BoundMethod(m, inst)
        return m

    def eval_index(self, nd, fr):
        if isinstance(nd, ast.Slice):
            return slice(self.eval(nd.lower, fr) if nd.lower else None,
                         self.eval(nd.upper, fr) if nd.upper else None,
                         self.eval(nd.step, fr) if nd.step else None)
        if isinstance(nd, ast.Tuple):
            out = []
            for x in nd.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.eval(x.value, fr)))
                else:
                    out.append(self.eval_index(x, fr))
            return tuple(out)
        return self.eval(nd, fr)

    def e_Subscript(self, nd, fr):
        base = self.eval(nd.value, fr)
        return self.getitem(base, self.eval_index(nd.slice, fr))

    def e_Slice(self, nd, fr):
        return self.eval_index(nd, fr)

    def getitem(self, base, idx):
        if isinstance(base, Unk):
            raise Unsupported(base.reason)
        if isinstance(base, (list, tuple)):
            if isinstance(idx, bool):
                idx = int(idx)
            if isinstance(idx, int):
                try:
                    return base[idx]
                except IndexError:
                    raise PyRaise('IndexError', self.where())
            if isinstance(idx, slice):
                b = []
                for x in (idx.start, idx.stop, idx.step):
                    if x is None or isinstance(x, int):
                        b.append(x)
                    elif isinstance(x, Arr) and x.body.const() is not None:
                        b.append(int(x.body.const()))
                    else:
                        raise Unsupported('symbolic slice of a list')
                return base[slice(*b)]
            if isinstance(idx, Arr) and not idx.shape:
                c = idx.body.const()
                if c is not None:
                    return base[int(c)]
                # symbolic index into a concrete list: gated selection
                if len(base) <= 12 and base:
                    e = idx.body
                    r = base[-1]
                    for k in range(len(base) - 2, -1, -1):
                        r = self.merge(ind_eq(e - k), base[k], r)
                    return r
            raise Unsupported('list index')
        if isinstance(base, dict):
            k = self.hashable(idx)
            if k in base:
                return base[k]
            raise PyRaise('KeyError', self.where())
        if isinstance(base, str):
            if isinstance(idx, int):
                return base[idx]
            if isinstance(idx, slice):
                return base[idx]
            raise Unsupported('string index')
        if isinstance(base, Inst):
            if isinstance(idx, int):
                return base.fields[base.cls.fields[idx]]
            if isinstance(idx, slice):
                return tuple(base.fields[k] for k in base.cls.fields)[idx]
        if isinstance(base, AtProxy):
            return AtRef(base.arr, idx)
        if isinstance(base, SymList):
            if len(base.binders) == 1 and base.guard is ONE:
                var, ext = base.binders[0]
                if isinstance(idx, slice):
                    st, ln, step = ops.slice_bounds(idx, ext)
                    v2 = fresh(ln)
                    return SymList([(v2, ln)], self.subst_value(base.value, {var.args[0]: st + step * ex(v2)}))
                if isinstance(idx, (int, Arr)):
                    e = ops.norm_index(idx, ext)
                    return self.post(self.subst_value(base.value, {var.args[0]: e}))
            raise Unsupported('index of symbolic list')
        if isinstance(base, RangeV):
            if isinstance(idx, (int, Arr)):
                return self.post(scalar(base.start + base.step * ops.norm_index(idx, base.length()), 'i', 'py'))
            raise Unsupported('slice of range')
        if isinstance(base, (ClassV, LibFn)):
            return base   # typing subscripts
        if isinstance(base, Arr):
            return self.post(ops.getitem(base, idx))
        raise Unsupported('subscript of %s' % type(base).__name__)

    def subst_value(self, v, m):
        if isinstance(v, Arr):
            if v.body.fv.isdisjoint(m) and all(s.fv.isdisjoint(m) for s in v.shape):
                return v
            return Arr([subst(s, m) for s in v.shape], v.vars, subst(v.body, m), v.dt, v.host, v.tr)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, m) for x in v)
        if isinstance(v, list):
            return [self.subst_value(x, m) for x in v]
        if isinstance(v, RangeV):
            return RangeV(subst(v.start, m), subst(v.stop, m), subst(v.step, m))
        if isinstance(v, SymList):
            return SymList([(a, subst(b, m)) for a, b in v.binders], self.subst_value(v.value, m), subst(v.guard, m))
        if isinstance(v, Inst):
            return Inst(v.cls, {k: self.subst_value(x, m) for k, x in v.fields.items()})
        if isinstance(v, Closure):
            names = set(m)

            def dep(val):
                if isinstance(val, Arr):
                    return not val.body.fv.isdisjoint(names)
                return False
            # closures capturing the binder: substitute in results
            def call(interp, args, kwargs, v=v):
                r = interp.call(v, args, kwargs)
                return interp.subst_value(r, m)
            return NativeFn(call, v.name)
        if isinstance(v, NativeFn):
            def call(interp, args, kwargs, v=v):
                return interp.subst_value(interp.call(v, args, kwargs), m)
            return NativeFn(call, v.name)
        return v

    # ---- comprehensions
    def e_ListComp(self, nd, fr):
        return self.comprehension(nd.generators, nd.elt, fr)

    def e_GeneratorExp(self, nd, fr):
        return self.comprehension(nd.generators, nd.elt, fr)

    def e_SetComp(self, nd, fr):
        return self.comprehension(nd.generators, nd.elt, fr)

    def e_DictComp(self, nd, fr):
        inner = Frame(fr, fr.module, fr.func)
        out = {}

        def rec(k):
            if k == len(nd.generators):
                out[self.hashable(self.eval(nd.key, inner))] = self.eval(nd.value, inner)
                return
            g = nd.generators[k]
            items = self.concrete_items(self.eval(g.iter, inner))
            if items is None:
                raise Unsupported('symbolic dict comprehension')
            for x in items:
                self.assign(g.target, x, inner)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, inner))
                    if t is False:
                        ok = False
                    elif t is not True:
                        raise Unsupported('symbolic filter')
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    def comprehension(self, gens, elt, fr):
        inner = Frame(fr, fr.module, fr.func)
        inner.globals_decl = fr.globals_decl

        def rec(k):
            """returns list of ('item', v) or a SymList"""
            if k == len(gens):
                return [self.eval(elt, inner)]
            g = gens[k]
            it = self.eval(g.iter, inner)
            items = self.concrete_items(it)
            if items is not None:
                out = []
                symbolic = False
                for x in items:
                    self.assign(g.target, x, inner)
                    guard = ONE
                    skip = False
                    for c in g.ifs:
                        t = self.truth(self.eval(c, inner))
                        if t is False:
                            skip = True
                            break
                        if t is not True:
                            guard = guard * t
                    if skip:
                        continue
                    r = rec(k + 1)
                    if guard is not ONE:
                        if isinstance(r, SymList):
                            r = SymList(r.binders, r.value, r.guard * guard)
                        else:
                            r = SymParts([SymList([], x_, guard) for x_ in r]) if len(r) != 1 else SymList([], r[0], guard)
                        symbolic = True
                    if isinstance(r, (SymList, SymParts)):
                        symbolic = True
                        out.append(r)
                    else:
                        out.extend(r)
                if symbolic:
                    parts = []
                    for o in out:
                        if isinstance(o, SymParts):
                            parts.extend(o.parts)
                        elif isinstance(o, SymList):
                            parts.append(o)
                        else:
                            parts.append(SymList([], o))
                    return parts[0] if len(parts) == 1 else SymParts(parts)
                return out
            n, getter = self.sym_iter(it)
            v = fresh(n)
            self.loops.append((v.args[0], n))
            try:
                self.assign(g.target, getter(ex(v)), inner)
                guard = ONE
                for c in g.ifs:
                    t = self.truth(self.eval(c, inner))
                    if t is False:
                        return []
                    if t is not True:
                        guard = guard * t
                r = rec(k + 1)
            finally:
                self.loops.pop()
            if isinstance(r, SymList):
                return SymList([(v, n)] + r.binders, r.value, r.guard * guard)
            if isinstance(r, SymParts):
                return SymParts([SymList([(v, n)] + p.binders, p.value, p.guard * guard) for p in r.parts])
            if len(r) == 1:
                return SymList([(v, n)], r[0], guard)
            raise Unsupported('comprehension shape')
        return rec(0)

    def concrete_items(self, it):
        """list of items when the iterable has a statically known length, else None"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, str):
            return list(it)
        if isinstance(it, RangeV):
            c = it.concrete()
            if c is not None:
                return c
            ln = it.length().const()
            if ln is not None and ln <= 64:
                return [self.post(scalar(it.start + it.step * k, 'i', 'py')) for k in range(int(ln))]
            return None
        if isinstance(it, Arr):
            if not it.shape:
                raise Unsupported('iteration over scalar')
            n = it.shape[0].const()
            if n is not None and n <= 64:
                return [self.post(ops.getitem(it, k)) for k in range(int(n))]
            return None
        if isinstance(it, SymList):
            return None
        if isinstance(it, SymParts):
            return None
        if isinstance(it, Inst):
            return [it.fields[k] for k in it.cls.fields]
        if isinstance(it, ZipV):
            ls = [self.concrete_items(x) for x in it.parts]
            if all(l is not None for l in ls):
                return list(zip(*ls))
            return None
        if isinstance(it, EnumV):
            l = self.concrete_items(it.inner)
            if l is not None:
                return [(it.start + k if isinstance(it.start, int) else self.binop('Add', it.start, k), x)
                        for k, x in enumerate(l)]
            return None
        if isinstance(it, RevV):
            l = self.concrete_items(it.inner)
            return l[::-1] if l is not None else None
        if isinstance(it, MapV):
            l = self.concrete_items(it.inner)
            if l is not None:
                return [self.call(it.fn, list(x) if it.multi else [x], {}) for x in l]
            return None
        if isinstance(it, Unk):
            raise Unsupported(it.reason)
        raise Unsupported('iteration over %s' % type(it).__name__)

    def iterate(self, it):
        l = self.concrete_items(it)
        if l is None:
            raise Unsupported('iteration of symbolic length where a fixed one is needed')
        return l

    def sym_iter(self, it):
        """(length E, getter(E)->value)"""
        if isinstance(it, RangeV):
            return it.length(), (lambda e: self.post(scalar(it.start + it.step * e, 'i', 'py')))
        if isinstance(it, Arr):
            return it.shape[0], (lambda e: self.post(ops.getitem(it, scalar(e, 'i', 'py'))))
        if isinstance(it, SymList):
            if len(it.binders) != 1 or it.guard is not ONE:
                raise Unsupported('iteration over nested symbolic list')
            var, ext = it.binders[0]
            return ext, (lambda e: self.post(self.subst_value(it.value, {var.args[0]: e})))
        if isinstance(it, (list, tuple)):
            def get(e, it=it):
                return self.getitem(it, scalar(e, 'i', 'py'))
            return ex(len(it)), get
        if isinstance(it, ZipV):
            parts = [self.sym_iter(x) for x in it.parts]
            n = None
            for p, _ in parts:
                if n is None or (n.const() is None and p.const() is None and p is n):
                    n = p
                elif p is not n:
                    if nonneg(n - p):
                        n = p
                    elif not nonneg(p - n):
                        raise Unsupported('zip of different symbolic lengths')
            return n, (lambda e: tuple(g(e) for _, g in parts))
        if isinstance(it, EnumV):
            n, g = self.sym_iter(it.inner)
            return n, (lambda e: (self.binop('Add', it.start, self.post(scalar(e, 'i', 'py'))), g(e)))
        if isinstance(it, RevV):
            n, g = self.sym_iter(it.inner)
            return n, (lambda e: g(n - 1 - e))
        if isinstance(it, MapV):
            n, g = self.sym_iter(it.inner)
            return n, (lambda e: self.call(it.fn, list(g(e)) if it.multi else [g(e)], {}))
        raise Unsupported('symbolic iteration over %s' % type(it).__name__)

    def list_concat(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return list(a) + list(b) if isinstance(a, list) else tuple(a) + tuple(b)
        na, ga = self.sym_iter(a)
        nb, gb = self.sym_iter(b)
        n = na + nb
        v = fresh(n)
        c = ind_lt0(ex(v) - na)
        ca, cb = None, None
        if isinstance(a, (list, tuple)) and len(a) == 0:
            return b
        if isinstance(b, (list, tuple)) and len(b) == 0:
            return a
        va = a[0] if isinstance(a, (list, tuple)) and len(a) == 1 else ga(ex(v))
        vb = b[0] if isinstance(b, (list, tuple)) and len(b) == 1 else gb(ex(v) - na)
        return SymList([(v, n)], self.merge(c, va, vb))

    def e_Starred(self, nd, fr):
        raise Unsupported('starred')

    def e_NamedExpr(self, nd, fr):
        v = self.eval(nd.value, fr)
        self.assign(nd.target, v, fr)
        return v

    # ---- calls
    def e_Call(self, nd, fr):
        if isinstance(nd.func, ast.Name) and nd.func.id in ('min', 'max') and len(nd.args) == 2:
            k = [q for q in nd.args if isinstance(q, ast.Constant) and type(q.value) is int and q.value >= 2]
            if k:
                v = self.e_call(nd, fr)
                if type(v) is int:
                    self.site(nd, k[0].value, v == k[0].value)
                return v
        return self.e_call(nd, fr)

    def e_call(self, nd, fr):
        f = self.eval(nd.func, fr)
        args = []
        for a in nd.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                items = self.concrete_items(v)
                if items is None:
                    args.append(StarSym(v))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in nd.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, dict):
                    kw.update(d)
                else:
                    raise Unsupported('** of non-dict')
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.node = nd
        return self.call(f, args, kw)

    def call(self, f, args, kwargs):
        self.calls_resolved += 1
        if isinstance(f, Unk):
            raise Unsupported(f.reason)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, NativeFn):
            return self.post(f.fn(self, list(args), dict(kwargs)))
        if isinstance(f, LibFn):
            self.lib_used.add(f.path)
            return self.post(ops.call_lib(self, f.path, list(args), dict(kwargs)))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Inst) and '__call__' in f.cls.attrs:
            return self.call(self.bind_method(f.cls.attrs['__call__'], f, f.cls), args, kwargs)
        raise Unsupported('call of %s' % type(f).__name__)

    def instantiate(self, cls, args, kwargs):
        q = self.opaque.get(cls.qual)
        if q is not None:
            return q(self, args, kwargs)
        if cls.kind == 'namedtuple':
            f = dict(zip(cls.fields, args))
            f.update(kwargs)
            for k in cls.fields:
                if k not in f:
                    if k in cls.defaults:
                        f[k] = cls.defaults[k]
                    else:
                        raise PyRaise('TypeError', self.where())
            return Inst(cls, {k: f[k] for k in cls.fields})
        inst = Inst(cls, {})
        if '__init__' in cls.attrs:
            self.call(self.bind_method(cls.attrs['__init__'], inst, cls), args, kwargs)
        return inst

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for x in args:
            if isinstance(x, StarSym):
                raise Unsupported('star-argument of symbolic length')
        for p, v in zip(params, args):
            out[p] = v
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise('TypeError', self.where())
            out[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in out and k in params:
                    raise PyRaise('TypeError', self.where())
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', self.where())
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            if p not in out:
                out[p] = d
        for p in kwonly:
            if p not in out:
                if p in f.kwdefaults:
                    out[p] = f.kwdefaults[p]
                else:
                    raise PyRaise('TypeError', self.where())
        for p in params:
            if p not in out:
                raise PyRaise('TypeError', self.where())
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        return out

    def call_closure(self, f, args, kwargs, bypass=False):
        bound = self.bind(f, args, kwargs)
        if not bypass:
            h = self.opaque.get(f.qual)
            if h is not None:
                return h(self, bound)
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('call depth')
        rec = sum(1 for c in self.stack if c.node is f.node)
        if rec >= 1 and any(isinstance(v, Arr) and v.body.const() is None and v.host == 'py' for v in bound.values()) \
                and rec >= 3:
            raise Unsupported('recursion on symbolic arguments')
        self.functions_lowered.add(f.qual)
        fr = Frame(f.frame, f.module, f.qual[len(f.module.name) + 1:] if f.qual else f.name)
        fr.locals.update(bound)
        self.stack.append(f)
        save = self.node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            for nd in ast.walk(f.node):
                if isinstance(nd, (ast.Yield, ast.YieldFrom)) and nd is not f.node:
                    raise Unsupported('generator function')
            sig = self.exec_block(f.node.body, fr)
            if sig is None:
                return None
            if sig[0] == 'ret':
                return sig[1]
            if sig[0] == 'part':
                return self.merge(sig[1], sig[2], None) if sig[2] is None else Unk('conditionally missing return')
            raise Unsupported('signal')
        finally:
            self.stack.pop()
            self.node = save

    # -- functions as lambdas over arrays
    def as_flam(self, f, shapes, dts=None):
        """apply callable to fresh array parameters; returns FLam and template value"""
        names = [fresh_array('u') for _ in shapes]
        args = [mkarr(sh, lambda *i, nm=nm: elem(nm, i), 'f', 'jnp', True) for sh, nm in zip(shapes, names)]
        r = self.call(f, args, {})
        return names, r


class SymParts:
    """concatenation of symbolic lists of unknown interleaving (order irrelevant uses only)"""
    def __init__(self, parts):
        self.parts = parts


class ZipV:
    def __init__(self, parts):
        self.parts = parts


class EnumV:
    def __init__(self, inner, start=0):
        self.inner, self.start = inner, start


class RevV:
    def __init__(self, inner):
        self.inner = inner


class MapV:
    def __init__(self, fn, inner, multi=False):
        self.fn, self.inner, self.multi = fn, inner, multi
