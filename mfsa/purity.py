"""Ownership / effect analysis over the syntax tree (property C24, and the host-randomness part of C17).

Every function of the package is interpreted abstractly: an expression evaluates to a set of origins
  ('param', i)   may be (a view or an element of) the i-th argument
  ('global', n)  may be the module-level object n
  ('free', n)    may be an object bound in an enclosing function
and no origin means a fresh or immutable object.  Mutating constructs on an expression with an origin are effects on that origin.
Summaries (mutated parameters, returned aliases) are propagated over the call graph to a fixpoint."""
import ast
import os

VIEW_FUNCS = {'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'transpose', 'broadcast_to', 'swapaxes', 'moveaxis',
              'expand_dims', 'diagonal', 'asanyarray', 'rollaxis', 'flip', 'fliplr', 'flipud', 'split', 'real', 'imag', 'ascontiguousarray', 'rot90'}
VIEW_METHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal', 'items', 'values', 'get', 'setdefault', '__getitem__'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'mT'}
MUTATORS = {'sort', 'fill', 'append', 'extend', 'insert', 'remove', 'clear', 'update', 'resize', 'put', 'itemset', 'partition', 'reverse',
            'add', 'discard', 'setflags', 'appendleft', 'popleft', 'pop', 'popitem', 'setdefault', '__setitem__', 'setfield', 'byteswap'}
VALUE_MUTATORS = {'pop', 'popitem', 'setdefault', 'popleft', 'appendleft', '__setitem__'}     # mutate even when the result is used
NP_MUTATORS = {'fill_diagonal', 'put', 'place', 'copyto', 'putmask', 'put_along_axis'}
SCALAR_ANN = {'int', 'float', 'bool', 'str', 'complex', 'JFloat', 'JInt', 'JBool', 'FloatScalar', 'Callable', 'None', 'IntScalar', 'Scalar', 'JNumber'}
HOST_STATE = ('numpy.random', 'random', 'secrets', 'time', 'datetime', 'uuid', 'os.environ', 'os.urandom', 'os.getenv', 'os.getpid', 'os.getcwd')
CONFIG = ('jax.config', 'numpy.seterr', 'numpy.random.seed', 'jax.experimental.enable_x64', 'sys.setrecursionlimit', 'os.putenv', 'warnings.filterwarnings', 'numpy.set_printoptions')
MEMO = ('functools.lru_cache', 'functools.cache', 'functools.cached_property', 'joblib.Memory')


class Fn:
    def __init__(self, node, mod, qual, outer, cls=None):
        self.node, self.mod, self.qual, self.outer, self.cls = node, mod, qual, outer, cls
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        self.npos = len(a.posonlyargs + a.args)
        self.star = a.vararg.arg if a.vararg else None
        self.ann = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        self.mut = {}           # origin -> (line, text)
        self.ret = set()        # origins of results
        self.nested = {}
        self.binds = {}         # name -> union of origins over the function (for closures)
        self.locals = set()
        self.escapes = set()    # nested functions that are returned


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.alias = {}         # local name -> dotted library or package path
        self.globals = {}
        self.funcs = {}
        self.classes = {}


def load(root, pkg='mfs'):
    mods = {}
    for d, _, fs in sorted(os.walk(os.path.join(root, pkg))):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                name = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p) as fh:
                    mods[name] = Mod(name, p, ast.parse(fh.read(), p))
    return mods


def bound_names(node):
    """names bound in the body of a function (not in nested functions)"""
    out = set()

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            visit(c)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        visit(ast.Module([s], []))
    return out


class Analysis:
    def __init__(self, root, pkg='mfs'):
        self.root = root
        self.mods = load(root, pkg)
        self.fns = {}
        self.findings = []
        self.reported = set()
        self.ncalls = sum(isinstance(n, ast.Call) for m in self.mods.values() for n in ast.walk(m.tree))
        for m in self.mods.values():
            self.index(m)
        order = list(self.fns.values())
        for _ in range(6):
            before = [(len(f.mut), len(f.ret)) for f in order]
            for f in order:
                self.run(f)
            if before == [(len(f.mut), len(f.ret)) for f in order]:
                break
        self.judge()

    # ---- indexing
    def index(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    m.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    pk = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (st.level - 1)]
                    base = '.'.join(pk + ([base] if base else []))
                for a in st.names:
                    m.alias[a.asname or a.name] = base + '.' + a.name
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.globals[n.id] = st
        self.collect(m, m.tree.body, m.name, None, None)

    def collect(self, m, body, qual, outer, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(st, m, qual + '.' + st.name, outer, cls)
                self.fns[f.qual if f.qual not in self.fns else f.qual + '#%d' % st.lineno] = f
                if outer is None and cls is None:
                    m.funcs[st.name] = f
                elif cls is not None:
                    m.classes.setdefault(cls, {})[st.name] = f
                else:
                    outer.nested[st.name] = f
                self.collect(m, st.body, f.qual, f, None)
            elif isinstance(st, ast.ClassDef):
                m.classes.setdefault(st.name, {})
                self.collect(m, st.body, qual + '.' + st.name, outer, st.name)
            else:
                for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                    v = getattr(st, fld, None)
                    if isinstance(v, list):
                        self.collect(m, [x for x in v if isinstance(x, ast.stmt)] + [y for x in v if isinstance(x, ast.ExceptHandler) for y in x.body], qual, outer, cls)

    # ---- resolution
    def dotted(self, f, e):
        """dotted library/package path of an expression, or None"""
        if isinstance(e, ast.Name):
            if self.is_local(f, e.id):
                return None
            return f.mod.alias.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(f, e.value)
            return b + '.' + e.attr if b else None
        return None

    def is_local(self, f, n):
        while f is not None:
            if n in f.locals or n in f.params:
                return True
            f = f.outer
        return False

    def callee(self, f, e):
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.nested:
                    return g.nested[e.id]
                if e.id in g.params:
                    return None
                g = g.outer
            if e.id in f.mod.funcs:
                return f.mod.funcs[e.id]
        d = self.dotted(f, e)
        if d and '.' in d:
            m, n = d.rsplit('.', 1)
            if m in self.mods and n in self.mods[m].funcs:
                return self.mods[m].funcs[n]
        return None

    # ---- expressions
    def org(self, f, e, env):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            if e.id in env:
                return set(env[e.id])
            g = f.outer
            while g is not None:
                if e.id in g.params or e.id in g.locals:
                    r = {('free', e.id, g.qual)}
                    for o in g.binds.get(e.id, ()):
                        if o[0] == 'param':
                            r.add(('outer', g.qual, o[1]))
                        else:
                            r.add(o)
                    return r
                g = g.outer
            if e.id in f.mod.globals:
                return {('global', f.mod.name + '.' + e.id)}
            if e.id in f.mod.funcs:
                return {('global', f.mod.name + '.' + e.id)}
            d = f.mod.alias.get(e.id)
            if d and '.' in d:
                m, n = d.rsplit('.', 1)
                if m in self.mods and (n in self.mods[m].globals or n in self.mods[m].funcs):
                    return {('global', d)}
            return set()
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'at':
                self.org(f, e.value.value, env)
                return set()
            self.visit(f, e.slice, env)
            return self.org(f, e.value, env)
        if isinstance(e, ast.Attribute):
            d = self.dotted(f, e)
            if d:
                m, n = d.rsplit('.', 1)
                if m in self.mods and n in self.mods[m].globals:
                    return {('global', d)}
                if d.startswith(HOST_STATE) and any(d == h or d.startswith(h + '.') for h in HOST_STATE):
                    self.effect(f, ('host', d), e, 'reads %s' % d)
                return set()
            if e.attr == 'at':
                return set()
            return self.org(f, e.value, env)
        if isinstance(e, ast.Starred):
            return self.org(f, e.value, env)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = set()
            for x in e.elts:
                r |= self.org(f, x, env)
            return {('elem',) + (o,) if o[0] != 'elem' else o for o in r}
        if isinstance(e, ast.Dict):
            r = set()
            for x in list(e.keys) + list(e.values):
                if x is not None:
                    r |= self.org(f, x, env)
            return {('elem', o) if o[0] != 'elem' else o for o in r}
        if isinstance(e, ast.IfExp):
            self.visit(f, e.test, env)
            return self.org(f, e.body, env) | self.org(f, e.orelse, env)
        if isinstance(e, ast.BoolOp):
            r = set()
            for x in e.values:
                r |= self.org(f, x, env)
            return r
        if isinstance(e, ast.NamedExpr):
            r = self.org(f, e.value, env)
            env[e.target.id] = r
            return r
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                self.bind(f, g.target, unelem(self.org(f, g.iter, env2)), env2, quiet=True)
                for c in g.ifs:
                    self.visit(f, c, env2)
            r = set()
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                r |= self.org(f, x, env2)
            return {('elem', o) if o[0] != 'elem' else o for o in r}
        if isinstance(e, ast.Lambda):
            env2 = dict(env)
            for a in e.args.args:
                env2[a.arg] = set()
            self.visit(f, e.body, env2)
            return set()
        self.visit(f, e, env)
        return set()

    def visit(self, f, e, env):
        """effects of sub-expressions of an expression whose value is fresh"""
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.org(f, c, env)
            elif isinstance(c, (ast.slice, ast.comprehension, ast.keyword)):
                self.visit(f, c, env)

    def call(self, f, e, env):
        d = self.dotted(f, e.func)
        args = [self.org(f, a, env) for a in e.args]
        kws = {k.arg: self.org(f, k.value, env) for k in e.keywords}
        if d:
            if any(d == h or d.startswith(h + '.') for h in HOST_STATE):
                self.effect(f, ('host', d), e, 'calls %s' % d)
            if any(d == h or d.startswith(h + '.') for h in CONFIG):
                self.effect(f, ('config', d), e, 'changes global settings by %s' % d)
            if any(d == h for h in MEMO) and e.args:
                self.effect(f, ('memo', ast.unparse(e.args[0])), e, 'memoises a function')
            top, last = d.split('.')[0], d.rsplit('.', 1)[-1]
            if top == 'numpy' or top == 'scipy':
                if 'out' in kws:
                    self.mutate(f, kws['out'], e, 'out= argument')
                if last in NP_MUTATORS and args:
                    self.mutate(f, args[0], e, 'numpy.' + last)
                if d in ('numpy.random.shuffle',) and args:
                    self.mutate(f, args[0], e, d)
                if last == 'array' or last == 'copy':
                    cp = [k.value for k in e.keywords if k.arg == 'copy']
                    if cp and isinstance(cp[0], ast.Constant) and not cp[0].value:
                        return set().union(*args[:1])
                    return set()
                if last == 'at' and d.split('.')[-2] in ('add', 'subtract', 'multiply', 'maximum', 'minimum') and args:
                    self.mutate(f, args[0], e, d)
                if last in VIEW_FUNCS and args:
                    return set(args[0])
                return set()
            if d in ('random.shuffle', 'heapq.heappush', 'heapq.heapify', 'heapq.heappop', 'bisect.insort') and args:
                self.mutate(f, args[0], e, d)
                return set()
        if isinstance(e.func, ast.Name) and not self.is_local(f, e.func.id):
            n = e.func.id
            if n in ('setattr', 'delattr') and args:
                self.mutate(f, args[0], e, n)
            if n == 'next' and args:
                self.mutate(f, {o for o in args[0] if o[0] in ('global', 'free')}, e, 'next')
            if n in ('zip', 'enumerate', 'reversed', 'iter', 'map', 'filter'):
                return {('elem', o) if o[0] != 'elem' else o for a in args for o in a}
            if n in ('list', 'tuple', 'sorted', 'set', 'dict'):
                return {('elem', o) if o[0] != 'elem' else o for a in args for o in a}
        if isinstance(e.func, ast.Attribute) and not d:
            base = self.org(f, e.func.value, env)
            if isinstance(e.func.value, ast.Subscript) and isinstance(e.func.value.value, ast.Attribute) and e.func.value.value.attr == 'at':
                return set()
            if e.func.attr in VALUE_MUTATORS or (e.func.attr in MUTATORS and getattr(e, '_stmt', False)):
                self.mutate(f, base, e, 'method .' + e.func.attr)
            if e.func.attr in ('append', 'add', 'insert', 'extend', 'update', 'setdefault', 'appendleft') and isinstance(e.func.value, ast.Name) and e.func.value.id in env:
                # the container now holds the arguments
                for a in args:
                    env[e.func.value.id] = set(env[e.func.value.id]) | {('elem', o) if o[0] != 'elem' else o for o in a}
            if e.func.attr in VIEW_METHODS:
                return base
            # method of the class
            return set()
        g = self.callee(f, e.func)
        if g is not None:
            r = set()
            shift = 0

            def arg_of(i):
                if i < len(args) and i < g.npos:
                    return args[i]
                nm = g.params[i] if i < len(g.params) else None
                if nm is not None and nm in kws:
                    return kws[nm]
                if nm is not None and nm == g.star:
                    return set().union(*args[g.npos:]) if len(args) > g.npos else set()
                return set()
            for o, (ln, tx, nd) in list(g.mut.items()):
                if o[0] == 'param':
                    self.mutate(f, arg_of(o[1]), e, '%s (through %s)' % (tx, g.qual), strict=nd)
                elif o[0] == 'outer' and o[1] == f.qual:
                    self.effect(f, ('param', o[2]), e, tx, nd)
                elif o[0] == 'outer':
                    self.effect(f, o, e, tx, nd)
            for o in g.ret:
                if o[0] == 'param':
                    r |= arg_of(o[1])
                elif o[0] == 'elem' and o[1][0] == 'param':
                    r |= {('elem', q) if q[0] != 'elem' else q for q in arg_of(o[1][1])}
                elif o[0] == 'outer' and o[1] == f.qual:
                    r.add(('param', o[2]))
                elif o[0] in ('global', 'outer'):
                    r.add(o)
            return r
        return set()

    # ---- effects
    def mutate(self, f, origins, node, text, strict=False):
        for o in origins:
            if o[0] == 'elem':
                continue            # a fresh container holding the object, not the object itself
            self.effect(f, o, node, text, strict)

    def effect(self, f, o, node, text, weak=False):
        if o in f.mut and not f.mut[o][2]:
            return
        f.mut[o] = (node.lineno, text, weak)

    def scalar_param(self, f, i):
        n = f.params[i]
        a = f.ann.get(n)
        if a is not None:
            names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(a) if isinstance(x, ast.Attribute)}
            names |= {'None'} if any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(a)) else set()
            names -= {'Union', 'Optional', 'typing'}
            return bool(names) and names <= SCALAR_ANN
        return False

    def array_param(self, f, i):
        n = f.params[i]
        a = f.ann.get(n)
        if a is None:
            return False
        t = ast.unparse(a)
        return any(w in t for w in ('Array', 'ndarray', 'Sequence', 'List', 'list', 'Dict', 'dict', 'Iterable'))

    # ---- statements
    def bind(self, f, t, o, env, quiet=False):
        if isinstance(t, ast.Name):
            env[t.id] = set(o)
            if not quiet:
                f.binds.setdefault(t.id, set()).update(o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(f, x, unelem(o), env, quiet)
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, o, env, quiet)
        elif isinstance(t, ast.Subscript):
            self.visit(f, t.slice, env)
            self.mutate(f, self.org(f, t.value, env), t, 'item assignment to %s' % ast.unparse(t.value)[:40])
            if isinstance(t.value, ast.Name) and t.value.id in env:
                env[t.value.id] = set(env[t.value.id]) | {('elem', q) if q[0] != 'elem' else q for q in o}
        elif isinstance(t, ast.Attribute):
            b = self.org(f, t.value, env)
            if f.cls and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0] and f.node.name in ('__init__', '__new__', '__post_init__'):
                return
            self.mutate(f, b, t, 'attribute assignment to %s' % ast.unparse(t)[:40])
            d = self.dotted(f, t)
            if d:
                self.effect(f, ('config', d), t, 'assigns %s' % d)

    def run(self, f):
        f.locals = bound_names(f.node)
        env = {p: {('param', i)} for i, p in enumerate(f.params)}
        for p in f.params:
            f.binds.setdefault(p, set()).update(env[p])
        for n in f.locals:
            if n not in env:
                env[n] = set()
        for d in getattr(f.node, 'decorator_list', []):
            q = d.func if isinstance(d, ast.Call) else d
            p = self.dotted(f, q) if not isinstance(q, ast.Name) else f.mod.alias.get(q.id)
            if p in MEMO:
                self.effect(f, ('memo', f.qual), f.node, 'memoised by %s' % p)
        self.block(f, f.node.body, env)

    def block(self, f, body, env):
        for st in body:
            self.stmt(f, st, env)

    def join(self, a, b):
        for k in set(a) | set(b):
            a[k] = set(a.get(k, ())) | set(b.get(k, ()))

    def stmt(self, f, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[st.name] = {('fn', st.name)}
            return
        if isinstance(st, ast.ClassDef):
            return
        if isinstance(st, ast.Assign):
            o = self.org(f, st.value, env)
            for t in st.targets:
                self.bind(f, t, o, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(f, st.target, self.org(f, st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            o = self.org(f, st.value, env)
            if isinstance(st.target, ast.Name):
                cur = self.org(f, ast.Name(st.target.id, ast.Load()), env)
                for q in cur:
                    if q[0] == 'param' and self.array_param(f, q[1]):
                        self.effect(f, q, st, 'in-place update of %s' % st.target.id)
                    elif q[0] == 'param' and not self.scalar_param(f, q[1]):
                        self.effect(f, q, st, 'in-place update of %s' % st.target.id, weak=True)
                    elif q[0] == 'global':
                        self.effect(f, q, st, 'in-place update of %s' % st.target.id)
            else:
                self.bind(f, st.target, o, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                o = self.org(f, st.value, env)
                f.ret |= {q for q in o if q[0] in ('param', 'global', 'outer', 'elem')}
                for n in ast.walk(st.value):
                    if isinstance(n, ast.Name) and n.id in f.nested:
                        f.escapes.add(n.id)
                    if isinstance(n, ast.Name):
                        for q in env.get(n.id, ()):
                            while q[0] == 'elem':
                                q = q[1]
                            if q[0] == 'fn':
                                f.escapes.add(q[1])
        elif isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Call):
                st.value._stmt = True
            self.org(f, st.value, env)
        elif isinstance(st, (ast.If,)):
            self.org(f, st.test, env)
            e1, e2 = dict(env), dict(env)
            self.block(f, st.body, e1)
            self.block(f, st.orelse, e2)
            t1, t2 = terminates(st.body), terminates(st.orelse)
            new = {}
            for e, t in ((e1, t1), (e2, t2)):
                if not t:
                    self.join(new, e)
            if t1 and t2:
                self.join(new, e1)
            env.clear()
            env.update(new)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            o = unelem(self.org(f, st.iter, env))
            for _ in range(2):
                e = dict(env)
                self.bind(f, st.target, o, e)
                self.block(f, st.body, e)
                self.join(env, e)
            self.block(f, st.orelse, env)
        elif isinstance(st, ast.While):
            for _ in range(2):
                self.org(f, st.test, env)
                e = dict(env)
                self.block(f, st.body, e)
                self.join(env, e)
            self.block(f, st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                o = self.org(f, i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(f, i.optional_vars, o, env)
            self.block(f, st.body, env)
        elif isinstance(st, ast.Try):
            e = dict(env)
            self.block(f, st.body, e)
            self.join(env, e)
            for h in st.handlers:
                e = dict(env)
                self.block(f, h.body, e)
                self.join(env, e)
            self.block(f, st.orelse, env)
            self.block(f, st.finalbody, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(f, self.org(f, t.value, env), st, 'del item')
                elif isinstance(t, ast.Attribute):
                    self.mutate(f, self.org(f, t.value, env), st, 'del attribute')
        elif isinstance(st, ast.Global):
            for n in st.names:
                if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                    self.effect(f, ('global', f.mod.name + '.' + n), st, 'assigns the global %s' % n)
        elif isinstance(st, ast.Nonlocal):
            for n in st.names:
                if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                    g = f.outer
                    while g is not None and n not in g.locals and n not in g.params:
                        g = g.outer
                    self.effect(f, ('free', n, g.qual if g else ''), st, 'assigns the enclosing variable %s' % n)
        elif isinstance(st, ast.Match):
            self.org(f, st.subject, env)
            for c in st.cases:
                e = dict(env)
                self.block(f, c.body, e)
                self.join(env, e)
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.org(f, c, env)

    # ---- verdicts
    def public(self, f):
        return f.outer is None and not (f.node.name.startswith('_') and not f.node.name.startswith('__'))

    def mutable_return(self, f):
        """may a result be a mutable host object (numpy array, list, dict)?"""
        ann = f.node.returns
        if ann is not None and ast.unparse(ann) in ('int', 'float', 'bool', 'str'):
            return False
        for r in ast.walk(f.node):
            if isinstance(r, ast.Return) and r.value is not None:
                v = r.value
                if isinstance(v, ast.Constant) or isinstance(v, ast.Compare):
                    continue
                if isinstance(v, ast.Call):
                    d = self.dotted(f, v.func) or ''
                    n = v.func.id if isinstance(v.func, ast.Name) else ''
                    if d.startswith('jax.') or d.startswith('math.') or n in ('int', 'float', 'len', 'sum', 'tuple', 'bool', 'str', 'frozenset'):
                        continue
                return True
        return False

    def add(self, f, kind, line, text):
        k = (f.qual, kind, line, text)
        if k not in self.reported:
            self.reported.add(k)
            self.findings.append(dict(function=f.qual, file=os.path.relpath(f.mod.path, self.root), line=line, kind=kind, text=text))

    def judge(self):
        for f in self.fns.values():
            for o, (ln, tx, weak) in f.mut.items():
                if o[0] == 'param':
                    d = f.defaults.get(f.params[o[1]])
                    if d is not None and not weak and not isinstance(d, (ast.Constant, ast.Tuple, ast.UnaryOp)) and not (isinstance(d, ast.Name)):
                        self.add(f, 'default', ln, 'mutates the shared default value of parameter %s: %s' % (f.params[o[1]], tx))
                    if not weak and (self.public(f) or (f.outer is not None and f.node.name in f.outer.escapes and not f.node.decorator_list)):
                        if f.cls and o[1] == 0 and f.params[0] in ('self', 'cls'):
                            self.add(f, 'state', ln, 'changes the state of its object: %s' % tx)
                        else:
                            self.add(f, 'argument', ln, 'modifies its argument %s: %s' % (f.params[o[1]], tx))
                elif o[0] == 'outer':
                    g = next((x for x in self.fns.values() if x.qual == o[1]), None)
                    if g is not None and self.public(g) and not weak:
                        self.add(g, 'argument', ln, 'modifies its argument %s in %s: %s' % (g.params[o[2]], f.qual, tx))
                elif o[0] == 'global':
                    self.add(f, 'global', ln, 'modifies the module-level object %s: %s' % (o[1], tx))
                elif o[0] == 'free':
                    g = next((x for x in self.fns.values() if x.qual == o[2]), None)
                    top = f
                    while top.outer is not None and top.outer is not g:
                        top = top.outer
                    if g is not None and (top.node.name in g.escapes):
                        self.add(f, 'closure', ln, 'keeps state between calls in the enclosing variable %s: %s' % (o[1], tx))
                elif o[0] == 'host':
                    self.add(f, 'random' if o[1].startswith(('numpy.random', 'random', 'secrets', 'os.urandom', 'uuid')) else 'ambient', ln, tx)
                elif o[0] == 'config':
                    self.add(f, 'config', ln, tx)
                elif o[0] == 'memo':
                    g = next((x for x in self.fns.values() if x.qual == o[1]), None)
                    if g is None:
                        g = f.mod.funcs.get(o[1]) or f.nested.get(o[1])
                    if g is not None and self.mutable_return(g):
                        self.add(f, 'memo', ln, 'memoised results are mutable objects shared between calls (%s)' % g.qual)
        # module level: memoising wrappers  g = lru_cache(f)
        for m in self.mods.values():
            for st in m.tree.body:
                for c in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else []:
                    if isinstance(c, ast.Call):
                        q = c.func.func if isinstance(c.func, ast.Call) else c.func
                        fake = Fn(ast.parse('def _m(): pass').body[0], m, m.name, None)
                        if self.dotted(fake, q) in MEMO and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id in m.funcs:
                            g = m.funcs[c.args[0].id]
                            if self.mutable_return(g):
                                self.add(g, 'memo', c.lineno, 'memoised results are mutable objects shared between calls')


def unelem(o):
    """elements of containers with these origins"""
    return {q[1] if q[0] == 'elem' else q for q in o}


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


if __name__ == '__main__':
    import sys
    A = Analysis(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for x in A.findings:
        print(x)
    print(len(A.fns), 'functions', sum(len(f.mut) for f in A.fns.values()))
    for f in A.fns.values():
        if f.mut:
            print(f.qual, f.mut)
