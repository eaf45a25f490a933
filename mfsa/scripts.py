"""Abstract interpreter for the experiment scripts, plots and notebooks (C27, C31).

The scripts are never run.  Values are abstract: text with tagged holes, small constants, sequences, function and class references, and
"unknown" -- each with the set of options / loop variables it depends on (its taint, data and control).  Reads and writes of result files,
calls into the library and their argument binding are recorded as events."""
import ast
import itertools
import os
import re

EXC_BUILTINS = {'ValueError', 'NotImplementedError', 'RuntimeError', 'TypeError', 'AssertionError', 'Exception', 'KeyError', 'IndexError'}


class Raised(Exception):
    pass


class GiveUp(Exception):
    pass


E0 = frozenset()


class V:
    __slots__ = ('k', 'v', 't', 'x')

    def __init__(self, k, v=None, t=E0, x=None):
        self.k, self.v, self.t, self.x = k, v, t, x

    def with_t(self, t):
        if t <= self.t:
            return self
        return V(self.k, self.v, self.t | t, self.x)

    def __repr__(self):
        return 'V(%s,%r,%s)' % (self.k, self.v, sorted(self.t))


def unk(t=E0):
    return V('u', None, frozenset(t), set())      # x: what later stores into this (possibly aliased) object


def const(c, t=E0, tag=None):
    """str constants carry parts [(text, tag)]"""
    if isinstance(c, str):
        return V('s', ((c, tag),) if c else (), t)
    if isinstance(c, (list, tuple)):
        return V('seq', tuple(const(e, t) for e in c), t, 'list' if isinstance(c, list) else 'tuple')
    if isinstance(c, dict):
        return V('dict', {k: const(e, t) for k, e in c.items()}, t)
    return V('c', c, t, tag)


def text(v):
    """concrete string or None"""
    if v.k == 's' and all(not (tag or '').startswith('hole') for _, tag in v.v):
        return ''.join(p for p, _ in v.v)
    return None


class Hole:
    """an integer of unknown value (loop variable)"""


def tostr(v):
    """parts of str(v)"""
    if v.k == 's':
        return v.v
    if v.k == 'c':
        return ((str(v.v), v.x),)
    if v.k == 'i':
        return (('', 'hole:int:' + str(v.v)),)
    if v.k == 'path' and isinstance(v.v, V) and v.v.k == 's':
        return v.v.v
    return (('', 'hole:any'),)


def alltaint(v, depth=0):
    if v.k == 'u':
        return v.t | v.x if v.x else v.t
    if v.k == 'seq':
        t = v.t
        for e in v.v:
            t = t | alltaint(e, depth + 1)
        return t
    if v.k == 'dict':
        t = v.t
        for e in v.v.values():
            t = t | alltaint(e, depth + 1)
        return t
    return v.t


def join(a, b):
    if a is b:
        return a
    if a is None or b is None:
        r = a or b
        return r
    t = a.t | b.t
    if a.k == b.k:
        if a.k in ('s', 'c', 'i', 'ext', 'mod') and a.v == b.v and type(a.v) is type(b.v):
            return V(a.k, a.v, t, a.x if a.x == b.x else None)
        if a.k == 'seq' and len(a.v) == len(b.v):
            return V('seq', tuple(join(x, y) for x, y in zip(a.v, b.v)), t, a.x)
        if a.k == 'dict' and set(a.v) == set(b.v):
            return V('dict', {k: join(a.v[k], b.v[k]) for k in a.v}, t)
        if a.k in ('fn', 'cls', 'args', 'parser', 'npz', 'wrap', 'meth') and a.v is b.v:
            return V(a.k, a.v, t, a.x)
        if a.k == 'inst' and a.v is b.v:
            return V('inst', a.v, t, a.x)
        if a.k == 'path':
            return V('path', join(a.v, b.v), t)
    if a.k == 's' and b.k == 's':
        return V('s', (('', 'hole:any'),), t)
    return unk(alltaint(a) | alltaint(b) | t)


def blur(v, t=E0):
    """an array-valued version of v: structure kept, numbers forgotten"""
    t = frozenset(t)
    if v.k == 'seq':
        return V('seq', tuple(blur(e, t) for e in v.v), v.t | t, v.x)
    if v.k in ('fn', 'wrap', 'cls', 'ext', 'mod', 'inst', 'meth'):
        return v.with_t(t)
    return unk(alltaint(v) | t)


class Fn:
    def __init__(self, node, scope, mod, name):
        self.node, self.scope, self.mod, self.name = node, scope, mod, name
        self.sigsafe = True
        self.bound = None
        self.defaults = {}

    @property
    def qual(self):
        return self.mod.name + '.' + self.name


class Cls:
    def __init__(self, node, scope, mod):
        self.node, self.scope, self.mod, self.name = node, scope, mod, node.name
        self.fields = []
        self.methods = {}
        self.kinds = {}
        self.attrs = {}
        self.known = True
        base = [ast.unparse(b) for b in node.bases]
        self.namedtuple = any(b.endswith('NamedTuple') for b in base)
        deco = [ast.unparse(d) for d in node.decorator_list]
        self.dataclass = any('dataclass' in d for d in deco)
        if (base and not self.namedtuple and base != ['object']) or (deco and not self.dataclass):
            self.known = False
        self.defaults = set()
        for s in node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append(s.target.id)
                if s.value is not None:
                    self.defaults.add(s.target.id)
            elif isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
                ds = [ast.unparse(d) for d in s.decorator_list]
                k = 'method'
                for d in ds:
                    if d in ('classmethod', 'staticmethod', 'property'):
                        k = d
                    elif 'property' in d:
                        k = 'property'
                self.kinds[s.name] = k
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        self.attrs[tg.id] = s.value
        self.selfattrs = set()
        for m in self.methods.values():
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    self.selfattrs.add(n.attr)


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.done = False


class Scope:
    def __init__(self, env, parent, fn=None):
        self.env, self.parent, self.fn = env, parent, fn
        self.globals = set()
        self.nonlocals = set()


MODSAFE = ('jax.jit', 'jax.checkpoint', 'jax.remat', 'jax.named_call', 'functools.lru_cache', 'functools.cache')
VMAP = ('jax.vmap', 'jax.pmap')
GRADS = ('jax.grad', 'jax.value_and_grad', 'jax.jacfwd', 'jax.jacrev', 'jax.hessian', 'jax.jacobian', 'jax.linearize')
LOADERS = {'numpy.load', 'jax.numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt'}
SAVERS = {'numpy.save': '.npy', 'jax.numpy.save': '.npy', 'numpy.savez': '.npz', 'numpy.savez_compressed': '.npz', 'jax.numpy.savez': '.npz',
          'numpy.savetxt': ''}


class Runner:
    """one abstract run of one script under one option assignment"""

    def __init__(self, repo, script, options, library=None, inline_lib=True, source=None, cwd=None):
        self.repo, self.script, self.options = repo, script, options
        self.cwd = cwd or os.path.dirname(script).split(os.sep)[0]
        self.reads, self.writes, self.issues, self.declared = [], [], [], {}
        self.args_used = {}
        self.calls = 0
        self.steps = 0
        self.mods = {}
        self.depth = 0
        self.unknown = 0          # nesting of unknown conditions
        self.ctl = [E0]           # control taint
        self.ever = E0            # taint of everything computed so far
        self.stack = []
        self.seen_issue = set()
        self.libcalls = set()
        self.inline_lib = inline_lib
        self.source = source
        self.memo = {}
        self.numcmp = set()       # (option, number): conditions of the script on its numeric options

    # ---- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        f = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(f):
            if os.path.isdir(p):
                m = Mod(name, p, ast.parse(''))
                m.done = True
                self.mods[name] = m
                return m
            return None
        with open(f) as h:
            m = Mod(name, f, ast.parse(h.read()))
        self.mods[name] = m
        sc = Scope(m.env, None)
        m.env['__name__'] = const(name)
        u, self.unknown = self.unknown, 0
        c, self.ctl = self.ctl, [E0]
        try:
            self.block(m.tree.body, sc, m)
        finally:
            self.unknown, self.ctl = u, c
        m.done = True
        return m

    def is_repo_mod(self, name):
        return name.split('.')[0] == 'mfs'

    def run(self):
        src = self.source
        if src is None:
            with open(os.path.join(self.repo, self.script)) as h:
                src = h.read()
        tree = ast.parse(src)
        m = Mod('__main__', os.path.join(self.repo, self.script), tree)
        self.mods['__main__'] = m
        m.env['__name__'] = const('__main__')
        sc = Scope(m.env, None)
        self.main_tree = tree
        if self.block(tree.body, sc, m) == 'raise':
            raise Raised(0)
        return self

    def issue(self, kind, node, mod, msg):
        if self.unknown and kind != 'arg':
            kind = kind + '?'
        key = (kind, mod.path, getattr(node, 'lineno', 0), msg)
        if key in self.seen_issue:
            return
        self.seen_issue.add(key)
        self.issues.append(dict(kind=kind, file=os.path.relpath(mod.path, self.repo), line=getattr(node, 'lineno', 0), text=msg,
                                inside=self.stack[-1] if self.stack else '<module>'))

    # ---- statements; status: next / break / continue / return / raise
    def block(self, body, sc, mod):
        for s in body:
            st = self.stmt(s, sc, mod)
            if st != 'next':
                return st
        return 'next'

    def ctl_t(self):
        return self.ctl[-1]

    def bind(self, sc, name, v):
        v = v.with_t(self.ctl_t())
        if name in sc.globals:
            s = sc
            while s.parent is not None:
                s = s.parent
            s.env[name] = v
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if name in s.env:
                    s.env[name] = v
                    return
                s = s.parent
        sc.env[name] = v

    def lookup(self, sc, name):
        s = sc
        while s is not None:
            if name in s.env:
                return s.env[name]
            s = s.parent
        return None

    def where_bound(self, sc, name):
        s = sc
        while s is not None:
            if name in s.env:
                return s
            s = s.parent
        return None

    def stmt(self, s, sc, mod):
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp('too many steps')
        k = type(s).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            return 'next'
        return f(s, sc, mod)

    def s_Import(self, s, sc, mod):
        for a in s.names:
            if self.is_repo_mod(a.name):
                m = self.load(a.name)
                if m is None:
                    self.issue('import', s, mod, 'module %s does not exist' % a.name)
                    continue
            if a.asname:
                self.bind(sc, a.asname, V('ext', a.name))
            else:
                self.bind(sc, a.name.split('.')[0], V('ext', a.name.split('.')[0]))
        return 'next'

    def s_ImportFrom(self, s, sc, mod):
        base = s.module or ''
        if s.level:
            pk = mod.name.split('.')
            isinit = mod.path.endswith('__init__.py')
            pk = pk[:len(pk) - s.level + (1 if isinit else 0)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if self.is_repo_mod(base):
                m = self.load(base)
                if m is None:
                    self.issue('import', s, mod, 'module %s does not exist' % base)
                    self.bind(sc, nm, unk())
                    continue
                if a.name == '*':
                    al = m.env.get('__all__')
                    names = [text(e) for e in al.v] if al is not None and al.k == 'seq' else [n for n in m.env if not n.startswith('_')]
                    for n in names:
                        if n in m.env:
                            self.bind(sc, n, m.env[n])
                        else:
                            self.issue('import', s, mod, '%s exports %s, which it does not define' % (base, n))
                    continue
                if a.name in m.env:
                    self.bind(sc, nm, m.env[a.name])
                elif self.load(base + '.' + a.name) is not None:
                    self.bind(sc, nm, V('mod', base + '.' + a.name))
                elif m.done:
                    self.issue('import', s, mod, '%s has no %s' % (base, a.name))
                    self.bind(sc, nm, unk())
                else:
                    self.bind(sc, nm, V('lazy', (base, a.name)))
            else:
                self.bind(sc, nm, V('ext', base + '.' + a.name))
        return 'next'

    def s_FunctionDef(self, s, sc, mod):
        fn = Fn(s, sc, mod, s.name)
        nd = len(s.args.defaults)
        al = s.args.posonlyargs + s.args.args
        for a, d in zip(al[len(al) - nd:] if nd else [], s.args.defaults):
            fn.defaults[a.arg] = self.ev(d, sc, mod)
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                fn.defaults[a.arg] = self.ev(d, sc, mod)
        v = V('fn', fn)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, sc, mod)
            v = self.apply(dv, [v], {}, d, sc, mod)
        self.bind(sc, s.name, v)
        return 'next'

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, sc, mod):
        self.bind(sc, s.name, V('cls', Cls(s, sc, mod)))
        return 'next'

    def s_Return(self, s, sc, mod):
        v = self.ev(s.value, sc, mod) if s.value is not None else const(None)
        sc.fn['ret'] = v.with_t(self.ctl_t()) if sc.fn.get('ret') is None else join(sc.fn['ret'], v.with_t(self.ctl_t()))
        return 'return'

    def s_Raise(self, s, sc, mod):
        if s.exc is not None:
            self.ev(s.exc, sc, mod)
        return 'raise'

    def s_Break(self, s, sc, mod):
        return 'break'

    def s_Continue(self, s, sc, mod):
        return 'continue'

    def s_Global(self, s, sc, mod):
        sc.globals |= set(s.names)
        return 'next'

    def s_Nonlocal(self, s, sc, mod):
        sc.nonlocals |= set(s.names)
        return 'next'

    def s_Expr(self, s, sc, mod):
        v = self.ev(s.value, sc, mod)
        c = s.value
        if isinstance(c, ast.Call):
            # a call for its effect: what it was given may flow into its receiver and arguments
            names = [a for a in c.args if isinstance(a, ast.Name)] + [k.value for k in c.keywords if isinstance(k.value, ast.Name)]
            if isinstance(c.func, ast.Attribute):
                b = c.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name):
                    names.append(b)
            for n in names:
                q = self.where_bound(sc, n.id)
                if q is not None and q.env[n.id].k == 'u':
                    q.env[n.id].x.update(alltaint(v) | self.ctl_t())
                elif q is not None and q.env[n.id].k in ('seq', 'dict'):
                    q.env[n.id] = q.env[n.id].with_t(alltaint(v))
        return 'next'

    def s_Assign(self, s, sc, mod):
        v = self.ev(s.value, sc, mod)
        for t in s.targets:
            self.assign(t, v, sc, mod, s)
        return 'next'

    def s_AnnAssign(self, s, sc, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc, mod), sc, mod, s)
        return 'next'

    def s_AugAssign(self, s, sc, mod):
        if isinstance(s.target, ast.Name):
            a = self.lookup(sc, s.target.id) or unk()
            b = self.ev(s.value, sc, mod)
            self.bind(sc, s.target.id, self.binop(s.op, a, b))
        else:
            self.assign(s.target, self.ev(s.value, sc, mod), sc, mod, s)
        return 'next'

    def assign(self, t, v, sc, mod, node):
        if isinstance(t, ast.Name):
            self.bind(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if v.k == 'seq':
                m = len(v.v)
                if (not star and m != n) or (star and m < n - 1):
                    self.issue('unpack', node, mod, '%d results are unpacked into %d names' % (m, n))
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, unk(alltaint(v)), sc, mod, node)
                    return
                if star:
                    i = star[0]
                    k = m - (n - 1)
                    vals = list(v.v[:i]) + [V('seq', v.v[i:i + k], v.t, 'list')] + list(v.v[i + k:])
                else:
                    vals = v.v
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x.with_t(v.t), sc, mod, node)
            else:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, unk(alltaint(v)), sc, mod, node)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t
            tt = alltaint(v) | self.ctl_t()
            if isinstance(t, ast.Subscript):
                tt = tt | alltaint(self.ev(t.slice, sc, mod))
            hit = False
            ch = t.value
            while True:
                cv = self.ev(ch, sc, mod)
                if cv.k == 'u':
                    cv.x.update(tt)
                    hit = True
                if not isinstance(ch, (ast.Subscript, ast.Attribute)):
                    break
                ch = ch.value
            if hit and not isinstance(t.value, ast.Name):
                return
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Subscript):
                    tt = tt | alltaint(self.ev(b.slice, sc, mod))
                b = b.value
            if isinstance(b, ast.Name):
                q = self.where_bound(sc, b.id)
                if q is not None:
                    o = q.env[b.id]
                    if o.k == 'dict' and isinstance(t, ast.Subscript) and t.value is b:
                        key = text(self.ev(t.slice, sc, mod))
                        if key is not None:
                            d = dict(o.v)
                            d[key] = v
                            q.env[b.id] = V('dict', d, o.t | self.ctl_t())
                        else:
                            q.env[b.id] = unk(alltaint(o) | tt)
                    elif o.k == 'seq' and isinstance(t, ast.Subscript) and t.value is b:
                        i = self.ev(t.slice, sc, mod)
                        if i.k == 'c' and isinstance(i.v, int) and -len(o.v) <= i.v < len(o.v):
                            l = list(o.v)
                            l[i.v] = v
                            q.env[b.id] = V('seq', tuple(l), o.t | self.ctl_t(), o.x)
                        else:
                            q.env[b.id] = V('seq', tuple(join(e, v) for e in o.v), o.t | tt, o.x)
                    elif o.k == 'u':
                        pass
                    elif o.k in ('seq', 'dict', 'c', 's', 'i'):
                        q.env[b.id] = unk(alltaint(o) | tt)
                    else:
                        q.env[b.id] = o.with_t(tt)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc, mod, node)

    def note_num(self, a, c):
        if a.k == 'c' and isinstance(a.v, (int, float)) and not isinstance(a.v, bool) and isinstance(c, (int, float)) and not isinstance(c, bool):
            for t in a.t:
                if t.startswith('opt:') and self.declared.get(t[4:], {}).get('type') in ('builtins.int', 'builtins.float'):
                    self.numcmp.add((t[4:], c))

    def truth(self, v):
        if v.k == 'c':
            self.note_num(v, 0)
            return bool(v.v)
        if v.k == 's':
            t = text(v)
            return None if t is None else bool(t)
        if v.k == 'seq':
            return bool(v.v)
        if v.k == 'dict':
            return bool(v.v)
        if v.k in ('fn', 'wrap', 'cls', 'inst'):
            return True
        return None

    def snapshot(self, sc):
        out = []
        s = sc
        while s is not None:
            out.append((s, dict(s.env)))
            s = s.parent
        return out

    def restore(self, snap):
        for s, e in snap:
            s.env.clear()
            s.env.update(e)

    def merge(self, snap1, snap2):
        """join two recorded states into the live scopes"""
        for (s, a), (_, b) in zip(snap1, snap2):
            s.env.clear()
            for n in list(a) + [x for x in b if x not in a]:
                s.env[n] = join(a.get(n), b.get(n))

    def branch(self, cond_t, alts, sc, unknown=True):
        """alts: callables returning status; all may happen"""
        pre = self.snapshot(sc)
        posts = []
        self.ctl.append(self.ctl[-1] | cond_t)
        self.unknown += 1
        try:
            for f in alts:
                self.restore(pre)
                st = f()
                posts.append((st, self.snapshot(sc)))
        finally:
            self.unknown -= 1
            self.ctl.pop()
        live = [p for p in posts if p[0] != 'raise'] or posts
        cont = [p for p in live if p[0] == 'next'] or live
        if any(p[0] == 'return' for p in posts) and cont[0][0] != 'return' and sc.fn is not None:
            sc.fn['maybe'] = True
        self.restore(cont[0][1])
        for p in cont[1:]:
            self.merge(self.snapshot(sc), p[1])
        return cont[0][0]

    def s_If(self, s, sc, mod):
        c = self.ev(s.test, sc, mod)
        b = self.truth(c)
        if b is None:
            return self.branch(alltaint(c), [lambda: self.block(s.body, sc, mod), lambda: self.block(s.orelse, sc, mod)], sc)
        same = s.orelse and [ast.dump(x) for x in s.body] == [ast.dump(x) for x in s.orelse]
        self.ctl.append(self.ctl[-1] | (E0 if same else alltaint(c)))
        try:
            return self.block(s.body if b else s.orelse, sc, mod)
        finally:
            self.ctl.pop()

    def elements(self, v, node=None):
        """list of element values if few and known, else None"""
        if v.k == 'seq' and len(v.v) <= 64:
            return [e.with_t(v.t) for e in v.v]
        if v.k == 'dict' and len(v.v) <= 64:
            return [const(k, v.t) for k in v.v]
        if v.k == 's' and text(v) is not None and len(text(v)) <= 64:
            return [const(ch, v.t) for ch in text(v)]
        return None

    def s_For(self, s, sc, mod):
        it = self.ev(s.iter, sc, mod)
        els = self.elements(it)
        if els is not None:
            for e in els:
                self.assign(s.target, e, sc, mod, s)
                st = self.block(s.body, sc, mod)
                if st in ('return', 'raise'):
                    return st
                if st == 'break':
                    return 'next'
            return self.block(s.orelse, sc, mod)
        st = 'next'
        for rnd in range(2):
            pre = self.snapshot(sc)
            name = s.target.id if isinstance(s.target, ast.Name) else None
            tag = 'loop:%s' % (name or 'el')
            if it.k == 'range':
                el = V('i', tag, alltaint(it) | {tag})
            elif it.k == 'enum':
                el = V('seq', (V('i', tag, alltaint(it) | {tag}), unk(alltaint(it) | {tag})), alltaint(it), 'tuple')
            else:
                el = unk(alltaint(it) | {tag})
            self.assign(s.target, el, sc, mod, s)
            st = self.block(s.body, sc, mod)
            self.merge(pre, self.snapshot(sc))
            if st in ('return', 'raise'):
                return st
        return self.block(s.orelse, sc, mod) if s.orelse else 'next'

    def s_While(self, s, sc, mod):
        for rnd in range(10):
            c = self.ev(s.test, sc, mod)
            b = self.truth(c)
            if b is False:
                return self.block(s.orelse, sc, mod)
            if not b or rnd >= 8:
                break
            self.ctl.append(self.ctl[-1] | alltaint(c))
            try:
                st = self.block(s.body, sc, mod)
            finally:
                self.ctl.pop()
            if st in ('return', 'raise'):
                return st
            if st == 'break':
                return 'next'
        # number of rounds not known: the effects of any number of them are merged
        for rnd in range(2):
            pre = self.snapshot(sc)
            self.ctl.append(self.ctl[-1] | alltaint(c))
            self.unknown += 1
            try:
                st = self.block(s.body, sc, mod)
            finally:
                self.ctl.pop()
                self.unknown -= 1
            if st == 'return' and sc.fn is not None:
                sc.fn['maybe'] = True
            self.merge(pre, self.snapshot(sc))
            if self.truth(c) and st in ('return', 'raise'):
                return st
            c = self.ev(s.test, sc, mod)
        return 'next'

    def s_With(self, s, sc, mod):
        for i in s.items:
            v = self.ev(i.context_expr, sc, mod)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, sc, mod, s)
        return self.block(s.body, sc, mod)

    def s_Try(self, s, sc, mod):
        def main():
            st = self.block(s.body, sc, mod)
            return self.block(s.orelse, sc, mod) if st == 'next' else st
        pre = self.snapshot(sc)
        st = main()
        post = self.snapshot(sc)
        outs = [(st, post)]
        if s.handlers:
            self.unknown += 1
            for h in s.handlers:
                self.restore(pre)
                if h.name:
                    self.bind(sc, h.name, unk())
                outs.append((self.block(h.body, sc, mod), self.snapshot(sc)))
            self.unknown -= 1
        live = [o for o in outs if o[0] != 'raise'] or outs
        self.restore(live[0][1])
        for o in live[1:]:
            self.merge(self.snapshot(sc), o[1])
        st2 = self.block(s.finalbody, sc, mod)
        return st2 if st2 != 'next' else live[0][0]

    def s_Assert(self, s, sc, mod):
        self.ev(s.test, sc, mod)
        return 'next'

    def s_Delete(self, s, sc, mod):
        return 'next'

    def s_Match(self, s, sc, mod):
        v = self.ev(s.subject, sc, mod)
        t = text(v)
        val = t if t is not None else (v.v if v.k == 'c' else None)
        if val is not None:
            def ok(p):
                if isinstance(p, ast.MatchValue):
                    w = self.ev(p.value, sc, mod)
                    wt = text(w) if text(w) is not None else (w.v if w.k == 'c' else None)
                    return wt == val
                if isinstance(p, ast.MatchOr):
                    rs = [ok(q) for q in p.patterns]
                    return True if True in rs else (None if None in rs else False)
                if isinstance(p, ast.MatchAs) and p.pattern is None:
                    if p.name:
                        self.bind(sc, p.name, v)
                    return True
                return None
            self.ctl.append(self.ctl[-1] | alltaint(v))
            try:
                for cse in s.cases:
                    r = ok(cse.pattern)
                    if r and cse.guard is None:
                        return self.block(cse.body, sc, mod)
                    if r is None or cse.guard is not None:
                        break
                else:
                    return 'next'
            finally:
                self.ctl.pop()
        return self.branch(alltaint(v), [(lambda c=c: self.block(c.body, sc, mod)) for c in s.cases] + [lambda: 'next'], sc)

    # ---- expressions
    def ev(self, e, sc, mod):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            t = E0
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    t = t | alltaint(self.ev(c, sc, mod))
            return unk(t)
        v = f(e, sc, mod)
        self.ever = self.ever | (alltaint(v) if v.k == 'u' else v.t)
        return v

    def e_Constant(self, e, sc, mod):
        return const(e.value)

    def e_Name(self, e, sc, mod):
        v = self.lookup(sc, e.id)
        if v is None:
            import builtins
            if hasattr(builtins, e.id):
                return V('ext', 'builtins.' + e.id)
            self.issue('name', e, mod, 'name %s is not defined' % e.id)
            return unk()
        if v.k == 'lazy':
            m = self.mods.get(v.v[0])
            if m and v.v[1] in m.env:
                return m.env[v.v[1]]
            return unk()
        return v

    def e_JoinedStr(self, e, sc, mod):
        parts = ()
        t = E0
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts += ((p.value, None),)
            else:
                v = self.ev(p.value, sc, mod)
                t = t | alltaint(v)
                if p.format_spec is not None or p.conversion != -1:
                    if v.k == 'c' and p.format_spec is not None and p.conversion == -1:
                        sp = text(self.ev(p.format_spec, sc, mod))
                        try:
                            parts += ((format(v.v, sp), None),)
                            continue
                        except Exception:
                            pass
                    parts += (('', 'hole:any'),) if v.k != 'i' else (('', 'hole:int:' + str(v.v)),)
                else:
                    parts += tostr(v)
        return V('s', parts, t)

    def e_FormattedValue(self, e, sc, mod):
        v = self.ev(e.value, sc, mod)
        return V('s', tostr(v), alltaint(v))

    def e_Tuple(self, e, sc, mod):
        out = []
        t = E0
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, sc, mod)
                els = self.elements(v)
                if els is None:
                    return unk(t | alltaint(v))
                out += els
            else:
                out.append(self.ev(x, sc, mod))
        return V('seq', tuple(out), t, 'list' if isinstance(e, ast.List) else 'tuple')

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, e, sc, mod):
        d = {}
        t = E0
        ok = True
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, sc, mod)
            if k is None:
                if vv.k == 'dict':
                    d.update(vv.v)
                else:
                    ok = False
                t = t | alltaint(vv)
                continue
            kk = self.ev(k, sc, mod)
            key = text(kk) if kk.k == 's' else (kk.v if kk.k == 'c' else None)
            if key is None:
                ok = False
            else:
                d[key] = vv
            t = t | alltaint(kk)
            if not ok:
                t = t | alltaint(vv)
        if not ok:
            for v in d.values():
                t = t | alltaint(v)
            return unk(t)
        return V('dict', d, t)

    def e_Lambda(self, e, sc, mod):
        fn = Fn(e, sc, mod, '<lambda>')
        nd = len(e.args.defaults)
        al = e.args.posonlyargs + e.args.args
        for a, d in zip(al[len(al) - nd:] if nd else [], e.args.defaults):
            fn.defaults[a.arg] = self.ev(d, sc, mod)
        for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults):
            if d is not None:
                fn.defaults[a.arg] = self.ev(d, sc, mod)
        return V('fn', fn)

    def e_IfExp(self, e, sc, mod):
        c = self.ev(e.test, sc, mod)
        b = self.truth(c)
        if b is None:
            self.unknown += 1
            try:
                r = join(self.ev(e.body, sc, mod), self.ev(e.orelse, sc, mod))
            finally:
                self.unknown -= 1
        else:
            r = self.ev(e.body if b else e.orelse, sc, mod)
        if ast.dump(e.body) == ast.dump(e.orelse):
            return r
        return r.with_t(alltaint(c))

    def e_BoolOp(self, e, sc, mod):
        isand = isinstance(e.op, ast.And)
        t = E0
        r = None
        unknown = False
        for x in e.values:
            v = self.ev(x, sc, mod)
            t = t | alltaint(v)
            b = self.truth(v)
            if b is None:
                unknown = True
                continue
            if b != isand and not unknown:
                return v.with_t(t)
            if b != isand:
                return unk(t)
            r = v
        if unknown:
            return unk(t)
        return r.with_t(t)

    def e_UnaryOp(self, e, sc, mod):
        v = self.ev(e.operand, sc, mod)
        if isinstance(e.op, ast.Not):
            b = self.truth(v)
            return unk(alltaint(v)) if b is None else const(not b, alltaint(v))
        if v.k == 'c' and isinstance(v.v, (int, float)):
            return const(-v.v if isinstance(e.op, ast.USub) else (+v.v if isinstance(e.op, ast.UAdd) else ~int(v.v)), v.t)
        return unk(alltaint(v))

    def e_BinOp(self, e, sc, mod):
        return self.binop(e.op, self.ev(e.left, sc, mod), self.ev(e.right, sc, mod))

    def binop(self, op, a, b):
        t = alltaint(a) | alltaint(b)
        if isinstance(op, ast.Add):
            if a.k == 's' and b.k == 's':
                return V('s', a.v + b.v, t)
            if a.k == 's' and b.k in ('u',):
                return V('s', a.v + (('', 'hole:any'),), t)
            if b.k == 's' and a.k in ('u',):
                return V('s', (('', 'hole:any'),) + b.v, t)
            if a.k == 'seq' and b.k == 'seq':
                return V('seq', a.v + b.v, a.t | b.t, a.x)
        if isinstance(op, ast.Div) and a.k == 'path':
            return V('path', V('s', a.v.v + (('/', None),) + tostr(b), t), t)
        if isinstance(op, ast.Mod) and a.k == 's':
            f = text(a)
            if f is not None:
                args = list(b.v) if b.k == 'seq' else [b]
                parts = ()
                pos = 0
                i = 0
                for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0-9.]*)([sdifgre%])', f):
                    parts += ((f[pos:m.start()], None),)
                    pos = m.end()
                    if m.group(3) == '%':
                        parts += (('%', None),)
                        continue
                    if m.group(1):
                        x = b.v.get(m.group(1)) if b.k == 'dict' else None
                    else:
                        x = args[i] if i < len(args) else None
                        i += 1
                    if x is None or (m.group(2) and m.group(3) != 's'):
                        if x is not None and x.k == 'c':
                            try:
                                parts += ((('%' + m.group(2) + m.group(3)) % x.v, None),)
                                continue
                            except Exception:
                                pass
                        parts += (('', 'hole:any'),)
                    else:
                        parts += tostr(x)
                parts += ((f[pos:], None),)
                return V('s', parts, t)
            return V('s', (('', 'hole:any'),), t)
        if isinstance(op, ast.Mult) and a.k == 'seq' and b.k == 'c' and isinstance(b.v, int) and len(a.v) * b.v <= 64:
            return V('seq', a.v * b.v, t, a.x)
        if a.k == 'c' and b.k == 'c' and isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)):
            try:
                x, y = a.v, b.v
                r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y,
                     ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y,
                     ast.Pow: lambda: x ** y if abs(y) < 64 and abs(x) < 1e6 else None}.get(type(op), lambda: None)()
                if r is not None and not isinstance(r, complex):
                    return const(r, t)
            except (ZeroDivisionError, OverflowError):
                pass
        return unk(t)

    def e_Compare(self, e, sc, mod):
        l = self.ev(e.left, sc, mod)
        t = alltaint(l)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, sc, mod)
            t = t | alltaint(r)
            b = self.cmp(op, l, r)
            if b is None:
                res = None
            elif b is False and res is not None:
                res = False
            l = r
        return unk(t) if res is None else const(res, t)

    def pyval(self, v):
        if v.k == 's':
            x = text(v)
            return (x is not None, x)
        if v.k == 'c':
            return True, v.v
        if v.k == 'seq':
            xs = [self.pyval(e) for e in v.v]
            if all(o for o, _ in xs):
                return True, (list if v.x == 'list' else tuple)(x for _, x in xs)
        if v.k == 'dict':
            return True, {k: None for k in v.v}
        return False, None

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            isn = lambda v: True if v.k == 'c' and v.v is None else (False if v.k in ('s', 'seq', 'dict', 'fn', 'wrap', 'cls', 'inst', 'i', 'path') or v.k == 'c' else None)
            if b.k == 'c' and b.v is None:
                r = isn(a)
                return None if r is None else (r if isinstance(op, ast.Is) else not r)
            if a.k == 'c' and b.k == 'c':
                return (a.v is b.v) if isinstance(op, ast.Is) else (a.v is not b.v)
            return None
        oa, x = self.pyval(a)
        obb, y = self.pyval(b)
        if oa and obb:
            self.note_num(a, y)
            self.note_num(b, x)
        if not (oa and obb):
            if isinstance(op, (ast.Eq, ast.NotEq)) and ((a.k == 'c' and a.v is None and b.k in ('fn', 'wrap', 's', 'seq')) or (b.k == 'c' and b.v is None and a.k in ('fn', 'wrap', 's', 'seq'))):
                return isinstance(op, ast.NotEq)
            return None
        try:
            return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y,
                    ast.GtE: lambda: x >= y, ast.In: lambda: x in y, ast.NotIn: lambda: x not in y}[type(op)]()
        except Exception:
            return None

    def comp(self, e, sc, mod, mk):
        """comprehension over known small iterables gives a known sequence, else unknown (body evaluated once)"""
        out = []
        exact = [True]
        sub = Scope({}, sc, sc.fn)
        taint = [E0]

        def go(i):
            if i == len(e.generators):
                out.append(mk(sub))
                return
            g = e.generators[i]
            it = self.ev(g.iter, sub if i else sc, mod)
            taint[0] = taint[0] | alltaint(it)
            els = self.elements(it)
            if els is None:
                exact[0] = False
                tag = 'loop:c'
                els = [V('i', tag, alltaint(it)) if it.k == 'range' else unk(alltaint(it))]
                if it.k == 'enum':
                    els = [V('seq', (V('i', tag, alltaint(it)), unk(alltaint(it))), E0, 'tuple')]
            for x in els:
                self.assign(g.target, x, sub, mod, e)
                ok = True
                for c in g.ifs:
                    cv = self.ev(c, sub, mod)
                    taint[0] = taint[0] | alltaint(cv)
                    b = self.truth(cv)
                    if b is False:
                        ok = False
                    elif b is None:
                        exact[0] = False
                if ok:
                    go(i + 1)
        go(0)
        return out, exact[0], taint[0]

    def e_ListComp(self, e, sc, mod):
        out, exact, t = self.comp(e, sc, mod, lambda s: self.ev(e.elt, s, mod))
        if exact and len(out) <= 256:
            return V('seq', tuple(out), t, 'list')
        for o in out:
            t = t | alltaint(o)
        return unk(t)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, sc, mod):
        out, exact, t = self.comp(e, sc, mod, lambda s: (self.ev(e.key, s, mod), self.ev(e.value, s, mod)))
        if exact and all(text(k) is not None or k.k == 'c' for k, _ in out):
            return V('dict', {(text(k) if k.k == 's' else k.v): v for k, v in out}, t)
        for k, v in out:
            t = t | alltaint(k) | alltaint(v)
        return unk(t)

    def e_NamedExpr(self, e, sc, mod):
        v = self.ev(e.value, sc, mod)
        self.assign(e.target, v, sc, mod, e)
        return v

    def e_Starred(self, e, sc, mod):
        return self.ev(e.value, sc, mod)

    def e_Subscript(self, e, sc, mod):
        b = self.ev(e.value, sc, mod)
        i = self.ev(e.slice, sc, mod) if not isinstance(e.slice, ast.Slice) else None
        if b.k == 'npz':
            key = text(i) if i is not None else None
            r = self.reads[b.v]
            if key is not None:
                r['keys'].setdefault(key, e.lineno)
            elif i is not None and i.k == 's':
                pass
            return unk(b.t | (alltaint(i) if i is not None else E0))
        if i is None:
            sl = [self.ev(x, sc, mod) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            t = b.t
            for x in sl:
                if x is not None:
                    t = t | alltaint(x)
            if all(x is None or (x.k == 'c' and isinstance(x.v, (int, type(None)))) for x in sl):
                q = slice(*[None if x is None else x.v for x in sl])
                if b.k == 'seq':
                    return V('seq', b.v[q], t, b.x)
                if text(b) is not None:
                    return const(text(b)[q], t)
            return unk(alltaint(b) | t)
        t = b.t | alltaint(i)
        if b.k == 'seq' and i.k == 'c' and isinstance(i.v, int):
            if -len(b.v) <= i.v < len(b.v):
                return b.v[i.v].with_t(t)
            self.issue('index', e, mod, 'index %d of %d results' % (i.v, len(b.v)))
            return unk(t)
        if b.k == 'seq' and b.v and i.k in ('u', 'i', 'c'):
            r = b.v[0]
            for x in b.v[1:]:
                r = join(r, x)
            return r.with_t(t)
        if b.k == 'dict':
            ok, key = self.pyval(i)
            if ok:
                try:
                    if key in b.v:
                        return b.v[key].with_t(t)
                except TypeError:
                    pass
            r = unk(t)
            for x in b.v.values():
                r = join(r, x)
            return r
        if b.k == 's' and text(b) is not None and i.k == 'c' and isinstance(i.v, int) and -len(text(b)) <= i.v < len(text(b)):
            return const(text(b)[i.v], t)
        if b.k in ('ext',):
            return unk(t)
        if b.k == 'inst' and b.v.namedtuple and i.k == 'c' and isinstance(i.v, int) and b.x and -len(b.v.fields) <= i.v < len(b.v.fields):
            return b.x.get(b.v.fields[i.v], unk(b.t)).with_t(t)
        return unk(alltaint(b) | t)

    def e_Attribute(self, e, sc, mod):
        b = self.ev(e.value, sc, mod)
        return self.getattr(b, e.attr, e, sc, mod)

    def getattr(self, b, a, e, sc, mod):
        if b.k == 'ext':
            q = b.v + '.' + a
            if self.is_repo_mod(q):
                m = self.load(b.v)
                if m is not None:
                    if a in m.env:
                        return m.env[a]
                    if self.load(q) is not None:
                        return V('ext', q)
                    if m.done:
                        self.issue('import', e, mod, '%s has no %s' % (b.v, a))
                    return unk()
            return V('ext', q, b.t)
        if b.k == 'mod':
            m = self.load(b.v)
            if m is not None and a in m.env:
                return m.env[a]
            if self.load(b.v + '.' + a) is not None:
                return V('mod', b.v + '.' + a)
            if m is not None and m.done:
                self.issue('import', e, mod, '%s has no %s' % (b.v, a))
            return unk()
        if b.k == 'args':
            if a in self.declared:
                self.args_used.setdefault(a, e.lineno)
                return self.optval(a)
            if a.startswith('_'):
                return unk()
            self.issue('arg', e, mod, 'option %s is used but not declared' % a)
            return unk({'opt:' + a})
        if b.k == 'cls':
            c = b.v
            if a in c.methods:
                fn = Fn(c.methods[a], c.scope, c.mod, c.name + '.' + a)
                self.fill_defaults(fn)
                if c.kinds[a] == 'classmethod':
                    fn.bound = b
                return V('fn', fn, b.t)
            if a in c.attrs:
                return self.ev(c.attrs[a], c.scope, c.mod)
            if c.known and a not in c.fields and not a.startswith('_'):
                self.issue('attr', e, mod, 'class %s has no %s' % (c.name, a))
            return unk(b.t)
        if b.k == 'inst':
            c = b.v
            if a in c.methods:
                fn = Fn(c.methods[a], c.scope, c.mod, c.name + '.' + a)
                self.fill_defaults(fn)
                if c.kinds[a] == 'property':
                    fn.bound = b
                    return self.call_fn(fn, [], {}, e, sc, mod)
                if c.kinds[a] != 'staticmethod':
                    fn.bound = b if c.kinds[a] == 'method' else V('cls', c)
                return V('fn', fn, b.t)
            if b.x and a in b.x:
                return b.x[a].with_t(b.t)
            if a in c.fields or a in c.attrs or a in c.selfattrs:
                return unk(b.t)
            if c.known and not a.startswith('_') and not (c.namedtuple and a in ('count', 'index')):
                self.issue('attr', e, mod, '%s objects have no %s' % (c.name, a))
            return unk(b.t)
        if b.k in ('fn', 'wrap'):
            return unk(b.t)
        return V('meth', (b, a, e), alltaint(b))

    def fill_defaults(self, fn):
        s = fn.node
        nd = len(s.args.defaults)
        al = s.args.posonlyargs + s.args.args
        for a, d in zip(al[len(al) - nd:] if nd else [], s.args.defaults):
            fn.defaults[a.arg] = self.ev(d, fn.scope, fn.mod)
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                fn.defaults[a.arg] = self.ev(d, fn.scope, fn.mod)

    def optval(self, a):
        d = self.declared[a]
        t = frozenset({'opt:' + a})
        if a in self.options:
            v = self.options[a]
        else:
            v = d.get('default')
        if isinstance(v, str):
            return const(v, t, 'opt:' + a)
        if isinstance(v, V):
            return v.with_t(t)
        if isinstance(v, (list, tuple)):
            return const(v, t)
        return V('c', v, t, 'opt:' + a)

    # ---- calls
    def e_Call(self, e, sc, mod):
        self.calls += 1
        f = self.ev(e.func, sc, mod)
        args, kw = [], {}
        loose = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc, mod)
                els = self.elements(v)
                if els is None:
                    loose = True
                    args.append(unk(alltaint(v)))
                else:
                    args += els
            else:
                args.append(self.ev(a, sc, mod))
        for k in e.keywords:
            v = self.ev(k.value, sc, mod)
            if k.arg is None:
                if v.k == 'dict' and all(isinstance(x, str) for x in v.v):
                    kw.update(v.v)
                else:
                    loose = True
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.apply(f, args, kw, e, sc, mod, loose)

    def taint_of(self, args, kw, fns=True):
        t = E0
        for a in list(args) + list(kw.values()):
            t = t | alltaint(a)
            if fns and a.k in ('fn', 'wrap'):
                t = t | self.fn_taint(a)
        return t

    def fn_taint(self, f):
        """what the results of f depend on, called with anything"""
        key = id(f.v)
        if key in self.memo:
            return f.t
        self.memo[key] = f.v
        try:
            return alltaint(self.call_any(f)) | f.t
        finally:
            del self.memo[key]

    def call_any(self, f):
        """apply a function value to unknown arguments (as many as it needs)"""
        if f.k == 'wrap':
            kind, inner, extra = f.v
            if inner is None:
                return unk(f.t)
            return blur(self.call_any(inner), f.t | (self.taint_of(*extra) if extra else E0))
        fn = f.v
        a = fn.node.args
        pos = a.posonlyargs + a.args
        n = len(pos) - (1 if fn.bound is not None else 0)
        args = [unk() for _ in range(n)]
        kw = {k.arg: unk() for k in a.kwonlyargs if k.arg not in fn.defaults}
        self.unknown += 1
        try:
            return self.call_fn(fn, args, kw, fn.node, None, fn.mod)
        finally:
            self.unknown -= 1

    def apply(self, f, args, kw, e, sc, mod, loose=False):
        if f.k == 'fn':
            return self.call_fn(f.v, args, kw, e, sc, mod, loose).with_t(f.t)
        if f.k == 'wrap':
            kind, inner, extra = f.v
            if kind == 'partial':
                k2 = dict(extra[1])
                k2.update(kw)
                return self.apply(inner, list(extra[0]) + args, k2, e, sc, mod, loose).with_t(f.t)
            if kind == 'vmap':
                t = self.taint_of(args, kw)
                return blur(self.apply(inner, [blur(a) for a in args], {k: blur(v) for k, v in kw.items()}, e, sc, mod, loose), f.t)
            if kind == 'grad':
                return unk(alltaint(self.apply(inner, args, kw, e, sc, mod, loose)) | f.t)
            if kind == 'deco':      # partial(jax.vmap, ...) applied to a function
                return self.apply_ext(extra, args, kw, e, sc, mod)
        if f.k == 'cls':
            return self.construct(f.v, args, kw, e, sc, mod, loose)
        if f.k == 'ext':
            return self.apply_ext(f.v, args, kw, e, sc, mod)
        if f.k == 'meth':
            return self.apply_meth(f, args, kw, e, sc, mod)
        if f.k in ('seq', 's', 'c', 'dict') and not (f.k == 'c' and f.v is None and self.unknown):
            self.issue('call', e, mod, '%s is not callable' % ast.unparse(e.func) if isinstance(e, ast.Call) else 'not callable')
        return unk(self.taint_of(args, kw) | alltaint(f))

    def construct(self, c, args, kw, e, sc, mod, loose):
        t = self.taint_of(args, kw)
        x = None
        if (c.namedtuple or c.dataclass) and '__init__' not in c.methods and '__new__' not in c.methods and c.known:
            x = {}
            if not loose:
                bad = None
                if len(args) > len(c.fields):
                    bad = '%s takes %d fields, %d given' % (c.name, len(c.fields), len(args))
                for k in kw:
                    if k not in c.fields:
                        bad = '%s has no field %s' % (c.name, k)
                    elif k in c.fields[:len(args)]:
                        bad = '%s: field %s given twice' % (c.name, k)
                miss = [f for f in c.fields[len(args):] if f not in kw and f not in c.defaults]
                if miss:
                    bad = '%s: missing %s' % (c.name, ', '.join(miss))
                if bad:
                    self.issue('call', e, mod, bad)
                for f, v in zip(c.fields, args):
                    x[f] = v
                x.update(kw)
        elif '__init__' in c.methods and c.known:
            fn = Fn(c.methods['__init__'], c.scope, c.mod, c.name + '.__init__')
            self.fill_defaults(fn)
            fn.bound = V('inst', c, E0, {})
            self.call_fn(fn, args, kw, e, sc, mod, loose)
        return V('inst', c, t, x) if c.known else unk(t)

    def bind_args(self, fn, args, kw, e, mod, loose):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        kwo = [x.arg for x in a.kwonlyargs]
        given = list(args)
        if fn.bound is not None:
            given = [fn.bound] + given
        env = {}
        bad = None
        nm = fn.qual if fn.mod.name != '__main__' else fn.name
        if len(given) > len(pos):
            if a.vararg is None:
                bad = '%s takes %d positional arguments but is given %d' % (nm, len(pos) - (fn.bound is not None), len(given) - (fn.bound is not None))
            else:
                env[a.vararg.arg] = V('seq', tuple(given[len(pos):]), E0, 'tuple')
        elif a.vararg is not None:
            env[a.vararg.arg] = V('seq', (), E0, 'tuple') if not loose else unk(self.taint_of(args, kw))
        for p, v in zip(pos, given):
            env[p] = v
        extra = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos[npo:] or k in kwo:
                if k in env:
                    bad = '%s: argument %s is given twice' % (nm, k)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                bad = '%s has no argument %s' % (nm, k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = V('dict', extra)
        lt = self.taint_of(args, kw) if loose else E0
        for p in pos + kwo:
            if p not in env:
                if p in fn.defaults:
                    env[p] = join(fn.defaults[p], unk(lt)) if loose else fn.defaults[p]
                elif loose:
                    env[p] = unk(lt)
                else:
                    bad = bad or '%s: argument %s is missing' % (nm, p)
                    env[p] = unk()
        if bad and not loose:
            self.issue('call', e, mod, bad)
            return None
        return env

    def call_fn(self, fn, args, kw, e, sc, mod, loose=False):
        if fn.mod.name.startswith('mfs'):
            self.libcalls.add((os.path.relpath(mod.path, self.repo), getattr(e, 'lineno', 0), fn.qual))
        env = self.bind_args(fn, args, kw, e, mod, loose)
        if env is None:
            return unk(self.taint_of(args, kw))
        lim = 26
        if self.depth > lim or self.stack.count(fn.qual) > 3:
            return unk(self.taint_of(args, kw))
        scope = Scope(env, fn.scope, {'ret': None})
        if isinstance(fn.node, ast.Lambda):
            self.depth += 1
            self.stack.append(fn.qual)
            try:
                return self.ev(fn.node.body, scope, fn.mod).with_t(self.ctl_t())
            finally:
                self.depth -= 1
                self.stack.pop()
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node)):
            return unk(self.ever)
        self.depth += 1
        self.stack.append(fn.qual)
        try:
            st = self.block(fn.node.body, scope, fn.mod)
        except Raised:
            # an earlier return may have been taken
            if not scope.fn.get('maybe') or scope.fn['ret'] is None:
                raise
            return scope.fn['ret']
        finally:
            self.depth -= 1
            self.stack.pop()
        if st == 'raise':
            if scope.fn.get('maybe') and scope.fn['ret'] is not None:
                return scope.fn['ret']
            if self.unknown:
                return unk(self.taint_of(args, kw))
            raise Raised(getattr(e, 'lineno', 0))
        r = scope.fn['ret']
        return r if r is not None else const(None)

    def pathval(self, v):
        if v.k == 's':
            return v
        if v.k == 'path':
            return v.v
        return V('s', (('', 'hole:any'),), alltaint(v))

    def record_read(self, v, e, mod):
        p = self.pathval(v)
        r = dict(parts=p.v, keys={}, line=getattr(e, 'lineno', 0), file=os.path.relpath(mod.path, self.repo), taint=p.t)
        self.reads.append(r)
        return V('npz', len(self.reads) - 1, alltaint(v) | frozenset({'file'}))

    def apply_ext(self, q, args, kw, e, sc, mod):
        t = self.taint_of(args, kw, not (q in MODSAFE or q in VMAP or q in GRADS or q in ('functools.partial', 'numpy.vectorize')))
        last = q.split('.')[-1]
        if q in MODSAFE or (q in ('jax.jit',)):
            if args and args[0].k in ('fn', 'wrap'):
                return args[0].with_t(t)
            return V('ext', q) if not args else unk(t)
        if q in VMAP:
            if args and args[0].k in ('fn', 'wrap'):
                return V('wrap', ('vmap', args[0], None), t)
            if not args:
                return V('wrap', ('deco', None, q))
            return unk(t)
        if q in GRADS:
            if args and args[0].k in ('fn', 'wrap'):
                return V('wrap', ('grad', args[0], None), t)
            return unk(t)
        if q == 'functools.partial':
            if args and args[0].k in ('fn', 'wrap'):
                return V('wrap', ('partial', args[0], (args[1:], kw)), t)
            if args and args[0].k == 'ext' and (args[0].v in VMAP + GRADS or args[0].v in MODSAFE):
                return V('wrap', ('deco', None, args[0].v), t)
            return unk(t)
        if q in ('jax.lax.scan',):
            f = args[0] if args else kw.get('f')
            init = args[1] if len(args) > 1 else kw.get('init', unk())
            xs = args[2] if len(args) > 2 else kw.get('xs', unk())
            if f is not None and f.k in ('fn', 'wrap'):
                r = self.apply(f, [blur(init, ()), unk(alltaint(xs)) if xs.k != 'seq' else blur(xs)], {}, e, sc, mod)
                if r.k == 'seq' and len(r.v) == 2:
                    r2 = self.apply(f, [join(blur(init), blur(r.v[0])), blur(xs) if xs.k == 'seq' else unk(alltaint(xs))], {}, e, sc, mod)
                    r = r2 if r2.k == 'seq' and len(r2.v) == 2 else r
                    return V('seq', tuple(blur(x, alltaint(init)) for x in r.v), t, 'tuple')
                if r.k == 'seq':
                    self.issue('unpack', e, mod, 'scan body returns %d results, 2 expected' % len(r.v))
            return unk(t)
        if q == 'jax.lax.cond' and len(args) >= 3 and args[1].k in ('fn', 'wrap') and args[2].k in ('fn', 'wrap'):
            a = self.apply(args[1], args[3:], {}, e, sc, mod)
            b = self.apply(args[2], args[3:], {}, e, sc, mod)
            return blur(join(a, b), alltaint(args[0]))
        if q in ('jax.lax.fori_loop',) and len(args) == 4 and args[2].k in ('fn', 'wrap'):
            r = self.apply(args[2], [unk(), blur(args[3])], {}, e, sc, mod)
            return blur(join(blur(args[3]), blur(r)), t)
        if q in ('jax.lax.while_loop',) and len(args) == 3 and args[1].k in ('fn', 'wrap'):
            r = self.apply(args[1], [blur(args[2])], {}, e, sc, mod)
            self.apply(args[0], [blur(args[2])], {}, e, sc, mod)
            return blur(join(blur(args[2]), blur(r)), t)
        if q in ('jax.lax.map',) and args and args[0].k in ('fn', 'wrap'):
            return blur(self.apply(args[0], [unk(alltaint(args[1])) if len(args) > 1 else unk()], {}, e, sc, mod), t)
        if q == 'numpy.vectorize' and args and args[0].k in ('fn', 'wrap'):
            return V('wrap', ('vmap', args[0], None), t)
        if q in LOADERS:
            a = args[0] if args else kw.get('file', unk())
            v = self.record_read(a, e, mod)
            return v
        if q in SAVERS:
            a = args[0] if args else kw.get('file', unk())
            p = self.pathval(a)
            keys = {}
            open_keys = False
            dt = E0
            if q.split('.')[-1].startswith('savez'):
                for i, x in enumerate(args[1:]):
                    keys['arr_%d' % i] = alltaint(x)
                for k, x in kw.items():
                    if k == 'file':
                        continue
                    if k == '**':
                        open_keys = True
                        dt = dt | alltaint(x)
                    else:
                        keys[k] = alltaint(x)
            else:
                for x in args[1:] + [kw[k] for k in ('arr', 'X') if k in kw]:
                    dt = dt | alltaint(x)
            parts = p.v
            ext = SAVERS[q]
            if ext:
                lastp = parts[-1] if parts else ('', None)
                if not (lastp[0].endswith(ext) and not (lastp[1] or '').startswith('hole')):
                    parts = parts + ((ext, None),)
            for x in keys.values():
                dt = dt | x
            dt = dt | self.ctl_t()
            w = dict(parts=parts, keys=set(keys), open=open_keys, data=dt, name=p.t, line=getattr(e, 'lineno', 0), file=os.path.relpath(mod.path, self.repo))
            for o in self.writes:
                if o['line'] == w['line'] and o['parts'] == w['parts'] and o['file'] == w['file']:
                    o['data'] = o['data'] | w['data']
                    o['keys'] &= w['keys']
                    return const(None)
            self.writes.append(w)
            return const(None)
        if q in ('os.path.join', 'posixpath.join'):
            parts = ()
            for i, a in enumerate(args):
                if i and not (parts and parts[-1][0].endswith('/')):
                    parts += (('/', None),)
                parts += tostr(self.pathval(a))
            return V('s', parts, t)
        if q in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath'):
            parts = ()
            for i, a in enumerate(args):
                if i:
                    parts += (('/', None),)
                parts += tostr(self.pathval(a))
            return V('path', V('s', parts or (('.', None),), t), t)
        if q in ('argparse.ArgumentParser',):
            return V('parser', 'parser')
        if q in ('time.time', 'time.perf_counter', 'time.process_time', 'time.monotonic', 'time.time_ns', 'time.perf_counter_ns'):
            return unk(self.ever)
        if q.startswith('builtins.'):
            return self.builtin(last, args, kw, e, sc, mod, t)
        if q == 'sys.exit' or q == 'builtins.exit':
            if not self.unknown:
                raise Raised(getattr(e, 'lineno', 0))
        if q == 'itertools.product':
            els = [self.elements(a) for a in args]
            if all(x is not None for x in els) and not kw:
                n = 1
                for x in els:
                    n *= len(x)
                if n <= 64:
                    return V('seq', tuple(V('seq', c, E0, 'tuple') for c in itertools.product(*els)), t, 'list')
        if q in ('numpy.arange', 'jax.numpy.arange') and args and all(a.k == 'c' and isinstance(a.v, int) for a in args) and not kw:
            r = range(*[a.v for a in args])
            if len(r) <= 64:
                return V('seq', tuple(const(i, t) for i in r), t, 'arr')
        for a in list(args) + list(kw.values()):
            if a.k in ('fn', 'wrap'):
                pass        # taint of function arguments is in t (taint_of)
        return unk(t)

    def builtin(self, n, args, kw, e, sc, mod, t):
        a = args[0] if args else None
        if n == 'range' and args:
            if all(x.k == 'c' and isinstance(x.v, int) and not isinstance(x.v, bool) and not any(y.startswith('opt:') for y in x.t) for x in args):
                try:
                    r = range(*[x.v for x in args])
                except Exception:
                    return unk(t)
                if len(r) <= 64:
                    return V('seq', tuple(const(i, t) for i in r), t, 'list')
            return V('range', None, t)
        if n in ('str', 'format') and args:
            if n == 'format' and len(args) > 1:
                return V('s', (('', 'hole:any'),), t)
            return V('s', tostr(a), t)
        if n == 'int' and args:
            x = text(a) if a.k == 's' else (a.v if a.k == 'c' else None)
            if a.k == 'i':
                return a
            if x is not None:
                try:
                    return V('c', int(x), t, a.v[0][1] if a.k == 's' and len(a.v) == 1 else None)
                except (ValueError, TypeError):
                    if not self.unknown:
                        raise Raised(getattr(e, 'lineno', 0))
            return unk(t)
        if n == 'float' and args and a.k in ('s', 'c'):
            try:
                return const(float(text(a) if a.k == 's' else a.v), t)
            except (TypeError, ValueError):
                return unk(t)
        if n == 'enumerate' and args:
            els = self.elements(a)
            st = args[1] if len(args) > 1 else kw.get('start')
            s0 = 0 if st is None else (st.v if st.k == 'c' else None)
            if els is not None and s0 is not None:
                return V('seq', tuple(V('seq', (const(i + s0), x), E0, 'tuple') for i, x in enumerate(els)), t, 'list')
            return V('enum', None, t)
        if n == 'zip' and args:
            els = [self.elements(x) for x in args]
            if all(x is not None for x in els):
                return V('seq', tuple(V('seq', c, E0, 'tuple') for c in zip(*els)), t, 'list')
            return unk(t)
        if n in ('list', 'tuple', 'sorted', 'reversed', 'set') and args:
            els = self.elements(a)
            if els is not None:
                if n == 'reversed':
                    els = els[::-1]
                if n in ('sorted', 'set'):
                    return V('seq', tuple(els), t, 'list')
                return V('seq', tuple(els), t, 'list' if n != 'tuple' else 'tuple')
            return a if a.k in ('range', 'enum') else unk(t)
        if n in ('list', 'tuple', 'set') and not args:
            return V('seq', (), E0, 'list')
        if n == 'dict':
            if not args:
                return V('dict', dict(kw), t) if '**' not in kw else unk(t)
            if a.k == 'dict':
                d = dict(a.v)
                d.update(kw)
                return V('dict', d, t)
            return unk(t)
        if n == 'len' and args:
            els = self.elements(a)
            return const(len(els), t) if els is not None and a.k != 'enum' else unk(t)
        if n in ('abs', 'min', 'max', 'round', 'sum', 'pow', 'bool') and args and all(x.k == 'c' for x in args) and not kw:
            try:
                import builtins
                return const(getattr(builtins, n)(*[x.v for x in args]), t)
            except Exception:
                return unk(t)
        if n == 'print':
            return const(None, E0)
        if n == 'isinstance' or n == 'hasattr' or n == 'callable':
            if n == 'isinstance' and len(args) == 2 and a.k in ('s', 'c') and args[1].k == 'ext':
                py = {'builtins.str': str, 'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool}.get(args[1].v)
                if py:
                    return const(isinstance('' if a.k == 's' else a.v, py), t)
            if n == 'callable' and a is not None and a.k in ('fn', 'wrap'):
                return const(True, t)
            return unk(t)
        if n == 'open' and args:
            mode = args[1] if len(args) > 1 else kw.get('mode')
            m = text(mode) if mode is not None and mode.k == 's' else 'r'
            p = self.pathval(a)
            if m and ('w' in m or 'a' in m or 'x' in m):
                self.writes.append(dict(parts=p.v, keys=set(), open=True, data=None, name=p.t, line=getattr(e, 'lineno', 0), file=os.path.relpath(mod.path, self.repo)))
                return unk(t)
            return unk(t | {'file'})
        if n == 'getattr' and len(args) >= 2 and text(args[1]) is not None:
            return self.getattr(a, text(args[1]), e, sc, mod)
        if n in ('vars',) and a is not None and a.k == 'args':
            return V('dict', {k: self.optval(k) for k in self.declared}, E0)
        if n == 'map' and len(args) == 2 and args[0].k in ('fn', 'wrap', 'ext'):
            els = self.elements(args[1])
            if els is not None:
                return V('seq', tuple(self.apply(args[0], [x], {}, e, sc, mod) for x in els), t, 'list')
        return unk(t)

    def apply_meth(self, f, args, kw, e, sc, mod):
        b, a, node = f.v
        t = alltaint(b) | self.taint_of(args, kw)
        if b.k == 'parser':
            if a == 'add_argument':
                names = [text(x) for x in args if text(x)]
                opts = [n for n in names if n.startswith('-')]
                dest = text(kw['dest']) if 'dest' in kw else None
                if dest is None:
                    longs = [n for n in opts if n.startswith('--')]
                    dest = (longs[0] if longs else (opts[0] if opts else names[0])).lstrip('-').replace('-', '_')
                act = text(kw['action']) if 'action' in kw else None
                ty = kw['type'].v if 'type' in kw and kw['type'].k == 'ext' else ('builtins.str' if 'type' not in kw else None)
                ok, ch = self.pyval(kw['choices']) if 'choices' in kw else (False, None)
                dv = None
                if 'default' in kw:
                    okd, dv = self.pyval(kw['default'])
                if act == 'store_true':
                    dv = False if dv is None else dv
                if act == 'store_false':
                    dv = True if dv is None else dv
                if ty == 'builtins.int' and isinstance(dv, str):
                    dv = int(dv)
                rq = kw.get('required')
                self.declared[dest] = dict(flags=opts, action=act, type=ty, default=dv, choices=list(ch) if ok else None, nargs='nargs' in kw,
                                           required=bool(rq is not None and rq.k == 'c' and rq.v), positional=not opts, line=getattr(e, 'lineno', 0))
                return unk()
            if a in ('parse_args', 'parse_known_args'):
                r = V('args', 'args')
                return r if a == 'parse_args' else V('seq', (r, unk()), E0, 'tuple')
            if a in ('add_argument_group', 'add_mutually_exclusive_group'):
                return b
            return unk()
        if b.k == 's':
            s = text(b)
            if a == 'format':
                if s is not None:
                    return self.strformat(s, args, kw, t)
                return V('s', (('', 'hole:any'),), t)
            ok = [self.pyval(x) for x in args]
            if s is not None and all(o for o, _ in ok) and not kw and a in ('split', 'lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'lstrip',
                                                                            'rstrip', 'join', 'rsplit', 'partition', 'rpartition', 'zfill', 'capitalize', 'title',
                                                                            'removesuffix', 'removeprefix', 'isdigit', 'index', 'find', 'count'):
                try:
                    return const(getattr(s, a)(*[x for _, x in ok]), t)
                except Exception:
                    if not self.unknown:
                        raise Raised(getattr(e, 'lineno', 0))
                    return unk(t)
            if a == 'join' and s is not None and args:
                els = self.elements(args[0])
                if els is not None:
                    parts = ()
                    for i, x in enumerate(els):
                        if i and s:
                            parts += ((s, None),)
                        parts += tostr(x)
                    return V('s', parts, t)
            if a in ('startswith', 'endswith', 'isdigit'):
                return unk(t)
            return V('s', (('', 'hole:any'),), t) if a in ('lower', 'upper', 'strip', 'replace', 'join') else unk(t)
        if b.k == 'path':
            if a in ('joinpath',):
                parts = b.v.v
                for x in args:
                    parts += (('/', None),) + tostr(self.pathval(x))
                return V('path', V('s', parts, t), t)
            if a in ('as_posix', '__str__'):
                return b.v
            return unk(t)
        if b.k == 'npz' and a == 'get' and args and text(args[0]):
            self.reads[b.v]['keys'].setdefault(text(args[0]), getattr(e, 'lineno', 0))
            return unk(t)
        if b.k == 'dict':
            if a == 'items':
                return V('seq', tuple(V('seq', (const(k), v), E0, 'tuple') for k, v in b.v.items()), b.t, 'list')
            if a == 'keys':
                return V('seq', tuple(const(k) for k in b.v), b.t, 'list')
            if a == 'values':
                return V('seq', tuple(b.v.values()), b.t, 'list')
            if a == 'get' and args:
                ok, k = self.pyval(args[0])
                if ok:
                    try:
                        return b.v[k].with_t(t) if k in b.v else (args[1] if len(args) > 1 else const(None)).with_t(alltaint(args[0]))
                    except TypeError:
                        pass
            if a == 'update' and isinstance(node.value, ast.Name):
                q = self.where_bound(sc, node.value.id)
                if q is not None:
                    d = dict(b.v)
                    if args and args[0].k == 'dict':
                        d.update(args[0].v)
                        q.env[node.value.id] = V('dict', d, b.t)
                    elif not args and '**' not in kw:
                        d.update(kw)
                        q.env[node.value.id] = V('dict', d, b.t)
                    else:
                        q.env[node.value.id] = unk(t)
                return const(None, t)
            return unk(t)
        if b.k == 'seq' and a in ('append', 'extend', 'insert') and isinstance(node.value, ast.Name):
            q = self.where_bound(sc, node.value.id)
            if q is not None:
                o = q.env[node.value.id]
                if a == 'append' and o.k == 'seq' and len(o.v) < 64:
                    q.env[node.value.id] = V('seq', o.v + (args[0],), o.t | self.ctl_t(), o.x)
                elif a == 'extend' and o.k == 'seq' and self.elements(args[0]) is not None:
                    q.env[node.value.id] = V('seq', o.v + tuple(self.elements(args[0])), o.t | self.ctl_t(), o.x)
                else:
                    q.env[node.value.id] = unk(t)
            return const(None, t)
        if isinstance(node, ast.Attribute):
            n = node.value
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            # methods may store their arguments in the receiver
            if isinstance(n, ast.Name) and b.k == 'u' and (args or kw):
                q = self.where_bound(sc, n.id)
                if q is not None and q.env[n.id].k == 'u' and a in ('append', 'extend', 'add', 'update', 'insert', 'fill', 'put', 'setfield', 'set'):
                    q.env[n.id].x.update(t | self.ctl_t())
        return unk(t)

    def strformat(self, s, args, kw, t):
        import string
        parts = ()
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts += ((lit, None),)
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw.get(field, unk())
                if spec or conv:
                    if v.k == 'c' and not conv:
                        parts += ((format(v.v, spec), None),)
                    else:
                        parts += (('', 'hole:any'),)
                else:
                    parts += tostr(v)
        except (ValueError, IndexError):
            return V('s', (('', 'hole:any'),), t)
        return V('s', parts, t)
