"""Rules over the abstract runs of the scripts: files and arrays (C27), run files (C27), calls (C31)."""
import ast
import fnmatch
import glob
import itertools
import json
import os
import re
from .scripts import Runner, Raised, GiveUp, text

READDIRS = ('dardel', 'reproduce_paper_plots')


def all_scripts(repo):
    out = []
    for d in READDIRS:
        for p in sorted(glob.glob(os.path.join(repo, d, '**', '*.py'), recursive=True)):
            out.append(os.path.relpath(p, repo))
    return out


def str_candidates(tree):
    """string constants a script compares its options with: (by equality, otherwise)"""
    out, weak = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            eq = all(isinstance(o, (ast.Eq, ast.NotEq)) for o in n.ops) or (all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) and
                                                                         all(isinstance(x, (ast.Tuple, ast.List, ast.Set)) for x in n.comparators))
            for x in [n.left] + n.comparators:
                for c in ast.walk(x):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        (out if eq else weak).add(c.value)
        elif isinstance(n, ast.MatchValue) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.add(n.value.value)
        elif isinstance(n, ast.Dict):
            for c in n.keys:
                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                    weak.add(c.value)
    return out, weak - out


class World:
    def __init__(self, repo, inline_lib=True):
        self.repo = repo
        self.scripts = all_scripts(repo)
        self.problems = []      # (kind, file, line, text)
        self.runs = {}          # (script, frozen options) -> Runner | None (rejected)
        self.undecided = []
        self.nruns = 0
        self.trees = {}
        self.decl = {}
        self.optnum = {}
        self.inline_lib = inline_lib
        for s in self.scripts:
            with open(os.path.join(repo, s)) as h:
                try:
                    self.trees[s] = ast.parse(h.read())
                except SyntaxError as e:
                    self.problems.append(('syntax', s, e.lineno, 'does not parse: %s' % e))
        self.scripts = [s for s in self.scripts if s in self.trees]
        self.shell = Shell(self)
        for s in self.scripts:
            self.decl[s] = self.options_of(s)

    def num(self, name):
        """one number per option name, shared by all scripts"""
        return self.optnum.setdefault(name, 7001 + 1009 * len(self.optnum))

    def options_of(self, s):
        """declared options: run with nothing known; the declarations come first in every path"""
        r = Runner(self.repo, s, {}, inline_lib=self.inline_lib)
        try:
            r.run()
        except (Raised, GiveUp):
            pass
        return r.declared

    def run(self, s, opts):
        key = (s, tuple(sorted((k, repr(v)) for k, v in opts.items())))
        if key not in self.runs:
            r = Runner(self.repo, s, opts, inline_lib=self.inline_lib)
            self.nruns += 1
            try:
                r.run()
                self.runs[key] = r
                weak = str_candidates(self.trees[s])[1]
                if any(i['kind'] == 'name' for i in r.issues) and any(
                        isinstance(v, str) and v in weak and v != self.decl.get(s, {}).get(o, {}).get('default') and
                        v not in self.shell.values.get((s, o), ()) for o, v in opts.items()):
                    # a text the script only looks for inside its options: no branch serves it alone
                    self.runs[key] = ('rejected', 0)
            except Raised as e:
                self.runs[key] = ('rejected', e.args[0] if e.args else 0)
            except (GiveUp, RecursionError) as e:
                self.runs[key] = None
                self.undecided.append((s, str(e)))
        return self.runs[key]

    def values_of(self, s, o):
        d = self.decl[s][o]
        if d['action'] in ('store_true', 'store_false'):
            return [False, True]
        if d['choices']:
            return list(d['choices'])
        if d['type'] == 'builtins.str':
            c = set()
            if isinstance(d['default'], str):
                c.add(d['default'])
            c |= {v for v in self.shell.values.get((s, o), ())}
            st, wk = str_candidates(self.trees[s])
            cand = {x for x in st | wk if x and len(x) < 40}
            # only those that are compared with this option matter; try them all, rejected ones drop out
            return sorted(c) + sorted(cand - c)
        if d['type'] == 'builtins.int':
            return [self.num(o)]
        if d['type'] == 'builtins.float':
            return [self.num(o) + 0.5]
        return [d['default']]

    def assignments(self, s, fixed=None):
        """base assignments, then values on both sides of the numbers the script compares its numeric options with"""
        base = list(self.base_assignments(s, fixed))
        yield from base
        key = ('crossings', s)
        if key not in self.runs:
            cr = set()
            for o in base[:60]:
                r = self.run(s, o)
                if isinstance(r, Runner):
                    cr |= r.numcmp
            vals = {}
            for o, c in sorted(cr):
                if self.decl[s].get(o, {}).get('type') == 'builtins.int':
                    c = int(c)
                    big = self.num(o) if self.num(o) > c else c + 1 + self.num(o)
                    cand = [c, c + 1, c - 1, big]
                else:
                    big = self.num(o) + 0.5 if self.num(o) > c else c + self.num(o) + 0.5
                    cand = [float(c), c + 0.25, c - 0.25, big]
                for v in cand:
                    if v not in vals.setdefault(o, []) and v != self.values_of(s, o)[0]:
                        vals[o].append(v)
            self.runs[key] = vals
        for o, vs in self.runs[key].items():
            if fixed and o in fixed:
                continue
            for v in vs[:12]:
                for b in base[:24]:
                    yield dict(b, **{o: v})

    def base_assignments(self, s, fixed=None):
        """all option assignments to try for a script: booleans and texts enumerated, numbers one value per option name"""
        d = self.decl[s]
        names = sorted(d)
        dom = []
        for o in names:
            dom.append([fixed[o]] if fixed and o in fixed else self.values_of(s, o))
        n = 1
        for x in dom:
            n *= max(1, len(x))
        if n > 400:
            # vary at most two options at a time
            base = [x[0] for x in dom]
            seen = set()
            for i, j in itertools.combinations(range(len(names)), 2) if len(names) > 1 else [(0, 0)]:
                for a in dom[i]:
                    for b in dom[j]:
                        v = list(base)
                        v[i], v[j] = a, b
                        k = repr(v)
                        if k not in seen:
                            seen.add(k)
                            yield dict(zip(names, v))
            return
        for v in itertools.product(*dom):
            yield dict(zip(names, v))

    # ---- names
    def cwd(self, script):
        return script.split(os.sep)[0]

    def flat(self, parts, script, holes):
        """path text with tokens for the tagged pieces; holes(tag, txt) -> replacement token"""
        s = ''
        for txt, tag in parts:
            s += holes(tag, txt) if tag else txt
        if s.startswith('~') or os.path.isabs(s):
            return os.path.normpath(s)
        return os.path.normpath(os.path.join(self.cwd(script), s))

    def read_name(self, r, script):
        """(name, list of (tag, value)) or None if some piece is unknown"""
        vals = {}

        def h(tag, txt):
            if tag.startswith('hole:int'):
                vals[tag] = str(self.num('loop ' + tag))
                return vals[tag]
            if tag.startswith('hole'):
                raise KeyError
            return txt
        try:
            return self.flat(r['parts'], script, h)
        except KeyError:
            return None

    def write_regex(self, w, script):
        groups = []
        first = next((p for p in w['parts'] if p[0] or p[1]), None)
        if first is None or (first[1] or '').startswith('hole:any'):
            return r'.*\Z', groups     # a name not known from its folder on

        def h(tag, txt):
            groups.append((tag, txt))
            return '\x01%d\x02' % (len(groups) - 1)
        p = self.flat(w['parts'], script, h)
        out = ''
        for piece in re.split('(\x01\\d+\x02)', p):
            m = re.match('\x01(\\d+)\x02', piece)
            if m:
                tag, txt = groups[int(m.group(1))]
                if tag.startswith('hole:int'):
                    out += '(-?\\d+)'
                elif tag.startswith('hole'):
                    out += '([^/]*)'
                else:
                    o = tag[4:]
                    d = self.decl[script].get(o, {})
                    if d.get('type') == 'builtins.int':
                        out += '(-?\\d+)'
                    elif d.get('type') == 'builtins.float':
                        out += '(-?\\d+\\.\\d+)'
                    elif d.get('choices'):
                        out += '(' + '|'.join(re.escape(str(c)) for c in d['choices']) + ')'
                    else:
                        out += '([^/]*?)'
            else:
                out += re.escape(piece)
        return out + r'\Z', groups

    def writes_of(self, s):
        """all writes of a script: list of (options, write)"""
        key = ('writes', s)
        if key not in self.runs:
            out = []
            for o in self.assignments(s):
                r = self.run(s, o)
                if isinstance(r, Runner):
                    out += [(o, w) for w in r.writes]
            self.runs[key] = out
        return self.runs[key]

    def find_writer(self, name, key, sigma):
        """is there a script and options (agreeing with sigma on common options) writing `name` with array `key`?
        returns (True, who) | (False, best reason)"""
        best = (0, 'no script writes this file name')
        for s in self.scripts:
            for o, w in self.writes_of(s):
                rx, groups = self.write_regex(w, s)
                m = re.match(rx, name)
                if not m:
                    continue
                tau = dict(o)
                ok = True
                for (tag, txt), val in zip(groups, m.groups()):
                    if tag.startswith('opt:'):
                        n = tag[4:]
                        d = self.decl[s].get(n)
                        v = val
                        if d and d.get('type') == 'builtins.int':
                            v = int(val)
                        elif d and d.get('type') == 'builtins.float':
                            v = float(val)
                        tau[n] = v
                for n in self.decl[s]:
                    if n in sigma:
                        if any(tag == 'opt:' + n for tag, _ in groups) and tau[n] != sigma[n]:
                            ok = False
                            best = max(best, (1, '%s writes it for %s=%r, not for %s=%r' % (s, n, tau[n], n, sigma[n])))
                        tau[n] = sigma[n]
                if not ok:
                    continue
                # a number of the reader's option must come from the same option of the writer, if it has it
                for (tag, txt), val in zip(groups, m.groups()):
                    for n, num in sigma.items():
                        if isinstance(num, int) and not isinstance(num, bool) and str(num) == val and num > 7000 and n in self.decl[s] and tag != 'opt:' + n:
                            ok = False
                            best = max(best, (1, '%s puts %s where the reader puts its option %s' % (s, tag, n)))
                if not ok:
                    continue
                r = self.run(s, tau)
                if not isinstance(r, Runner):
                    if any(isinstance(v, (int, float)) and not isinstance(v, bool) and v < 7000 for v in sigma.values()):
                        return True, '%s does not accept these numbers' % s
                    best = max(best, (1, '%s rejects the options that would name this file' % s))
                    continue
                for w2 in r.writes:
                    rx2, g2 = self.write_regex(w2, s)
                    m2 = re.match(rx2, name)
                    if m2 and all((not tag.startswith('opt:')) or str(txt) == val for (tag, txt), val in zip(g2, m2.groups())):
                        if key is None or w2['open'] or key in w2['keys']:
                            return True, '%s:%d' % (s, w2['line'])
                        best = max(best, (2, '%s:%d writes this file with arrays %s' % (s, w2['line'], ', '.join(sorted(w2['keys'])))))
        return False, best[1]

    def check_files(self):
        """every file and array a script reads is written by some script"""
        n = 0
        unknown = []
        done = {}
        for s in self.scripts:
            valid = False
            for o in self.assignments(s):
                r = self.run(s, o)
                if not isinstance(r, Runner):
                    continue
                valid = True
                for rd in r.reads:
                    name = self.read_name(rd, s)
                    if name is None:
                        unknown.append((rd['file'], rd['line']))
                        continue
                    if not (name.startswith('dardel') or name.startswith('reproduce_paper_plots')):
                        unknown.append((rd['file'], rd['line']))
                        continue
                    for key in (list(rd['keys']) or [None]):
                        k = (name, key, tuple(sorted((a, repr(b)) for a, b in o.items())))
                        if k in done:
                            continue
                        ok, who = self.find_writer(name, key, o)
                        done[k] = ok
                        n += 1
                        if not ok:
                            ln = rd['keys'].get(key, rd['line']) if key else rd['line']
                            self.problems.append(('file', rd['file'], ln, 'reads %s%s, but %s' % (self.pretty(rd, s), ' array %s' % key if key else '', who)))
            if not valid and self.decl[s]:
                self.problems.append(('reject', s, 0, 'no option assignment is accepted'))
        return n, unknown

    def pretty(self, rd, s):
        return self.flat(rd['parts'], s, lambda tag, txt: '<%s>' % tag.split(':')[-1] if tag.startswith('hole') else txt)

    def check_depends(self):
        """what a script saves depends on every option and loop variable that names the file"""
        n = 0
        seen = set()
        for s in self.scripts:
            for o, w in self.writes_of(s):
                if w['data'] is None or any(isinstance(v, (int, float)) and not isinstance(v, bool) and v <= 0 for v in o.values()):
                    continue
                need = set()
                for txt, tag in w['parts']:
                    if tag and tag.startswith('opt:'):
                        need.add(tag)
                    elif tag and tag.startswith('hole:int:'):
                        need.add(tag[len('hole:int:'):])
                need |= {t for t in w['name'] if t.startswith('opt:')}
                n += 1
                for t in sorted(need - w['data']):
                    k = (w['file'], w['line'], t)
                    if k not in seen:
                        seen.add(k)
                        self.problems.append(('depend', w['file'], w['line'], 'saves %s, named by %s, but nothing saved depends on %s' % (self.pretty(w, s), t.split(':')[1], t.split(':')[1])))
        return n

    def check_calls(self):
        n = 0
        libs = set()
        for s in self.scripts:
            for o in self.assignments(s):
                r = self.run(s, o)
                if not isinstance(r, Runner):
                    continue
                n += r.calls
                libs |= r.libcalls
                for i in r.issues:
                    if not i['kind'].endswith('?'):
                        self.problems.append((i['kind'], i['file'], i['line'], i['text'] + ' (run of %s)' % s))
        return n, libs

    def check_options(self):
        n = 0
        for s in self.scripts:
            for o in self.assignments(s):
                r = self.run(s, o)
                if isinstance(r, Runner):
                    n += len(r.args_used)
                    for i in r.issues:
                        if i['kind'] == 'arg':
                            self.problems.append(('arg', i['file'], i['line'], i['text']))
        return n


class Shell:
    """the run files: python invocations with their options, sbatch targets, directories made, files removed"""

    def __init__(self, world):
        self.w = world
        self.repo = world.repo
        self.inv = []       # (file, line, script, [(opt, value|None)])
        self.values = {}
        self.sbatch = []
        self.mkdirs = {}
        self.rms = []
        for p in sorted(glob.glob(os.path.join(self.repo, 'dardel', '*.sh'))):
            self.parse(os.path.relpath(p, self.repo))

    def parse(self, f):
        with open(os.path.join(self.repo, f)) as h:
            src = h.read()
        src = src.replace('\\\n', ' ')
        env = {}
        d = os.path.dirname(f)
        self.mkdirs.setdefault(f, set())
        for ln, line in enumerate(src.split('\n'), 1):
            line = re.sub(r'(^|\s)#.*$', '', line).strip()
            if not line:
                continue
            m = re.match(r'for\s+(\w+)\s+in\s+(.*?)(;|\bdo\b|$)', line)
            if m:
                vals = []
                for tok in m.group(2).split():
                    r = re.match(r'\{(-?\d+)\.\.(-?\d+)(?:\.\.(\d+))?\}$', tok)
                    if r:
                        a, b, st = int(r.group(1)), int(r.group(2)), int(r.group(3) or 1)
                        vals += [str(x) for x in (range(a, b + 1, st) if a <= b else range(a, b - 1, -st))]
                    elif '$' in tok or '`' in tok:
                        vals = None
                        break
                    else:
                        vals.append(tok.strip('"\''))
                env[m.group(1)] = vals
                rest = line[m.end():]
                if not rest.strip():
                    continue
                line = rest
            m = re.match(r'for\s*\(\(\s*(\w+)', line)
            if m:
                env[m.group(1)] = 'int'
                continue
            for cmd in re.split(r';|&&|\|\||(?<![>&])&(?!>)|\bdo\b', line):
                cmd = cmd.strip()
                m = re.match(r'(?:export\s+)?(\w+)=(.*)$', cmd)
                if m and not cmd.startswith('python'):
                    v = m.group(2).strip().strip('"\'')
                    if re.match(r'\$\(\(', v):
                        env[m.group(1)] = 'int'
                    elif '$' in v:
                        env[m.group(1)] = None
                    else:
                        env[m.group(1)] = [v]
                    continue
                t = cmd.split()
                if not t:
                    continue
                if t[0] == 'sbatch' or (t[0] in ('bash', 'sh') and len(t) > 1 and t[1].endswith('.sh')):
                    for x in t[1:]:
                        if x.endswith('.sh'):
                            self.sbatch.append((f, ln, os.path.normpath(os.path.join(d, x))))
                            break
                if t[0] == 'mkdir':
                    for x in t[1:]:
                        if not x.startswith('-'):
                            self.mkdirs[f].add(os.path.normpath(os.path.join(d, x.strip('"\''))))
                if t[0] == 'rm':
                    for x in t[1:]:
                        if not x.startswith('-'):
                            self.rms.append((f, ln, os.path.normpath(os.path.join(d, x.strip('"\'')))))
                i = [j for j, x in enumerate(t) if re.match(r'python[0-9.]*$', x)]
                if i and len(t) > i[0] + 1 and t[i[0] + 1].endswith('.py') and t[i[0] + 1] != 'setup.py':
                    script = os.path.normpath(os.path.join(d, t[i[0] + 1].strip('"\'')))
                    opts = []
                    rest = t[i[0] + 2:]
                    j = 0
                    while j < len(rest):
                        x = rest[j]
                        if x.startswith('>') or x.startswith('2>') or x == '|':
                            break
                        if x.startswith('--'):
                            if '=' in x:
                                o, v = x[2:].split('=', 1)
                                opts.append((o, self.expand(v.strip('"\''), env)))
                            elif j + 1 < len(rest) and not rest[j + 1].startswith('-'):
                                opts.append((x[2:], self.expand(rest[j + 1].strip('"\''), env)))
                                j += 1
                            else:
                                opts.append((x[2:], ()))
                        else:
                            opts.append((None, self.expand(x, env)))
                        j += 1
                    self.inv.append((f, ln, script, opts))
        for f2, ln, script, opts in self.inv:
            for o, v in opts:
                if o and isinstance(v, list):
                    self.values.setdefault((script, o), set()).update(v)

    def expand(self, v, env):
        """list of possible texts, 'int', or None (unknown)"""
        m = re.match(r'\$\{?(\w+)\}?$', v)
        if m:
            if m.group(1) in env:
                return env[m.group(1)]
            return None
        if '$' in v or '`' in v:
            return None
        return [v]

    def check(self):
        w = self.w
        n = 0
        for f, ln, target in self.sbatch:
            n += 1
            if not os.path.exists(os.path.join(self.repo, target)):
                w.problems.append(('run', f, ln, 'starts %s, which does not exist' % target))
        for f, ln, script, opts in self.inv:
            n += 1
            if script not in w.trees:
                w.problems.append(('run', f, ln, 'runs %s, which does not exist' % script))
                continue
            d = w.decl[script]
            flags = {fl[2:]: k for k, x in d.items() for fl in x['flags'] if fl.startswith('--')}
            tau = {}
            ok = True
            for o, v in opts:
                if o is None:
                    if not any(x['positional'] for x in d.values()):
                        w.problems.append(('run', f, ln, '%s takes no positional argument' % script))
                        ok = False
                    continue
                hit = [flags[o]] if o in flags else [flags[x] for x in flags if x.startswith(o)]
                if len(hit) != 1:
                    w.problems.append(('run', f, ln, '%s has no option --%s' % (script, o)))
                    ok = False
                    continue
                k = hit[0]
                x = d[k]
                if x['action'] in ('store_true', 'store_false'):
                    if v != ():
                        w.problems.append(('run', f, ln, '%s: --%s takes no value' % (script, o)))
                        ok = False
                    tau[k] = x['action'] == 'store_true'
                    continue
                if v == ():
                    w.problems.append(('run', f, ln, '%s: --%s needs a value' % (script, o)))
                    ok = False
                    continue
                if v == 'int' or v is None:
                    tau[k] = w.num(k) if x['type'] == 'builtins.int' else (w.num(k) + .5 if x['type'] == 'builtins.float' else None)
                    continue
                for y in v:
                    try:
                        c = int(y) if x['type'] == 'builtins.int' else (float(y) if x['type'] == 'builtins.float' else y)
                    except ValueError:
                        w.problems.append(('run', f, ln, '%s: --%s=%s is not a number' % (script, o, y)))
                        ok = False
                        break
                    if x['choices'] and c not in x['choices']:
                        w.problems.append(('run', f, ln, '%s: --%s=%s is not a choice' % (script, o, y)))
                        ok = False
                        break
                    tau[k] = c
            for k, x in d.items():
                if k in tau:
                    continue
                if x['required'] or x['positional']:
                    if not (x['positional'] and any(o is None for o, _ in opts)):
                        w.problems.append(('run', f, ln, '%s: option %s is required' % (script, k)))
                        ok = False
                tau[k] = x['default']
            if not ok:
                continue
            if any(v is None and d[k]['default'] is not None for k, v in tau.items()):
                continue
            r = w.run(script, tau)
            if isinstance(r, tuple):
                w.problems.append(('run', f, ln, '%s rejects these options' % script))
                continue
            if r is None:
                continue
            # options used but never given a value
            for k in r.args_used:
                if tau.get(k) is None and d[k]['default'] is None and d[k]['action'] is None and d[k]['type'] in ('builtins.int', 'builtins.float'):
                    if not any(o and flags.get(o) == k for o, _ in opts):
                        w.problems.append(('run', f, ln, '%s uses option %s, which has no default and is not given' % (script, k)))
            for wr in r.writes:
                p = w.flat(wr['parts'], script, lambda tag, txt: txt if not tag.startswith('hole') else 'X')
                dd = os.path.dirname(p)
                n += 1
                if dd not in ('dardel', 'dardel/results', 'dardel/logs') and not os.path.isdir(os.path.join(self.repo, dd)):
                    if dd not in self.mkdirs[f] and not self.makes_dirs(w.trees[script]):
                        w.problems.append(('run', f, ln, '%s writes into %s, which the run file does not create' % (script, dd)))
        # removed files are not needed by anything outside the run file
        for f, ln, pat in self.rms:
            inside = {s for g, _, s, _ in self.inv if g == f}
            for s in w.scripts:
                if s in inside:
                    continue
                for o in w.assignments(s):
                    r = w.run(s, o)
                    if not isinstance(r, Runner):
                        continue
                    for rd in r.reads:
                        name = w.read_name(rd, s)
                        n += 1
                        if name and fnmatch.fnmatch(name, pat):
                            w.problems.append(('run', f, ln, 'removes %s, which %s:%d reads' % (pat, rd['file'], rd['line'])))
        return n

    def makes_dirs(self, tree):
        return any(isinstance(x, ast.Attribute) and x.attr in ('makedirs', 'mkdir') for x in ast.walk(tree))


def notebooks(repo):
    for p in sorted(glob.glob(os.path.join(repo, 'examples', '**', '*.ipynb'), recursive=True)):
        try:
            with open(p) as h:
                nb = json.load(h)
        except ValueError:
            yield os.path.relpath(p, repo), None
            continue
        src = ''
        for c in nb.get('cells', []):
            if c.get('cell_type') == 'code':
                s = ''.join(c['source'])
                s = '\n'.join('pass' if l.lstrip().startswith(('%', '!')) else l for l in s.split('\n'))
                src += s + '\n'
        yield os.path.relpath(p, repo), src
