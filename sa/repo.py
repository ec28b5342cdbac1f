"""Source model of the analysed package: modules, classes (with method
resolution order), functions, properties, imports and module constants.

Everything is read from the working tree on every run; nothing is imported
or executed."""

import ast
import os
import builtins as _bi

BUILTIN_NAMES = frozenset(dir(_bi))

# builtin exception hierarchy (static table, taken from the language)
EXC_PARENT = {}


def _fill():
    def walk(c):
        for s in c.__subclasses__():
            if s.__module__ == 'builtins':
                EXC_PARENT['builtins.' + s.__name__] = 'builtins.' + c.__name__
                walk(s)
    walk(BaseException)


_fill()
EXC_PARENT.update({
    'analysis.UserError': 'builtins.Exception',     # some exception nobody names
    'asyncio.CancelledError': 'builtins.BaseException',
    'asyncio.TimeoutError': 'builtins.Exception',
    'nessaid_readline.async_readline.NessaidReadlineEOF': 'builtins.Exception',
    'nessaid_readline.async_readline.NessaidReadlineKeyboadInterrupt': 'builtins.Exception',
})


def idle(s):
    """True for a statement without any effect: it binds at most plain local names, to plain values."""
    def plain(e):
        return isinstance(e, (ast.Constant, ast.Name)) or \
            isinstance(e, (ast.Tuple, ast.List)) and all(plain(x) for x in e.elts) or \
            isinstance(e, ast.Dict) and not e.keys
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        return plain(s.value)
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and plain(s.value)
    if isinstance(s, ast.AnnAssign):
        return isinstance(s.target, ast.Name) and (s.value is None or plain(s.value))
    if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.Constant):
        return (isinstance(s, ast.If) or not s.test.value) and all(idle(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Assert):
        return isinstance(s.test, ast.Constant) and bool(s.test.value)
    return False


class FuncInfo:
    __slots__ = ('fid', 'node', 'module', 'cls', 'name', 'is_async', 'is_gen',
                 'decorators', 'outer', 'params', 'vararg', 'kwarg', 'kwonly',
                 'kind', 'locals', 'nonlocals', 'globals', 'has_nested')

    def __init__(self, fid, node, module, cls, outer=None):
        self.fid = fid
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            try:
                self.decorators.append(ast.unparse(d))
            except Exception:
                self.decorators.append('?')
        self.is_gen = False
        self.has_nested = False
        self.locals = set()
        self.nonlocals = set()
        self.globals = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self._scan(st)
        self.locals |= set(self.params) | set(self.kwonly)
        for x in (self.vararg, self.kwarg):
            if x:
                self.locals.add(x)
        self.locals -= self.nonlocals
        self.locals -= self.globals
        k = 'func'
        if cls is not None and outer is None:
            k = 'method'
            for d in self.decorators:
                if d == 'staticmethod':
                    k = 'static'
                elif d == 'classmethod':
                    k = 'classmethod'
        self.kind = k

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.locals.add(n.name)
            self.has_nested = True
            return
        if isinstance(n, ast.Lambda):
            self.has_nested = True
            return
        if isinstance(n, ast.ClassDef):
            self.locals.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
                if isinstance(x, ast.Lambda):
                    self.has_nested = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    @property
    def where(self):
        return "%s:%d" % (self.module.path, self.node.lineno)

    @property
    def qual(self):
        return self.fid.split(':', 1)[1]

    def trivial(self):
        """True for a body that does nothing (a hook meant to be overridden)."""
        if not isinstance(self.node.body, list):
            return False
        for s in self.node.body:
            if idle(s):
                continue
            if isinstance(s, ast.Raise) and s.exc is not None:
                t = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                if isinstance(t, ast.Name) and t.id == 'NotImplementedError':
                    continue
            if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)
                                              and s.value.value is None):
                continue
            return False
        return True

    def hook(self, repo, seen=()):
        """Trivial, or only passes its arguments on to a routine of the same object that is a hook."""
        if self.trivial():
            return True
        if self.cls is None or not isinstance(self.node.body, list) or not self.params or self in seen:
            return False
        body = [s for s in self.node.body if not idle(s)]
        if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Expr)):
            return False
        v = body[0].value
        v = v.value if isinstance(v, ast.Await) else v
        if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Attribute) or \
                not isinstance(v.func.value, ast.Name) or v.func.value.id != self.params[0]:
            return False
        m = repo.find_member(self.cls.cid, v.func.attr)
        return m is not None and m[0] == 'method' and repo.funcs[m[1]].hook(repo, seen + (self,))


class ClassInfo:
    __slots__ = ('cid', 'node', 'module', 'name', 'bases', 'methods', 'props', 'attrs', 'order')

    def __init__(self, cid, node, module):
        self.cid = cid
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = []
        self.methods = {}
        self.props = {}
        self.attrs = {}
        self.order = []


class Module:
    __slots__ = ('name', 'path', 'tree', 'names', 'src', 'lines')

    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.lines = src.split('\n')
        self.tree = ast.parse(src)
        self.names = {}


class Repo:
    PKG = 'nessaid_cli'

    def __init__(self, root='/repo', extra=None):
        self.root = root
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.node_func = {}
        base = os.path.join(root, self.PKG)
        files = []
        if os.path.isdir(base):
            for d, dirs, fs in os.walk(base):
                dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__')))
                for f in sorted(fs):
                    if f.endswith('.py'):
                        files.append(os.path.join(d, f))
        for p in files:
            rel = os.path.relpath(p, root)
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            with open(p, encoding='utf-8') as fd:
                self._load(name, rel, fd.read())
        for name, src in (extra or {}).items():
            self._load(name, name.replace('.', '/') + '.py', src)
        for c in list(self.classes.values()):
            c.bases = [self.resolve_base(c.module, b) for b in c.node.bases]
        self._mro = {}

    # -- loading ---------------------------------------------------------
    def _load(self, name, rel, src):
        m = Module(name, rel, src)
        self.modules[name] = m
        self._scan_body(m, m.tree.body, None)

    def _scan_body(self, m, body, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fid = "%s:%s%s" % (m.name, (cls.name + '.') if cls else '', n.name)
                fi = FuncInfo(fid, n, m, cls)
                if cls is None:
                    m.names[n.name] = ('f', fid)
                    self.funcs[fid] = fi
                else:
                    decs = fi.decorators
                    if 'property' in decs or any(d.endswith('cached_property') for d in decs):
                        fid += '<get>'
                        fi.fid = fid
                        cls.props.setdefault(n.name, {})['get'] = fid
                    elif any(d.endswith('.setter') for d in decs):
                        fid += '<set>'
                        fi.fid = fid
                        cls.props.setdefault(n.name, {})['set'] = fid
                    else:
                        cls.methods[n.name] = fid
                        cls.order.append(n.name)
                    self.funcs[fid] = fi
                self._scan_nested(fi)
            elif isinstance(n, ast.ClassDef):
                cid = "%s.%s" % (m.name, n.name)
                ci = ClassInfo(cid, n, m)
                self.classes[cid] = ci
                if cls is None:
                    m.names[n.name] = ('k', cid)
                self._scan_body(m, n.body, ci)
            elif isinstance(n, ast.Import) and cls is None:
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ('x', a.name)
                    else:
                        t = a.name.split('.')[0]
                        m.names[t] = ('x', t)
            elif isinstance(n, ast.ImportFrom) and cls is None:
                src = n.module or ''
                if n.level:
                    parts = m.name.split('.')[:-n.level]
                    src = '.'.join(parts + ([src] if src else []))
                for a in n.names:
                    m.names[a.asname or a.name] = ('i', src, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if n.value is None:
                    continue
                for t in tgts:
                    if isinstance(t, ast.Name):
                        if cls is None:
                            m.names[t.id] = ('v', n.value)
                        else:
                            cls.attrs[t.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan_body(m, n.body, cls)
                self._scan_body(m, getattr(n, 'orelse', []), cls)
                for h in getattr(n, 'handlers', []):
                    self._scan_body(m, h.body, cls)

    def _scan_nested(self, fi):
        for n in ast.walk(fi.node):
            if n is fi.node:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if id(n) in self.node_func:
                    continue
                nm = getattr(n, 'name', '<lambda>')
                fid = "%s.<%s@%d:%d>" % (fi.fid, nm, n.lineno, n.col_offset)
                sub = FuncInfo(fid, n, fi.module, fi.cls, outer=fi)
                self.funcs[fid] = sub
                self.node_func[id(n)] = fid

    # -- resolution ------------------------------------------------------
    def resolve_base(self, m, node):
        if isinstance(node, ast.Name):
            r = self.resolve_global(m, node.id)
            if r and r[0] == 'k':
                return r[1]
            if r and r[0] == 'x':
                return r[1]
        try:
            return ast.unparse(node)
        except Exception:
            return '?'

    def resolve_global(self, m, name, depth=0):
        """-> ('f',fid) | ('k',cid) | ('x',dotted) | ('v',module,node) | None"""
        if depth > 8:
            return None
        b = m.names.get(name)
        if b is None:
            if name in BUILTIN_NAMES:
                return ('x', 'builtins.' + name)
            return None
        if b[0] == 'i':
            mod = self.modules.get(b[1])
            if mod is not None:
                r = self.resolve_global(mod, b[2], depth + 1)
                if r is not None:
                    return r
                sub = self.modules.get(b[1] + '.' + b[2])
                if sub is not None:
                    return ('x', sub.name)
                return ('x', b[1] + '.' + b[2])
            if (b[1] + '.' + b[2]) in self.modules:
                return ('x', b[1] + '.' + b[2])
            return ('x', b[1] + '.' + b[2])
        if b[0] == 'v':
            return ('v', m, b[1], name)
        return b

    def mro(self, cid):
        if cid in self._mro:
            return self._mro[cid]
        self._mro[cid] = [cid]
        c = self.classes.get(cid)
        if c is None:
            return [cid]
        seqs = [list(self.mro(b)) for b in c.bases if b in self.classes] + \
               [[b for b in c.bases if b in self.classes]]
        out = [cid]
        ext = [b for b in c.bases if b not in self.classes]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
        out += [e for e in ext if e not in out]
        self._mro[cid] = out
        return out

    def find_member(self, cid, name, after=None):
        """Look a name up along the MRO -> ('method',fid)|('prop',dict)|('attr',module,node)|None"""
        mro = self.mro(cid)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
        for c in mro:
            ci = self.classes.get(c)
            if ci is None:
                continue
            if name in ci.props:
                p = dict(ci.props[name])
                if 'get' not in p:
                    r = self.find_member(cid, name, after=c)
                    if r and r[0] == 'prop':
                        q = dict(r[1])
                        q.update(p)
                        p = q
                return ('prop', p, c)
            if name in ci.methods:
                return ('method', ci.methods[name], c)
            if name in ci.attrs:
                return ('attr', ci.module, ci.attrs[name], c)
        return None

    def subclasses(self, cid):
        return [c for c in self.classes if cid in self.mro(c)]

    def cls(self, name):
        """Class id for a bare class name (unique in the package)."""
        r = [c for c in self.classes if c.split('.')[-1] == name]
        return r[0] if r else None

    def method(self, clsname, name):
        c = self.cls(clsname)
        if c is None:
            return None
        r = self.find_member(c, name)
        if r is None:
            return None
        if r[0] == 'method':
            return self.funcs[r[1]]
        if r[0] == 'prop' and 'get' in r[1]:
            return self.funcs[r[1]['get']]
        return None

    def func(self, modsuffix, name):
        for m in self.modules.values():
            if m.name.endswith(modsuffix):
                r = self.resolve_global(m, name)
                if r and r[0] == 'f':
                    return self.funcs[r[1]]
        return None

    def is_exc_subclass(self, a, b):
        """Is exception class a (dotted / cid) a subclass of b?"""
        seen = set()
        todo = [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in self.classes:
                for bb in self.classes[x].bases:
                    if bb in self.classes or bb in EXC_PARENT or bb.startswith('builtins.'):
                        todo.append(bb)
                    elif 'builtins.' + bb in EXC_PARENT:
                        todo.append('builtins.' + bb)
            elif x in EXC_PARENT:
                todo.append(EXC_PARENT[x])
        return False

    def const(self, modsuffix, name):
        for m in self.modules.values():
            if m.name.endswith(modsuffix):
                r = self.resolve_global(m, name)
                if r and r[0] == 'v':
                    try:
                        return ast.literal_eval(r[2])
                    except Exception:
                        return None
        return None
