"""C26: a coroutine that is created is also awaited or scheduled."""

import ast

from ..repo import Repo
from ..result import Anchor

# names of the terminal library's coroutines, and the attribute names its reader is held under
READER_ASYNC = {'readline', 'input', 'insert_text', 'send', 'readchar'}
READER_NAMES = {'readline', '_readline'}
SCHEDULERS = {'create_task', 'ensure_future', 'run_until_complete', 'gather', 'wait', 'wait_for', 'shield', 'as_completed',
              'run_coroutine_threadsafe', 'run', 'start_soon', 'timeout', 'append', 'add', 'put', 'put_nowait', 'add_task', 'extend',
              'enter_async_context', 'call_soon', 'call_later', 'submit', 'insert', 'Task', 'setdefault', 'update'}
INERT = {'print', 'str', 'repr', 'bool', 'len', 'list', 'tuple', 'set', 'int', 'float', 'sum', 'min', 'max', 'sorted', 'any', 'all',
         'enumerate', 'zip', 'dict', 'format', 'type', 'id', 'hash', 'isinstance', 'iscoroutine', 'isawaitable', 'error', 'hasattr',
         'getattr', 'bool', 'reversed', 'iter'}
EXT_ASYNC = {'asyncio.sleep', 'asyncio.wait_for', 'asyncio.wait', 'asyncio.open_connection', 'asyncio.to_thread'}
CONTAINER = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | {'read', 'write', 'close', 'match', 'search'}

OK, BAD, UNKNOWN, RETURNED, NAMED = 'ok', 'bad', 'unknown', 'returned', 'named'


class Rule:
    def __init__(self, repo, res):
        self.repo = repo
        self.res = res
        self.co = {f.fid for f in repo.funcs.values() if f.is_async and not f.is_gen}
        self.plain = {f.fid for f in repo.funcs.values()} - self.co
        self.defs = {}
        for c in repo.classes.values():
            for n, fid in c.methods.items():
                self.defs.setdefault(n, set()).add(fid)
        self.aliases = self.find_aliases()
        self.iface = repo.cls('CliInterface')
        self.family = set(repo.subclasses(self.iface)) if self.iface else set()
        self.awaited = set()
        for f in repo.funcs.values():
            for n in ast.walk(f.node):
                v = n.value if isinstance(n, ast.Await) else None
                for x in [v] + (list(n.args) if isinstance(n, ast.Call) and self.callee(n) in SCHEDULERS - CONTAINER else []):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    if isinstance(x, ast.Attribute):
                        self.awaited.add(x.attr)
                    elif isinstance(x, ast.Name):
                        self.awaited.add(x.id)

    @staticmethod
    def callee(n):
        return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None

    def kept(self, fi, call, node):
        """A coroutine handed to a constructor of the package: is what it is kept under ever awaited?"""
        f = call.func
        r = self.repo.resolve_global(fi.module, f.id) if isinstance(f, ast.Name) and f.id not in fi.locals else None
        if not r or r[0] != 'k' or any(isinstance(a, ast.Starred) for a in call.args):
            return UNKNOWN
        m = self.repo.find_member(r[1], '__init__')
        if m is None or m[0] != 'method':
            return UNKNOWN
        ini = self.repo.funcs[m[1]]
        names = [k.arg for k in call.keywords if k.value is node]
        if node in call.args:
            i = call.args.index(node) + 1
            if i >= len(ini.params):
                return UNKNOWN
            names = [ini.params[i]]
        names = set(names)
        if not names or None in names:
            return UNKNOWN
        for n in ast.walk(ini.node):
            if isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in names:
                        return UNKNOWN
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                for t in n.targets:
                    names.add(t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else '?')
        bare = {x.lstrip('_') for x in names}
        return UNKNOWN if any(x.lstrip('_') in bare for x in self.awaited) else BAD

    def find_aliases(self):
        """attribute names assigned a method of the same object: self.a = self.b -> {a: {b}}"""
        out = {}
        for f in self.repo.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                        isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id in ('self', 'cls'):
                    v = n.value
                    t = v.attr if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' else None
                    out.setdefault(n.targets[0].attr, set()).add(t)
        return out

    # -- which calls create a coroutine --------------------------------------------
    def class_defs(self, cid, name, after=None, seen=()):
        r = self.repo.find_member(cid, name, after=after)
        out = set()
        if r is not None and r[0] == 'method':
            out.add(r[1])
        elif r is not None:
            return None
        if after is None:
            for c in self.repo.subclasses(cid):
                ci = self.repo.classes[c]
                if name in ci.methods:
                    out.add(ci.methods[name])
                elif name in ci.props or name in ci.attrs:
                    return None
            if name in self.aliases and name not in seen:
                for t in self.aliases[name]:
                    sub = self.class_defs(cid, t, seen=seen + (name,)) if t else None
                    if not sub:
                        return None
                    out |= sub
        return out

    def aliased(self, fi, name, _busy=set()):
        """what a local stands for when every assignment to it names a function"""
        if name in fi.params or (fi.fid, name) in _busy:
            return None
        stores = sum(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for n in ast.walk(fi.node))
        vals = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name]
        if not vals or len(vals) != stores or not all(isinstance(v, (ast.Attribute, ast.Name)) for v in vals):
            return None
        _busy.add((fi.fid, name))
        try:
            out = set()
            for v in vals:
                r = self.resolve(fi, v)
                if not r:
                    return None
                out |= r
            return out
        finally:
            _busy.discard((fi.fid, name))

    def resolve(self, fi, f):
        """functions a call may reach, None when not known"""
        repo = self.repo
        if isinstance(f, ast.Name):
            o = fi
            while o is not None:
                for n in ast.walk(o.node):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == f.id and n is not o.node:
                        k = [x.fid for x in repo.funcs.values() if x.node is n]
                        if k:
                            return set(k)
                if f.id in o.locals:
                    return self.aliased(o, f.id)
                o = o.outer
            r = repo.resolve_global(fi.module, f.id)
            if r and r[0] == 'f':
                return {r[1]}
            if r and r[0] == 'x' and r[1] in EXT_ASYNC:
                return {r[1]}
            return None
        if not isinstance(f, ast.Attribute):
            return None
        top = fi
        while top.outer is not None:
            top = top.outer
        v = f.value
        if top.cls is not None:
            cid = top.cls.cid
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return self.class_defs(cid, f.attr, after=cid)
            if isinstance(v, ast.Name) and top.params and v.id == top.params[0] and top.kind != 'static' and \
                    (fi is top or v.id not in fi.locals):
                return self.class_defs(cid, f.attr)
        if isinstance(v, ast.Name):
            if not (v.id in fi.locals):
                r = repo.resolve_global(fi.module, v.id)
                if r and r[0] == 'k':
                    return self.class_defs(r[1], f.attr)
                if r and r[0] == 'x' and r[1] + '.' + f.attr in EXT_ASYNC:
                    return {r[1] + '.' + f.attr}
                if v.id == 'asyncio' and 'asyncio.' + f.attr in EXT_ASYNC:
                    return {'asyncio.' + f.attr}
                if r and r[0] == 'x':
                    return None
        last = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
        fam = self.family
        if fam and last in ('cli', '_cli', '_interface', 'child_cli', '_child_cli', 'top_cli') or \
                last in ('parent', '_parent') and top.cls is not None and top.cls.cid in fam:
            d = self.class_defs(self.iface, f.attr)
            if d:
                return d
        if last in READER_NAMES and f.attr in READER_ASYNC:
            return {'reader.' + f.attr}
        if f.attr in CONTAINER or f.attr in self.aliases:
            return None
        d = self.defs.get(f.attr)
        return set(d) if d else None

    def creates(self, fi, call, known):
        """the call creates a coroutine on every resolution"""
        if ast.dump(call.func) in known:
            return True
        r = self.resolve(fi, call.func)
        return bool(r) and all(x in self.co or x in EXT_ASYNC or x.startswith('reader.') for x in r)

    # -- what happens to it -----------------------------------------------------------
    def use(self, fi, node, par):
        p = par.get(node)
        if isinstance(p, ast.Await):
            return OK
        if isinstance(p, ast.Return):
            return RETURNED
        if isinstance(p, ast.Lambda):
            return UNKNOWN
        if isinstance(p, ast.Expr):
            return BAD
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            if isinstance(p, ast.NamedExpr):
                up = self.use(fi, p, par)
                if up in (OK, UNKNOWN, RETURNED):
                    return up
                t = [p.target]
            else:
                t = p.targets if isinstance(p, ast.Assign) else [p.target]
            if all(isinstance(x, ast.Name) for x in t):
                return self.name_use(fi, [x.id for x in t], par, p)
            if any(isinstance(x, (ast.Tuple, ast.List)) for x in t):
                return BAD
            return UNKNOWN
        if isinstance(p, ast.Call):
            if p.func is node:
                return BAD
            n = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else None
            if n in SCHEDULERS:
                return OK
            if n in INERT and not isinstance(p.func, ast.Attribute):
                return BAD
            if n in ('print', 'error', 'write') and isinstance(p.func, ast.Attribute):
                return BAD
            return self.kept(fi, p, node)
        if isinstance(p, ast.keyword):
            c = par.get(p)
            return self.kept(fi, c, node) if isinstance(c, ast.Call) and self.callee(c) not in SCHEDULERS else UNKNOWN
        if isinstance(p, ast.IfExp):
            return BAD if p.test is node else self.use(fi, p, par)
        if isinstance(p, ast.BoolOp):
            return BAD if node is not p.values[-1] else self.use(fi, p, par)
        if isinstance(p, (ast.Attribute, ast.Subscript, ast.Compare, ast.UnaryOp, ast.BinOp, ast.FormattedValue, ast.If, ast.While,
                          ast.Assert, ast.Raise, ast.AugAssign, ast.Delete, ast.With)):
            if isinstance(p, ast.Attribute) and p.attr in ('send', 'close', '__await__', 'throw'):
                return UNKNOWN
            return BAD
        if isinstance(p, ast.For) and p.iter is node:
            return BAD
        if isinstance(p, ast.comprehension):
            return BAD if node in p.ifs or (p.iter is node and not p.is_async) else UNKNOWN
        return UNKNOWN

    def name_use(self, fi, names, par, at):
        """every use of a local that holds a coroutine"""
        res = []
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                p = par.get(n)
                if isinstance(p, (ast.Assign, ast.AnnAssign)) and p is not at:
                    res.append(UNKNOWN)
                else:
                    u = self.use(fi, n, par)
                    res.append(OK if u == RETURNED and not fi.is_async else u)
        if any(x in (OK, UNKNOWN) for x in res):
            return OK
        if RETURNED in res:
            return RETURNED
        return BAD

    # -- coroutine functions known only at run time ---------------------------------------
    def dynamic(self, fi):
        """calls under a test that says their function is a coroutine function -> {call node}"""
        out = {}

        def tested(t):
            if isinstance(t, ast.Call):
                n = t.func.attr if isinstance(t.func, ast.Attribute) else t.func.id if isinstance(t.func, ast.Name) else None
                if n == 'iscoroutinefunction' and len(t.args) == 1:
                    return {ast.dump(t.args[0])}
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
                r = set()
                for v in t.values:
                    r |= tested(v)
                return r
            return set()

        def mark(stmts, keys):
            for s in stmts:
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and ast.dump(n.func) in keys:
                        out[n] = keys

        for n in ast.walk(fi.node):
            if isinstance(n, ast.If):
                k = tested(n.test)
                if k:
                    mark(n.body, k)
                if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
                    k = tested(n.test.operand)
                    if k:
                        mark(n.orelse, k)
            elif isinstance(n, ast.IfExp):
                k = tested(n.test)
                if k:
                    mark([n.body], k)
        return out

    def run(self):
        repo, res = self.repo, self.res
        changed = True
        rounds = 0
        while changed and rounds < 10:
            changed = False
            rounds += 1
            found = []
            sites = 0
            for fi in repo.funcs.values():
                par = {}
                for n in ast.walk(fi.node):
                    for c in ast.iter_child_nodes(n):
                        par[c] = n
                nested = set()
                for n in ast.walk(fi.node):
                    if n is not fi.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        if not isinstance(n, ast.Lambda):
                            nested |= set(ast.walk(n))
                dyn = self.dynamic(fi)
                for n in ast.walk(fi.node):
                    if not isinstance(n, ast.Call) or n in nested:
                        continue
                    if n in dyn or self.creates(fi, n, ()):
                        sites += 1
                        u = self.use(fi, n, par)
                        if u == RETURNED:
                            if not fi.is_async:
                                if fi.fid not in self.co:
                                    self.co.add(fi.fid)
                                    changed = True
                                continue
                            u = BAD if not self.twice(fi) else OK
                        if u == BAD:
                            found.append((fi, n))
                        elif u == UNKNOWN:
                            found.append((fi, None))
            if not changed:
                res.count('call_sites', sites)
                for fi, n in found:
                    if n is None:
                        res.count('undecided')
                        continue
                    res.violate('created-but-never-awaited', '%s:%d' % (fi.module.path, n.lineno), fi.qual,
                                "%s creates a coroutine that is neither awaited nor scheduled" % ast.unparse(n)[:80])

    def twice(self, fi):
        """some caller awaits the result of this function's result"""
        for f in self.repo.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Await) and isinstance(n.value, ast.Await):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                        (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in ('isawaitable', 'iscoroutine'):
                    return True
        return False


EXAMPLE = '''
import asyncio
class Ex:
    async def a(self):
        return 1
    async def b(self):
        self.a()
    async def c(self):
        return self.a()
    async def d(self):
        x = self.a()
        return x + 1
    def e(self):
        return self.a()
    async def f(self):
        self.e()
    async def g(self):
        y = self.a()
        await y
        await asyncio.gather(*[self.a()])
        return await self.e()
'''


def self_test(root):
    """the rule fires on the four mistakes of the example and on nothing else in it"""
    from ..result import Result
    r = Repo(root, {'saexample': EXAMPLE})
    for k in list(r.funcs):
        if not k.startswith('saexample:'):
            del r.funcs[k]
    for k in list(r.classes):
        if not k.startswith('saexample.'):
            del r.classes[k]
    t = Result('C26', 'quick')
    Rule(r, t).run()
    got = sorted(v['construct'] for v in t.violations)
    if got != ['Ex.b', 'Ex.c', 'Ex.d', 'Ex.f']:
        raise Exception("the rule does not find its own examples: %s" % got)


def run(repo, res):
    res.rules = ['created-but-never-awaited']
    res.explanation = ("Every call in the package is resolved through class hierarchy, imports and aliases; a call all of whose "
                       "targets are coroutine functions, or whose function is a coroutine function by a dominating test, must be "
                       "awaited, scheduled or handed on.")
    res.assumptions = ["the reader's readline, input and insert_text are the terminal library's coroutines"]
    self_test(repo.root)
    Rule(repo, res).run()
    res.count('async_functions', sum(1 for f in repo.funcs.values() if f.is_async))
    res.need('async_functions', 20, 'asynchronous functions')
    res.need('call_sites', 30, 'calls that create a coroutine')
