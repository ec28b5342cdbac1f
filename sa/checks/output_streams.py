"""C25: what the interpreter prints goes to the streams it was given."""

import ast

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..state import mk_eq
from ..cliclient import CliClient, start, need_method, need_class, is_instance_call
from ..result import Anchor

COMPILE_TIME = ('compiler', 'binding_text_parser', 'lex_yacc_common')
PROCESS = {'sys.stdout': 'out', 'sys.stderr': 'err', 'sys.__stdout__': 'out', 'sys.__stderr__': 'err'}
TRACE = ('print_exc', 'print_tb', 'print_exception', 'print_last', 'print_stack')
STREAM_KW = {'file', 'stream'}


# ---------------------------------------------------------------------- statements
class Statements:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.used = self.references()

    def references(self):
        """names used anywhere but under the guard of a module run as a script"""
        out = set()
        for m in self.repo.modules.values():
            skip = set()
            for n in m.tree.body:
                if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
                    skip |= set(ast.walk(n))
            for n in ast.walk(m.tree):
                if n in skip:
                    continue
                if isinstance(n, ast.Name):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.ImportFrom):
                    out |= {a.name for a in n.names}
        return out

    def dotted(self, fi, e):
        """full name of an expression that denotes something outside the package"""
        if isinstance(e, ast.Name):
            if e.id in fi.locals:
                return None
            r = self.repo.resolve_global(fi.module, e.id)
            return r[1] if r and r[0] == 'x' else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(fi, e.value)
            return b + '.' + e.attr if b else None
        return None

    def stream(self, fi, e, depth=0):
        """'process', 'given', None (unknown)"""
        d = self.dotted(fi, e)
        if d in PROCESS:
            return 'process'
        if isinstance(e, ast.Constant) and e.value is None:
            return 'process'
        if isinstance(e, ast.Attribute):
            return 'given' if e.attr.lstrip('_') in ('stdout', 'stderr') else None
        if isinstance(e, ast.Name) and e.id in fi.locals and depth < 4:
            got = set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    got.add(self.stream(fi, n.value, depth + 1))
            if got == {'process'} and e.id not in fi.params:
                return 'process'
            return 'given' if got == {'given'} else None
        return None

    def bad(self, fi, n, why):
        self.res.violate('output-statement', '%s:%d' % (fi.module.path, n.lineno), fi.qual, "%s: %s" % (ast.unparse(n)[:70], why))

    def call(self, fi, n):
        d = self.dotted(fi, n.func)
        kws = {k.arg: k.value for k in n.keywords}
        if d in ('builtins.print',) or d and d.startswith('traceback.') or \
                isinstance(n.func, ast.Attribute) and n.func.attr in ('print', 'error', 'write'):
            self.res.count('output_sites')
        if None in kws:
            return
        if d == 'builtins.print':
            self.res.count('print_calls')
            if 'file' not in kws:
                self.bad(fi, n, "prints to the process's output whatever streams were given")
            else:
                k = self.stream(fi, kws['file'])
                if k == 'process':
                    self.bad(fi, n, "prints to the process's stream whatever streams were given")
                elif k is None:
                    self.res.count('undecided')
            return
        if d and d.startswith('traceback.') and d.split('.')[-1] in TRACE:
            self.res.count('traceback_calls')
            if 'file' not in kws:
                if not n.args or d.split('.')[-1] != 'print_tb' or len(n.args) < 3:
                    self.bad(fi, n, "the traceback goes to the process's error stream whatever streams were given")
            elif self.stream(fi, kws['file']) == 'process':
                self.bad(fi, n, "the traceback goes to the process's error stream whatever streams were given")
            return
        if d in ('builtins.input', 'pprint.pprint', 'pprint.pp', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.writelines',
                 'sys.stderr.writelines', 'sys.__stdout__.write', 'sys.__stderr__.write', 'warnings.warn', 'sys.excepthook'):
            if d.startswith('pprint') and 'stream' in kws and self.stream(fi, kws['stream']) != 'process':
                return
            if d == 'warnings.warn':
                return
            self.bad(fi, n, "uses the process's streams whatever streams were given")
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('write', 'writelines'):
            k = self.stream(fi, n.func.value)
            if k == 'process':
                self.bad(fi, n, "writes to the process's stream whatever streams were given")
            elif k == 'given':
                self.res.count('stream_writes')
            return
        if d == 'pstats.Stats':
            self.res.count('stats_calls')
            if 'stream' not in kws or self.stream(fi, kws['stream']) == 'process':
                self.bad(fi, n, "the profile is printed to the process's output whatever streams were given")

    def run(self):
        for fi in self.repo.funcs.values():
            if fi.module.name.split('.')[-1] in COMPILE_TIME:
                continue
            if fi.cls is None and fi.outer is None and fi.name not in self.used:
                continue
            if fi.cls is not None and fi.cls.name == 'StdStreamsHolder':
                continue
            self.res.count('functions_scanned')
            nested = set()
            for n in ast.walk(fi.node):
                if n is not fi.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    nested |= set(ast.walk(n))
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Call) and n not in nested:
                    self.call(fi, n)


# ---------------------------------------------------------------------- the streams themselves
class Streams(CliClient):
    boundary = frozenset()
    loop_join = True

    def __init__(self, repo, want):
        super().__init__(repo)
        self.want = want
        self.seen = 0
        self.readers = 0
        self.nested = 0
        self.expect = None
        self.nested_cls = None

    def kind(self, st, v):
        """which stream a value is: 'out', 'err', 'sysout', 'syserr', 'in' or None"""
        if v is None:
            return 'sysout'
        e = st.eqc(v)
        if v == NONE or e == NONE:
            return 'sysout'
        if v[0] == 's' and len(v) == 2 and v[1] in ('out', 'err', 'in'):
            return v[1]
        if v[0] == 'x' and v[1] in PROCESS:
            return 'sys' + PROCESS[v[1]]
        n = show(v)
        if n in PROCESS:
            return 'sys' + PROCESS[n]
        return None

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'func' and tgt.fi.name == 'compile_grammar':
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        if tgt.kind == 'ext' and tgt.name in ('builtins.print', 'print'):
            self.seen += 1
            k = self.kind(st, kwargs.get('file'))
            ok = {self.want['out'], self.want['err']} if self.expect is None else {self.want[self.expect]}
            if k is not None and k not in ok:
                if not (k == 'sysout' and kwargs.get('file') is None and self.want['out'] == 'sysout' and self.expect != 'err'):
                    eng.report('output-follows-configuration', eng.loc(ctx, node), ctx.fi.qual,
                               "output goes to %s where %s is configured" % (k, ' or '.join(sorted(ok))), st)
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        if tgt.kind in ('ext', 'class') and tgt.name.split('.')[-1] == 'NessaidAsyncReadline':
            self.readers += 1
            for n, w in (('stdout', 'out'), ('stderr', 'err'), ('stdin', 'in')):
                if args:
                    break
                k = self.kind(st, kwargs.get(n))
                if n not in kwargs and self.want[w] == w or n in kwargs and k is not None and k != self.want[w] and \
                        not (kwargs[n] == NONE and self.want[w].startswith('sys')) and not (st.eqc(kwargs[n]) == NONE and self.want[w].startswith('sys')):
                    eng.report('reader-gets-the-streams', eng.loc(ctx, node), ctx.fi.qual,
                               "the terminal reader is not given the configured %s" % n, st)
        if self.nested_cls is not None and tgt.val == self.nested_cls:
            self.nested += 1
            for n, w in (('stdout', 'out'), ('stderr', 'err'), ('stdin', 'in')):
                if '**' in kwargs and n not in kwargs or args:
                    continue
                k = self.kind(st, kwargs.get(n))
                if n not in kwargs or k is not None and k != self.want[w]:
                    eng.report('nested-context-gets-the-streams', eng.loc(ctx, node), ctx.fi.qual,
                               "the nested context is not given the %s of its parent" % n, st)
        return None

    def may_raise(self, eng, st, ctx, tgt, node):
        return []


CONFIGS = [{'in', 'out', 'err'}, set(), {'out'}, {'err'}]


def run(repo, res):
    res.rules = ['output-statement', 'output-follows-configuration', 'stream-given', 'reader-gets-the-streams', 'nested-context-gets-the-streams']
    res.explanation = ("Every output statement of the run-time modules is resolved to the stream it names (process streams only "
                       "inside the stream holder). The constructors are then analysed for each stream configuration, and the "
                       "streams the resulting interpreter, its reader and its nested contexts use are compared with those given.")
    res.assumptions = ["a stream that was given is a true value", "compiling a grammar text is not part of running it"]
    Statements(repo, res).run()
    res.need('output_sites', 12, 'output statements')
    for cls in ('NessaidCli', 'NessaidCmd'):
        ini = need_method(repo, cls, '__init__')
        for given in CONFIGS:
            want = {w: (w if w in given else 'sys' + w) for w in ('in', 'out', 'err')}
            cl = Streams(repo, want)
            eng, st = start(repo, cl, cls)
            kw = {'loop': S('p', 'loop'), 'show_grammar': TRUE} if cls == 'NessaidCmd' else {'loop': S('p', 'loop')}
            for p, w in (('stdin', 'in'), ('stdout', 'out'), ('stderr', 'err')):
                kw[p] = S(w) if w in given else NONE
                if w in given:
                    st = st.assume(mk_eq(S(w), NONE), False) or st
                    st = st.assume(S(w), True) or st
            outs = eng.run_entry(ini, st, R('self'), [S('p', 'grammarset')] if cls == 'NessaidCli' else [], kw)
            states = [s for s, v in outs if not isinstance(v, Exc)]
            if not states:
                raise Anchor("the constructor of %s has no normal exit" % cls)
            res.count('configurations')
            # one state per configuration is enough for the streams
            for s in states[:4]:
                for prop, w in (('stdout', 'out'), ('stderr', 'err')):
                    fi = need_method(repo, cls, prop)
                    for a, v in eng.run_entry(fi, s, R('self')):
                        res.count('streams_read')
                        k = None if isinstance(v, Exc) else cl.kind(a, v)
                        if k is None:
                            res.count('undecided')
                        elif k != want[w]:
                            eng.report('stream-given', fi.where, fi.qual, "%s is %s where %s is configured" % (prop, k, want[w]), a)
                for m, w in (('print', 'out'), ('error', 'err')):
                    fi = need_method(repo, cls, m)
                    cl.expect = w
                    n = cl.seen
                    eng.run_entry(fi, s, R('self'), [S('p', 'text')])
                    cl.expect = None
                    if cl.seen == n:
                        res.count('undecided')
                if cls == 'NessaidCmd':
                    cl.nested_cls = S('p', 'cmd_class')
                    eng.run_entry(need_method(repo, cls, 'enter_context'), s, R('self'), [cl.nested_cls])
                    cl.nested_cls = None
            res.count('outputs', cl.seen)
            res.count('readers', cl.readers)
            res.count('nested', cl.nested)
            res.absorb(eng)
    res.need('streams_read', 8, 'reads of the streams')
    res.need('outputs', 8, 'outputs followed')
    res.need('readers', 2, 'terminal readers')
    res.need('nested', 1, 'nested contexts')
