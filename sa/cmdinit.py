"""The command interpreter's constructor on a witness class: reflection is resolved over the class table, docstrings stay symbolic."""

import ast

from .repo import Repo
from .values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, mentions, show
from .state import Obj, mk_eq
from .cliclient import CliClient, start, need_method, need_class
from .result import Anchor

WITNESS = '''
from nessaid_cli.cmd import NessaidCmd


class SaWitness(NessaidCmd):
    """witness grammar"""
    do_flag = 5
    run_flag = 5

    def do_alpha(self):
        """doc alpha"""

    async def do_beta(self, one):
        """doc beta"""

    def do_gamma(self, zulu, alpha, mike=None):
        """doc gamma"""

    async def do_delta(self, four, three, two, one):
        """doc delta"""

    def do_silent(self, one):
        return one

    def undo_it(self):
        """doc undo"""

    def document(self, one):
        """doc document"""

    def runner(self):
        """doc runner"""

    def run_one(self, second, first):
        """doc run one"""

    async def run_two(self):
        """doc run two"""
'''


def docstring(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[0].value.value
    return None


class Reflect(CliClient):
    boundary = frozenset()
    loop_join = True
    items_limit = 400
    distinct = 64
    merge_limit = 8

    def __init__(self, repo):
        super().__init__(repo)
        self.texts = []
        self.reads = set()
        self.dirs = 0

    def members(self, st, oid):
        o = st.heap[oid]
        names = {n for n in o.data if not n.startswith('$')}
        for c in self.repo.mro(o.cls):
            ci = self.repo.classes.get(c)
            if ci is not None:
                names |= set(ci.methods) | set(ci.props) | set(ci.attrs)
        return sorted(names)

    def func_attr(self, eng, st, v, info, name):
        if name != '__doc__':
            return None
        if docstring(info.node) is None:
            return st, NONE
        ident = info.cid if isinstance(info.node, ast.ClassDef) else info.fid
        s = S('doc', ident)
        self.reads.add(ident)
        st = st.assume(s, True) or st
        st = st.setfact(O('isinst', s, 'str'), True)
        return st, s

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind in ('func', 'ext') and tgt.name.split('.')[-1] == 'compile_grammar':
            self.texts.append((args[0] if args else kwargs.get('grammar_text', S('none')), st))
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        if tgt.kind == 'ext' and tgt.name == 'builtins.dir' and len(args) == 1 and args[0][0] == 'r' and \
                st.heap[args[0][1]].kind == 'inst' and st.heap[args[0][1]].cls in self.repo.classes:
            self.dirs += 1
            st, l = eng.new_list(st, ctx, node, [C(n) for n in self.members(st, args[0][1])], tag='dir')
            return [(st, l)]
        if tgt.kind == 'ext' and tgt.name == 'inspect.getfullargspec' and len(args) == 1 and args[0][0] in ('b', 'f'):
            fi = self.repo.funcs[args[0][2] if args[0][0] == 'b' else args[0][1]]
            st, l = eng.new_list(st, ctx, node, [C(n) for n in fi.params], tag='params')
            st, r = eng.alloc(st, ctx, node, 'inst', None, {'args': l, 'varargs': NONE, 'varkw': NONE}, 'spec')
            return [(st, r)]
        if tgt.kind == 'ext' and tgt.name == 'inspect.signature' and len(args) == 1 and args[0][0] in ('b', 'f'):
            fi = self.repo.funcs[args[0][2] if args[0][0] == 'b' else args[0][1]]
            names = fi.params[1:] if args[0][0] == 'b' else fi.params
            st, d = eng.alloc(st, ctx, node, 'dict', None, (tuple((C(n), S('param', n)) for n in names), False), 'params')
            st, r = eng.alloc(st, ctx, node, 'inst', None, {'parameters': d}, 'sig')
            return [(st, r)]
        if tgt.kind == 'ext' and tgt.name in ('textwrap.dedent', 'inspect.cleandoc') and len(args) == 1:
            return [(st, O('dedent', args[0]))]
        if tgt.kind == 'class' and tgt.val[1] not in self.repo.classes:
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        fi = tgt.fi
        if fi is not None and fi.cls is not None and fi.cls.name in ('NessaidCli', 'CliInterface') and fi.name == '__init__':
            return [(st, NONE)]
        return None

    def may_raise(self, eng, st, ctx, tgt, node):
        return []


class Hierarchy(Reflect):
    """The classes of a witness are known too."""
    loop_join = False
    unroll = 12
    merge_limit = 64
    recursion = 8

    def func_attr(self, eng, st, v, info, name):
        if name in ('__mro__', '__bases__') and isinstance(info.node, ast.ClassDef):
            cs = self.repo.mro(info.cid) if name == '__mro__' else info.bases
            return st, T(('k' if c in self.repo.classes else 'x', c) for c in cs)
        r = super().func_attr(eng, st, v, info, name)
        if r is not None and r[1] != NONE:
            # texts of different classes differ
            st = r[0]
            for other in sorted(self.reads):
                if S('doc', other) != r[1]:
                    st = st.assume(mk_eq(r[1], S('doc', other)), False) or st
            return st, r[1]
        return r

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'meth' and tgt.name == 'mro' and tgt.recv[0] == 'k' and not args:
            known = [c for c in self.repo.mro(tgt.recv[1])]
            st, l = eng.new_list(st, ctx, node, [('k' if c in self.repo.classes else 'x', c) for c in known], tag='mro')
            return [(st, l)]
        if tgt.kind == 'ext' and tgt.name == 'inspect.getdoc' and len(args) == 1 and args[0][0] in ('k', 'r'):
            cid = args[0][1] if args[0][0] == 'k' else st.heap[args[0][1]].cls
            for c in self.repo.mro(cid) if cid in self.repo.classes else ():
                ci = self.repo.classes.get(c)
                if ci is not None and docstring(ci.node) is not None:
                    st, d = self.func_attr(eng, st, ('k', c), ci, '__doc__')
                    return [(st, O('dedent', d))]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


def construct(repo, cls, config, client=Reflect, before=None):
    """Run the constructor -> (engine, client, [(text, state)])"""
    cl = client(repo)
    eng, st = start(repo, cl, cls)
    if before is not None:
        st = before(eng, st)
    fi = need_method(repo, cls, '__init__')
    kw = {'loop': S('p', 'loop'), 'stdin': S('in'), 'stdout': S('out'), 'stderr': S('err')}
    kw.update(config)
    for v in kw.values():
        if v[0] == 's':
            st = st.assume(v, True) or st
            st = st.assume(mk_eq(v, NONE), False) or st
    eng.run_entry(fi, st, R('self'), [], kw)
    return eng, cl, cl.texts
