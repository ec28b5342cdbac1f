"""Shared set-up for the checks that analyse the interpreter loop (cli.py, cmd.py)."""

from .values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, ANY_BASE, mentions, show
from .state import State, Obj
from .engine import Client, Target, Budget
from .models import Analyzer
from .result import Anchor

RL = 'nessaid_readline.async_readline.'
RL_EOF = ('cls', RL + 'NessaidReadlineEOF')
RL_INT = ('cls', RL + 'NessaidReadlineKeyboadInterrupt')


def const(repo, mod, name):
    v = repo.const(mod, name)
    if v is None:
        raise Anchor("constant %s not found in %s" % (name, mod))
    return C(v)


def need_method(repo, cls, name):
    fi = repo.method(cls, name)
    if fi is None:
        raise Anchor("%s.%s not found" % (cls, name))
    return fi


def need_class(repo, name):
    c = repo.cls(name)
    if c is None:
        raise Anchor("class %s not found" % name)
    return c


class CliClient(Client):
    """Knows which calls are boundaries of the interpreter and what they may raise."""
    merge_limit = 16
    # (class, method) of the package treated as boundaries; the class is where
    # the method is defined, so overriding methods are analysed in detail
    boundary = frozenset([('CliInterface', 'match')])
    boundary_raises = {('CliInterface', 'match'): [ANY_EXC]}
    readline_raises = ()

    def __init__(self, repo):
        self.repo = repo
        self.hooks = set()

    def bkey(self, tgt):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None:
            return (tgt.fi.cls.name, tgt.fi.name)
        return None

    def is_opaque(self, eng, st, ctx, tgt):
        k = self.bkey(tgt)
        if k in self.boundary:
            return True
        if tgt.fi is not None and tgt.fi.cls is not None and tgt.fi.hook(self.repo) and not tgt.fi.name.startswith('__'):
            self.hooks.add(tgt.fi.qual)
            return True
        return False

    def hook_raises(self, eng, st, ctx, tgt, node):
        return [ANY_EXC]

    def may_raise(self, eng, st, ctx, tgt, node):
        k = self.bkey(tgt)
        if k is not None:
            if k in self.boundary:
                return list(self.boundary_raises.get(k, ()))
            if tgt.fi.hook(self.repo) and not tgt.fi.name.startswith('__'):
                return self.hook_raises(eng, st, ctx, tgt, node)
            return []
        return self.ext_may_raise(eng, st, ctx, tgt, node)

    def ext_may_raise(self, eng, st, ctx, tgt, node):
        return []


def start(repo, client, cls='NessaidCmd', attrs=None, budget=600000):
    cid = need_class(repo, cls)
    st = State().setobj('self', Obj('inst', cid, dict(attrs or {})))
    eng = Analyzer(repo, client, budget)
    return eng, st


def a_list(*items, kind='list'):
    """An object holding exactly these items."""
    return Obj(kind, None, (tuple(('I', v) for v in items), len(items), len(items)))


def keep(st, *oids):
    """Hold on to objects that only the check refers to."""
    for o in oids:
        st = st.setvar('$held', str(o), R(o))
    return st


def entry(repo, eng, st, cls, name, args=(), kwargs=None):
    fi = need_method(repo, cls, name)
    return eng.run_entry(fi, st, R('self'), args, kwargs), fi


def is_instance_call(tgt, repo, clsname, name):
    """Does the call resolve to clsname.name as defined in the package?"""
    return tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None and \
        tgt.fi.cls.name == clsname and tgt.fi.name == name


def is_ancestor(v):
    """self.parent, self._parent, self.parent.parent, ..."""
    while True:
        if v[0] == 's' and v[1:2] == ('init',) and v[3] in ('_parent', 'parent'):
            return v[2] == 'self'
        if v[0] == 'o' and v[1] == 'attr' and v[3] in ('_parent', 'parent'):
            v = v[2]
            if v == R('self'):
                return True
            continue
        return False
