"""A script of operations on the repository's classes, run by the interpreter: build, read, write, call."""

import ast
import time

from .values import Exc
from .state import State
from .engine import Budget
from .models import Analyzer
from .cliclient import need_class


class Drive:
    """Every operation takes a state and gives [(state, value or Exc)]."""

    def __init__(self, repo, client, anchor, budget=600000):
        self.repo = repo
        self.eng = Analyzer(repo, client, budget)
        self.eng.strict = True
        self.fi = anchor
        self.ctx = self.eng.root_ctx(anchor)
        self.n = 0

    def node(self):
        self.n += 1
        # places of the script are not places of the source
        return ast.copy_location(ast.Pass(), ast.Pass(lineno=1000000 + self.n, col_offset=0))

    def start(self):
        return State()

    def guard(self, f):
        try:
            if time.time() > self.eng.deadline:
                raise Budget("out of time")
            return f()
        except (Budget, RecursionError) as e:
            self.eng.incomplete.append("%s: %s" % (self.fi.qual, e))
            return []

    def hold(self, res):
        """Values a script uses later are still in use."""
        out = []
        for s, v in res:
            if not isinstance(v, Exc):
                self.n += 1
                s = s.setvar('$script', 'v%d' % self.n, v)
            out.append((s, v))
        return out

    def new(self, st, cls, *args, **kw):
        cid = need_class(self.repo, cls) if isinstance(cls, str) else cls[1]
        return self.hold(self.guard(lambda: self.eng.construct(('k', cid), list(args), kw, st, self.ctx, self.node())))

    def get(self, st, v, name):
        return self.hold(self.guard(lambda: self.eng.get_attr(st, v, name, self.ctx, self.node())))

    def set(self, st, v, name, val):
        return self.guard(lambda: self.eng.set_attr(st, v, name, val, self.ctx, self.node()))

    def call(self, st, v, name, *args, **kw):
        return self.hold(self.guard(lambda: self.eng.call_method(st, v, name, list(args), kw, self.ctx, self.node(), run=True)))

    def func(self, st, fi, *args, **kw):
        return self.hold(self.guard(lambda: self.eng.invoke(('f', fi.fid, None), list(args), kw, st, self.ctx, self.node(), run=True)))


def normal(res):
    return [(s, v) for s, v in res if not isinstance(v, Exc)]
