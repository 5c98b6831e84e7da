"""Shared small classes of the interpreter."""
import collections


class Dead(Exception):
    """The current abstract path ends here."""


class Limit(Exception):
    """Time budget of one entry point used up."""


class Node:
    __slots__ = ('id', 'kind', 'data', 'preds', 'func', 'line', 'pc', 'facts',
                 'loops', 'stack')

    def __init__(self, id, kind, data, preds, func, line, pc, facts, loops,
                 stack):
        self.id, self.kind, self.data, self.preds = id, kind, data, preds
        self.func, self.line, self.pc = func, line, pc
        self.facts, self.loops, self.stack = facts, loops, stack

    @property
    def where(self):
        return '%s:%s %s' % (self.func.module.name + '.py' if self.func else
                             '?', self.line,
                             self.func.qual if self.func else '?')


class Outcome:
    __slots__ = ('st', 'value', 'excs', 'node', 'why', 'exact')

    def __init__(self, st, value, excs=None, node=None, why=None):
        self.st, self.value, self.excs = st, value, excs
        self.node, self.why, self.exact = node, why, False


Fold = collections.namedtuple('Fold', 'cnt idx init mu next term cond')


class LoopRec:
    def __init__(self, lid, cnt, idx, func, line, is_while, mus, pre, backs,
                 breaks, exit_st, changed, over):
        self.lid, self.cnt, self.idx, self.func = lid, cnt, idx, func
        self.line, self.is_while, self.mus = line, is_while, mus
        self.pre, self.backs, self.breaks = pre, backs, breaks
        self.exit_st, self.changed, self.over = exit_st, changed, over
        self.leaves = breaks            # and the returns from inside


class Frame:
    def __init__(self, fid, func, module):
        self.fid, self.func, self.module = fid, func, module
        self.returns = []
        self.loops = []
        self.closure = None
        self.nonlocals = set()
        self.globals_ = set()
        self.exc_stack = []
        self.yields = None


CHECKS = {'number', 'array', 'boolean', 'string', 'class_object',
          'same_shape_arrays'}


def common(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return a[:i]
