"""Decides order statements about value-flow terms under the facts of a path.

Every statement handled here compares numbers; whether it holds depends only
on the relative order (and NaN-ness) of finitely many atoms and constants, so
a finite table of order types decides it: each atom ranges over the constants
involved, points between, below and above them, NaN and the infinities; rows
that contradict a fact of the path are excluded.

  True   the statement holds in every remaining row (atoms: the compared
         terms as wholes, so nothing is assumed about them)
  False  it fails in a row whose atoms are inputs: arguments, or stored state
         of which only the invariant is known
  None   neither could be established
"""
import itertools
import math
from fractions import Fraction as Q
from .common import *
from .pointwise import Point, Unknown, Raises, nan, truth
from . import pointwise

ARITH = {'add', 'sub', 'mul', 'div', 'neg', 'abs', 'pow', 'floordiv', 'mod',
         'max', 'min', 'np.maximum', 'np.minimum', 'np.abs', 'np.sqrt',
         'np.fmax', 'np.fmin', 'np.clip', 'np.absolute', 'np.fabs',
         'np.nextafter', 'np.spacing', 'np.floor', 'np.ceil', 'np.trunc',
         'np.sign', 'np.mod', 'np.fmod', 'np.remainder', 'np.square',
         'np.reciprocal', 'np.round', 'round'}
LOGIC = {'gamma', 'and', 'or', 'not', 'lt', 'le', 'eq', 'ne', 'isnan',
         'isnone', 'truthy', 'isfinite', 'np.isnan', 'np.isfinite',
         'np.less', 'np.less_equal', 'np.greater', 'np.greater_equal',
         'np.logical_not', 'np.logical_and', 'np.logical_or', 'tobool',
         'np.isinf', 'isinf', 'invert', 'bitand', 'bitor', 'isclose',
         'np.isclose', 'math.isclose'}
PASS = {'tonum', 'tofloat', 'toint', 'astype', 'copy', 'np.copy', 'dcopy',
        'np.float64', 'fresh'}
INPUT = ('param', 'fld', 'item', 'elem', 'root')
LIMIT = 4000


class Pt(Point):
    def ev0(self, t):
        if t.op in ('np.clip',) and len(t.args) == 3:
            x, a, b = (pointwise.num(self.ev(y)) for y in t.args)
            return x if nan(x) else min(max(x, a), b)
        if t.op in ('isinf', 'np.isinf'):
            x = pointwise.num(self.ev(t.args[0]))
            return isinstance(x, float) and not nan(x)
        if t.op in ('np.float64', 'tofloat', 'dcopy', 'np.float32'):
            return self.ev(t.args[-1])
        return Point.ev0(self, t)


def atoms(t, out, whole, consts):
    """Numeric atoms of a boolean or numeric term."""
    if is_num(t):
        v = cval(t)
        if isinstance(v, float) and (v != v or abs(v) == math.inf):
            return
        consts.add(Q(v))
        return
    if t.op in ('const', 'nan', 'str', 'tuple', 'enum'):
        return
    if t.op in LOGIC or t.op in PASS or (not whole and t.op in ARITH):
        for a in t.args:
            if isinstance(a, T):
                atoms(a, out, whole, consts)
        return
    out.add(t)


def valued(t):
    """Subterms of t on whose value t depends; shapes and types of arrays
    do not constrain the numbers they were computed from."""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        if x.op not in ('shape', 'dtype', 'len', 'tostr'):
            todo.extend(x.args)
    return out


def elementwise(st):
    """Facts 'no/every element ...' as facts about single elements."""
    out = []
    for f, p in list(st.facts.items()):
        if (f.op == 'any' and p is False) or (f.op == 'all' and p is True):
            out.append((f.args[0], p))
    return out


def instance(body, at):
    """The elementwise condition for the element at: item(A, ix) or None."""
    arr, ix = at.args
    if not contains(body, lambda x: x is arr):
        return None

    def fn(t):
        return at if t is arr else t
    return rewrite(body, fn)


class Order:
    known = ()          # stored scalars whose invariant is known

    def external(self, a):
        """An input that can take any value the facts and its invariant
        allow."""
        if a.op == 'exists':
            return True
        if a.op not in INPUT or uninterpreted(a):
            return False
        k, t, p = root_of(a)
        if k == 'root':
            return a.op == 'fld' and str(a.args[1]).lstrip('_') in self.known
        return k in ('param', 'file0')

    def __init__(self, st, facts=()):
        self.st = st
        self.facts = [(f, p) for f, p in st.facts.items()
                      if f.op not in ('isinstance', 'exists', 'in')]
        self.facts += list(facts)
        self.every = elementwise(st)

    def relevant(self, want, whole):
        """Facts over the wanted atoms (closed once under sharing)."""
        facts = list(self.facts)
        for a in list(want):
            if a.op in ('item', 'elem') and len(a.args) == 2:
                for body, p in self.every:
                    b = instance(body, a)
                    if b is not None:
                        facts.append((b, p))
        out = []
        consts = set()
        for f, p in facts:
            s, c = set(), set()
            atoms(f, s, whole, c)
            if s and s <= want:
                out.append((f, p, s))
                consts |= c
        return out, consts

    def table(self, goal, whole, closure=True, raw=False):
        """(every row satisfies goal?, a failing row, complete?)"""
        goal = goal if raw else deep_simp(goal, self.st)
        if goal is TRUE:
            return True, None
        want, consts = set(), set()
        atoms(goal, want, whole, consts)
        if closure:
            # one step of closure: atoms tied to the wanted ones
            for f, p in self.facts:
                s = set()
                atoms(f, s, whole, set())
                if s & want and len(s | want) <= 3 and f.op in (
                        'lt', 'le', 'eq'):
                    want |= s
        facts, c2 = self.relevant(want, whole)
        consts |= c2
        cs = sorted(consts)
        if not want:
            want = set()
        k = max(1, len(want))
        pts = []
        if cs:
            pts += [cs[0] - 10 - i for i in range(k)]
            pts += [cs[-1] + 10 + i for i in range(k)]
            for x, y in zip(cs, cs[1:]):
                pts += [x + (y - x) * Q(i + 1, k + 1) for i in range(k)]
            pts += cs
        else:
            pts += [Q(i) for i in range(-1, k + 1)]
        pts += [math.inf, -math.inf, math.nan]
        want = sorted(want, key=lambda t: t.id)
        cand = {}
        for a in want:
            mine = [(f, p) for f, p, s in facts if s == {a}]
            cand[a] = [v for v in pts if self.row({a: v}, mine) is not False]
        size = 1
        for a in want:
            size *= len(cand[a])
        if size > LIMIT:
            return None, None
        rest = [(f, p) for f, p, s in facts if len(s) > 1]
        every, bad = True, None
        for vs in itertools.product(*[cand[a] for a in want]):
            row = dict(zip(want, vs))
            ok = self.row(row, rest)
            if ok is False:
                continue
            try:
                g = truth(Pt(row).ev(goal))
            except (Unknown, Raises):
                every = None
                continue
            if not g:
                if ok is None or any(self.row({a: row[a]}, [
                        (f, p) for f, p, s in facts if s == {a}]) is None
                        for a in want):
                    every = None if every is not False else False
                    continue
                every, bad = False, row
                break
        return every, bad

    @staticmethod
    def row(val, facts):
        und = False
        pt = Pt(val)
        for f, p in facts:
            try:
                v = pt.ev(f)
            except (Unknown, Raises):
                und = True
                continue
            if isinstance(v, bool) and v != p:
                return False
        return None if und else True

    def abstracted(self, goal, v):
        """The goal proved with v as an arbitrary value?"""
        sym = mk('param', '$value')

        def sub(t):
            return rewrite(t, lambda x: sym if x is v else x)
        o = type(self)(State(), [(sub(f), p) for f, p in self.facts
                                 if contains(f, lambda x: x is v)])
        return o.table(sub(goal), True, False, True)[0]

    def holds(self, goal, v=None):
        """(verdict, witness); v: a compound value the goal is about"""
        try:
            if decide(goal, self.st) is True:
                return True, None
            if v is not None and v.op not in INPUT and not is_const(v) and \
                    self.abstracted(goal, v) is True:
                return True, None
            for closure, raw in ((False, False), (True, False),
                                 (False, True)):
                v, _ = self.table(goal, True, closure, raw)
                if v is True:
                    return True, None
            v, row = self.table(goal, False)
        except RecursionError:
            return None, None
        if v is False and row is not None:
            if all(self.external(a) for a in row):
                free = self.unconstrained(row)
                return (False, row) if free else (None, row)
            return None, row
        return (True, None) if v is True else (None, None)

    def unconstrained(self, row):
        """No fact that could not be evaluated mentions the atoms."""
        for f, p in self.facts:
            if not any(a in valued(f) for a in row):
                continue
            s = set()
            atoms(f, s, False, set())
            if s <= set(row):
                continue
            if s and all(x in row or self.external(x) for x in s):
                # ties the atoms to other inputs, which can be chosen freely
                # unless the row is excluded whatever they are
                continue
            if f.op in ('any', 'all', 'or', 'and'):
                continue
            return False
        return True




def between(v, lo=None, hi=None, strict=False):
    """The statement lo <= v <= hi and v is a number."""
    c = []
    op = 'lt' if strict else 'le'
    if lo is not None:
        c.append(mk(op, const(lo), v))
    if hi is not None:
        c.append(mk(op, v, const(hi)))
    c.append(t_not(mk('isnan', v)))
    return t_and(*c)


def describe(row):
    return ', '.join('%s = %s' % (show(a, 4), float(v) if not isinstance(
        v, float) else v) for a, v in row.items()) if row else ''
