"""Concretisation of what a state knows: an alarm is only raised for a state that some
assignment of the unknown scalars satisfies (and, for a difference, shows the difference).

This never looks at the program; it only evaluates the state's own facts, so that a path
which the abstract domains failed to recognise as impossible is not reported."""
import random
import time

from .vals import *

CAP = (1 << 62)


class NoValue(Exception):
    pass


INTERP = {'lin', 'div', 'rem', 'mul', 'trunc', 'popcount', 'byte', 'bit', 'not', 'beq', 'ge0', 'eq0', 'tabof',
          'op_BitAnd', 'op_BitOr', 'op_BitXor', 'op_Shl', 'op_Shr'}


def kids(v):
    """The direct scalar constituents of an interpreted value, or None for a leaf."""
    if v.k == 'tab':
        return (v.a[0],)
    if v.k == 'bv':
        return tuple({b[0] for b in v.a[1] if isinstance(b, tuple)})
    if v.k == 't' and v.a[0] in INTERP:
        op, w, args = v.a
        if op == 'lin':
            return tuple(x for x, k in args[1])
        if op == 'tabof':
            return (args[0],)
        xs = tuple(x for x in args if isinstance(x, V))
        if all(x.k in ('t', 'tab', 'bv') for x in xs):
            return xs
    return None


class Model:
    def __init__(self, rng):
        self.env = {}
        self.rng = rng

    def ev(self, v, memo):
        if not isinstance(v, V):
            return int(v)
        r = memo.get(v)
        if r is not None:
            return r
        ks = kids(v)
        if ks is None:
            r = self.env[v]
        elif v.k == 'tab':
            i = self.ev(v.a[0], memo)
            if not 0 <= i < len(v.a[1]) or v.a[1][i] is None:
                raise NoValue
            r = v.a[1][i]
        elif v.k == 'bv':
            r = 0
            for i, b in enumerate(v.a[1]):
                if isinstance(b, int):
                    r |= b << i
                else:
                    r |= ((self.ev(b[0], memo) >> b[1] & 1) ^ b[2]) << i
        else:
            op, w, args = v.a
            if op == 'lin':
                r = args[0] + sum(k * self.ev(x, memo) for x, k in args[1])
            else:
                xs = [self.ev(x, memo) if isinstance(x, (V, int)) else x for x in (args[:1] if op == 'tabof' else args)]
                if op in ('div', 'rem'):
                    if xs[1] == 0:
                        raise NoValue
                    q = abs(xs[0]) // abs(xs[1]) * (1 if (xs[0] < 0) == (xs[1] < 0) else -1)
                    r = q if op == 'div' else xs[0] - q * xs[1]
                elif op == 'mul':
                    r = xs[0] * xs[1]
                elif op == 'trunc':
                    r = xs[0] & ((1 << w) - 1)
                elif op == 'popcount':
                    r = bin(xs[0]).count('1')
                elif op == 'byte':
                    r = xs[0] >> (8 * xs[1]) & 255
                elif op == 'bit':
                    r = xs[0] >> xs[1] & 1
                elif op == 'not':
                    r = 1 - xs[0]
                elif op == 'beq':
                    r = int(xs[0] == xs[1])
                elif op == 'ge0':
                    r = int(xs[0] >= 0)
                elif op == 'eq0':
                    r = int(xs[0] == 0)
                elif op == 'tabof':
                    t = args[1]
                    if not 0 <= xs[0] < len(t) or t[xs[0]] is None:
                        raise NoValue
                    r = t[xs[0]]
                elif op == 'op_BitAnd':
                    r = xs[0] & xs[1]
                elif op == 'op_BitOr':
                    r = xs[0] | xs[1]
                elif op == 'op_BitXor':
                    r = xs[0] ^ xs[1]
                elif op == 'op_Shl':
                    r = (xs[0] << (xs[1] % w)) & ((1 << w) - 1)
                elif op == 'op_Shr':
                    r = xs[0] >> (xs[1] % w)
        memo[v] = r
        return r


def leaves(v, out, seen):
    if isinstance(v, tuple):
        for x in v:
            leaves(x, out, seen)
        return
    if not isinstance(v, V) or v in seen:
        return
    seen.add(v)
    if v.k in ('t', 'tab', 'bv'):
        ks = kids(v)
        if ks is None:
            out.add(v)
        else:
            for x in ks:
                leaves(x, out, seen)
    else:
        for x in v.a:
            leaves(x, out, seen)


class Component:
    def __init__(self):
        self.vars, self.cons = set(), []


class Facts:
    """The constraints of a state, split into independent components."""

    def __init__(self, st, extra=()):
        self.st = st
        cons = []
        for c, val in st.facts.items():
            cons.append((c, 'is', val))
        for L in st.ineq:
            cons.append((L, 'ge', 0))
        for src, m in st.con.items():
            if isinstance(src, V) and src.k in ('t', 'tab', 'bv'):
                cons.append((src, 'in', m))
        self.parent = {}
        lv = []
        for c in cons:
            o = set()
            leaves(c[0], o, set())
            lv.append(o)
            self.join(o)
        for e in extra:
            o = set()
            leaves(e, o, set())
            self.join(o)
        comps = {}
        for v in self.parent:
            comps.setdefault(self.find(v), Component()).vars.add(v)
        self.trivially_false = False
        for c, o in zip(cons, lv):
            if o:
                comps[self.find(next(iter(o)))].cons.append((c, tuple(sorted(o, key=lambda x: x.uid))))
            elif isinstance(c[0], int):
                if not holds(c, c[0]):
                    self.trivially_false = True
        self.comps = [c for k, c in sorted(comps.items(), key=lambda kc: kc[0].uid)]

    def find(self, v):
        while self.parent[v] is not v:
            self.parent[v] = self.parent[self.parent[v]]
            v = self.parent[v]
        return v

    def join(self, vs):
        first = None
        for v in vs:
            self.parent.setdefault(v, v)
            if first is None:
                first = self.find(v)
            else:
                self.parent[self.find(v)] = first


def holds(c, x):
    if c[1] == 'is':
        return (1 if x else 0) == c[2]
    if c[1] == 'ge':
        return x >= 0
    return 0 <= x and c[2] >> x & 1


def domain(st, v):
    """(list of values | None, lo, hi)"""
    op, w = (v.a[0], v.a[1]) if v.k == 't' else ('', 64)
    m = st.con.get(v)
    if m is not None:
        vals = [i for i in range(m.bit_length()) if m >> i & 1]
        return vals, 0, 0
    if op in ('sgn', 'sel'):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    elif op == 'chr':
        lo, hi = 0, 0x10FFFF
    else:
        lo, hi = 0, (1 << min(w or 62, 62)) - 1
    if hi - lo < 512:
        return list(range(lo, hi + 1)), lo, hi
    return None, lo, hi


def solve(st, comp, rng, model, deadline):
    """Local search for an assignment of one component."""
    vs = sorted(comp.vars, key=lambda v: v.uid)
    dom = {v: domain(st, v) for v in vs}
    if any(d[0] is not None and not d[0] for d in dom.values()):
        return False
    cons = comp.cons
    consts = {0, 1, 2, 255, 256}
    for (c, how, val), o in cons:
        t = c
        while isinstance(t, V) and t.k == 't' and t.a[0] in ('ge0', 'eq0', 'not'):
            t = t.a[2][0]
        if isinstance(t, V) and t.k == 't' and t.a[0] == 'lin':
            k = abs(t.a[2][0])
            consts |= {k, k + 1, max(0, k - 1)}
    consts = sorted(consts)[:40]

    def pick(v):
        d, lo, hi = dom[v]
        if d is not None:
            return rng.choice(d)
        r = rng.random()
        if r < .5:
            return min(max(rng.choice(consts), lo), hi)
        if r < .8:
            return min(max(rng.randrange(0, 600), lo), hi)
        return rng.randrange(lo, min(hi, 1 << 20) + 1)
    by = {v: [] for v in vs}
    for i, (c, o) in enumerate(cons):
        for v in o:
            by[v].append(i)

    def sat(i, memo):
        c = cons[i][0]
        try:
            return holds(c, model.ev(c[0], memo))
        except NoValue:
            return False
    for restart in range(12):
        for v in vs:
            model.env[v] = pick(v)
        bad = {i for i in range(len(cons)) if not sat(i, {})}
        steps = 0
        while bad and steps < 400:
            steps += 1
            if time.monotonic() > deadline:
                return False
            i = rng.choice(sorted(bad))
            o = cons[i][1]
            best = None
            for v in (o if len(o) <= 6 else rng.sample(o, 6)):
                d, lo, hi = dom[v]
                old = model.env[v]
                if d is not None:
                    cand = d if len(d) <= 24 else rng.sample(d, 24)
                else:
                    cand = [min(max(x, lo), hi) for x in (old + 1, old - 1, rng.choice(consts), rng.choice(consts), pick(v))]
                cand = list(cand) + boundary(cons[i][0], v, model, lo, hi, d)
                for x in dict.fromkeys(cand):
                    if x == old:
                        continue
                    model.env[v] = x
                    memo = {}
                    delta = 0
                    now = []
                    for j in by[v]:
                        ok = sat(j, memo)
                        if not ok:
                            now.append(j)
                        delta += (0 if ok else 1) - (1 if j in bad else 0)
                    if best is None or delta < best[0] or delta == best[0] and rng.random() < .3:
                        best = (delta, v, x, now)
                model.env[v] = old
            if best is None:
                break
            if best[0] > 0 and rng.random() < .6:
                v = rng.choice(o)
                model.env[v] = pick(v)
                memo = {}
                now = [j for j in by[v] if not sat(j, memo)]
            else:
                _, v, x, now = best
                model.env[v] = x
            bad -= set(by[v])
            bad |= set(now)
        if not bad:
            return True
    return False


def boundary(c, v, model, lo, hi, d):
    """Values of v at which a linear constraint changes its truth."""
    t, how, val = c
    while isinstance(t, V) and t.k == 't' and t.a[0] in ('ge0', 'eq0', 'not'):
        t = t.a[2][0]
    if not (isinstance(t, V) and t.k == 't' and t.a[0] == 'lin'):
        return []
    k = dict(t.a[2][1]).get(v)
    if not k:
        return []
    try:
        rest = model.ev(t, {}) - k * model.env[v]
    except NoValue:
        return []
    x = -rest // k
    out = [y for y in (x - 1, x, x + 1) if (lo <= y <= hi if d is None else y in d)]
    return out


def scalars(v, out):
    """Pairs of scalars compared position by position are collected by the caller."""
    out.append(v)


def differs(a, b, model):
    """Do two values differ under the model? None when not comparable."""
    if a is b:
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a != b
    sa = isinstance(a, int) or isinstance(a, V) and a.k in ('t', 'tab', 'bv')
    sb = isinstance(b, int) or isinstance(b, V) and b.k in ('t', 'tab', 'bv')
    if sa and sb:
        try:
            return model.ev(a, {}) != model.ev(b, {})
        except (NoValue, KeyError):
            return None
    if isinstance(a, V) and isinstance(b, V) and a.k == b.k == 'agg':
        if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
            return True
        rs = [differs(x, y, model) for x, y in zip(a.a[1], b.a[1])]
        return True if True in rs else None if None in rs else False
    return None


def witness(st, differ=None, budget=4.0, tries=60):
    """'yes': a concretisation was found (showing the difference); 'no' otherwise;
    'n/a' when the compared values are not scalars."""
    rng = random.Random(1)
    extra = () if differ is None else tuple(differ)
    f = Facts(st, extra)
    if f.trivially_false:
        return 'no'
    model = Model(rng)
    end = time.monotonic() + budget
    goal = set()
    if differ is not None:
        leaves(extra, goal, set())
    for c in f.comps:
        if not solve(st, c, rng, model, end):
            return 'no'
    if differ is None:
        return 'yes'
    rs = differs(differ[0], differ[1], model)
    if rs is None:
        return 'n/a'
    for _ in range(tries):
        if rs:
            return 'yes'
        for c in f.comps:
            if c.vars & goal and not solve(st, c, rng, model, end):
                return 'no'
        rs = differs(differ[0], differ[1], model)
    return 'no'


def witness_of(st, c, val):
    """Has the state a concretisation in which the condition c has the value val?"""
    s = st.copy()
    if isinstance(c, int):
        return (1 if c else 0) == val
    if not s.assume(c, val):
        return False
    return witness(s) != 'no'
