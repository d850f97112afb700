"""Abstract states: memory, what is known about scalars, RefCell borrows, events, monitors."""
from .vals import *

BIG = (1 << 63) - 1


class Limit(Exception):
    """The analysis gave up (state explosion or depth); the obligation is undecided."""


class Fork(Exception):
    """Raised when evaluation needs a decision the state does not determine."""

    def __init__(self, alts):
        self.alts = alts      # list of ('c', cond, 0/1) or ('v', opname, variant)


def _sub(a, b):
    d = dict(a[1])
    for k, x in b[1].items():
        y = d.get(k, 0) - x
        if y:
            d[k] = y
        else:
            d.pop(k, None)
    return a[0] - b[0], d


class Watch:
    """Questions a rule asked that the state did not answer (see core.R.check)."""
    on = False
    pend = []
    diffs = []      # (state, value, value): a rule's answer is 'differs' if these can differ


WATCH = Watch


class State:
    __slots__ = ('mem', 'facts', 'con', 'ineq', 'bor', 'ev', 'mon', 'disc', 'taint')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.con = {}
        self.ineq = ()
        self.bor = {}
        self.ev = ()
        self.mon = {}
        self.disc = {}
        self.taint = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.con = dict(self.con)
        s.ineq = self.ineq
        s.bor = dict(self.bor)
        s.ev = self.ev
        s.mon = dict(self.mon)
        s.disc = dict(self.disc)
        s.taint = self.taint
        return s

    def event(self, *e):
        if e not in self.ev:
            self.ev = self.ev + (e,)

    # ------------------------------------------------------------ bounds
    def mask(self, src, n):
        m = self.con.get(src)
        return m if m is not None else (1 << n) - 1

    def rng(self, v):
        if isinstance(v, int):
            return v, v
        if v.k == 'tab':
            src, t = v.a
            m = self.con.get(src)
            if m is None:
                vals = [x for x in t if x is not None]
            else:
                vals = [x for i, x in enumerate(t) if m >> i & 1 and x is not None]
            if not vals:
                return 0, 0
            return min(vals), max(vals)
        if v.k == 't':
            op, w, args = v.a
            if op == 'lin':
                lo = hi = args[0]
                for x, k in args[1]:
                    a, b = self.rng(x)
                    if k > 0:
                        lo += k * a
                        hi += k * b
                    else:
                        lo += k * b
                        hi += k * a
                return lo, hi
            if op == 'len':
                return 0, BIG
            if op == 'div':
                a, b = self.rng(args[0])
                if isinstance(args[1], int) and args[1] > 0 and a >= 0:
                    return a // args[1], b // args[1]
            if op == 'rem':
                if isinstance(args[1], int) and args[1] > 0:
                    return 0, args[1] - 1
            if op == 'mul':
                a, b = self.rng(args[0])
                c, d = self.rng(args[1])
                if a >= 0 and c >= 0:
                    return a * c, b * d
            if op == 'chr':
                return 0, 0x10FFFF
            if w and w <= 8:
                m = self.con.get(v)
                if m is not None:
                    if m == 0:
                        return 0, 0
                    return (m & -m).bit_length() - 1, m.bit_length() - 1
            if op == 'sgn':
                return -(1 << (w - 1)), (1 << (w - 1)) - 1
            return 0, (1 << (w or 64)) - 1
        if v.k == 'bv':
            w, bits = v.a
            return (sum(1 << i for i, b in enumerate(bits) if b == 1),
                    sum(1 << i for i, b in enumerate(bits) if b != 0))
        return -BIG, BIG

    def ge0(self, L):
        """1 if L >= 0 always, 0 if never, None if unknown."""
        lo, hi = self.rng(L)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
        if not self.ineq:
            return None
        cL, dL = as_lin(L)
        P = (cL, dL)
        N = (-1 - cL, {k: -x for k, x in dL.items()})
        fs = [as_lin(f) for f in self.ineq[-40:]]
        memo = {}
        for tgt, res in ((P, 1), (N, 0)):
            firsts = []
            for f in fs:
                # only a fact that cancels something of the target can help
                if not any((x > 0) == (f[1][k] > 0) for k, x in tgt[1].items() if k in f[1]):
                    continue
                r = _sub(tgt, f)
                if self._low(r, memo) >= 0:
                    return res
                firsts.append(r)
            for r in firsts[:24]:
                for f in fs:
                    if not any((x > 0) == (f[1][k] > 0) for k, x in r[1].items() if k in f[1]):
                        continue
                    if self._low(_sub(r, f), memo) >= 0:
                        return res
        return None

    def _low(self, cd, memo):
        c, d = cd
        srcs = {}
        for k, x in d.items():
            if k.k == 'tab':
                srcs.setdefault(k.a[0], []).append(k)
            elif x:
                srcs.setdefault(k, []).append(k)
        lo = c
        for src, ks in srcs.items():
            if len(ks) == 1:
                k = ks[0]
                x = d[k]
                r = memo.get(k)
                if r is None:
                    r = memo[k] = self.rng(k)
                lo += x * (r[0] if x > 0 else r[1])
            else:
                lo += self.rng(mk_lin(0, {k: d[k] for k in ks}))[0]
        return lo

    # ------------------------------------------------------------ booleans
    def decide(self, c):
        r = self._decide(c)
        if r is None and WATCH.on:
            WATCH.pend.append((self, c))
        return r

    def _decide(self, c):
        if isinstance(c, int):
            return 1 if c else 0
        if c.k == 'tab':
            src, t = c.a
            m = self.con.get(src)
            seen = None
            for i, x in enumerate(t):
                if x is None or (m is not None and not m >> i & 1):
                    continue
                if seen is None:
                    seen = x
                elif seen != x:
                    return None
            return seen
        if c.k == 't':
            op, w, args = c.a
            f = self.facts.get(c)
            if f is not None:
                return f
            if op == 'not':
                r = self.decide(args[0])
                return None if r is None else 1 - r
            if op == 'ge0':
                return self.ge0(args[0])
            if op == 'eq0':
                L = args[0]
                lo, hi = self.rng(L)
                if lo > 0 or hi < 0:
                    return 0
                if lo == hi == 0:
                    return 1
                a = self.ge0(L)
                if a == 0:
                    return 0
                n = self.ge0(lin_scale(L, -1))
                if n == 0:
                    return 0
                if a == 1 and n == 1:
                    return 1
                if self.ge0(lin_add(L, -1)) == 1 or self.ge0(lin_add(lin_scale(L, -1), -1)) == 1:
                    return 0
                return None
            if w == 1 and c in self.con:
                m = self.con[c]
                if m == 1:
                    return 0
                if m == 2:
                    return 1
        return None

    def assume(self, c, val):
        """Add c == val; False when that is infeasible."""
        if isinstance(c, int):
            return (1 if c else 0) == val
        if c.k == 'tab':
            src, t = c.a
            m = self.mask(src, len(t))
            nm = 0
            for i, x in enumerate(t):
                if m >> i & 1 and x == val:
                    nm |= 1 << i
            if nm == 0:
                return False
            self.con[src] = nm
            if nm == 1 and src.k == 't' and src.a[0] == 'op_BitOr':
                return all(self.assume(mk_eq(x, 0), 1) for x in src.a[2])
            return True
        d = self.decide(c)
        if d is not None:
            return d == val
        op, w, args = c.a
        if op == 'not':
            return self.assume(args[0], 1 - val)
        self.facts[c] = val
        if op == 'ge0':
            L = args[0] if val else lin_add(-1, args[0], -1)
            for M in (L, lin_scale(L, -1)):
                if self.facts.get(mk_eq0(M)) == 0:
                    L = lin_add(L, -1)
                    break
            self.learn(L)
        elif op == 'eq0' and not val:
            # x != 0 and x >= 0 give x >= 1
            for L in (args[0], lin_scale(args[0], -1)):
                if self.ge0(L) == 1:
                    self.learn(lin_add(L, -1))
                    break
        elif op == 'eq0':
            L = args[0]
            self.learn(L)
            self.learn(lin_scale(L, -1))
        return True

    def learn(self, L):
        """L >= 0, replacing weaker facts about the same combination."""
        if L in self.ineq:
            return
        c, d = as_lin(L)
        keep = []
        for f in self.ineq:
            c2, d2 = as_lin(f)
            if d2 == d:
                if c2 <= c:
                    return
                continue
            keep.append(f)
        self.ineq = tuple(keep) + (L,)

    def apply(self, alt):
        if alt[0] == 'c':
            return self.assume(alt[1], alt[2])
        if alt[0] == 'v':
            d = self.disc.get(alt[1])
            if isinstance(d, frozenset):
                if alt[2] not in d:
                    return False
            elif d is not None:
                return d == alt[2]
            self.disc[alt[1]] = alt[2]
            return True
        raise AssertionError(alt)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.bor.items()), self.ev,
                frozenset(self.mon.items()))

    def fkey(self):
        return (frozenset(self.facts.items()), frozenset(self.con.items()), frozenset(self.ineq),
                frozenset(self.disc.items()), self.taint)


# ------------------------------------------------------------ boolean constructors

def bnot(c):
    if isinstance(c, int):
        return 1 - c
    if c.k == 'tab':
        return mk_tab(c.a[0], [None if x is None else 1 - x for x in c.a[1]])
    if c.k == 't' and c.a[0] == 'not':
        return c.a[2][0]
    if c.k == 't' and c.a[1] == 1 and c.a[0] not in ('ge0', 'eq0', 'bit', 'beq'):
        return mk_tab(c, (1, 0))
    return term('not', 1, c)


def mk_ge0(L):
    if isinstance(L, int):
        return 1 if L >= 0 else 0
    t = as_tab(L)
    if t is not None:
        return mk_tab(t[0], [None if x is None else (1 if x >= 0 else 0) for x in t[1]])
    c, d = as_lin(L)
    lead = min(d, key=lambda k: k.uid)
    if d[lead] < 0:
        return bnot(mk_ge0(lin_add(-1, L, -1)))
    return term('ge0', 1, L)


def mk_eq0(L):
    if isinstance(L, int):
        return 1 if L == 0 else 0
    t = as_tab(L)
    if t is not None:
        return mk_tab(t[0], [None if x is None else (1 if x == 0 else 0) for x in t[1]])
    c, d = as_lin(L)
    lead = min(d, key=lambda k: k.uid)
    if d[lead] < 0:
        L = lin_scale(L, -1)
    return term('eq0', 1, L)


def mk_lt(a, b):
    return mk_ge0(lin_add(lin_add(b, a, -1), -1))


def mk_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    if a is b:
        return 1
    # a boolean compared with a constant
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and isV(x, 't') and x.a[1] == 1:
            return x if y == 1 else (bnot(x) if y == 0 else 0)
    if isV(a, 'bv') or isV(b, 'bv'):
        w = max(width(a) or 0, width(b) or 0, 8)
        x, y = as_bits(a, w), as_bits(b, w)
        if x is not None and y is not None:
            diff = [(p, q) for p, q in zip(x, y) if p != q]
            if not diff:
                return 1
            if any(isinstance(p, int) and isinstance(q, int) for p, q in diff):
                return 0
            if len(diff) == 1:
                p, q = diff[0]
                if isinstance(p, int):
                    p, q = q, p
                if isinstance(q, int):
                    b1 = bits_value((p,), 1)
                    return b1 if q == 1 else bnot(b1)
        return term('beq', 1, *sorted((a, b), key=lambda v: v.uid if isV(v) else -1))
    return mk_eq0(lin_add(a, b, -1))


def _mk_bit(w, a):
    b = as_bits(a[0], a[1] + 1) if isinstance(a[1], int) else None
    if b is None:
        return term('bit', w, *a)
    return bits_value((b[a[1]],), 1)


import analyzer.vals as _v
_v._rebuild.update({'ge0': lambda w, a: mk_ge0(a[0]), 'eq0': lambda w, a: mk_eq0(a[0]),
                    'not': lambda w, a: bnot(a[0]), 'beq': lambda w, a: mk_eq(a[0], a[1]),
                    'bit': _mk_bit})
