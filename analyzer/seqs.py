"""Sequences (arrays, Vec, String, str data) as ropes of segments.

seq value: mk('seq', elem_ty, segs); segs is a tuple of
  ('e', (v, ...))                    explicit elements
  ('b', name, offset, length)        elements name[offset .. offset+length) of a named base
  ('f', v, length)                   length copies of v
Lengths and offsets are ints or linear forms.  The form is canonical for known lengths.
"""
from .vals import *
from .state import Fork, mk_ge0, mk_lt, mk_eq

EXPAND = 2048


def seg_len(s):
    return len(s[1]) if s[0] == 'e' else (s[3] if s[0] == 'b' else s[2])


def total(segs):
    r = 0
    for s in segs:
        r = lin_add(r, seg_len(s))
    return r


class Seqs:
    """Mixin for Engine."""

    def elem(self, ety, name, idx):
        t = self.F.types[ety]
        if t['k'] in ('int', 'bool', 'char'):
            return self.sym(ety, name, idx)
        return self.mkop(ety, ('el', name, idx))

    def sym(self, ety, name, idx):
        t = self.F.types[ety]
        if t['k'] == 'int':
            return term('sel' if t['signed'] else 'el', t['bits'], name, idx)
        if t['k'] == 'bool':
            return term('el', 1, name, idx)
        return term('el', 21, name, idx)

    def mkseq(self, ety, segs):
        return mk('seq', ety, self.canon(ety, segs))

    def canon(self, ety, segs):
        out = []

        def push(s):
            if out:
                p = out[-1]
                if p[0] == 'e' and s[0] == 'e':
                    out[-1] = ('e', p[1] + s[1])
                    return
                if p[0] == 'b' and s[0] == 'b' and p[1] == s[1] and lin_add(p[2], p[3]) == s[2]:
                    out[-1] = ('b', p[1], p[2], lin_add(p[3], s[3]))
                    return
                if p[0] == 'f' and s[0] == 'f' and p[1] == s[1]:
                    out[-1] = ('f', p[1], lin_add(p[2], s[2]))
                    return
                if p[0] == 'f' and s[0] == 'e' and s[1][0] == p[1]:
                    k = 1
                    while k < len(s[1]) and s[1][k] == p[1]:
                        k += 1
                    out[-1] = ('f', p[1], lin_add(p[2], k))
                    if k < len(s[1]):
                        out.append(('e', s[1][k:]))
                    return
                if p[0] == 'e' and s[0] == 'f' and p[1][-1] == s[1]:
                    k = 1
                    while k < len(p[1]) and p[1][-1 - k] == s[1]:
                        k += 1
                    if k < len(p[1]):
                        out[-1] = ('e', p[1][:-k])
                        out.append(('f', s[1], lin_add(s[2], k)))
                    else:
                        out[-1] = ('f', s[1], lin_add(s[2], k))
                    return
            out.append(s)
        for s in segs:
            n = seg_len(s)
            if isinstance(n, int) and n <= 0:
                continue
            if s[0] == 'f' and isinstance(n, int) and n <= EXPAND:
                s = ('e', (s[1],) * n)
            if s[0] == 'e':
                run = []
                for v in s[1]:
                    b = self.as_base(ety, v)
                    if b is not None:
                        if run:
                            push(('e', tuple(run)))
                            run = []
                        push(('b', b[0], b[1], 1))
                    else:
                        run.append(v)
                if run:
                    push(('e', tuple(run)))
            else:
                push(s)
        return tuple(out)

    def as_base(self, ety, v):
        if isV(v, 't') and v.a[0] in ('el', 'sel'):
            return v.a[2]
        if isV(v, 'op') and isinstance(v.a[0], tuple) and v.a[0][0] == 'el' and v.a[1] == ety:
            return v.a[0][1], v.a[0][2]
        return None

    def seq_len(self, seq):
        return total(seq.a[1])

    def cond(self, st, c):
        """Decide c in st or fork on it."""
        r = st.decide(c)
        if r is None:
            raise Fork([('c', c, 1), ('c', c, 0)])
        return r

    def lt(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return self.cond(st, mk_lt(a, b))

    def split(self, st, ety, segs, at):
        """Split a rope at offset `at` -> (left, right)."""
        if at == 0:
            return (), segs
        left = []
        rest = at
        for i, s in enumerate(segs):
            n = seg_len(s)
            if rest == 0:
                return tuple(left), segs[i:]
            if rest == n:
                left.append(s)
                return tuple(left), segs[i + 1:]
            if self.lt(st, rest, n):
                if st.decide(mk_eq(rest, 0)) == 1:
                    return tuple(left), segs[i:]
                if s[0] == 'e' and not isinstance(rest, int) and len(s[1]) > 4 and all(x == s[1][0] for x in s[1]):
                    s = ('f', s[1][0], n)
                if s[0] == 'e':
                    if not isinstance(rest, int):
                        # symbolic split of explicit elements: enumerate
                        for k in range(len(s[1]) + 1):
                            if self.cond(st, mk_eq(rest, k)):
                                rest = k
                                break
                        else:
                            raise Fork([])          # infeasible
                    a, b = ('e', s[1][:rest]), ('e', s[1][rest:])
                elif s[0] == 'b':
                    a = ('b', s[1], s[2], rest)
                    b = ('b', s[1], lin_add(s[2], rest), lin_add(n, rest, -1))
                else:
                    a, b = ('f', s[1], rest), ('f', s[1], lin_add(n, rest, -1))
                return tuple(left) + (a,), (b,) + tuple(segs[i + 1:])
            left.append(s)
            rest = lin_add(rest, n, -1)
        return tuple(left), ()

    def seq_slice(self, st, seq, off, n):
        ety, segs = seq.a
        _, r = self.split(st, ety, segs, off)
        l, _ = self.split(st, ety, r, n)
        return self.canon(ety, l)

    def seq_replace(self, st, seq, off, n, new):
        ety, segs = seq.a
        l, r = self.split(st, ety, segs, off)
        _, r2 = self.split(st, ety, r, n)
        return self.mkseq(ety, tuple(l) + tuple(new) + tuple(r2))

    def seq_get(self, st, seq, idx):
        ety, segs = seq.a
        pos = idx
        for s in segs:
            n = seg_len(s)
            if s is segs[-1] or self.lt(st, pos, n):
                if s[0] == 'b':
                    return self.elem(ety, s[1], lin_add(s[2], pos))
                if s[0] == 'f':
                    return s[1]
                if isinstance(pos, int):
                    if 0 <= pos < len(s[1]):
                        return s[1][pos]
                    return term('bad', 64, ('oob',))
                t = as_tab(pos)
                if t is not None:
                    r = self.tab_select(st, t[0], t[1], s[1])
                    if r is not None:
                        return r
                for k in range(len(s[1])):
                    if self.cond(st, mk_eq(pos, k)):
                        return s[1][k]
                return term('bad', 64, ('oob',))
            pos = lin_add(pos, n, -1)
        return term('bad', 64, ('oob',))

    def tab_select(self, st, src, table, vals):
        """The value vals[table[src]] as one value, merging structurally; None if impossible."""
        m = st.con.get(src)
        sel = []
        for i, x in enumerate(table):
            if x is None or not 0 <= x < len(vals) or (m is not None and not m >> i & 1):
                sel.append(None)
            else:
                sel.append(vals[x])
        return self.tab_merge(src, sel)

    def tab_merge(self, src, sel):
        ex = next((v for v in sel if v is not None), None)
        if ex is None:
            return None
        if all(v is None or v == ex for v in sel):
            return ex
        if all(v is None or isinstance(v, int) for v in sel):
            return mk_tab(src, sel)
        if isV(ex, 'agg') and all(v is None or (isV(v, 'agg') and v.a[0] == ex.a[0] and len(v.a[1]) == len(ex.a[1])) for v in sel):
            out = []
            for i in range(len(ex.a[1])):
                r = self.tab_merge(src, [None if v is None else v.a[1][i] for v in sel])
                if r is None:
                    return None
                out.append(r)
            return mk('agg', ex.a[0], tuple(out))
        return None

    def seq_set(self, st, seq, idx, v):
        ety, segs = seq.a
        # symbolic index into a small explicit region, or any rope: split around it
        if not isinstance(idx, int) and len(segs) >= 1 and isinstance(total(segs), int):
            # enumerate only when explicit elements are involved; bases split symbolically
            pass
        l, r = self.split(st, ety, segs, idx)
        _, r2 = self.split(st, ety, r, 1)
        return self.mkseq(ety, tuple(l) + (('e', (v,)),) + tuple(r2))
