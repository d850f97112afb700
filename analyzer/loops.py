"""Joins, loop-head partitioning, widening and subsumption."""
from .vals import *
from .state import *

UNROLL_LIMIT = 2500

_phis = {}


def phis(v):
    """Loop symbols occurring in v."""
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            if isinstance(x, (V, tuple)):
                y = phis(x)
                if y:
                    r = r | y
        return r
    if not isinstance(v, V):
        return frozenset()
    r = _phis.get(v)
    if r is None:
        r = phis(v.a)
        if v.k == 't' and v.a[0] == 'phi':
            r = r | {v}
        _phis[v] = r
    return r


def pathkey(k):
    if isinstance(k, V):
        return ('u', k.uid)
    if isinstance(k, tuple):
        return tuple(pathkey(x) for x in k)
    return k


def is_scalar(v):
    return isinstance(v, int) or (isinstance(v, V) and v.k in ('t', 'tab', 'bv'))


def phi_content(v):
    """The content symbol of a widened sequence / opaque value, else None."""
    if isV(v, 'seq') and len(v.a[1]) == 1 and v.a[1][0][0] == 'b' and v.a[1][0][2] == 0:
        n = v.a[1][0][1]
        if isinstance(n, tuple) and len(n) == 2 and n[0] == 'phiseq':
            return n[1]
    if isV(v, 'op') and isinstance(v.a[0], tuple) and len(v.a[0]) == 2 and v.a[0][0] == 'phiop':
        return v.a[0][1]
    if isV(v, 'set') and not v.a[1] and isV(v.a[0], 'op'):
        return phi_content(v.a[0])
    return None


def content(v):
    p = phi_content(v)
    return p if p is not None else term('cont', 64, v)


_shape = {}


def shape(v, ints):
    """Structure of a value: scalars erased (known ints kept when ints is set)."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if ints else '#'
    if isinstance(v, tuple):
        return tuple(shape(x, ints) for x in v)
    if not isinstance(v, V):
        return v
    key = (v, ints)
    r = _shape.get(key)
    if r is not None:
        return r
    if v.k in ('t', 'tab', 'bv'):
        r = '#' if not ints else '*'
    elif v.k == 'set':
        r = 'set'
    elif v.k == 'seq':
        if ints:
            r = ('seq',) + tuple((s[0],) + ((len(s[1]),) if s[0] == 'e' else (shape(s[-1], True),)) for s in v.a[1])
        else:
            r = ('seq', v.a[0])
    elif v.k == 'op':
        r = ('op', v.a[1])
    elif v.k == 'agg':
        r = ('agg', v.a[0], tuple(shape(x, ints) for x in v.a[1]))
    elif v.k == 'clo':
        r = ('clo', v.a[0], tuple(shape(x, ints) for x in v.a[1]))
    elif v.k in ('ptr', 'sl', 'guard'):
        r = (v.k,) + tuple(oshape(x) if isinstance(x, tuple) else shape(x, ints) for x in v.a)
    else:
        r = (v.k,) + tuple(shape(x, ints) for x in v.a)
    _shape[key] = r
    return r


def oshape(x):
    """Object keys and paths: exact, except scalars inside."""
    if isinstance(x, tuple):
        return tuple(oshape(y) for y in x)
    if isinstance(x, V):
        return shape(x, False)
    return x


def variant_set(d):
    """What is known of an opaque enum: one variant, or a set of those still possible."""
    return d if isinstance(d, frozenset) else frozenset((d,))


def join_variants(a, b):
    j = variant_set(a) | variant_set(b)
    return next(iter(j)) if len(j) == 1 else j


class Loops:
    # ------------------------------------------------------------ joins
    def merge(self, states):
        if len(states) < 2 or self.exact:
            return states
        groups = {}
        if self.apart:
            # merge nothing but duplicates
            return list({(s.key(), s.fkey()): s for s in states}.values())
        for s in states:
            k = s.key()
            g = groups.get(k)
            if g is None:
                groups[k] = s
            else:
                groups[k] = self.join_facts(g, s)
        out = list(groups.values())
        if 2 <= len(out) <= 60:
            out = self.pair_merge(out)
        return out

    def join_facts(self, a, b):
        """Two states with the same memory: keep what both know."""
        r = a.copy()
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        con = {}
        for k, m in a.con.items():
            mb = b.con.get(k)
            if mb is not None:
                con[k] = m | mb
        r.con = con
        bi = set(b.ineq)
        r.ineq = tuple(x for x in a.ineq if x in bi or b.ge0(x) == 1)
        r.ineq = r.ineq + tuple(x for x in b.ineq if x not in r.ineq and a.ge0(x) == 1)
        r.disc = {k: join_variants(v, b.disc[k]) for k, v in a.disc.items() if k in b.disc}
        r.taint = tuple(sorted(set(a.taint) | set(b.taint)))
        return r

    def pair_merge(self, out):
        changed = True
        while changed and len(out) > 1:
            changed = False
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    m = self.try_merge(out[i], out[j])
                    if m is not None:
                        out = [x for k, x in enumerate(out) if k not in (i, j)] + [m]
                        changed = True
                        break
                if changed:
                    break
        return out

    def try_merge(self, a, b):
        """Join two states whose memories differ only in scalars explained by one condition."""
        if a.bor != b.bor or a.ev != b.ev or a.mon != b.mon or a.disc != b.disc:
            return None
        if len(a.mem) != len(b.mem):
            return None
        diff = []
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None:
                return None
            if v != w:
                diff.append(k)
        if len(diff) > 6 or not diff:
            return None
        # the separating condition
        src = None
        cd = [x for x in set(a.con) | set(b.con) if a.con.get(x) != b.con.get(x)]
        fd = [c for c in set(a.facts) | set(b.facts) if a.facts.get(c) != b.facts.get(c)]
        ind = None
        if len(cd) == 1 and all(self.implied(c, a, b) for c in fd):
            x = cd[0]
            ma, mb = a.con.get(x), b.con.get(x)
            if ma is None or mb is None or ma & mb:
                return None
            n = 1 << (width(x) or 8)
            ind = ('m', x, ma, mb, n)
        elif not cd:
            lit = [c for c in fd if a.facts.get(c) is not None and b.facts.get(c) == 1 - a.facts[c]]
            if len(lit) != 1:
                return None
            rest = [c for c in fd if c is not lit[0]]
            if rest:
                return None
            ind = ('f', lit[0], a.facts[lit[0]])
        else:
            return None
        new = {}
        for k in diff:
            r = self.mix(a.mem[k], b.mem[k], ind)
            if r is None:
                return None
            new[k] = r
        r = self.join_facts(a, b)
        if ind[0] == 'm':
            r.con[ind[1]] = ind[2] | ind[3]
            if r.con[ind[1]] == (1 << ind[4]) - 1:
                del r.con[ind[1]]
        r.mem.update(new)
        return r

    def implied(self, c, a, b):
        return False

    def mix(self, va, vb, ind):
        if va == vb:
            return va
        if is_scalar(va) and is_scalar(vb):
            return self.mix_scalar(va, vb, ind)
        if isinstance(va, tuple) and isinstance(vb, tuple) and len(va) == len(vb):
            out = []
            for x, y in zip(va, vb):
                r = self.mix(x, y, ind)
                if r is None and not (x is None and y is None):
                    return None
                out.append(r)
            return tuple(out)
        if isV(va) and isV(vb) and va.k == vb.k:
            if va.k in ('agg', 'clo'):
                if va.a[0] != vb.a[0]:
                    return None
                r = self.mix(va.a[1], vb.a[1], ind)
                return None if r is None else mk(va.k, va.a[0], r)
            if va.k == 'seq':
                ea, eb = va.a[1], vb.a[1]
                if va.a[0] != vb.a[0]:
                    return None
                return self.mix_seq(va, vb, ind)
        return None

    def mix_seq(self, va, vb, ind):
        na, nb = self.seq_len(va), self.seq_len(vb)
        if not isinstance(na, int) or na != nb or na > 512:
            return None
        xs, ys = self.explode(va), self.explode(vb)
        if xs is None or ys is None:
            return None
        out = []
        for x, y in zip(xs, ys):
            r = self.mix(x, y, ind)
            if r is None:
                return None
            out.append(r)
        return self.mkseq(va.a[0], (('e', tuple(out)),))

    def explode(self, seq):
        out = []
        for s in seq.a[1]:
            if s[0] == 'e':
                out.extend(s[1])
            elif s[0] == 'b':
                if not isinstance(s[3], int) or s[3] > 4096:
                    return None
                out.extend(self.elem(seq.a[0], s[1], lin_add(s[2], i)) for i in range(s[3]))
            else:
                if not isinstance(s[2], int) or s[2] > 4096:
                    return None
                out.extend([s[1]] * s[2])
        return out

    def mix_scalar(self, va, vb, ind):
        if ind[0] == 'm':
            _, x, ma, mb, n = ind

            def on(v):
                if isinstance(v, int):
                    return (v,) * n
                t = as_tab(v)
                if t is not None and t[0] is x:
                    return t[1]
                return None
            ta, tb = on(va), on(vb)
            if ta is not None and tb is not None:
                tab = [ta[i] if ma >> i & 1 else (tb[i] if mb >> i & 1 else None) for i in range(n)]
                return self.tab_fill(x, tab)
            d = lin_add(va, vb, -1)
            if isinstance(d, int):
                i_ = self.tab_fill(x, [1 if ma >> i & 1 else (0 if mb >> i & 1 else None) for i in range(n)])
                return lin_add(vb, lin_scale(i_, d))
            return None
        _, c, val = ind
        cc = c if val else bnot(c)
        if va == 1 and vb == 0:
            return cc
        if va == 0 and vb == 1:
            return bnot(cc)
        d = lin_add(va, vb, -1)
        if isinstance(d, int) and isV(c, 't') and c.a[0] == 'bit':
            i_ = cc if val else lin_add(1, c, -1)
            return lin_add(vb, lin_scale(i_, d))
        return None

    def tab_fill(self, x, tab):
        """mk_tab, completing don't-care entries with the identity when that fits."""
        if any(v is None for v in tab):
            if all(v is None or v == i for i, v in enumerate(tab)):
                return mk_tab(x, range(len(tab)))
            vals = {v for v in tab if v is not None}
            if len(vals) == 1:
                return vals.pop()
        return mk_tab(x, tab)

    # ------------------------------------------------------------ loop heads
    def at_head(self, fr, b, st, recs, exits=0):
        self.gc(st)
        if self.exact:
            n = recs.get('n', 0) + 1
            recs['n'] = n
            if n > self.exact:
                raise Limit('loop not exhausted after %d iterations' % n)
            return st
        forced = (fr, b) in self.forced
        if not forced and (len(recs) > UNROLL_LIMIT or len(recs) > 8 and exits > 0.3 * len(recs)):
            self.forced.add((fr, b))
            forced = True
        key = (forced, frozenset((oshape(k) if k[0] == 'sec' else k, shape(v, not forced)) for k, v in st.mem.items()
                                 if k[0] not in ('sec', 'cnt', 'EPOCH')),
               st.ev, frozenset(st.mon.items()), frozenset((oshape(k), v) for k, v in st.bor.items()))
        r = recs.get(key)
        if r is None:
            recs[key] = [st.copy(), None, 0]
            return st
        inv, gen, n = r
        if self.subsumed(inv, st, fr, b, gen):
            return None
        if gen is None:
            used = set()
            for s in (inv, st):
                for k, v in s.mem.items():
                    for p in phis(v) | phis(k):
                        if p.a[2][0] == fr and p.a[2][1] == b:
                            used.add(p.a[2][2])
            gen = 0
            while gen in used:
                gen += 1
        g = self.widen(inv, st, fr, b, gen)
        n += 1
        if n > 40:
            raise Limit('loop does not stabilise')
        recs[key] = [g, gen, n]
        return g.copy()

    def is_phi(self, v, fr, b, gen):
        return isV(v, 't') and v.a[0] == 'phi' and v.a[2][0] == fr and v.a[2][1] == b and v.a[2][2] == gen

    def subsumed(self, inv, st, fr, b, gen):
        sub = {}
        later = []

        def match(x, y):
            p = phi_content(x)
            if p is not None and gen is not None and self.is_phi(p, fr, b, gen) and isV(y) and y.k == x.k:
                c = content(y)
                if p in sub and sub[p] is not c:
                    return False
                sub[p] = c
                return x.k != 'seq' or match(self.seq_len(x), self.seq_len(y))
            if x is y or x == y:
                if isinstance(x, (V, tuple)) and gen is not None and any(self.is_phi(p, fr, b, gen) for p in phis(x)):
                    pass
                else:
                    return True
            if gen is not None and self.is_phi(x, fr, b, gen):
                if not is_scalar(y):
                    return False
                if x in sub:
                    return sub[x] == y
                sub[x] = y
                return True
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(match(p, q) for p, q in zip(x, y))
            if isV(x) and isV(y) and x.k == y.k and x.k not in ('t', 'tab', 'bv'):
                return len(x.a) == len(y.a) and all(match(p, q) for p, q in zip(x.a, y.a))
            if is_scalar(x) and is_scalar(y) and isV(x):
                later.append((x, y))
                return True
            if isV(x, 't') or isV(x, 'tab') or isV(x, 'bv'):
                return False
            return x == y
        for k, v in inv.mem.items():
            w = st.mem.get(k)
            if w is None:
                if k[0] == 'sec':
                    w = self.load(st, k)
                elif k[0] in ('cnt', 'EPOCH'):
                    w = 0
                else:
                    return False
            if not match(v, w):
                return False
        for k in st.mem:
            if k not in inv.mem and k[0] in ('cnt', 'EPOCH'):
                if st.mem[k] != 0:
                    return False
            elif k not in inv.mem and k[0] == 'sec':
                # inv says: content as in the current epoch
                if st.mem[k] != self.sector_content(st, k[1]):
                    return False
        if inv.bor != st.bor:
            return False
        for x, y in later:
            if subst(x, sub) != y:
                return False
        return not self.failing_facts(inv, st, sub, True)

    def failing_facts(self, inv, st, sub, stop=False):
        bad = []
        memo = {}
        for f in inv.ineq:
            if st.ge0(subst(f, sub, memo)) != 1:
                bad.append(('i', f))
                if stop:
                    return bad
        for c, v in inv.facts.items():
            if isV(c, 't') and c.a[0] in ('ge0',):
                L = c.a[2][0]
                if (L if v else lin_add(-1, L, -1)) in inv.ineq:
                    if ('i', L) not in bad:
                        continue
            if st.decide(subst(c, sub, memo)) != v:
                bad.append(('f', c))
                if stop:
                    return bad
        for x, m in inv.con.items():
            y = subst(x, sub, memo)
            ok = False
            if isinstance(y, int):
                ok = bool(m >> y & 1) if y >= 0 else False
            else:
                t = as_tab(y)
                if t is not None:
                    my = st.mask(t[0], len(t[1]))
                    ok = all(not (my >> i & 1) or (v is not None and v >= 0 and m >> v & 1) for i, v in enumerate(t[1]))
            if not ok:
                bad.append(('c', x))
                if stop:
                    return bad
        for n, d in inv.disc.items():
            h = st.disc.get(subst(n, sub, memo) if sub else n)
            if h is None or not variant_set(h) <= variant_set(d):
                bad.append(('d', n))
                if stop:
                    return bad
        if not set(st.taint) <= set(inv.taint):
            bad.append(('t', None))
        return bad

    def widen(self, a, b, fr, bb, gen):
        g = State()
        A, B = {}, {}
        made = []          # (va, vb, phi)

        def new_phi(path, va, vb):
            for (x, y, p) in made:
                if x == va and y == vb:
                    return p
            db = lin_add(vb, va, -1)
            if db != 0:
                for (x, y, p) in made:
                    if p is None:
                        continue
                    d0 = lin_add(y, x, -1)
                    if d0 == db:
                        off = lin_add(va, x, -1)
                        if not any(self.is_phi(q, fr, bb, gen) for q in phis(off)):
                            return lin_add(p, off)
                    elif lin_add(d0, db) == 0:
                        off = lin_add(va, x)
                        if not any(self.is_phi(q, fr, bb, gen) for q in phis(off)):
                            return lin_add(off, p, -1)
            ws = [width(x) for x in (va, vb)]
            w = 64
            if all(isinstance(x, int) and 0 <= x < 256 or (isV(x) and (width(x) or 64) <= 8 and not (isV(x, 't') and x.a[0] == 'lin')) or
                   (isV(x, 'tab') and all(t is None or 0 <= t < 256 for t in x.a[1])) for x in (va, vb)):
                w = 8
                if all(isinstance(x, int) and x < 2 or width(x) == 1 for x in (va, vb)):
                    w = 8
            p = mk('t', 'phi', w, (fr, bb, gen, path))
            A[p] = va
            B[p] = vb
            made.append((va, vb, p))
            return p

        def direct(x, y):
            """First pass: bind phis of the invariant to the new values."""
            p = phi_content(x)
            if p is not None and self.is_phi(p, fr, bb, gen):
                if isV(y) and y.k == x.k and p not in B:
                    A[p] = p
                    B[p] = content(y)
                    if x.k == 'seq':
                        direct(self.seq_len(x), self.seq_len(y))
                return
            if self.is_phi(x, fr, bb, gen):
                if is_scalar(y) and x not in B:
                    A[x] = x
                    B[x] = y
                    made.append((x, y, x))
                return
            if isinstance(x, tuple) and isinstance(y, tuple):
                for p, q in zip(x, y):
                    direct(p, q)
            elif isV(x) and isV(y) and x.k == y.k and x.k not in ('t', 'tab', 'bv'):
                for p, q in zip(x.a, y.a):
                    direct(p, q)

        def phi_name(path, x, y):
            p = mk('t', 'phi', 64, (fr, bb, gen, path + ('c',)))
            if p not in B:
                A[p] = content(x)
                B[p] = content(y)
            return p

        def anti(x, y, path):
            p = phi_content(x)
            if p is not None and self.is_phi(p, fr, bb, gen) and isV(y) and y.k == x.k and B.get(p) is content(y):
                if x.k == 'seq':
                    return mk('seq', x.a[0], (('b', x.a[1][0][1], 0, anti(self.seq_len(x), self.seq_len(y), path + ('len',))),))
                return x
            if is_scalar(x) and is_scalar(y):
                px = [p for p in phis(x) if self.is_phi(p, fr, bb, gen)] if isV(x) else []
                if px:
                    if all(p in B for p in px) and subst(x, B) == y:
                        return x
                elif x == y:
                    return x
                return new_phi(path, x, y)
            if x == y and not any(self.is_phi(p, fr, bb, gen) for p in phis(x if isinstance(x, (tuple, V)) else ())):
                return x
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return tuple(anti(p, q, path + (i,)) for i, (p, q) in enumerate(zip(x, y)))
            if isV(x) and isV(y) and x.k == y.k:
                if x.k == 'seq':
                    sx, sy = x.a[1], y.a[1]
                    if len(sx) == len(sy) and all(p[0] == q[0] and (p[0] != 'e' or len(p[1]) == len(q[1])) and
                                                  (p[0] != 'b' or oshape(p[1]) == oshape(q[1])) for p, q in zip(sx, sy)):
                        return mk('seq', x.a[0], tuple(anti(p, q, path + (i,)) for i, (p, q) in enumerate(zip(sx, sy))))
                    n = anti(self.seq_len(x), self.seq_len(y), path + ('len',))
                    name = ('phiseq', phi_name(path, x, y))
                    r = mk('seq', x.a[0], (('b', name, 0, n),))
                    self.phi_seq.setdefault(name, set()).update((x, y))
                    return r
                if x.k == 'set':
                    return mk('set', mk('op', ('phiop', phi_name(path, x, y)), None), ())
                if x.k == 'op' and x.a[1] == y.a[1]:
                    return mk('op', ('phiop', phi_name(path, x, y)), x.a[1])
                if len(x.a) == len(y.a):
                    if x.k == 'agg' and x.a[0] != y.a[0]:
                        return mk('op', ('phiop', phi_name(path, x, y)), None)
                    return mk(x.k, *(anti(p, q, path + (i,)) for i, (p, q) in enumerate(zip(x.a, y.a))))
            if isV(x, 'op') and x.a[1] is not None:
                return mk('op', ('phiop', phi_name(path, x, y)), x.a[1])
            if isV(y, 'op') and y.a[1] is not None:
                return mk('op', ('phiop', phi_name(path, x, y)), y.a[1])
            if isinstance(x, (str, int, type(None))) and x == y:
                return x
            return mk('op', ('phiop', phi_name(path, x, y)), None)

        keys = [k for k in a.mem if k in b.mem]
        for k in keys:
            direct(a.mem[k], b.mem[k])
        lost = False
        for k in sorted(keys, key=lambda k: (k[0] == 'sec', str(pathkey(k)) if k[0] in ('sec', 'cnt') else '')):
            if k[0] == 'sec' and any(self.is_phi(p, fr, bb, gen) for p in phis(k)):
                lost = True
                continue
            g.mem[k] = anti(a.mem[k], b.mem[k], pathkey(k))
        for s, o in ((a, b), (b, a)):
            for k in s.mem:
                if k in g.mem or k in o.mem and k[0] != 'sec':
                    continue
                if k[0] == 'sec':
                    if s.mem[k] != self.sector_content(s, k[1]):
                        lost = True
                elif k[0] in ('cnt', 'EPOCH'):
                    g.mem[k] = anti(0, s.mem[k], pathkey(k)) if s is b else anti(s.mem[k], 0, pathkey(k))
        if lost:
            e = mk('t', 'phi', 64, (fr, bb, gen, ('EPOCH',)))
            g.mem[('EPOCH',)] = e
            A[e] = a.mem.get(('EPOCH',), 0)
            B[e] = b.mem.get(('EPOCH',), 0)
        # facts of the invariant that also hold of the new state
        g.facts = dict(a.facts)
        g.con = dict(a.con)
        g.ineq = a.ineq
        g.disc = dict(a.disc)
        g.taint = tuple(sorted(set(a.taint) | set(b.taint)))
        sub = dict(B)
        tmp = State()
        tmp.facts, tmp.con, tmp.ineq, tmp.disc, tmp.taint = g.facts, {}, g.ineq, g.disc, g.taint
        for kind, x in self.failing_facts(tmp, b, {p: v for p, v in sub.items()}):
            if kind == 'i':
                g.ineq = tuple(f for f in g.ineq if f is not x)
                g.facts = {c: v for c, v in g.facts.items() if not (isV(c, 't') and c.a[0] == 'ge0' and (c.a[2][0] if v else lin_add(-1, c.a[2][0], -1)) is x)}
            elif kind == 'f':
                g.facts.pop(x, None)
            elif kind == 'd':
                g.disc.pop(x, None)
        con = {}
        for x, m in g.con.items():
            y = subst(x, sub)
            if isinstance(y, int):
                con[x] = m | (1 << y) if y >= 0 else None
                continue
            t = as_tab(y)
            if t is None:
                continue
            my = b.con.get(t[0])
            nm = m
            bad = False
            for i, v in enumerate(t[1]):
                if my is None or my >> i & 1:
                    if v is None or v < 0:
                        bad = True
                        break
                    nm |= 1 << v
            if not bad and nm != (1 << (1 << (width(x) or 8))) - 1:
                con[x] = nm
        g.con = {x: m for x, m in con.items() if m is not None}
        # new facts about the phis
        cand = []
        rs = [(p, v) for p, v in B.items() if p.a[2][3][-1:] != ('c',)]
        for p, vb in rs:
            va = A[p]
            if va is p or isV(va, 't') and va.a[0] == 'cont' or p.a[2][3][-1:] == ('c',):
                continue
            cand.append((lin_add(p, va, -1), None))
            cand.append((lin_add(va, p, -1), None))
            la, ha = a.rng(va)
            lb, hb = b.rng(vb)
            if min(la, lb) > -(1 << 62):
                cand.append((lin_add(p, -min(la, lb)), None))
            if max(ha, hb) < (1 << 62):
                cand.append((lin_add(max(ha, hb), p, -1), None))
        for f in b.ineq:
            if any(self.is_phi(q, fr, bb, gen) for q in phis(f)):
                # re-express old loop symbols through the new ones: x = p - (vb - x)
                f2 = f
                for p, vb in rs:
                    c, d = as_lin(vb)
                    if d.get(p) == 1:
                        rest = lin_add(vb, p, -1)
                        if not any(self.is_phi(q, fr, bb, gen) for q in phis(rest)):
                            f2 = subst(f2, {p: lin_add(p, rest, -1)})
                cand.append((f2, None))
                continue
            for p, vb in rs:
                if A[p] is p and not isinstance(vb, int):
                    continue
                cand.append((lin_add(lin_add(f, vb), p, -1), None))
                cand.append((lin_add(lin_add(f, vb, -1), p), None))
        for f, _ in cand:
            if isinstance(f, int) or f in g.ineq or not any(self.is_phi(q, fr, bb, gen) for q in phis(f)):
                continue
            if len(as_lin(f)[1]) > 4:
                continue
            if g.ge0(f) == 1:
                continue
            try:
                if a.ge0(subst(f, A)) == 1 and b.ge0(subst(f, B)) == 1:
                    g.ineq = g.ineq + (f,)
            except Exception:
                pass
        # facts that mention phis without being re-established are gone (checked above);
        g.ev = b.ev
        g.mon = dict(b.mon)
        g.bor = dict(a.bor)
        return g
