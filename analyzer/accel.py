"""Acceleration of innermost loops under exact enumeration.

From three consecutive visits of a loop head whose states differ only by constant steps of integers and
by one more element of one sequence being set to the same value, the state after k more iterations is
guessed as a function of k.  The guess is used only if it is inductive: one iteration from the state at
symbolic k (0 <= k < m) provably returns to the head in the state at k+1 on every path.
"""
from .vals import *
from .state import mk_lt, Fork
from .seqs import total
from .loops import is_scalar


class NoFit(Exception):
    pass


class Accel:
    """Mixin for Engine."""
    accel = False

    def acc_template(self, a, b, c, info):
        """-> function of k, or None when the three values are one and the same."""
        if a is b and b is c or a == b == c:
            if isinstance(c, int) and not isinstance(c, bool):
                info['const'].add(c)
            return None
        if is_scalar(a) and is_scalar(b) and is_scalar(c):
            d = lin_add(b, a, -1)
            if not isinstance(d, int) or d == 0 or lin_add(c, b, -1) != d:
                raise NoFit
            if isinstance(c, int):
                info['step'].append((c, d))
            return lambda k, st: lin_add(c, lin_scale(k, d))
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(c, tuple) and len(a) == len(b) == len(c):
            ts = [self.acc_template(x, y, z, info) for x, y, z in zip(a, b, c)]
            return lambda k, st: tuple(z if t is None else t(k, st) for t, z in zip(ts, c))
        if isV(a) and isV(b) and isV(c) and a.k == b.k == c.k:
            if a.k == 'seq':
                return self.acc_seq(a, b, c, info)
            if a.k in ('t', 'tab', 'bv') or len(a.a) != len(c.a) or len(b.a) != len(c.a):
                raise NoFit
            ts = [self.acc_template(x, y, z, info) for x, y, z in zip(a.a, b.a, c.a)]
            return lambda k, st: mk(c.k, *(z if t is None else t(k, st) for t, z in zip(ts, c.a)))
        raise NoFit

    def acc_seq(self, a, b, c, info):
        ns = [total(x.a[1]) for x in (a, b, c)]
        if not all(isinstance(n, int) and n <= 4096 for n in ns) or len(set(ns)) != 1 or a.a[0] != c.a[0]:
            raise NoFit
        ea, eb, ec = [self.explode(x) for x in (a, b, c)]
        if ea is None or eb is None or ec is None:
            raise NoFit
        n = len(ec)
        d1 = [i for i in range(n) if ea[i] is not eb[i] and ea[i] != eb[i]]
        d2 = [i for i in range(n) if eb[i] is not ec[i] and eb[i] != ec[i]]
        if len(d1) != 1 or len(d2) != 1 or d2[0] != d1[0] + 1:
            raise NoFit
        j, v = d2[0] + 1, ec[d2[0]]
        if eb[d1[0]] != v:
            raise NoFit
        info['const'].add(n)
        ety = c.a[0]

        def at(k, st):
            l, r = self.split(st, ety, c.a[1], j)
            _, r2 = self.split(st, ety, r, k)
            return mk('seq', ety, self.canon(ety, tuple(l) + (('f', v, k),) + tuple(r2)))
        return at

    def accelerate(self, fr, inst, cfg, b, st, recs, depth):
        """The state to go on with at head b."""
        if any(h != b and h in cfg.loops[b] for h in cfg.heads):
            return st
        hist = recs.setdefault('hist', [])
        hist.append(st.copy())
        if len(hist) < 3:
            return st
        s1, s2, s3 = hist[-3:]
        del hist[:-3]
        if not (s1.mem.keys() == s2.mem.keys() == s3.mem.keys()):
            return st
        for x in ('facts', 'con', 'ineq', 'bor', 'ev', 'mon', 'disc', 'taint'):
            if not getattr(s1, x) == getattr(s2, x) == getattr(s3, x):
                return st
        info = {'const': set(), 'step': []}
        ts = {}
        try:
            for key, c in s3.mem.items():
                if key[0] == 'sec' and s1.mem[key] is c and s2.mem[key] is c:
                    continue
                t = self.acc_template(s1.mem[key], s2.mem[key], c, info)
                if t is not None:
                    ts[key] = t
        except NoFit:
            return st
        if not ts:
            return st
        ms = set()
        for c, d in info['step']:
            if d == -1:
                ms.add(c)
            elif d == 1:
                ms |= {x - c for x in info['const']}
        save = {k: dict(v) for k, v in self.panics.items()}
        for m in sorted((m for m in ms if 2 < m <= 4096), reverse=True)[:8]:
            try:
                if self.acc_inductive(fr, inst, cfg, b, s3, ts, m, depth):
                    g = s3.copy()
                    for key, t in ts.items():
                        g.mem[key] = t(m, g)
                    recs['hist'] = []
                    return g
            except (Fork, NoFit):
                pass
            self.panics.clear()
            self.panics.update({k: dict(v) for k, v in save.items()})
        return st

    def acc_inductive(self, fr, inst, cfg, b, s3, ts, m, depth):
        k = mk('t', 'phi', 64, (fr, b, 'accel', ()))
        g = s3.copy()
        g.assume(mk_lt(k, m), 1)
        g.assume(mk_lt(k, 0), 0)
        for key, t in ts.items():
            g.mem[key] = t(k, g)
        blocks = inst['body']['blocks']
        pend = [(g, b)]
        back = []
        steps = 0
        while pend:
            s, x = pend.pop()
            steps += 1
            if steps > 200:
                return False
            for s2, nb in self.block(s, fr, inst, blocks[x], x, depth):
                if nb == b:
                    self.prune(s2, fr, inst['body'], cfg, b)
                    self.gc(s2)
                    back.append(s2)
                elif nb is None or nb not in cfg.loops[b]:
                    return False
                else:
                    pend.append((s2, nb))
        if not back:
            return False
        for s in back:
            if s.mem.keys() != s3.mem.keys():
                return False
            for key, c in s3.mem.items():
                if s.mem[key] is c and key not in ts:
                    continue
                want = ts[key](lin_add(k, 1), s) if key in ts else c
                if s.mem[key] is not want and s.mem[key] != want:
                    return False
            if s.bor != s3.bor or s.ev != s3.ev or s.mon != s3.mon or s.taint != s3.taint:
                return False
        return True
