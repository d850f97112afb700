"""The sector allocator: never hands out a used or reserved sector, never gives up while a free one exists."""
from ..core import *
from .device import spt, errname
from .bam import KINDS, TRACKS, layout, disk_format, read_bam, unchanged

DIRT = {'d64': 18, 'd71': 18, 'd81': 40}
PARTS = 4
RES = {'d64': (), 'd71': (53,), 'd81': ()}


def setfield(r, v, tyname, name, x):
    fs = r.F.types[r.ty(tyname)]['variants'][0]['f']
    for i, f in enumerate(fs):
        if f['n'] == name:
            a = list(v.a[1])
            a[i] = x
            return mk('agg', v.a[0], tuple(a))
    raise Skip('field %s.%s' % (tyname, name))


class Map:
    """An arbitrary BAM of one disk type, as read from disk: per track an unknown count byte and unknown bitmap bytes."""

    def __init__(self, r, eng, kind, geos):
        self.kind, self.eng = kind, eng
        rs = [(s, b) for s, b in read_bam(r, eng, kind) if b is not None]
        if not rs:
            raise Skip('Bam::read')
        st, self.bam = rs[0]
        p = disk_format(r, kind)
        v = eng.deref(st, p)
        st = st.copy()
        o = ('O', 'format', r.ty('disk::format::DiskFormat'))
        st.mem[o] = setfield(r, v, 'disk::format::DiskFormat', 'geos', geos)
        rs = r.run(eng, r.fn('disk::bam::Bam::set_format'), [self.bam, mk('ptr', o, (), None)], st)
        if len(rs) != 1:
            raise Skip('Bam::set_format')
        self.st = rs[0][0]
        self._c, self._b = {}, {}

    def cnt(self, t):
        if t not in self._c:
            (l, o), _ = layout(self.kind, t)
            self._c[t] = self.eng.seq_get(self.st, self.eng.load(self.st, ('sec', l)), o)
        return self._c[t]

    def bit(self, t, k):
        if (t, k) not in self._b:
            _, (l, o, n) = layout(self.kind, t)
            byte = self.eng.seq_get(self.st, self.eng.load(self.st, ('sec', l)), o + k // 8)
            self._b[t, k] = bits_value((as_bits(byte, 8)[k % 8],), 1)
        return self._b[t, k]

    def usable(self):
        return [t for t in range(1, TRACKS[self.kind] + 1) if t != DIRT[self.kind] and t not in RES[self.kind]]


# tracks at which the geometry or the documented algorithm changes: fully enumerated in the quick tier too
EDGES = {'d64': (1, 2, 17, 18, 19, 24, 25, 30, 31, 35), 'd71': (1, 17, 18, 19, 25, 35, 36, 52, 54, 70), 'd81': (1, 25, 39, 40, 41, 80)}


def scan_cases(kind, tier):
    """(previous location, facts) - None: first sector of a new file."""
    d = DIRT[kind]
    yield None, None
    for t in range(1, TRACKS[kind] + 1):
        if t in RES[kind]:
            continue
        # same-track continuation from every sector
        for s in range(spt(kind, t)):
            if tier == 'quick' and t not in EDGES[kind] and s not in (0, t * 7 % spt(kind, t), spt(kind, t) - 1):
                continue
            yield (t, s), 'avail'
    for t in range(1, TRACKS[kind] + 1):
        if t in RES[kind]:
            continue
        if tier == 'quick' and t not in EDGES[kind]:
            continue
        yield (t, 0 if t % 2 else spt(kind, t) - 1), 'full'


def outcomes(r, kind, geos, part):
    f = r.fn('disk::bam::Bam::next_free_block')
    eng = r.engine()
    m = Map(r, eng, kind, geos)
    eng.exact, eng.maxstates, eng.maxblocks = 20000, 20000, 1 << 30
    eng.deadline = None if r.tier != 'quick' else eng.deadline + 300
    for i, (prev, mode) in enumerate(scan_cases(kind, r.tier)):
        if i % PARTS != part:
            continue
        st = m.st.copy()
        if prev is None:
            a = none()
        else:
            a = some(mk('agg', 0, prev))
            # partition: the current track has / lacks a positive free count
            if not st.assume(mk_eq(m.cnt(prev[0]), 0), 0 if mode == 'avail' else 1):
                continue
        rs = r.run(eng, f, [m.bam, a], st)
        yield eng, f, m, prev, mode, rs
    return


CASES = ['%s/%s/%d' % (k, g, i) for k in KINDS for g in ('cbm', 'geos') for i in range(PARTS)]


def params(p):
    k, g, i = p.split('/')
    return k, int(g == 'geos'), int(i)


def nm(prev, mode):
    return 'new file' if prev is None else 'after %d/%d (track %s)' % (prev[0], prev[1], mode)


@rule('C05', *CASES)
def allocates_free(r, p):
    """every sector the allocator returns exists, is marked free, and is not on the directory or a reserved track"""
    kind, geos, part = params(p)
    total = 0
    eng = None
    for eng, f, m, prev, mode, rs in outcomes(r, kind, geos, part):
        w = '%s: ' % nm(prev, mode)
        for s, v in rs:
            r.check(unchanged(r, eng, s, m.st, m.bam), w + 'searching changes nothing', r.where(f), st=s)
            if eng.variant(s, v) != 0:
                continue
            total += 1
            l = v.a[1][0]
            t, k = eng.field(s, l, 0, 0), eng.field(s, l, 1, 0)
            if not (isinstance(t, int) and isinstance(k, int)):
                r.skip(w + 'returned location not resolved')
                continue
            if not (1 <= t <= TRACKS[kind] and k < spt(kind, t)):
                r.check(False, '', r.where(f), w + 'returns nonexistent sector %d/%d' % (t, k), st=s)
                continue
            r.check(s.decide(m.bit(t, k)) == 1, w + '%d/%d is free' % (t, k), r.where(f), w + 'returns %d/%d which may be in use' % (t, k), st=s)
            isdir = prev is not None and prev[0] == DIRT[kind]
            r.check((t == DIRT[kind]) == isdir, w + '%d/%d is on the right kind of track' % (t, k), r.where(f),
                    w + 'returns %d/%d: %s' % (t, k, 'a directory-track sector for file data' if not isdir else 'a data track for the directory'), st=s)
            r.check(t not in RES[kind], w + '%d/%d is not reserved' % (t, k), r.where(f), w + 'returns %d/%d on a reserved track' % (t, k), st=s)
    r.check(total > 0, 'allocation can succeed', 'next_free_block')
    if eng:
        r.panics(eng, 'searching a free sector never panics')


@rule('C06', *CASES)
def finds_free(r, p):
    """the allocator fails only if no usable track has a free sector (or the map contradicts itself)"""
    kind, geos, part = params(p)
    n = 0
    for eng, f, m, prev, mode, rs in outcomes(r, kind, geos, part):
        w = '%s: ' % nm(prev, mode)
        r.check(len(rs) > 0, w + 'returns', r.where(f))
        for s, v in rs:
            if eng.variant(s, v) == 0:
                continue
            n += 1
            e = errname(r, v)
            isdir = prev is not None and prev[0] == DIRT[kind]
            us = [DIRT[kind]] if isdir else m.usable()
            left = [t for t in us if s.decide(mk_eq(m.cnt(t), 0)) != 1]
            if not left:
                r.check(e == 'DiskFull', w + 'full disk reported as DiskFull', r.where(f), w + 'a full disk is reported as %s' % e, st=s)
                continue
            # otherwise some track must claim free sectors while its bitmap has none
            lie = [t for t in left if s.decide(mk_eq(m.cnt(t), 0)) == 0 and all(s.decide(m.bit(t, k)) == 0 for k in range(spt(kind, t)))]
            r.check(bool(lie), w + 'gives up only if nothing is free', r.where(f),
                    w + '%s although track %s may have free sectors' % (e, left[0]), st=s)
    r.check(n > 0 or part, 'exhaustion is reported', 'next_free_block')
