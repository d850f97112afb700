"""Promises over several operations in a row on the same object (what was remembered between them must not matter)."""
from ..core import *
from .bam import KINDS, TRACKS, layout, disk_format, fieldv, loc, entries_of, entry_bits, BE
from .device import spt, errname, geometries, image_value
from .alloc import DIRT, RES
from .codec import eqv
from .disks import mkobj

BM = 'disk::bam::Bam'
DEV = 'disk::block::BlockDevice'


def start(r, eng, kind, how, st=None):
    """A map made by Bam::read or Bam::new -> (state, pointer)."""
    f = r.fn(BM + '::' + how)
    out = []
    for s, v in r.run(eng, f, [symargs(eng, f)[0], disk_format(r, kind)], st or State()):
        if how == 'read':
            if eng.variant(s, v) != 0:
                continue
            v = v.a[1][0]
        s = s.copy()
        out.append((s, mkobj(eng, s, 'bam', r.ty(BM), v)))
    if len(out) != 1:
        raise Skip('Bam::%s has %d outcomes' % (how, len(out)))
    return out[0]


def failing(eng):
    """The next write access fails while ('FAIL',) is set in a state."""
    real = eng.thooks[(DEV, 'sector_mut')]

    def sector_mut(e, st, ctx, a):
        n = st.mem.get(('FAIL',))
        if n is not None and n >= 0:
            st.mem[('FAIL',)] = n - 1
            if n == 0:
                return [(st, err(e.device.ioe('fault')))]
        return real(e, st, ctx, a)
    eng.thooks[(DEV, 'sector_mut')] = sector_mut


def on_disk(r, eng, st, bam, kind, tracks, w, what):
    """Every byte of the map on disk is what the map in memory says."""
    es = entries_of(r, eng, st, bam, kind)
    for t in tracks:
        (cl, co), (bl, bo, bn) = layout(kind, t)
        cnt = fieldv(r, eng, st, es[t], BE, 'free_sectors')
        bits = entry_bits(r, eng, st, es[t])
        got = eng.seq_get(st, eng.load(st, ('sec', cl)), co)
        r.check(eqv(st, got, cnt) == 1, '%s: count of track %d on disk' % (what, t), w, '%s: the map on disk has a stale free count for track %d' % (what, t), st=st, got=got)
        for i in range(bn):
            got = eng.seq_get(st, eng.load(st, ('sec', bl)), bo + i)
            gb = as_bits(got, 8)
            r.check(gb is not None and list(gb) == bits[8 * i:8 * i + 8], '%s: bitmap of track %d on disk' % (what, t), w,
                    '%s: the map on disk has a stale bitmap for track %d' % (what, t), st=st, got=got)


def one_ok(r, eng, rs, what):
    good = [(s, v) for s, v in rs if eng.variant(s, v) == 0]
    if len(rs) != 1 or len(good) != 1:
        raise Skip('%s has %d outcomes' % (what, len(rs)))
    return good[0][0].copy(), good[0][1]


def step(r, eng, st, bam, op, t, k):
    """One operation on the map -> state."""
    if op in ('allocate', 'free'):
        return one_ok(r, eng, r.run(eng, r.fn(BM + '::' + op), [bam, loc(t, k)], st), op)[0]
    if op.startswith('entry '):
        st, v = one_ok(r, eng, r.run(eng, r.fn(BM + '::entry_mut'), [bam, t], st), 'entry_mut')
        rs = r.run(eng, r.fn(BE + '::' + op[6:]), [v.a[1][0], k], st)
        if len(rs) != 1:
            raise Skip(op)
        return rs[0][0].copy()
    if op == 'search':
        rs = r.run(eng, r.fn(BM + '::next_free_block'), [bam, none() if t is None else some(loc(t, k))], st)
        return rs[0][0].copy()
    raise Skip(op)


def flush(r, eng, st, bam):
    rs = r.run(eng, r.fn(BM + '::flush'), [bam], st)
    if len(rs) != 1:
        raise Skip('flush has %d outcomes' % len(rs))
    return rs[0][0].copy(), eng.variant(rs[0][0], rs[0][1])


@rule('C07', *['%s/%s' % (k, h) for k in KINDS for h in ('read', 'new')])
def flushed_after_each(r, p):
    """after every change to the map, in whatever way it is made and whatever was flushed before, a successful flush leaves the map on disk equal to the one in memory"""
    kind, how = p.split('/')
    eng = r.engine()
    eng.device.writable = lambda st: True
    eng.device.valid = lambda e, st, l: True
    failing(eng)
    st0, bam = start(r, eng, kind, how)
    w = r.where(r.fn(BM + '::flush'))
    last = TRACKS[kind]
    eng.maxblocks = 1 << 30
    tracks = {'d64': (1, 18, 35), 'd71': (1, 36, 53, 70), 'd81': (1, 40, 80)}[kind]
    if r.tier != 'quick':
        tracks = range(1, last + 1)
    every = range(1, last + 1)
    ops = ('allocate', 'free', 'entry allocate', 'entry free')
    st0, k = flush(r, eng, st0, bam)
    clean = st0
    if how == 'new':
        on_disk(r, eng, st0, bam, kind, every, w, 'flushing a new map')
    base, _ = start(r, eng, kind, how)
    for op in ops:
        for t in tracks:
            if t != tracks[0] and op in ('free', 'entry allocate') and r.tier == 'quick':
                continue
            sec = spt(kind, t) - 1 if t % 2 else 1
            for was, s in (('', base), (' after a flush', clean)):
                what = '%s of %d/%d%s' % (op, t, sec, was)
                s1 = step(r, eng, s.copy(), bam, op, t, sec)
                s2, k = flush(r, eng, s1.copy(), bam)
                r.check(k == 0, '%s: flush succeeds' % what, w, st=s2)
                on_disk(r, eng, s2, bam, kind, every if t == tracks[0] else (t,), w, what + ' and flush')
            # a flush that fails does not count
            for n in (0, 1):
                s3 = s1.copy()
                s3.mem[('FAIL',)] = n
                s3, k = flush(r, eng, s3, bam)
                if s3.mem[('FAIL',)] >= 0:
                    continue
                r.check(k == 1, '%s: a failing flush is reported' % what, w, '%s: a failing flush reports success' % what, st=s3)
                s4, k = flush(r, eng, s3, bam)
                r.check(k == 0, '%s: flush succeeds at last' % what, w, st=s4)
                on_disk(r, eng, s4, bam, kind, (t,), w, what + ', a flush that fails and one that succeeds')
            # change and change back
            inv = op.replace('allocate', 'XX').replace('free', 'allocate').replace('XX', 'free')
            s5 = step(r, eng, s2, bam, inv, t, sec)
            s6, k = flush(r, eng, s5, bam)
            r.check(k == 0, '%s and back: flush succeeds' % what, w, st=s6)
            on_disk(r, eng, s6, bam, kind, (t,), w, what + ', flush, undoing it and flush')
    r.panics(eng, 'changing and flushing the map never panics')


def concrete_map(r, eng, kind, free):
    """A map read from a disk on which exactly these sectors are free."""
    st = State()
    lay = {}
    for t in range(1, TRACKS[kind] + 1):
        (cl, co), (bl, bo, bn) = layout(kind, t)
        ks = [k for u, k in free if u == t]
        lay.setdefault(cl, {})[co] = len(ks)
        for i in range(bn):
            lay.setdefault(bl, {})[bo + i] = sum(1 << k - 8 * i for k in ks if k // 8 == i)
    for l, by in lay.items():
        o = ('sec', l)
        b = eng.load(st, o)
        for i, x in by.items():
            b = eng.seq_set(st, b, i, x)
        st.mem[o] = b
    return start(r, eng, kind, 'read', st)


FEW = {'d64': (((18, 7),), ((18, 7), (1, 0)), ((18, 5), (35, 16), (2, 20)), ((18, 3), (17, 20), (19, 18), (25, 0))),
       'd71': (((18, 7),), ((18, 7), (53, 3)), ((18, 7), (53, 3), (70, 16)), ((18, 9), (36, 20), (1, 0), (53, 0))),
       'd81': (((40, 9),), ((40, 9), (1, 39)), ((40, 10), (80, 0), (41, 17)), ((40, 3), (39, 39), (41, 0), (1, 1)))}


@rule('C05', *KINDS)
def given_until_full(r, kind):
    """file after file is given only sectors that are free, whatever was searched for before"""
    until_full(r, kind, 0)


@rule('C06', *KINDS)
def found_until_full(r, kind):
    """file after file is given a sector until none is free, and again when one is freed, whatever was searched for before"""
    until_full(r, kind, 1)


def until_full(r, kind, full):
    """file after file is given the sectors that are free until none is left; a sector that is freed again is found again, and directory searches in between change nothing"""
    f = r.fn(BM + '::next_free_block')
    w = r.where(f)
    for free in FEW[kind]:
        for chained in (0, 1):
            eng = r.engine()
            eng.exact, eng.maxblocks = 20000, 1 << 30
            eng.device.writable = lambda st: True
            eng.device.valid = lambda e, st, l: True
            st, bam = concrete_map(r, eng, kind, free)
            what = '%s disk with %s free' % (kind, ', '.join('%d/%d' % l for l in free))

            def search(st, prev):
                rs = r.run(eng, f, [bam, none() if prev is None else some(loc(*prev))], st)
                if len(rs) != 1:
                    raise Skip('search has %d outcomes' % len(rs))
                s, v = rs[0]
                if eng.variant(s, v) != 0:
                    return s.copy(), errname(r, v)
                l = v.a[1][0]
                return s.copy(), (eng.field(s, l, 0, 0), eng.field(s, l, 1, 0))
            left = set(free)
            given = None
            d = DIRT[kind]
            for turn in range(len(free) + 2):
                usable = {l for l in left if l[0] != d and l[0] not in RES[kind]}
                # a directory search between
                st, x = search(st, (d, 1))
                dirs = {l for l in left if l[0] == d}
                if not full:
                    r.check(isinstance(x, str) or x in dirs, what + ': directory search', w, '%s: extending the directory is given %s' % (what, x), st=st)
                else:
                    r.check(x in dirs if dirs else x == 'DiskFull', what + ': directory search', w, '%s: extending the directory is answered %s' % (what, x), st=st)
                st, x = search(st, given if chained else None)
                if not full:
                    r.check(isinstance(x, str) or x in usable, what + ': free sectors only', w, '%s: after %d allocations the search gives %s' % (what, turn, x), st=st)
                else:
                    r.check(x in usable if usable else x == 'DiskFull', what + ': finds what is free', w, '%s: after %d allocations the search answers %s' % (what, turn, x), st=st)
                if isinstance(x, str):
                    break
                if x not in usable:
                    break
                st = step(r, eng, st, bam, 'allocate', *x)
                left.discard(x)
                given = x
            for back in ((1, 3), (TRACKS[kind], 0), (d - 1, 1)):
                s = step(r, eng, st.copy(), bam, 'free', *back)
                s, x = search(s, None)
                if not full:
                    r.check(isinstance(x, str) or x == back, what + ': freed again', w, '%s: after freeing %d/%d the search gives %s' % ((what,) + back + (x,)), st=s)
                else:
                    r.check(x == back or (back in left), what + ': freed again', w, '%s: after freeing %d/%d the search answers %s' % ((what,) + back + (x,)), st=s)
            r.panics(eng, 'searching never panics')


def image_device(r, eng, var, key):
    """A device made over such an image -> (state, pointer)."""
    f = r.fn('disk::block::ImageBlockDevice::new')
    rs = r.run(eng, f, [image_value(r, eng, var), mk('ptr', ('S', key), (), None)], State())
    if len(rs) != 1:
        raise Skip('ImageBlockDevice::new has %d outcomes' % len(rs))
    st = rs[0][0].copy()
    return st, mkobj(eng, st, 'device', r.ty('disk::block::ImageBlockDevice'), rs[0][1])


@rule('C29')
def flushed_each_time(r):
    """an image changed since the last flush that succeeded is written by the next one"""
    T = 'disk::block::ImageBlockDevice'
    f, g, rd = (r.method(T, m, DEV) for m in ('flush', 'sector_mut', 'sector'))
    w = r.where(f)
    for kind, key in geometries(r):
        eng = r.engine(device=False)

        def fl(e, st, ctx, a):
            n = st.mem.get(('FAIL',), -1)
            st.mem[('FAIL',)] = n - 1
            if n == 0:
                return [(st, err(mk('op', ('fserr',), None)))]
            st.mem[('FLUSHES',)] = st.mem.get(('FLUSHES',), 0) + 1
            return [(st, ok(UNIT))]
        eng.hooks['memmap::MmapMut::flush'] = fl
        st0, dev = image_device(r, eng, 'ReadWriteMap', key)

        def change(st, l, fn=g):
            rs = [(s, v) for s, v in r.run(eng, fn, [dev, mk('agg', 0, l)], st) if eng.variant(s, v) == 0]
            if len(rs) != 1:
                raise Skip('sector access has %d outcomes' % len(rs))
            return rs[0][0].copy()

        def flush(st):
            n = st.mem.get(('FLUSHES',), 0)
            rs = r.run(eng, f, [dev], st)
            if len(rs) != 1:
                raise Skip('flush has %d outcomes' % len(rs))
            s, v = rs[0]
            return s.copy(), eng.variant(s, v), s.mem.get(('FLUSHES',), 0) > n
        last = {'d64': 35, 'd71': 70, 'd81': 80}[kind]
        ls = [(1, 0), (1, 1), (18, 0), (18, 1), (40 if kind == 'd81' else 20, 3), (last, spt(kind, last) - 1)]
        for a in ls:
            for b in (None,) + tuple(ls):
                st = change(st0.copy(), a)
                if b:
                    st = change(st, b)
                what = 'changing %d/%d%s' % (a + (' and %d/%d' % b if b else '',))
                st = change(st, (2, 2), rd)
                x, k, did = flush(st)
                r.check(k == 0 and did, what + ' and flushing writes', w, '%s: after %s, flushing does not write the image' % (kind, what), st=x)
                if b:
                    continue
                y = st.copy()
                y.mem[('FAIL',)] = 0
                y, k, did = flush(y)
                r.check(k == 1, what + ': a failing flush is reported', w, '%s: after %s, a failing flush reports %s' % (kind, what, k), st=y)
                y, k, did = flush(y)
                r.check(k == 0 and did, what + ': written after a flush that failed', w, '%s: after %s and a flush that fails, flushing does not write the image' % (kind, what), st=y)
                for c in ls:
                    y = change(x.copy(), c)
                    y, k, did = flush(y)
                    r.check(k == 0 and did, what + ': written again', w, '%s: after %s, flushing and changing %d/%d, flushing does not write the image' % ((kind, what) + c), st=y)
        r.panics(eng, 'flushing never panics')
