"""The block availability map: on-disk codec and in-memory bookkeeping."""
from ..core import *
from .codec import eqv
from .device import spt, errname

KINDS = ('d64', 'd71', 'd81')
TRACKS = {'d64': 35, 'd71': 70, 'd81': 80}


def loc(t, s):
    return mk('agg', 0, (t, s))


def layout(kind, t):
    """Documented position of track t's BAM entry: (count loc, offset), (bitmap loc, offset, bytes)."""
    if kind == 'd64' or kind == 'd71' and t <= 35:
        return (loc(18, 0), 4 + 4 * (t - 1)), (loc(18, 0), 5 + 4 * (t - 1), 3)
    if kind == 'd71':
        return (loc(18, 0), 0xDD + t - 36), (loc(53, 0), 3 * (t - 36), 3)
    l = loc(40, 1 if t <= 40 else 2)
    o = 0x10 + 6 * ((t - 1) % 40)
    return (l, o), (l, o + 1, 5)


def disk_format(r, kind):
    """The native format constant of a disk type."""
    f = r.method('disk::%s' % kind.upper() if r.F.crate == 'cdisk' else 'disk::%s::%s' % (kind, kind.upper()), 'native_disk_format', 'disk::Disk')
    eng = r.engine()
    rs = r.run(eng, f, symargs(eng, f))
    ps = {v for _, v in rs}
    if len(ps) != 1:
        raise Skip('native format of ' + kind)
    p = ps.pop()
    if not (isV(p, 'ptr') and p.a[0][0] == 'S'):
        raise Skip('native format of ' + kind)
    return p


def fieldv(r, eng, st, v, tyname, name):
    t = r.F.types[r.ty(tyname)]
    for i, f in enumerate(t['variants'][0]['f']):
        if f['n'] == name:
            return eng.field(st, v, i, 0)
    raise Skip('field %s.%s' % (tyname, name))


def read_bam(r, eng, kind, st=None):
    f = r.fn('disk::bam::Bam::read')
    st = st or State()
    a = symargs(eng, f)
    res = []
    for s, v in r.run(eng, f, [a[0], disk_format(r, kind)], st):
        if eng.variant(s, v) == 0:
            s = s.copy()
            o = ('O', 'bam', r.ty('disk::bam::Bam'))
            s.mem[o] = v.a[1][0]
            res.append((s, mk('ptr', o, (), None)))
        else:
            res.append((s, None))
    return res


def bit_of(st, v, i):
    if isinstance(v, int):
        return v >> i & 1
    b = as_bits(v, 64)
    return None if b is None else b[i]


@rule('C03', *KINDS)
def bam_decode(r, kind):
    """reading takes each track's free count and bitmap from its documented place, bit s = sector s"""
    eng = r.engine()
    f = r.fn('disk::bam::Bam::read')
    ent = r.fn('disk::bam::Bam::entry')
    good = 0
    for s, bam in read_bam(r, eng, kind):
        if bam is None:
            continue
        good += 1
        for t in range(1, TRACKS[kind] + 1):
            (cl, co), (bl, bo, bn) = layout(kind, t)
            rs = r.run(eng, ent, [bam, t], s)
            r.check(len(rs) > 0, 'entry %d' % t, r.where(ent))
            for s2, v in rs:
                if eng.variant(s2, v) != 0:
                    r.check(False, '', r.where(ent), 'entry of track %d refused' % t, st=s2)
                    continue
                e = eng.deref(s2, v.a[1][0])
                fs = fieldv(r, eng, s2, e, 'disk::bam::BamEntry', 'free_sectors')
                sm = fieldv(r, eng, s2, e, 'disk::bam::BamEntry', 'sector_map')
                cnt = eng.seq_get(s2, eng.load(s2, ('sec', cl)), co)
                r.check(eqv(s2, fs, cnt) == 1, 'track %d: free count' % t, r.where(f),
                        'track %d: free count read as %s' % (t, show(fs)), st=s2, got=fs)
                bad = []
                for b in range(64):
                    want = 0
                    if b < 8 * bn:
                        byte = eng.seq_get(s2, eng.load(s2, ('sec', bl)), bo + b // 8)
                        want = as_bits(byte, 8)[b % 8]
                    if bit_of(s2, sm, b) != want:
                        bad.append(b)
                r.check(not bad, 'track %d: bitmap' % t, r.where(f), 'track %d: bit for sector %s comes from the wrong place' % (t, bad[:4]), st=s2, got=sm)
    r.check(good > 0, 'reading can succeed', r.where(f))
    r.panics(eng, 'reading the BAM never panics')


STATE = ('format', 'invalidated', 'bam_rw', 'entries')


def unchanged(r, eng, st, st0, bam):
    """What a map stands for (not: private bookkeeping such as hints) is as before."""
    a, b = st.mem.get(bam.a[0]), st0.mem.get(bam.a[0])
    if a is b:
        return 1
    fs = r.F.types[r.ty('disk::bam::Bam')]['variants'][0]['f']
    named = [i for i, x in enumerate(fs) if x['n'] in STATE]
    return int(len(named) == len(STATE) and all(eng.field(st, a, i, 0) is eng.field(st0, b, i, 0) for i in named))


def modified(r, eng, st, bam, kind):
    """Every track of the map has been changed since it was read (and holds what it held): a flush may skip what is not."""
    al, em, en = r.fn('disk::bam::Bam::allocate'), r.fn('disk::bam::Bam::entry_mut'), r.fn('disk::bam::Bam::entry')
    for t in range(1, TRACKS[kind] + 1):
        rs = [(s, v) for s, v in r.run(eng, en, [bam, t], st) if eng.variant(s, v) == 0]
        if len(rs) != 1:
            raise Skip('Bam::entry')
        old = eng.deref(rs[0][0], rs[0][1].a[1][0])
        rs = [s for s, v in r.run(eng, al, [bam, loc(t, 0)], st) if eng.variant(s, v) == 0]
        if len(rs) != 1:
            raise Skip('Bam::allocate')
        rs = [(s, v) for s, v in r.run(eng, em, [bam, t], rs[0]) if eng.variant(s, v) == 0]
        if len(rs) != 1:
            raise Skip('Bam::entry_mut')
        st = rs[0][0].copy()
        eng.store(st, rs[0][1].a[1][0], old)
    return st


@rule('C03', *KINDS)
def bam_flush(r, kind):
    """flushing writes each track's count and bitmap to its documented place and touches no other byte"""
    eng = r.engine()
    fl = r.fn('disk::bam::Bam::flush')
    ent = r.fn('disk::bam::Bam::entry')
    n = 0
    for s, bam in read_bam(r, eng, kind):
        if bam is None:
            continue
        s = modified(r, eng, s.copy(), bam, kind)
        ents = {}
        for t in range(1, TRACKS[kind] + 1):
            for s2, v in r.run(eng, ent, [bam, t], s):
                ents[t] = eng.deref(s2, v.a[1][0])
        # an arbitrary other disk content to flush onto
        for o in [o for o in s.mem if o[0] == 'sec']:
            del s.mem[o]
        s.mem[('EPOCH',)] = 'other'
        pos = {}
        for t in range(1, TRACKS[kind] + 1):
            (cl, co), (bl, bo, bn) = layout(kind, t)
            pos[(cl, co)] = fieldv(r, eng, s, ents[t], 'disk::bam::BamEntry', 'free_sectors')
            sm = fieldv(r, eng, s, ents[t], 'disk::bam::BamEntry', 'sector_map')
            for i in range(bn):
                pos[(bl, bo + i)] = [bit_of(s, sm, 8 * i + k) for k in range(8)]
        before = s.copy()
        for s2, v in r.run(eng, fl, [bam], s):
            if eng.variant(s2, v) != 0:
                r.check(s2.decide(term('sym', 1, ('writable',))) == 0, 'flush fails only without write access', r.where(fl), st=s2)
                continue
            n += 1
            touched = [o for o in s2.mem if o[0] == 'sec']
            locs = {l for l, _ in pos}
            r.check(locs <= {o[1] for o in touched}, 'every BAM sector is written', r.where(fl),
                    'BAM sectors %s are not written' % [show(l) for l in locs - {o[1] for o in touched}], st=s2)
            for o in touched:
                l = o[1]
                new = eng.explode(s2.mem[o])
                if new is None or len(new) != 256:
                    r.skip('sector content')
                    continue
                for i in range(256):
                    old = eng.seq_get(s2, eng.load(before, o), i)
                    w = pos.get((l, i))
                    if w is None:
                        good = eqv(s2, new[i], old) == 1
                        what = 'byte %d of sector %s is overwritten although it is not part of the BAM' % (i, show(l))
                    elif isinstance(w, list):
                        good = as_bits(new[i], 8) is not None and list(as_bits(new[i], 8)) == w
                        what = 'bitmap byte %d of sector %s receives %s' % (i, show(l), show(new[i])[:80])
                    else:
                        good = eqv(s2, new[i], w) == 1
                        what = 'free count byte %d of sector %s receives %s' % (i, show(l), show(new[i])[:80])
                    r.check(good, 'sector %s byte %d' % (show(l), i), r.where(fl), what, st=s2, got=new[i])
    r.check(n > 0, 'flushing can succeed', r.where(fl))
    r.panics(eng, 'flushing the BAM never panics')


BE = 'disk::bam::BamEntry'


def popcount(bits):
    n = 0
    for b in bits:
        n = lin_add(n, b if isinstance(b, int) else bits_value((b,), 1))
    return n


def entry_bits(r, eng, st, e):
    sm = fieldv(r, eng, st, e, BE, 'sector_map')
    return [bit_of(st, sm, b) for b in range(64)]


def sym_bam(r, eng, kind):
    """A BAM with arbitrary entries -> (state, pointer)."""
    rs = [(s, b) for s, b in read_bam(r, eng, kind) if b is not None]
    if not rs:
        raise Skip('Bam::read has no successful outcome')
    return rs[0]


def entries_of(r, eng, st, bam, kind):
    ent = r.fn('disk::bam::Bam::entry')
    out = {}
    for t in range(1, TRACKS[kind] + 1):
        for s2, v in r.run(eng, ent, [bam, t], st):
            if eng.variant(s2, v) == 0:
                out[t] = eng.deref(s2, v.a[1][0])
    return out


@rule('C04', 'allocate', 'free')
def entry_update(r, op):
    """(de)allocating a sector changes exactly that sector's bit and keeps the count equal to the set bits"""
    f = r.fn('disk::bam::Bam::' + op)
    want = 0 if op == 'allocate' else 1
    eng = r.engine()
    for kind in KINDS:
        st0, bam = sym_bam(r, eng, kind)
        old = entries_of(r, eng, st0, bam, kind)
        whole = eng.deref(st0, bam)
        last = TRACKS[kind]
        cases = [(1, s) for s in range(spt(kind, 1))] + [(t, 0) for t in range(2, last + 1)] + [(last, spt(kind, last) - 1)]
        for t, sec in cases:
            rs = r.run(eng, f, [bam, loc(t, sec)], st0)
            okc = 0
            for s, v in rs:
                if eng.variant(s, v) != 0:
                    r.check(False, '', r.where(f), '%s of %d/%d refused on a valid BAM' % (op, t, sec), st=s)
                    continue
                okc += 1
                new = entries_of(r, eng, s, bam, kind)
                for u in (new if sec == 0 and t % 16 == 1 else {t, t - 1, t + 1, 1, last} & set(new)):
                    if u != t:
                        r.check(new[u] is old[u], '%s %d/%d: track %d unchanged' % (op, t, sec, u), r.where(f),
                                '%s of %d/%d changes the entry of track %d' % (op, t, sec, u), st=s)
                ob, nb = entry_bits(r, eng, s, old[t]), entry_bits(r, eng, s, new[t])
                diff = [b for b in range(64) if b != sec and nb[b] != ob[b]]
                r.check(nb[sec] == want, '%s %d/%d: its bit' % (op, t, sec), r.where(f), '%s leaves the bit of sector %d as %s' % (op, sec, show(nb[sec])), st=s, got=new[t])
                r.check(not diff, '%s %d/%d: other bits' % (op, t, sec), r.where(f), '%s of sector %d changes the bit of sector %s' % (op, sec, diff[:3]), st=s, got=new[t])
                cnt = fieldv(r, eng, s, new[t], BE, 'free_sectors')
                r.check(s.decide(mk_eq(cnt, popcount(nb))) == 1, '%s %d/%d: count = set bits' % (op, t, sec), r.where(f),
                        'after %s the free count is %s' % (op, show(cnt)[:120]), st=s, got=cnt)
                bt = r.F.types[r.ty('disk::bam::Bam')]['variants'][0]['f']
                now = eng.deref(s, bam)
                for i, x in enumerate(bt):
                    if 'BamEntry' not in r.F.types[x['t']]['s'] and x['n'] in STATE:
                        r.check(eng.field(s, now, i, 0) is eng.field(s, whole, i, 0), 'field ' + x['n'], r.where(f),
                                '%s changes %s' % (op, x['n']), st=s)
            r.check(okc > 0, '%s %d/%d succeeds' % (op, t, sec), r.where(f))
    r.panics(eng, op + ' of an existing sector never panics')


@rule('C04', 'allocate', 'free')
def outside(r, op):
    """an address the map does not cover is refused with InvalidLocation and changes nothing"""
    from .device import errname
    f = r.fn('disk::bam::Bam::' + op)
    eng = r.engine()
    for kind in KINDS:
        st0, bam = sym_bam(r, eng, kind)
        last = TRACKS[kind]
        cases = [(t, s) for t in (0, last + 1, last + 2, 71, 81, 128, 255) if t < 1 or t > last for s in (0, 1, 39, 255)]
        cases += [(t, spt(kind, t)) for t in range(1, last + 1)]
        cases += [(t, s) for t in (1, 18, last) for s in (spt(kind, t) + 1, 40, 63, 64, 127, 255) if s >= spt(kind, t)]
        for t, sec in cases:
            rs = r.run(eng, f, [bam, loc(t, sec)], st0)
            r.check(len(rs) > 0, '%s %s %d/%d returns' % (kind, op, t, sec), r.where(f), '%s: %s of %d/%d does not return' % (kind, op, t, sec))
            for s, v in rs:
                r.check(eng.variant(s, v) == 1, '%s %s %d/%d is refused' % (kind, op, t, sec), r.where(f),
                        '%s: %s of the nonexistent sector %d/%d is accepted' % (kind, op, t, sec), st=s, got=v)
                r.check(eng.variant(s, v) != 1 or errname(r, v) == 'InvalidLocation', '%s %s %d/%d: InvalidLocation' % (kind, op, t, sec), r.where(f),
                        '%s: %s of the nonexistent sector %d/%d reports %s' % (kind, op, t, sec, errname(r, v)), st=s, got=v)
                r.check(unchanged(r, eng, s, st0, bam), '%s %s %d/%d changes nothing' % (kind, op, t, sec), r.where(f),
                        '%s: %s of the nonexistent sector %d/%d changes the map' % (kind, op, t, sec), st=s)
    r.panics(eng, op + ' of a nonexistent sector never panics')


@rule('C04', *KINDS)
def new_bam(r, kind):
    """a fresh BAM marks exactly the sectors of each track free; blocks_free sums the tracks outside the directory track"""
    f = r.fn('disk::bam::Bam::new')
    bf = r.fn('disk::bam::Bam::blocks_free')
    eng = r.engine()
    a = symargs(eng, f)
    for s, v in r.run(eng, f, [a[0], disk_format(r, kind)]):
        s = s.copy()
        o = ('O', 'bam', r.ty('disk::bam::Bam'))
        s.mem[o] = v
        p = mk('ptr', o, (), None)
        es = entries_of(r, eng, s, p, kind)
        r.check(len(es) == TRACKS[kind], 'one entry per track', r.where(f), st=s)
        for t, e in es.items():
            n = spt(kind, t)
            r.check(entry_bits(r, eng, s, e) == [1 if b < n else 0 for b in range(64)], 'track %d: all %d sectors free' % (t, n), r.where(f), st=s, got=e)
            r.check(fieldv(r, eng, s, e, BE, 'free_sectors') == n, 'track %d: count %d' % (t, n), r.where(f), st=s, got=e)
    st0, bam = sym_bam(r, eng, kind)
    es = entries_of(r, eng, st0, bam, kind)
    dirt = 40 if kind == 'd81' else 18
    want = 0
    for t, e in es.items():
        if t != dirt:
            want = lin_add(want, fieldv(r, eng, st0, e, BE, 'free_sectors'))
    rs = r.run(eng, bf, [bam], st0)
    r.check(len(rs) > 0, 'blocks_free returns', r.where(bf))
    for s, v in rs:
        r.check(s.decide(mk_eq(v, want)) == 1, 'blocks_free', r.where(bf), 'blocks_free is not the sum of the free counts outside track %d' % dirt, st=s, got=v)
        r.check(unchanged(r, eng, s, st0, bam), 'blocks_free changes nothing', r.where(bf), st=s)
    r.panics(eng, 'never panics')


@rule('C22')
def invalidated(r):
    """an invalidated BAM handle refuses every operation and cannot write to the disk"""
    inv = r.fn('disk::bam::Bam::invalidate')
    for kind in KINDS:
        eng = r.engine()
        st0, bam = sym_bam(r, eng, kind)
        wrote = []
        eng.device.watch.append(lambda e, st, ctx, what, l: wrote.append(what) if what == 'sector_mut' else None)
        for s, _ in r.run(eng, inv, [bam], st0):
            before = s.mem[bam.a[0]]
            for m in ('allocate', 'free', 'next_free_block', 'flush', 'entry', 'entry_mut'):
                f = r.fn('disk::bam::Bam::' + m)
                a = symargs(eng, f)
                a[0] = bam
                rs = r.run(eng, f, a, s)
                r.check(len(rs) > 0, m + ' returns', r.where(f))
                for s2, v in rs:
                    r.check(eng.variant(s2, v) == 1 and errname(r, v) == 'InvalidBAM', '%s: refused with InvalidBAM' % m, r.where(f),
                            '%s on an invalidated BAM returns %s' % (m, show(v)[:80]), st=s2)
                    r.check(s2.mem.get(bam.a[0]) is before, m + ': nothing changes', r.where(f), st=s2)
        r.check(not wrote, 'nothing written', 'disk::bam::Bam')
        r.panics(eng, 'never panics')
