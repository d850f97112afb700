"""Directory entries: the 32-byte on-disk record."""
from ..core import *
from ..state import Fork
from .codec import sector_bytes, byte
from .device import errname
from .alloc import setfield
from .bam import fieldv

DE = 'disk::directory::DirectoryEntry'
FA = 'disk::directory::FileAttributes'


def variants(r, ty):
    return [v['n'] for v in r.F.types[r.ty(ty)]['variants']]


def mkentry(r, eng, st, name='entry', **kw):
    """An arbitrary directory entry (opaque fields), with given fields -> pointer."""
    t = r.ty(DE)
    v = eng.expand(st, eng.mkop(t, name), 0)
    for k, x in kw.items():
        v = setfield(r, v, DE, k, x)
    o = ('O', name, t)
    st.mem[o] = v
    return mk('ptr', o, (), None)


def position(r, eng, name='pos', size=32):
    """Some(Position) with unknown location and offset."""
    t = r.ty('disk::block::Position')
    v = eng.expand(State(), eng.mkop(t, name), 0)
    return setfield(r, v, 'disk::block::Position', 'size', size)


TYPES = ('DEL', 'SEQ', 'PRG', 'USR', 'REL')
FLAGS = (('unused_bit', 4), ('save_with_replace_flag', 5), ('locked_flag', 6), ('closed_flag', 7))


def fork_byte(st, b, masks):
    """Partition a state by the value set of a byte."""
    for m in masks:
        s = st.copy()
        s.con[b] = m
        yield s


def mask(vals):
    m = 0
    for v in vals:
        m |= 1 << v
    return m


def parts(r, eng, st, by):
    """Case split of the record: (name, state)."""
    last, typ, struc, gt = by[20], by[2], by[0x17], by[0x18]
    nz = mask(range(1, 256))
    for t in range(8):
        s = st.copy()
        s.con[typ] = mask(v for v in range(256) if v & 15 == t or t > 5 and v & 15 == t + 8)
        if r.tier == 'quick':
            s.con[last] = mask(v for v in range(256) if v != 0xA0)
        if t > 3:
            yield 'type %d' % t, s
            continue
        for a, m in ((0, 1), (1, 2), (2, mask(range(2, 256)))):
            for b, m2 in ((0, 1), (1, nz)):
                s2 = s.copy()
                s2.con[struc], s2.con[gt] = m, m2
                yield 'type %d structure %s GEOS type %s' % (t, '01+'[a], '0+'[b]), s2
    if r.tier == 'quick':
        for t, a, b in ((0x82, 0, 0), (0x83, 1, 6), (0x84, 3, 0)):
            s = st.copy()
            s.con[typ], s.con[struc], s.con[gt] = 1 << t, 1 << a, 1 << b
            yield 'name, type %02x' % t, s


def parsed(r, eng, st0, buf, pos):
    """Read a record into an arbitrary entry -> [(state, entry pointer)]."""
    f = r.method(DE, 'positioned_read', 'disk::block::PositionedData')
    st = st0.copy()
    p = mkentry(r, eng, st, position=some(pos))
    out = []
    for s, v in r.run(eng, f, [p, buf], st):
        out.append((s, v, p))
    return f, out


def bytes_of(eng, st, v):
    """The byte sequence held by a Petscii value (or Vec)."""
    while isV(v, 'agg') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


@rule('C13')
def entry_decode(r):
    """every field of a directory entry comes from its documented bytes"""
    eng = r.engine()
    eng.exact = 20
    st0 = State()
    obj, buf = sector_bytes(eng, st0, 'rec', 32)
    by = [byte(eng, st0, obj, i) for i in range(32)]
    pos = position(r, eng)
    fts = variants(r, 'disk::directory::FileType')
    border0 = fieldv(r, eng, st0, eng.expand(st0, eng.mkop(r.ty(DE), 'entry'), 0), DE, 'geos_border')
    sch = variants(r, 'disk::file::Scheme')
    exs = variants(r, 'disk::directory::Extra')
    n = 0
    for nm, st in parts(r, eng, st0, by):
        f, rs = parsed(r, eng, st, buf, pos)
        r.check(len(rs) > 0, nm + ': returns', r.where(f))
        for s, v, p in rs:
            if eng.variant(s, v) != 0:
                r.check(False, '', r.where(f), 'a 32-byte record is refused', st=s)
                continue
            n += 1
            e = eng.deref(s, p)
            g = lambda x, v=e, t=DE: fieldv(r, eng, s, v, t, x)
            w = r.where(f)
            r.want(s, g('first_sector'), mk('agg', 0, (by[3], by[4])), nm + ': first sector = bytes 3,4', w)
            r.want(s, g('file_size'), lin_add(by[30], lin_scale(by[31], 256)), nm + ': size = bytes 30,31 little endian', w)
            r.want(s, g('position'), some(pos), nm + ': position kept', w)
            r.want(s, g('geos_border'), border0, nm + ': border flag kept', w,
                   're-reading an entry in place changes whether it counts as a GEOS border entry')
            fa = g('file_attributes')
            for x, b in FLAGS:
                got = g(x, fa, FA)
                r.want(s, got, bits_value((as_bits(by[2], 8)[b],), 1), nm + ': %s = bit %d of byte 2' % (x, b), w)
            ft = g('file_type', fa, FA)
            low = bits_value(as_bits(by[2], 8)[:4], 8)
            k = eng.variant(s, ft)
            if k is None:
                r.skip('file type not resolved')
            elif fts[k] in TYPES:
                r.check(s.decide(mk_eq(low, TYPES.index(fts[k]))) == 1, nm + ': type %s' % fts[k], w, 'decoded as %s for another type nibble' % fts[k], st=s)
            else:
                r.want(s, eng.field(s, ft, 0, k), low, nm + ': unknown type keeps its nibble', w)
                r.check(all(s.decide(mk_eq(low, i)) == 0 for i in range(5)), nm + ': unknown only for other nibbles', w, 'a documented type is decoded as unknown', st=s)
            # name: bytes 5..21 without trailing padding
            nv = eng.explode(bytes_of(eng, s, g('filename'))) if isV(bytes_of(eng, s, g('filename')), 'seq') else None
            if nv is None:
                r.skip('file name not resolved')
            else:
                L = len(nv)
                r.check(L <= 16 and all(same(s, nv[i], by[5 + i]) == 1 for i in range(L)), nm + ': name bytes', w, 'the name is not bytes 5..%d' % (5 + L), st=s)
                r.check(L == 0 or s.decide(mk_eq(by[4 + L], 0xA0)) == 0, nm + ': name keeps no padding', w, 'trailing padding is kept in the name', st=s)
                r.check(all(s.decide(mk_eq(by[5 + i], 0xA0)) == 1 for i in range(L, 16)), nm + ': only padding is dropped', w, 'a name of %d characters loses bytes' % L, st=s)
            # storage scheme
            k = eng.variant(s, g('scheme'))
            x = g('extra')
            xk = eng.variant(s, x)
            if k is None or xk is None:
                r.skip('scheme not resolved')
                continue
            rel = s.decide(mk_eq(low, 4))
            geos = (s.decide(mk_lt(bits_value(as_bits(by[2], 8)[:3], 8), 4)), s.decide(mk_eq(by[0x17], 0)), s.decide(mk_eq(by[0x18], 0)), s.decide(mk_eq(by[0x17], 1)))
            if rel == 1:
                want = 'Relative'
            elif geos[0] == 0 or geos[1] == 1 and geos[2] == 1 or geos[1] == 0 and geos[3] == 0:
                want = 'Linear'
            elif geos[3] == 1:
                want = 'GEOSVLIR'
            elif geos[1] == 1 and geos[2] == 0:
                want = 'GEOSSequential'
            else:
                want = None
            r.check(None if want is None else sch[k] == want, nm + ': scheme %s' % want, w, 'stored as %s, interpreted as %s' % (want, sch[k]), st=s)
            ew = {'Linear': 'Linear', 'Relative': 'Relative'}.get(sch[k], 'GEOS')
            r.check(exs[xk] == ew, nm + ': extra bytes interpreted for %s' % ew, w, '%s record with %s extra bytes' % (sch[k], exs[xk]), st=s)
            xv = eng.field(s, x, 0, xk)
            if exs[xk] == 'Relative':
                t = 'disk::directory::RelativeExtra'
                r.want(s, g('first_side_sector', xv, t), mk('agg', 0, (by[0x15], by[0x16])), nm + ': side sector', w)
                r.want(s, g('record_length', xv, t), by[0x17], nm + ': record length', w)
            elif exs[xk] == 'GEOS':
                t = 'disk::directory::GEOSExtra'
                r.want(s, g('info_block', xv, t), mk('agg', 0, (by[0x15], by[0x16])), nm + ': info block', w)
                for i, x in enumerate(('year', 'month', 'day', 'hour', 'minute')):
                    r.want(s, g(x, xv, t), by[0x19 + i], nm + ': ' + x, w)
    r.check(n > 0, 'decoding succeeds', DE)
    r.panics(eng, 'decoding a directory entry never panics')


@rule('C13')
def entry_roundtrip(r):
    """writing an entry back reproduces bytes 2..31 exactly and leaves the two link bytes alone"""
    eng = r.engine()
    eng.exact = 20
    f2 = r.method(DE, 'positioned_write', 'disk::block::PositionedData')
    st0 = State()
    obj, buf = sector_bytes(eng, st0, 'rec', 32)
    out, obuf = sector_bytes(eng, st0, 'out', 32)
    by = [byte(eng, st0, obj, i) for i in range(32)]
    ob = [byte(eng, st0, out, i) for i in range(32)]
    pos = position(r, eng)
    n = 0
    for nm, st in parts(r, eng, st0, by):
        f, rs = parsed(r, eng, st, buf, pos)
        for s, v, p in rs:
            if eng.variant(s, v) != 0:
                continue
            for s2, v2 in r.run(eng, f2, [p, obuf], s):
                if eng.variant(s2, v2) != 0:
                    r.check(False, '', r.where(f2), 'writing to a 32-byte slot is refused', st=s2)
                    continue
                n += 1
                for i in range(32):
                    want = ob[i] if i < 2 else by[i]
                    r.want(s2, byte(eng, s2, out, i), want, nm + ': byte %d' % i, r.where(f2),
                           'byte %d of a re-written directory entry becomes %s' % (i, show(byte(eng, s2, out, i))[:80]))
                r.check(s2.mem.get(p.a[0]) is s.mem.get(p.a[0]), nm + ': writing does not change the entry', r.where(f2), st=s2)
    r.check(n > 0, 'round trip succeeds', DE)
    r.panics(eng, 'encoding a directory entry never panics')


@rule('C13')
def unpositioned(r):
    """an entry without a position is never written; a short buffer is refused and left alone"""
    eng = r.engine()
    f2 = r.method(DE, 'positioned_write', 'disk::block::PositionedData')
    for case in ('none', 'short'):
        st = State()
        out, obuf = sector_bytes(eng, st, 'out', 32 if case == 'none' else 31)
        p = mkentry(r, eng, st, position=none() if case == 'none' else some(position(r, eng)))
        rs = r.run(eng, f2, [p, obuf], st)
        r.check(len(rs) > 0, case + ': returns', r.where(f2))
        for s, v in rs:
            r.check(eng.variant(s, v) == 1 and errname(r, v) == ('Unpositioned' if case == 'none' else 'WriteUnderrun'), case + ': refused', r.where(f2),
                    'writing an entry (%s) returns %s' % (case, show(v)[:60]), st=s)
            r.check(s.mem[out] is st.mem[out], case + ': nothing written', r.where(f2), st=s)
    r.panics(eng, 'never panics')


@rule('C13')
def reset_entry(r):
    """a reset entry carries nothing of the slot's previous occupant"""
    eng = r.engine()
    f = r.fn('DirectoryEntry::reset')
    f2 = r.method(DE, 'positioned_write', 'disk::block::PositionedData')
    st = State()
    out, obuf = sector_bytes(eng, st, 'out', 32)
    ob = [byte(eng, st, out, i) for i in range(32)]
    pos = position(r, eng)
    p = mkentry(r, eng, st, position=some(pos))
    before = eng.deref(st, p)
    n = 0
    for s, v in r.run(eng, f, [p], st):
        e = eng.deref(s, p)
        r.want(s, fieldv(r, eng, s, e, DE, 'position'), some(pos), 'the position is kept', r.where(f))
        r.want(s, fieldv(r, eng, s, e, DE, 'geos_border'), fieldv(r, eng, s, before, DE, 'geos_border'), 'the border flag follows the position', r.where(f))
        try:
            k = eng.variant(s, fieldv(r, eng, s, e, DE, 'scheme'))
        except Fork:
            k = -1  # still whatever it was
        r.check(None if k is None else k >= 0 and variants(r, 'disk::file::Scheme')[k] == 'Linear', 'the storage scheme is the default one', r.where(f),
                'a reset entry keeps the storage scheme of the file that used the slot before', st=s, got=fieldv(r, eng, s, e, DE, 'scheme'))
        for s2, v2 in r.run(eng, f2, [p, obuf], s):
            if eng.variant(s2, v2) != 0:
                r.check(False, '', r.where(f2), 'a reset entry cannot be written', st=s2)
                continue
            n += 1
            for i in range(2, 32):
                r.want(s2, byte(eng, s2, out, i), 0, 'byte %d is cleared' % i, r.where(f), 'byte %d of a reset entry is %s' % (i, show(byte(eng, s2, out, i))[:80]))
            for i in range(2):
                r.want(s2, byte(eng, s2, out, i), ob[i], 'byte %d kept' % i, r.where(f2))
    r.check(n > 0, 'reset and write succeed', r.where(f))
    r.panics(eng, 'resetting never panics')
