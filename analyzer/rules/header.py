"""The disk header sector and the GEOS info block: on-disk codecs."""
from ..core import *
from .bam import KINDS, disk_format, fieldv
from .codec import sector_bytes, byte
from .device import errname
from .disks import mkobj, opaque, disk, dm, dty
from .entry import bytes_of, variants

HD = 'disk::header::Header'
LOC = {'d64': (18, 0), 'd71': (18, 0), 'd81': (40, 0)}
NAME = {'d64': 0x90, 'd71': 0x90, 'd81': 0x04}
ID = {'d64': 0xA2, 'd71': 0xA2, 'd81': 0x16}
PAD = {'d64': (0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA), 'd81': (0x14, 0x15, 0x18, 0x1B, 0x1C)}
PAD['d71'] = PAD['d64']
FIRST = {'d64': (18, 1), 'd71': (18, 1), 'd81': (40, 3)}
DEFAULT = {'d64': (0x41, 0x32, 0x41), 'd71': (0x41, 0x32, 0x41), 'd81': (0x44, 0x33, 0x44)}
SIG = b'GEOS format'


def hformat(r, eng, st, kind):
    fm = eng.deref(st, disk_format(r, kind))
    return fieldv(r, eng, st, fm, 'disk::format::DiskFormat', 'header')


def expected(kind, by):
    """field -> value"""
    i = ID[kind]
    return {'first_directory_sector': mk('agg', 0, (by[0], by[1])), 'disk_format_type': by[2],
            'directory_dos_version': by[i + 3], 'directory_format_type': by[i + 4]}


def items(eng, st, v):
    v = bytes_of(eng, st, v)
    if isV(v, 'ptr') or isV(v, 'sl'):
        v = eng.deref(st, v)
    return eng.explode(v) if isV(v, 'seq') else None


def sec(eng, st, kind):
    l = mk('agg', 0, LOC[kind])
    c = eng.explode(eng.load(st, ('sec', l)))
    if c is None or len(c) != 256:
        raise Skip('header sector')
    return c


def read_header(r, eng, kind, st):
    f = r.fn('disk::header::Header::read')
    a = symargs(eng, f)
    return f, r.run(eng, f, [a[0], hformat(r, eng, st, kind)], st)


@rule('C14', *KINDS)
def header_decode(r, kind):
    """every field of the disk header comes from its documented bytes; GEOS disks are recognised exactly by their signature"""
    eng = r.engine()
    eng.exact = 32
    seen = set()
    f = r.fn('disk::header::Header::read')
    w = r.where(f)
    devs = []
    eng.device.watch.append(lambda e, s, c, what, l: devs.append((what, l)))
    for sig in (None, 1, 0):
        st = State()
        by = sec(eng, st, kind)
        if sig == 1:
            for i, c in enumerate(SIG):
                st.con[by[0xAD + i]] = 1 << c
        elif sig == 0:
            st.con[by[0xAD + len(SIG) - 1]] = ((1 << 256) - 1) ^ (1 << SIG[-1])
        f, rs = read_header(r, eng, kind, st)
        r.check(len(rs) > 0, 'returns', w)
        for s, v in rs:
            k = eng.variant(s, v)
            dbl = s.decide(mk_eq(by[3], 0x80)) if kind == 'd71' else 1
            if k == 1:
                e = errname(r, v)
                if e is None:
                    r.check(s.decide(term('sym', 1, ('inrange', mk('agg', 0, LOC[kind])))) == 0, 'fails when the sector cannot be read', w, st=s, got=v)
                    seen.add('loc')
                else:
                    r.check(e == 'InvalidHeader' and dbl == 0, 'refused only without the double-sided flag', w, 'a readable header is refused with %s' % e, st=s)
                    seen.add('bad')
                continue
            r.check(r.truth(s, mk_eq(by[3], 0x80)) if kind == 'd71' else 1, 'accepted only with the double-sided flag', w, 'a header without the double-sided flag is accepted', st=s)
            seen.add('ok')
            h = v.a[1][0]
            g = lambda x: fieldv(r, eng, s, h, HD, x)
            for x, want in expected(kind, by).items():
                r.want(s, g(x), want, x, w)
            for x, o, n in (('disk_name', NAME[kind], 16), ('disk_id', ID[kind], 2)):
                nv = items(eng, s, g(x))
                if nv is None:
                    r.skip(x + ' not resolved')
                    continue
                r.check(len(nv) == n and all(same(s, nv[i], by[o + i]) == 1 for i in range(n)), '%s = bytes %02x..' % (x, o), w,
                        '%s is not the %d bytes at %#x' % (x, n, o), st=s, got=nv)
            gk = eng.variant(s, g('geos'))
            eqs = [s.decide(mk_eq(by[0xAD + i], c)) for i, c in enumerate(SIG)]
            want = 0 if 0 in eqs else 1 if all(e == 1 for e in eqs) else None
            if want is None and eng.variant(s, g('geos')) == 1 and any(r.truth(s, mk_eq(by[0xAD + i], c)) == 0 for i, c in enumerate(SIG)):
                want = 0
            if gk is None:
                r.skip('GEOS header not resolved')
                continue
            r.check(None if want is None else gk == want, 'GEOS iff signature', w, 'a disk %s is %streated as GEOS' % ('with the GEOS signature' if want else 'without the GEOS signature', '' if gk else 'not '), st=s)
            if gk == 1 and want:
                seen.add('geos')
                gv = eng.field(s, g('geos'), 0, 1)
                t = 'disk::geos::GEOSDiskHeader'
                r.want(s, fieldv(r, eng, s, gv, t, 'border'), mk('agg', 0, (by[0xAB], by[0xAC])), 'border sector', w)
                nv = items(eng, s, fieldv(r, eng, s, gv, t, 'id'))
                if nv is not None:
                    r.check(len(nv) <= 16 and all(same(s, nv[i], by[0xAD + i]) == 1 for i in range(len(nv))), 'GEOS id', w, 'the GEOS id is not the bytes at 0xAD', st=s, got=nv)
    r.check(all(wh == 'sector' and isV(l, 'agg') and tuple(l.a[1]) == LOC[kind] for wh, l in devs), 'only the header sector is read', w, 'reading the header accesses %s' % [(a, show(b)) for a, b in devs][:3])
    for k in ('ok', 'loc', 'geos') + (('bad',) if kind == 'd71' else ()):
        r.check(k in seen, 'outcome %s exists' % k, w)
    r.panics(eng, 'reading a header never panics')


def name_value(eng, st, n):
    """A Petscii of n unknown bytes."""
    t = eng.tyid('petscii::Petscii')
    p = eng.expand(st, eng.mkop(t, 'name'), 0)
    return p


def header_value(r, eng, st, nlen):
    """An arbitrary header with a name of nlen bytes -> (pointer, name bytes)"""
    from .alloc import setfield
    h = opaque(r, eng, st, 'hdr', HD)
    u8 = eng.u8()
    ns = eng.mkseq(u8, (('b', 'nm', 0, nlen),))
    pt = r.F.types[r.ty('petscii::Petscii')]['variants'][0]['f']
    if len(pt) != 1:
        raise Skip('Petscii fields')
    h = setfield(r, h, HD, 'disk_name', mk('agg', 0, (ns,)))
    return mkobj(eng, st, 'hdr', r.ty(HD), h), [eng.seq_get(st, ns, i) for i in range(nlen)]


@rule('C14', *KINDS)
def header_encode(r, kind):
    """writing a header puts every field at its documented place, pads the name, and touches no other byte"""
    f = r.fn('disk::header::Header::write')
    w = r.where(f)
    seen = set()
    for n in (0, 1, 15, 16, 17, 40) if r.tier == 'quick' else range(0, 41):
        eng = r.engine()
        eng.exact = 64
        st = State()
        by = sec(eng, st, kind)
        p, nm = header_value(r, eng, st, n)
        a = symargs(eng, f)
        h = eng.deref(st, p)
        g = lambda x: fieldv(r, eng, st, h, HD, x)
        want = list(by)
        fd = g('first_directory_sector')
        idv = g('disk_id')
        i = ID[kind]
        want[0], want[1] = eng.field(st, fd, 0, None), eng.field(st, fd, 1, None)
        want[2] = g('disk_format_type')
        iv = items(eng, st, idv)
        if iv is None:
            iv = [eng.seq_get(st, bytes_of(eng, st, eng.expand(st, idv, 0)), k) for k in range(2)]
        want[i], want[i + 1] = iv[:2]
        want[i + 3], want[i + 4] = g('directory_dos_version'), g('directory_format_type')
        for k in range(16):
            want[NAME[kind] + k] = nm[k] if k < n else 0xA0
        for o in PAD[kind]:
            want[o] = 0xA0
        if kind == 'd71':
            want[3] = 0x80
        rs = r.run(eng, f, [p, a[1], hformat(r, eng, st, kind)], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, v in rs:
            k = eng.variant(s, v)
            secs = [o for o in s.mem if o[0] == 'sec']
            now = sec(eng, s, kind)
            r.check(all(tuple(o[1].a[1]) == LOC[kind] for o in secs), 'only the header sector is written', w, 'writing the header touches other sectors', st=s)
            if k == 0:
                r.check(n <= 16, 'only names that fit', w, 'a disk name of %d bytes is written' % n, st=s)
                seen.add('ok')
                for o in range(256):
                    r.want(s, now[o], want[o], 'name of %d bytes: byte %#x' % (n, o), w, 'byte %#x of the header becomes %s, expected %s' % (o, show(now[o])[:80], show(want[o])[:80]))
            else:
                e = errname(r, v)
                seen.add(e)
                r.check(all(now[o] is by[o] or same(s, now[o], by[o]) == 1 for o in range(256)), 'a failure changes nothing', w, 'writing the header fails (%s) after changing the sector' % e, st=s)
                if e is not None:
                    r.check(e == 'FilenameTooLong' and n > 16, 'refused only if too long', w, 'a name of %d bytes is refused with %s' % (n, e), st=s)
                else:
                    rw = s.decide(term('sym', 1, ('writable',)))
                    rg = s.decide(term('sym', 1, ('inrange', mk('agg', 0, LOC[kind]))))
                    r.check(rw == 0 or rg == 0, 'device errors passed on', w, st=s)
        r.panics(eng, 'writing a header never panics')
    r.check({'ok', 'FilenameTooLong', None} <= seen, 'outcomes exist', w, 'outcomes %s' % seen)


@rule('C14', *KINDS)
def header_fresh(r, kind):
    """a new header carries the given name and id, the documented version bytes and the directory's first sector"""
    eng = r.engine()
    f = r.fn('disk::header::Header::new')
    w = r.where(f)
    st = State()
    a = symargs(eng, f)
    ns = eng.mkseq(eng.u8(), (('b', 'nm', 0, 5),))
    np = mkobj(eng, st, 'nm', r.ty('petscii::Petscii'), mk('agg', 0, (ns,)))
    iv = opaque(r, eng, st, 'id', 'disk::Id')
    ip = mkobj(eng, st, 'id', r.ty('disk::Id'), iv)
    rs = r.run(eng, f, [hformat(r, eng, st, kind), disk_format(r, kind), np, ip], st)
    r.check(len(rs) > 0, 'returns', w)
    for s, h in rs:
        g = lambda x: fieldv(r, eng, s, h, HD, x)
        r.want(s, g('first_directory_sector'), mk('agg', 0, FIRST[kind]), 'first directory sector', w)
        for x, v in zip(('disk_format_type', 'directory_dos_version', 'directory_format_type'), DEFAULT[kind]):
            r.want(s, g(x), v, x, w)
        r.want(s, g('disk_id'), iv, 'id', w)
        nv = items(eng, s, g('disk_name'))
        r.check(None if nv is None else len(nv) == 5 and all(same(s, nv[i], eng.seq_get(s, ns, i)) == 1 for i in range(5)), 'name', w, 'a new header has another name', st=s)
        r.check(eng.variant(s, g('geos')) == 0, 'not GEOS', w, st=s)
    r.panics(eng, 'never panics')


@rule('C14', *KINDS)
def header_access(r, kind):
    """flushing writes the current header with the disk's own layout; an unformatted disk is refused and untouched"""
    f = dm(r, kind, 'flush_header')
    w = r.where(f)
    wr = r.fn('disk::header::Header::write')
    for fm in (True, False):
        eng = r.engine()
        eng.exact = 64
        st = State()
        if fm:
            p, nm = header_value(r, eng, st, 3)
            h = eng.deref(st, p)
            d, _ = disk(r, eng, st, kind, header=h)
        else:
            d, _ = disk(r, eng, st, kind, formatted=False)
        rs = r.run(eng, f, [d], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, v in rs:
            k = eng.variant(s, v)
            secs = [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)]
            if not fm:
                r.check(k == 1 and errname(r, v) == 'Unformatted' and not secs, 'unformatted disk refused', w, 'flushing the header of an unformatted disk does not fail cleanly', st=s)
            elif k == 0:
                now = sec(eng, s, kind)
                r.check(all(same(s, now[NAME[kind] + i], nm[i] if i < 3 else 0xA0) == 1 for i in range(16)), 'the header is written', w, 'flushing does not write the name of the current header', st=s)
                r.want(s, now[2], fieldv(r, eng, s, h, HD, 'disk_format_type'), 'type written', w)
                r.check([tuple(o[1].a[1]) for o in secs] == [LOC[kind]], 'to the header sector', w, 'flushing the header writes %s' % [show(o[1]) for o in secs], st=s)
        r.panics(eng, 'never panics')
