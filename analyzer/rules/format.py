"""Formatting a disk; initialisation; behaviour of unformatted disks."""
from ..core import *
from .bam import KINDS, TRACKS, layout, fieldv, disk_format
from .device import geometries, gfields, spt, errname
from .disks import disk, dm, dty, opaque, mkobj, BAM
from .header import LOC, NAME, ID, PAD, FIRST, DEFAULT, HD, items, header_value

DISK = 'disk::Disk'


def system(kind):
    if kind == 'd64':
        return {(18, 0), (18, 1)}
    if kind == 'd71':
        return {(18, 0), (18, 1)} | {(53, s) for s in range(spt(kind, 53))}
    return {(40, s) for s in range(4)}


def fresh(kind, name, idb):
    """Expected contents of the sectors of a freshly formatted disk that are not all zero."""
    secs = {}

    def put(l, o, v):
        secs.setdefault(tuple(l), [0] * 256)[o] = v
    put(FIRST[kind], 1, 0xFF)
    h = LOC[kind]
    i = ID[kind]
    put(h, 0, FIRST[kind][0])
    put(h, 1, FIRST[kind][1])
    a, b, c = DEFAULT[kind]
    for o, v in ((2, a), (i, idb[0]), (i + 1, idb[1]), (i + 3, b), (i + 4, c)):
        put(h, o, v)
    for k in range(16):
        put(h, NAME[kind] + k, name[k] if k < len(name) else 0xA0)
    for o in PAD[kind]:
        put(h, o, 0xA0)
    if kind == 'd71':
        put(h, 3, 0x80)
    sysl = system(kind)
    for t in range(1, TRACKS[kind] + 1):
        (cl, co), (bl, bo, bn) = layout(kind, t)
        m = 0
        for s in range(spt(kind, t)):
            if (t, s) not in sysl:
                m |= 1 << s
        put(cl.a[1], co, bin(m).count('1'))
        for k in range(bn):
            put(bl.a[1], bo + k, m >> 8 * k & 255)
    return secs


def geo_device(r, eng, kind, key, writable=None):
    """Fix the geometry of the abstract device; -> set of its sectors."""
    tracks, _ = gfields(r, eng, key)
    dev = eng.device

    def geometry(e, st, ctx, a):
        return [(st, mk('ptr', ('S', key), (), None))]
    eng.thooks[('disk::block::BlockDevice', 'geometry')] = geometry

    def valid(e, st, l):
        if isV(l, 'agg') and all(isinstance(x, int) for x in l.a[1]):
            t, s = l.a[1]
            return 1 <= t <= tracks and s < spt(kind, t)
        return None
    dev.valid = valid
    return [(t, s) for t in range(1, tracks + 1) for s in range(spt(kind, t))]


def kinds_geo(r, kind):
    gs = [k for kd, k in geometries(r) if kd == kind]
    eng = r.engine()
    seen = {}
    for k in gs:
        seen.setdefault(gfields(r, eng, k)[0], k)
    return list(seen.values())


@rule('C21', *KINDS)
def formatted(r, kind):
    """formatting leaves exactly a fresh disk: empty directory, header with the given name and id, a map with only the system sectors in use, everything else zero"""
    f = dm(r, kind, 'write_format')
    w = r.where(f)
    for key in kinds_geo(r, kind):
        for was in (True, False) if r.tier != 'quick' else (True,):
            eng = r.engine()
            eng.exact, eng.accel = 10 ** 7, True
            secs = geo_device(r, eng, kind, key)
            log = []
            eng.device.watch.append(lambda e, s, c, what, l: what != 'sector' and s.mem.__setitem__(('last',), what))
            st = State()
            d, bp = disk(r, eng, st, kind, formatted=was)
            name = [65 + i for i in range(5)]
            ns = eng.mkseq(eng.u8(), (('b', 'nm', 0, 5),))
            np = mkobj(eng, st, 'nm', r.ty('petscii::Petscii'), mk('agg', 0, (ns,)))
            iv = opaque(r, eng, st, 'id', 'disk::Id')
            idb = [eng.seq_get(st, iv.a[1][0], k) for k in range(2)]
            ip = mkobj(eng, st, 'id', r.ty('disk::Id'), iv)
            want = fresh(kind, [eng.seq_get(st, ns, i) for i in range(5)], idb)
            oks = 0
            for s, v in r.run(eng, f, [d, np, ip], st):
                k = eng.variant(s, v)
                wr = s.decide(term('sym', 1, ('writable',)))
                mods = [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)]
                if k != 0:
                    if wr == 0:
                        r.check(not mods, 'a read-only disk is left alone', w, 'formatting a read-only disk changes it', st=s)
                        r.check(s.mem[d.a[0]] is st.mem[d.a[0]], 'and so is what is known about it', w, 'a refused format changes the disk object', st=s)
                    else:
                        r.check(s.mem.get(('last',)) == 'devflush', 'fails only if flushing fails', w, 'formatting a writable disk fails', st=s)
                    continue
                oks += 1
                r.check(wr == 1, 'only a writable disk is formatted', w, 'formatting a read-only disk reports success', st=s)
                r.check(s.mem.get(('last',)) == 'devflush', 'flushed after the last write', w, 'formatting does not flush the image after its last write', st=s)
                dv = eng.deref(s, d)
                D = dty(kind)
                hk, bk, fk = [eng.variant(s, fieldv(r, eng, s, dv, D, x)) for x in ('header', 'bam', 'format')]
                r.check(hk == 1 and bk == 1 and fk == 1, 'the disk counts as formatted', w, 'after formatting, the disk object has no header, map or format', st=s)
                if hk == 1 and bk == 1 and fk == 1:
                    hv = eng.field(s, fieldv(r, eng, s, dv, D, 'header'), 0, 1)
                    nv = items(eng, s, fieldv(r, eng, s, hv, HD, 'disk_name'))
                    r.check(None if nv is None else all(same(s, nv[i], eng.seq_get(s, ns, i)) == 1 for i in range(5)), 'the disk knows its new name', w, 'after formatting the disk has another name', st=s)
                    r.check(eng.variant(s, fieldv(r, eng, s, hv, HD, 'geos')) == 0, 'not GEOS', w, st=s)
                    fv = eng.field(s, fieldv(r, eng, s, dv, D, 'format'), 0, 1)
                    r.want(s, fieldv(r, eng, s, fv, 'disk::format::DiskFormat', 'geos'), 0, 'native allocation rules', w, 'a freshly formatted disk follows GEOS rules')
                    bm = eng.deref(s, eng.field(s, fieldv(r, eng, s, dv, D, 'bam'), 0, 1))
                    bo = mkobj(eng, s, 'bamnow', r.ty(BAM), bm)
                    for t in range(1, TRACKS[kind] + 1):
                        m = sum(1 << x for x in range(spt(kind, t)) if (t, x) not in system(kind))
                        for s2, ev in r.run(eng, r.fn('disk::bam::Bam::entry'), [bo, t], s):
                            if eng.variant(s2, ev) != 0:
                                r.check(0, 'entry', w, 'the map of a fresh disk refuses track %d' % t, st=s2)
                                continue
                            x = eng.deref(s2, ev.a[1][0])
                            BE = 'disk::bam::BamEntry'
                            r.want(s2, fieldv(r, eng, s2, x, BE, 'sector_map'), m, 'track %d of the map in use' % t, w)
                            r.want(s2, fieldv(r, eng, s2, x, BE, 'free_sectors'), bin(m).count('1'), 'count of track %d of the map in use' % t, w)
                for l in secs:
                    o = ('sec', mk('agg', 0, l))
                    c = eng.explode(eng.load(s, o))
                    if c is None or len(c) != 256:
                        r.skip('sector content')
                        break
                    e = want.get(l) or [0] * 256
                    bad = [i for i in range(256) if c[i] is not e[i] and same(s, c[i], e[i]) != 1]
                    r.check(not bad, 'sector %s' % (l,), w, 'after formatting, byte %#x of sector %s is %s, expected %s' % (bad[0] if bad else 0, l, show(c[bad[0]])[:60] if bad else '', show(e[bad[0]])[:60] if bad else ''), st=s, got=[c[i] for i in bad])
            r.check(oks > 0, 'formatting can succeed', w)
            r.panics(eng, 'formatting never panics')


@rule('C21', *KINDS)
def format_name(r, kind):
    """a name that cannot be stored is refused before anything on the disk changes"""
    f = dm(r, kind, 'write_format')
    w = r.where(f)
    key = kinds_geo(r, kind)[0]
    for n in (17, 30, 255):
        eng = r.engine()
        eng.exact, eng.accel = 10 ** 7, True
        geo_device(r, eng, kind, key)
        st = State()
        d, bp = disk(r, eng, st, kind)
        ns = eng.mkseq(eng.u8(), (('b', 'nm', 0, n),))
        np = mkobj(eng, st, 'nm', r.ty('petscii::Petscii'), mk('agg', 0, (ns,)))
        ip = mkobj(eng, st, 'id', r.ty('disk::Id'), opaque(r, eng, st, 'id', 'disk::Id'))
        rs = r.run(eng, f, [d, np, ip], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, v in rs:
            mods = [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)]
            r.check(eng.variant(s, v) == 1, 'refused', w, 'formatting with a name of %d characters succeeds' % n, st=s)
            r.check(not mods and s.mem[d.a[0]] is st.mem[d.a[0]] and s.mem[bp.a[0]] is st.mem[bp.a[0]], 'nothing changed', w, 'formatting with a name of %d characters is refused only after changing the disk' % n, st=s)
            if s.decide(term('sym', 1, ('writable',))) == 1:
                r.check(errname(r, v) == 'FilenameTooLong', 'FilenameTooLong', w, st=s)
        r.panics(eng, 'never panics')


def fstate(r, eng, s, d, kind):
    """(header, bam, format) option variants of a disk object."""
    dv = eng.deref(s, d)
    return [eng.variant(s, fieldv(r, eng, s, dv, dty(kind), x)) for x in ('header', 'bam', 'format')]


@rule('C23', *KINDS)
def initialized(r, kind):
    """after initialisation the disk has header, map and format exactly when the header is readable; GEOS rules apply exactly on GEOS disks"""
    f = dm(r, kind, 'initialize')
    w = r.where(f)
    rd = r.fn('disk::header::Header::read')
    br = r.fn('disk::bam::Bam::read')
    BAMF = 'disk::format::DiskFormat'
    for was in (True, False, 'geos'):
        eng = r.engine()
        st = State()
        d, bp = disk(r, eng, st, kind, formatted=bool(was), geos=int(was == 'geos'))

        def hread(e, st, ctx, a):
            out = []
            for g in (None, 0, 1):
                s = st.copy()
                if g is None:
                    s.mem[('hdr',)] = 0
                    out.append((s, err(e.mkop(e.tyid('std::io::Error'), ('hderr',)))))
                    continue
                s.mem[('hdr',)] = 1
                s.mem[('geos',)] = g
                h = opaque(r, e, s, 'newhdr', HD)
                from .alloc import setfield
                gv = some(opaque(r, e, s, 'geoshdr', 'disk::geos::GEOSDiskHeader')) if g else none()
                out.append((s, ok(setfield(r, h, HD, 'geos', gv))))
            return out

        def bread(e, st, ctx, a):
            s = st.copy()
            s.mem[('bamread',)] = 1
            s2 = st.copy()
            s2.mem[('bamread',)] = 0
            return [(s, ok(opaque(r, e, s, 'newbam', BAM))), (s2, err(e.mkop(e.tyid('std::io::Error'), ('bmerr',))))]
        eng.hooks[rd['lpath']] = hread
        eng.hooks[br['lpath']] = bread
        seen = set()
        rs = r.run(eng, f, [d], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, _ in rs:
            h, b, fm = fstate(r, eng, s, d, kind)
            hd, bm, g = s.mem.get(('hdr',)), s.mem.get(('bamread',)), s.mem.get(('geos',))
            r.check(not [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)], 'nothing is written', w, 'initialising a disk writes to it', st=s)
            if hd is None:
                r.skip('the header is not read by Header::read')
                continue
            if hd == 0:
                seen.add('un')
                r.check((h, b, fm) == (0, 0, 0), 'unreadable header: unformatted', w, 'a disk without readable header keeps %s' % [n for n, x in zip(('a header', 'a map', 'a format'), (h, b, fm)) if x != 0], st=s)
                continue
            if bm is None:
                r.check(0, 'the map is read', w, 'the map of a disk with a readable header is not read', st=s)
                continue
            if bm == 0:
                r.check(b == 0, 'unreadable map: no map', w, 'an unreadable map leaves the old one in use', st=s)
                continue
            seen.add('ok%d' % g)
            r.check((h, b, fm) == (1, 1, 1), 'readable: formatted', w, 'a readable disk lacks %s' % [n for n, x in zip(('a header', 'a map', 'a format'), (h, b, fm)) if x != 1], st=s)
            if (h, b, fm) != (1, 1, 1):
                continue
            dv = eng.deref(s, d)
            D = dty(kind)
            hv = eng.field(s, fieldv(r, eng, s, dv, D, 'header'), 0, 1)
            r.check(same(s, fieldv(r, eng, s, hv, HD, 'disk_format_type'), fieldv(r, eng, s, opaque(r, eng, s, 'newhdr', HD), HD, 'disk_format_type')) == 1, 'the header just read is installed', w, 'the disk keeps an old header', st=s)
            fv = eng.field(s, fieldv(r, eng, s, dv, D, 'format'), 0, 1)
            r.want(s, fieldv(r, eng, s, fv, BAMF, 'geos'), g, 'GEOS rules iff GEOS header', w, 'a %sGEOS disk is treated as %s' % ('' if g else 'non-', 'a CBM disk' if g else 'a GEOS disk'))
            nat = eng.deref(s, disk_format(r, kind))
            for fl in [x['n'] for x in r.F.types[r.ty(BAMF)]['variants'][0]['f']]:
                if fl != 'geos':
                    r.want(s, fieldv(r, eng, s, fv, BAMF, fl), fieldv(r, eng, s, nat, BAMF, fl), 'native %s' % fl, w)
            bp2 = eng.field(s, fieldv(r, eng, s, dv, D, 'bam'), 0, 1)
            bv = eng.deref(s, bp2)
            fn_ = [x['n'] for x in r.F.types[r.ty(BAM)]['variants'][0]['f'] if 'DiskFormat' in r.F.types[x['t']]['s']]
            bfm = fieldv(r, eng, s, bv, BAM, fn_[0]) if len(fn_) == 1 else None
            if bfm is None:
                r.skip('format of the map')
            else:
                if isV(bfm, 'ptr'):
                    bfm = eng.deref(s, bfm)
                r.want(s, fieldv(r, eng, s, bfm, BAMF, 'geos'), g, 'the map follows the same rules', w, 'allocation on a %sGEOS disk follows %s rules' % ('' if g else 'non-', 'CBM' if g else 'GEOS'))
        r.check(seen >= {'un', 'ok0', 'ok1'}, 'outcomes exist', w, 'outcomes %s' % seen)
        r.panics(eng, 'initialising never panics')


REFUSED = ('disk_format', 'disk_format_mut', 'header', 'header_mut', 'flush_header', 'bam', 'directory', 'find_directory_entry', 'next_free_directory_entry',
           'check_filename_availability', 'rename', 'open_file', 'open_file_from_entry', 'create_file', 'validate', 'blocks_free')


@rule('C23', *KINDS)
def unformatted(r, kind):
    """on an unformatted disk every operation that needs a format fails with Unformatted, changes nothing and never panics"""
    for m in REFUSED:
        f = dm(r, kind, m)
        w = r.where(f)
        eng = r.engine()
        st = State()
        d, _ = disk(r, eng, st, kind, formatted=False)
        a = symargs(eng, f)
        a[0] = d
        if m == 'create_file':
            a[3] = mk('agg', [v['n'] for v in r.F.types[r.ty('disk::file::Scheme')]['variants']].index('Linear'), ())
        rs = r.run(eng, f, a, st)
        r.check(len(rs) > 0, m + ': returns', w)
        for s, v in rs:
            e = errname(r, v)
            wr = s.decide(term('sym', 1, ('writable',)))
            long = m == 'create_file' and e == 'FilenameTooLong'
            r.check(eng.variant(s, v) == 1 and (e == 'Unformatted' or long or wr == 0 and m == 'header_mut'), m + ': refused', w,
                    '%s on an unformatted disk returns %s' % (m, e or show(v)[:80]), st=s, got=v)
            r.check(not [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)], m + ': nothing written', w, '%s writes to an unformatted disk' % m, st=s)
        r.panics(eng, m + ': never panics')
    f = dm(r, kind, 'name')
    eng = r.engine()
    st = State()
    d, _ = disk(r, eng, st, kind, formatted=False)
    for s, v in r.run(eng, f, [d], st):
        r.check(eng.variant(s, v) == 0, 'no name', r.where(f), 'an unformatted disk has a name', st=s)
    r.panics(eng, 'never panics')
