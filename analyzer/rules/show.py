"""C30: dumps, map displays and file details show exactly what is stored."""
from ..core import *
from .. import texts
from .bam import fieldv, disk_format, KINDS, TRACKS, BE, sym_bam
from .device import spt
from .disks import mkobj, opaque, disk, dm, dty
from .files import long_chain, geos, vlir, side, LIN, REL, GEO, OPS
from .records import opened, A
from .text import engine, want_text, show_of, fmt_of, T, char_of, attributes, shown_attributes
from .entry import DE
from .alloc import setfield


IOERR = mk('agg', 1, (mk('ioerr', mk('op', ('gone',), None), None, None),))


def writer(r, eng, st, limit=None):
    """An output everything written to which is tracked (and which fails after `limit` writes) -> (pointer to pass, pointer to the text)."""
    count = ('O', 'writes', eng.u8())
    st.mem[count] = 0
    texts.enable(eng)
    sp = texts.buffer(eng, st, 'out')
    w = texts.formatter(eng, st, 'writer', sp)

    def full(s):
        s = s.copy()
        s.mem[count] += 1
        return s, limit is not None and s.mem[count] > limit

    def write_fmt(e, s, ctx, a):
        s, no = full(s)
        if no:
            return [(s, IOERR)]
        k = texts.sink(e, s, a[0])
        rs = texts.write_args(e, s, ctx, k[0], a[1]) if k else None
        if rs is None:
            raise Limit('formatted output not tracked')
        return rs

    def write_all(e, s, ctx, a):
        k = texts.sink(e, s, a[0])
        q = e.seq_of(s, a[1])
        es = e.explode(q) if q is not None else None
        s, no = full(s)
        if no:
            return [(s, IOERR)]
        if k is None or es is None:
            raise Limit('output not tracked')
        texts.append(e, s, k[0], es)
        return [(s, mk('agg', 0, (UNIT,)))]

    def write(e, s, ctx, a):
        return [(s2, mk('agg', 0, (e.seq_len(e.seq_of(s2, a[1])),)) if v is not IOERR else v) for s2, v in write_all(e, s, ctx, a)]
    for m, h in (('write_fmt', write_fmt), ('write_all', write_all), ('write', write)):
        eng.thooks[('std::io::Write', m)] = h
    eng.thooks[('std::io::Write', 'flush')] = lambda e, s, ctx, a: [(s, mk('agg', 0, (UNIT,)))]
    return w, sp


def hexrows(es):
    rows = []
    for o in range(0, max(len(es), 1), 16):
        row = es[o:o + 16]
        rows.append('%04x: ' % o + ''.join('%02x ' % b for b in row) + ('   ' * (16 - len(row)) if row else '') + ''.join(chr(b) if 0x20 <= b <= 0x7E else '.' for b in row))
    return '\n'.join(rows)


def places(ls):
    return ' '.join('(%d,%d)' % l for l in ls)


@rule('C30', *KINDS)
def map_shown(r, kind):
    """the availability map is shown track by track: number, free count, size, and one mark per sector; then the blocks free"""
    f = r.method('disk::bam::Bam', 'fmt', 'std::fmt::Debug')
    w = r.where(f)
    dirt = 40 if kind == 'd81' else 18
    for turn in range(4 if r.tier == 'quick' else 40):
        eng = engine(r)
        st, bam = sym_bam(r, eng, kind)
        st = st.copy()
        v = eng.deref(st, bam)
        es = fieldv(r, eng, st, v, 'disk::bam::Bam', 'entries')
        lines, total, new = [], 0, es
        for t in range(1, TRACKS[kind] + 1):
            n = spt(kind, t)
            one = 1 << ((t * 7 + turn * 3) % n)
            m = {0: one, 1: (1 << n) - 1 ^ one, 2: (1 << n) - 1, 3: 0x35A6C9 & (1 << n) - 1}[(t + turn) % 4]
            free = bin(m).count('1')
            e = eng.expand(st, eng.mkop(r.ty(BE), ('be', t)), 0)
            e = setfield(r, setfield(r, e, BE, 'free_sectors', free), BE, 'sector_map', m)
            new = eng.seq_set(st, new, t - 1, e)
            lines.append('t%02d: [%02d/%02d] ' % (t, free, n) + ''.join('.' if m >> i & 1 else 'x' for i in range(n)))
            total += free if t != dirt else 0
        eng.store(st, bam, setfield(r, v, 'disk::bam::Bam', 'entries', new))
        for s, res, got in show_of(r, eng, st, f, bam):
            want_text(r, s, got, T('\n'.join(lines) + '\n%d blocks free.\n' % total), 'the map display', w)
            r.check(r.variant(eng, s, res, 'shown', w, 'result') == 0, 'showing the map succeeds', w, st=s)
        r.panics(eng, 'showing the map never panics')


MANY = [(30 - i // 15, i % 15) for i in range(121)]

CASES = [
    ('a linear file', LIN, 0x82, (0,) * 9, {(1, 0): [(0, 9), (1, 12)], (9, 12): [(0, 7), (1, 3)], (7, 3): [(0, 0), (1, 77)]},
     [(1, 'Occupied sectors: ' + places((A, (9, 12), (7, 3))))]),
    ('a relative file', REL, 0x84, (5, 6, 10, 0, 0, 0, 0, 0, 0), {A: [(0, 7), (1, 3)], (7, 3): [(0, 0), (1, 77)], (5, 6): side((0, 19), 0, [(5, 6)], [A, (7, 3)])},
     [(1, 'Data sectors: ' + places((A, (7, 3)))), (1, 'Side sectors: (5,6)')]),
    ('a relative file with two side sectors', REL, 0x84, (5, 6, 10, 0, 0, 0, 0, 0, 0),
     dict([(l, [(0, 0), (1, 41)]) for l in MANY] + [((5, 6), side((4, 2), 0, [(5, 6), (4, 2)], MANY[:120])), ((4, 2), side((0, 17), 1, [(5, 6), (4, 2)], MANY[120:]))]),
     [(1, 'Data sectors: ' + places(MANY)), (1, 'Side sectors: (5,6) (4,2)')]),
    ('a VLIR file', GEO, 0x83, geos(1, (0, 0)), {A: vlir((7, 3), None, (9, 12), None), (7, 3): [(0, 6), (1, 1)], (6, 1): [(0, 0), (1, 9)], (9, 12): [(0, 0), (1, 77)]},
     [(1, 'VLIR record sector: (%d,%d)' % A), (1, 'Record 0 sectors: (7,3) (6,1)'), (1, 'Record 1 sectors: '), (1, 'Record 2 sectors: (9,12)'),
      (1, '1 unavailable records follow...'), (0, 'VLIR records: 3')]),
    ('a VLIR file whose records are all there', GEO, 0x83, geos(1, (0, 0)), {A: vlir((7, 3), (9, 12)), (7, 3): [(0, 0), (1, 9)], (9, 12): [(0, 0), (1, 77)]},
     [(1, 'VLIR record sector: (%d,%d)' % A), (1, 'Record 0 sectors: (7,3)'), (1, 'Record 1 sectors: (9,12)'), (0, 'VLIR records: 2')]),
    ('a sequential GEOS file', GEO, 0x83, geos(0, (0, 0)), {A: [(0, 7), (1, 3)], (7, 3): [(0, 0), (1, 77)]},
     [(1, 'Occupied sectors: ' + places((A, (7, 3))))]),
    ('a sequential GEOS file with an info block', GEO, 0x83, geos(0, (5, 5)), {A: [(0, 7), (1, 3)], (7, 3): [(0, 0), (1, 77)]},
     [(1, 'Occupied sectors: ' + places((A, (7, 3))))]),
    ('a file of 300 sectors', LIN, 0x82, (0,) * 9, {l: c[0] for l, c in long_chain(300)[1].items()}, [(1, 'Occupied sectors: ' + places(long_chain(300)[0]))]),
]


def refused(r, eng, f, args, st, what, w):
    n = 0
    for s, v in r.run(eng, f, args, st):
        n += 1
        r.check(eng.variant(s, v) == 1, what + ' is reported', w, what + ' goes unreported', st=s)
    r.check(n > 0, what + ': returns', w)
    r.panics(eng, what + ': never panics')


@rule('C30', 'details', 'dump')
def failures(r, what):
    """an output that fails and a chain that cannot be followed are reported"""
    f = r.method(LIN, what, OPS)
    ok_ = {A: [(0, 7), (1, 3)], (7, 3): [(0, 0), (1, 77)] + [(i, 65) for i in range(2, 78)]}
    for limit in (0, 1):
        eng, st, p = opened(r, LIN, 0x82, (0,) * 9, ok_, tuple(ok_))
        st = st.copy()
        out, sp = writer(r, eng, st, limit)
        refused(r, eng, f, [p, out] + [1] * (what == 'details'), st, 'a failing output', r.where(f))
    eng, st, p = opened(r, LIN, 0x82, (0,) * 9, {A: [(0, 7), (1, 3)]}, (A,))
    st = st.copy()
    out, sp = writer(r, eng, st)
    refused(r, eng, f, [p, out] + [1] * (what == 'details'), st, 'a broken chain', r.where(f))
    for name, extra, con in (('a missing info block', geos(0, (5, 5)), {A: [(0, 0), (1, 77)]}), ('a broken record', geos(1, (0, 0)), {A: vlir((7, 3), (9, 12)), (9, 12): [(0, 0), (1, 77)]})):
        if what == 'dump' and extra[2] == 0:
            continue
        f = r.method(GEO, what, OPS)
        eng, st, p = opened(r, GEO, 0x83, extra, con, tuple(con))
        if p is None:
            continue
        st = st.copy()
        out, sp = writer(r, eng, st)
        refused(r, eng, f, [p, out] + [1] * (what == 'details'), st, name, r.where(f))


@rule('C30', *[c[0] for c in CASES])
def details(r, name):
    """the details of a file name its directory position and every sector of it, in order"""
    _, ty, typ, extra, contents, want = next(c for c in CASES if c[0] == name)
    if name == 'a sequential GEOS file with an info block':
        by, text = info_block(0)
        contents = dict(contents)
        contents[(5, 5)] = list(enumerate(by))
        info = 'GEOS info block:\n' + ''.join(chr(x) for x in text)
    else:
        info = ''
    f = r.method(ty, 'details', OPS)
    w = r.where(f)
    for verb in (0, 1, 2):
        eng, st, p = opened(r, ty, typ, extra, contents, tuple(contents))
        if p is None:
            raise Skip('opening ' + name)
        st = st.copy()
        out, sp = writer(r, eng, st)
        pos = fieldv(r, eng, st, fieldv(r, eng, st, eng.deref(st, p), ty, 'entry'), DE, 'position')
        q = pos.a[1][0]
        l = fieldv(r, eng, st, q, 'disk::block::Position', 'location')
        off = fieldv(r, eng, st, q, 'disk::block::Position', 'offset')
        exp = ['Directory position: (%d,%d@0x%02x)' % (l.a[1] + (off,))] if verb else []
        exp += [x for v, x in want if v == min(verb, 1)]
        n = 0
        for s, v in r.run(eng, f, [p, out, verb], st):
            n += 1
            want_text(r, s, texts.chars(eng, s, eng.deref(s, sp)), T(''.join(x + '\n' for x in exp) + info), 'the details of %s (%d)' % (name, verb), w)
            r.check(eng.variant(s, v) == 0, 'describing a file succeeds', w, st=s)
        r.check(n > 0, 'details are given', w)
        r.panics(eng, 'describing a file never panics')


def written(r, eng, f, args, st, sp, exp, what, w):
    """running f succeeds on every path, having written exactly exp"""
    n = 0
    for s, v in r.run(eng, f, args, st):
        n += 1
        want_text(r, s, texts.chars(eng, s, eng.deref(s, sp)), T(exp), what, w)
        r.check(eng.variant(s, v) == 0, what + ' succeeds', w, what + ' fails', st=s)
    r.check(n > 0, what + ' returns', w)
    r.panics(eng, what + ' never panics')


def bytes_at(off, n, k=37):
    return [(off + i, (k * i + off) & 255) for i in range(n)]


def values(by):
    return [x for _, x in by]


def file_cases():
    one = bytes_at(2, 40)
    yield 'a linear file', LIN, 0x82, (0,) * 9, {A: [(0, 0), (1, 41)] + one}, [values(one)]
    a, b = bytes_at(2, 254), bytes_at(2, 6, 11)
    yield 'a linear file of two sectors', LIN, 0x82, (0,) * 9, {A: [(0, 7), (1, 3)] + a, (7, 3): [(0, 0), (1, 7)] + b}, [values(a) + values(b)]
    c = bytes_at(2, 30, 5)
    yield 'a relative file', REL, 0x84, (5, 6, 10, 0, 0, 0, 0, 0, 0), {A: [(0, 0), (1, 31)] + c, (5, 6): side((0, 17), 0, [(5, 6)], [A])}, [values(c)[i:i + 10] for i in (0, 10, 20)]
    d, e = bytes_at(2, 5), bytes_at(2, 17, 9)
    yield 'a VLIR file', GEO, 0x83, geos(1, (0, 0)), {A: vlir((7, 3), None, (9, 12)), (7, 3): [(0, 0), (1, 6)] + d, (9, 12): [(0, 0), (1, 18)] + e}, [values(d), [], values(e)]


@rule('C30', *[c[0] for c in file_cases()])
def file_dump(r, name):
    """a file's dump gives its name and every record in order, numbered, byte by byte"""
    _, ty, typ, extra, contents, recs = next(c for c in file_cases() if c[0] == name)
    f = r.method(ty, 'dump', OPS)
    eng, st, p = opened(r, ty, typ, extra, contents, tuple(contents))
    if p is None:
        raise Skip('opening ' + name)
    st = st.copy()
    out, sp = writer(r, eng, st)
    o = eng.deref(st, p)
    ent = setfield(r, fieldv(r, eng, st, o, ty, 'entry'), DE, 'filename', mk('agg', 0, (eng.mkseq(eng.u8(), (('e', (0x46, 0x49, 0x4C, 0xC5)),)),)))
    eng.store(st, p, setfield(r, o, ty, 'entry', ent))
    exp = 'Filename: "filE"\n' + ''.join('Record: %d\n%s\n' % (i, hexrows(x)) for i, x in enumerate(recs))
    written(r, eng, f, [p, out], st, sp, exp, 'the dump of ' + name, r.where(f))


@rule('C30')
def disk_dump(r):
    """a disk's dump gives every sector in order, and the error table if there is one"""
    IBD = 'disk::block::ImageBlockDevice'
    f = r.method(IBD, 'dump', 'disk::block::BlockDevice')
    w = r.where(f)
    for shape, errors in (((1,), 0), ((2, 1), 0), ((2, 1), 1), ((1,) * 10, 1)):
        eng, st = engine(r), State()
        out, sp = writer(r, eng, st)
        gt, tt = r.ty('disk::Geometry'), r.ty('disk::format::Track')
        g, tr = eng.expand(st, eng.mkop(gt, 'geo'), 0), []
        for n in (0,) + shape:
            t = eng.expand(st, eng.mkop(tt, 'trk'), 0)
            tr.append(setfield(r, t, 'disk::format::Track', 'sectors', n))
        lo = ('O', 'layouts', tt)
        st.mem[lo] = eng.mkseq(tt, (('e', tuple(tr)),))
        for k, x in (('track_layouts', mk('sl', lo, (), 0, len(tr))), ('tracks', len(shape)), ('with_error_table', errors)):
            g = setfield(r, g, 'disk::Geometry', k, x)
        gp = mkobj(eng, st, 'geometry', gt, g)
        dev = setfield(r, eng.expand(st, eng.mkop(r.ty(IBD), 'dev'), 0), IBD, 'geometry', gp)
        p = mkobj(eng, st, 'dev', r.ty(IBD), dev)
        exp, secs, errs, n = '', {}, [], 0
        for t, c in enumerate(shape, 1):
            line = ''
            for x in range(c):
                es = [(t * 31 + x * 17 + i * 3) & 255 for i in range(256)]
                o = ('O', ('content', t, x), r.ty('u8'))
                st.mem[o] = eng.mkseq(eng.u8(), (('e', tuple(es)),))
                secs[(t, x)] = mk('sl', o, (), 0, 256)
                exp += '\ntrack %02d sector %02d\n%s\n' % (t, x, hexrows(es))
                errs.append((1 + 5 * n) & 255)
                line += '%02x ' % errs[-1]
                n += 1
        if errors:
            k = iter(errs)
            exp += '\nError table:\n' + ''.join('track %02d: ' % t + ''.join('%02x ' % next(k) for _ in range(c)) + '\n' for t, c in enumerate(shape, 1))
        eo = ('O', 'errors', r.ty('u8'))
        st.mem[eo] = eng.mkseq(eng.u8(), (('e', tuple(errs)),))
        table = some(mk('sl', eo, (), 0, len(errs))) if errors else none()

        def sector(e, s, ctx, a):
            l = tuple(a[1].a[1]) if isV(a[1], 'agg') else None
            if l not in secs or l == bad:
                if l is None or not all(isinstance(i, int) for i in l):
                    raise Limit('sector address')
                return [(s, mk('agg', 1, (mk('ioerr', mk('op', ('gone',), None), None, None),)))]
            return [(s, mk('agg', 0, (secs[l],)))]
        eng.thooks[('disk::block::BlockDevice', 'sector')] = sector
        eng.thooks[('disk::block::BlockDevice', 'geometry')] = lambda e, s, ctx, a: [(s, gp)]
        eng.thooks[('disk::block::BlockDevice', 'error_table')] = lambda e, s, ctx, a: [(s, mk('agg', 0, (table,)))]
        for bad in [l for l in secs if not errors]:
            refused(r, eng, f, [p, out], st.copy(), 'a sector that cannot be read', w)
        bad = None
        written(r, eng, f, [p, out], st, sp, exp, 'the dump of a disk with %s sectors%s' % (shape, ' and an error table' if errors else ''), w)


GT = ['Non-GEOS', 'BASIC', 'Assembler', 'Data file', 'System File', 'Desk Accessory', 'Application', 'Application Data', 'Font File', 'Printer Driver',
      'Input Driver', 'Disk Driver', 'System Boot File', 'Temporary', 'Auto-Execute File']


@rule('C30')
def verbose_line(r):
    """the verbose form of a directory line adds what the entry says about the storage: record length and side sector, or GEOS type, structure and date"""
    f = fmt_of(r, DE)
    w = r.where(f)
    EX = 'disk::directory::Extra'
    cases = [((0,) * 9, 'Linear', ' REGULAR')]
    cases += [((t, s, n) + (0,) * 6, 'Relative', ' REL(side=(%d,%d) rec_len=%d)' % (t, s, n)) for t, s, n in ((1, 0, 1), (18, 7, 100), (40, 39, 254))]
    for ty in list(range(15)) + [15, 0x4A, 255]:
        for struct in (0, 1) if ty in (6, 7) else (1,):
            d = [(88, 1, 2, 3, 4), (0, 12, 31, 23, 59), (101, 9, 10, 0, 0)][ty % 3]
            cases.append(((9, 9, struct, ty) + d, 'GEOS', ' GEOS(%s, %s, %04d-%02d-%02d-%02d:%02d)' % (
                ('Sequential', 'VLIR')[struct], GT[ty] if ty < 15 else 'Unknown(0x%02x)' % ty, 1900 + d[0], d[1], d[2], d[3], d[4])))
    for by, kind, exp in cases:
        eng, st = engine(r), State()
        et = r.ty(EX)
        parse = r.fn('disk::directory::%sExtra::from_bytes' % kind)
        o = ('O', 'extra', r.ty('u8'))
        st.mem[o] = eng.mkseq(eng.u8(), (('e', tuple(by)),))
        for s0, x in r.run(eng, parse, [mk('sl', o, (), 0, 9)], st):
            s0 = s0.copy()
            i = [v['n'] for v in r.F.types[et]['variants']].index(kind)
            v = eng.expand(s0, eng.mkop(r.ty(DE), 'entry'), 0)
            for k, y in (('file_size', 12), ('filename', mk('agg', 0, (eng.mkseq(eng.u8(), (('e', (0x41, 0x42)),)),))), ('geos_border', 0), ('file_attributes', attributes(r, eng, 'PRG', 1, 0, 0)),
                         ('extra', mk('agg', i, (x,)))):
                v = setfield(r, v, DE, k, y)
            p = mkobj(eng, s0, 'entry', r.ty(DE), v)
            for s, rv, got in show_of(r, eng, s0, f, p, texts.PLAIN | texts.ALT):
                want_text(r, s, got, T('12   "ab"'.ljust(23) + shown_attributes('PRG', 1, 0, 0) + exp), 'the verbose line of a %s file (%s)' % (kind, by), w)
            r.panics(eng, 'showing an entry never panics')


@rule('C30')
def positions(r):
    """a directory position is shown as its sector and the offset in hexadecimal"""
    P = 'disk::block::Position'
    f = fmt_of(r, P)
    for t, x, o in ((18, 1, 0), (18, 12, 0x20), (40, 39, 0xE0), (1, 0, 0xA0)):
        eng, st = engine(r), State()
        v = eng.expand(st, eng.mkop(r.ty(P), 'pos'), 0)
        for k, y in (('location', mk('agg', 0, (t, x))), ('offset', o), ('size', 32)):
            v = setfield(r, v, P, k, y)
        p = mkobj(eng, st, 'pos', r.ty(P), v)
        for s, rv, got in show_of(r, eng, st, f, p):
            want_text(r, s, got, T('(%d,%d@0x%02x)' % (t, x, o)), 'the position (%d,%d)+%d' % (t, x, o), r.where(f))


BLOCKS = [0x20, 0x2597, 0x2596, 0x2584, 0x259D, 0x2590, 0x259E, 0x259F, 0x2598, 0x259A, 0x258C, 0x2599, 0x2580, 0x259C, 0x259B, 0x2588]


def info_block(case):
    """A 256-byte info block and what is to be shown of it."""
    by = [0] * 256
    by[1] = 255
    icon = [(case * 41 + 29 * i + (i * i >> 2)) & 255 if case else 0 for i in range(63)]
    by[5:68] = icon
    by[0x44], by[0x45], by[0x46] = 0x83, (6, 9, 0)[case], (1, 0, 1)[case]
    addr = ((0x0400, 0x1FFF, 0x0403), (1, 0xFFFF, 0xABCD), (0, 0, 0))[case]
    for k, x in enumerate(addr):
        by[0x47 + 2 * k:0x49 + 2 * k] = [x & 255, x >> 8]
    txt = (('Paint Image V1.1', 'A. Author', 'geoWrite', 'All about it'), ('C', '', 'X' * 20, 'D' * 96), ('', '', '', ''))[case]
    for o, n, x in zip((0x4D, 0x61, 0x75, 0xA0), (20, 20, 20, 96), txt):
        by[o:o + len(x)] = [ord(c) for c in x]
    text = ['Type: %s (%s)' % (GT[by[0x45]], ('Sequential', 'VLIR')[by[0x46]]), 'Program addresses: load=0x%04x end=0x%04x start=0x%04x' % addr] + \
        ['%s: %s' % x for x in zip(('Class', 'Author', 'Application', 'Description'), txt)]
    rows = []
    for y in range(11):
        row = []
        for x in range(3):
            top, bot = icon[y * 6 + x], icon[y * 6 + 3 + x] if y < 10 else 0
            row += [BLOCKS[(top >> (6 - 2 * k) & 3) << 2 | bot >> (6 - 2 * k) & 3] for k in range(4)]
        rows.append(row)
    out = []
    for y in range(11):
        out += rows[y] + T(' ' + (text[y] if y < len(text) else '') + '\n')
    return by, out


@rule('C30')
def info_shown(r):
    """a GEOS info block is shown with its icon, type, addresses and texts"""
    GI = 'disk::geos::GEOSInfo'
    f = fmt_of(r, GI)
    parse = r.fn(GI + '::from_bytes')
    for case in range(3):
        by, exp = info_block(case)
        eng, st = engine(r), State()
        o = ('O', 'block', r.ty('u8'))
        st.mem[o] = eng.mkseq(eng.u8(), (('e', tuple(by)),))
        for s0, v in r.run(eng, parse, [mk('sl', o, (), 0, 256)], st):
            s0 = s0.copy()
            p = mkobj(eng, s0, 'info', r.ty(GI), v)
            for s, rv, got in show_of(r, eng, s0, f, p):
                want_text(r, s, got, exp, 'info block %d' % case, r.where(f))
                r.check(r.variant(eng, s, rv, 'shown', r.where(f), 'result') == 0, 'showing an info block succeeds', r.where(f), st=s)
        r.panics(eng, 'showing an info block never panics')
