"""Validation: the reported inconsistencies are exactly those of the disk."""
from ..core import *
from .alloc import setfield
from .bam import KINDS, TRACKS, fieldv, disk_format
from .device import spt, errname
from .disks import disk, dm, dty, opaque, mkobj, BAM
from .entry import bytes_of, variants
from .files import links, vlir, side, geos as geosx
from .format import system
from .header import items, HD
from .trace import device_of

VE = 'disk::validation::ValidationError'
DIR1 = {'d64': (18, 1), 'd71': (18, 1), 'd81': (40, 3)}
DIR2 = {'d64': (18, 4), 'd71': (18, 4), 'd81': (40, 7)}
BORDERS = {'d64': (19, 9), 'd71': (40, 18), 'd81': (19, 38)}
A1, AB, B1, NO = (1, 0), (1, 1), (2, 0), (3, 3)
GONE, LOOP = (5, 5), (6, 6)


def slot(typ, first, name, extra=(0,) * 9):
    """(index, byte) of a directory record."""
    by = [(2, typ), (3, first[0]), (4, first[1])]
    by += [(5 + i, name[i] if i < len(name) else 0xA0) for i in range(16)]
    by += [(0x15 + i, extra[i]) for i in range(9)]
    return by + [(30, 2), (31, 0)]


def dirsec(link, recs):
    by = [(0, link[0]), (1, link[1])]
    for i in range(8):
        rec = recs.get(i)
        by += [(32 * i + o, 0) for o in range(0 if i else 2, 32)]
        by += [(32 * i + o, x) for o, x in (slot(*rec) if rec else [])]
    return by


# one file of every type and organisation: name -> its sectors
KINDREC = {1: (0x80, (7, 0), b'DD'), 2: (0x02, (7, 1), b'UN'), 3: (0xC3, (7, 2), b'US'), 4: (0x84, (8, 0), b'RR', (8, 1, 10) + (0,) * 6),
           5: (0x83, (9, 0), b'VV', tuple(geosx(1, (9, 9)))), 6: (0x82, (9, 5), b'GS', tuple(geosx(0, (9, 8))))}
KINDSEC = {(7, 0): links((0, 50))[0], (7, 1): links((0, 50))[0], (7, 2): links((7, 3))[0], (7, 3): links((0, 50))[0],
           (8, 0): links((0, 101))[0], (8, 1): side((0, 17), 0, [(8, 1)], [(8, 0)]),
           (9, 0): vlir((9, 1), None, (9, 2)), (9, 1): links((9, 3))[0], (9, 3): links((0, 20))[0], (9, 2): links((0, 2))[0],
           (9, 9): [(0, 0), (1, 255)], (9, 5): links((0, 9))[0], (9, 8): [(0, 0), (1, 255)]}
KINDOWN = {b'DD': [(7, 0)], b'UN': [(7, 1)], b'US': [(7, 2), (7, 3)], b'RR': [(8, 0), (8, 1)],
           b'VV': [(9, 0), (9, 1), (9, 2), (9, 3), (9, 9)], b'GS': [(9, 5), (9, 8)]}


def setup(r, kind, geos, broken=None):
    """A small disk: files A (A1, AB), B (B1, AB); optionally one whose chain loops."""
    eng = r.engine()
    eng.exact = 10 ** 6
    recs1 = {0: (0x82, A1, b'A'), 3: (0x81, B1, b'B')}
    if broken == 'same':
        recs1[3] = (0x81, B1, b'A')
    if broken == 'noname':
        recs1[3] = (0x81, B1, b'')
    recs2 = {7: (0x82, LOOP if broken == 'loop' else (0, 5), b'C')} if broken in ('loop', 'zero') else {}
    BORDER = BORDERS[kind]
    cont = {DIR1[kind]: dirsec(DIR2[kind], recs1), DIR2[kind]: dirsec((0, 255), recs2), A1: links(AB)[0], B1: links(AB)[0], AB: links((0, 50))[0],
            LOOP: links(LOOP)[0], NO: links((0, 9))[0], BORDER: dirsec((0, 255), {})}
    if broken == 'dir':
        cont[DIR2[kind]] = dirsec(GONE, {})
    if broken == 'gone':
        cont[A1] = links(GONE)[0]
    if broken == 'sys':
        cont[B1] = links(DIR2[kind])[0]
    if broken == 'dos':
        cont[B1] = links((DIR1[kind][0], 0))[0]
        cont[(DIR1[kind][0], 0)] = links((0, 255))[0]
    if broken == 'kinds':
        recs2.update(KINDREC)
        cont[DIR2[kind]] = dirsec((0, 255), recs2)
        cont.update(KINDSEC)
    locs = list(cont)
    st = State()
    for l, by in cont.items():
        o = ('sec', mk('agg', 0, l))
        b = eng.load(st, o)
        for i, x in by:
            b = eng.seq_set(st, b, i, x)
        st.mem[o] = b
    device_of(r, eng, locs, {})
    h = opaque(r, eng, st, 'header', HD)
    if geos:
        g = opaque(r, eng, st, 'gh', 'disk::geos::GEOSDiskHeader')
        g = setfield(r, g, 'disk::geos::GEOSDiskHeader', 'border', mk('agg', 0, BORDER))
        h = setfield(r, h, HD, 'geos', some(g))
    else:
        h = setfield(r, h, HD, 'geos', none())
    d, bp = disk(r, eng, st, kind, header=h, geos=int(geos))
    return eng, st, d


def run(r, eng, st, d, kind, alloc):
    lt = r.ty('disk::block::Location')
    every = [(t, s) for t in range(1, TRACKS[kind] + 1) for s in range(spt(kind, t))]

    def lister(want):
        q = eng.mkseq(lt, (('e', tuple(mk('agg', 0, l) for l in every if (l in alloc) == want)),))
        return lambda e, s, c, a: [(s, ok(q))]
    eng.hooks[r.fn(BAM + '::allocated_sectors')['lpath']] = lister(True)
    eng.hooks[r.fn(BAM + '::free_sectors')['lpath']] = lister(False)
    return r.run(eng, dm(r, kind, 'validate'), [d], st.copy())


def report(r, eng, s, v, known=None):
    """-> sorted list of reported errors"""
    names = variants(r, VE)
    out = []
    es = eng.explode(v.a[1][0])
    if es is None:
        return None
    for e in es:
        k = eng.variant(s, e)
        if k is None:
            return None
        fs = []
        for i in range(len(r.F.types[r.ty(VE)]['variants'][k]['f'])):
            x = eng.field(s, e, i, k)
            if isV(x, 'agg') and len(x.a[1]) == 2 and all(isinstance(y, int) for y in x.a[1]):
                fs.append(tuple(x.a[1]))
            elif names[k] == 'FileScanError' and i == 0:
                dk = eng.variant(s, x)
                fs.append(None if dk is None else variants(r, 'disk::error::DiskError')[dk])
            else:
                b = items(eng, s, x)
                nm = bytes(b) if b is not None and all(isinstance(y, int) for y in b) else None
                fs.append(DOS if nm is not None and nm not in (known if known is not None else (b'A', b'B', b'C', b'') + tuple(KINDOWN)) else nm)
        out.append((names[k],) + tuple(fs))
    return sorted(out, key=str)


DOS = b'(no file)'


def expected(kind, geos, alloc, broken=None):
    BORDER = BORDERS[kind]
    own = {l: DOS for l in system(kind)}
    own[DIR1[kind]] = own[DIR2[kind]] = DOS
    if geos:
        own[BORDER] = DOS
    out = []
    if broken == 'gone':
        out.append(('FileScanError', 'InvalidLocation', b'A'))
        own.update({B1: b'B', AB: b'B'})
    else:
        own.update({A1: b'A', AB: b'A', B1: b'B'})
        out.append(('SectorOveroccupied', DIR2[kind], DOS, b'B') if broken == 'sys' else ('SectorOveroccupied', AB, b'A', b'B'))
    if broken == 'dos':
        out[-1] = ('SectorOveroccupied', (DIR1[kind][0], 0), DOS, b'B')
    if broken == 'noname':
        own[B1] = b''
        out[-1] = ('SectorOveroccupied', AB, b'A', b'')
    if broken == 'same':
        own[B1] = b'A'
        out[-1] = ('SectorOveroccupied', AB, b'A', b'A')
    if broken == 'kinds':
        own.update({l: n for n, ls in KINDOWN.items() for l in ls})
    if broken == 'loop':
        out.append(('FileScanError', 'ChainLoop', b'C'))
    if broken == 'zero':
        out.append(('FileScanError', 'InvalidLocation', b'C'))
    for t in range(1, TRACKS[kind] + 1):
        for s in range(spt(kind, t)):
            l = (t, s)
            if l in system(kind):
                if l not in alloc:
                    out.append(('SystemSectorNotAllocated', l))
            elif l in own:
                if l not in alloc:
                    out.append(('SectorMisoccupied', l, own[l]))
            elif l in alloc:
                out.append(('SectorMisallocated', l))
    return sorted(out, key=str)


@rule('C24', *KINDS)
def validated(r, kind):
    """the errors reported are exactly: system sectors not allocated, sectors allocated but unowned, owned but free, owned twice, files that cannot be followed"""
    f = r.fn('disk::validation::validate') if len([x for x in r.F.insts if x.get('lpath') == 'disk::validation::validate']) == 1 else dm(r, kind, 'validate')
    w = r.where(dm(r, kind, 'validate'))
    n = 0
    BORDER = BORDERS[kind]
    for geos in (False, True):
        full = set(system(kind)) | {DIR1[kind], DIR2[kind], A1, AB, B1} | ({BORDER} if geos else set())
        flips = [None, sorted(system(kind))[0], DIR1[kind], DIR2[kind], BORDER, A1, AB, B1, NO, 'none']
        last = max(system(kind))
        if last not in flips:
            flips.append(last)
        if kind != 'd64' and r.tier == 'quick':
            flips = [None, 'none', DIR2[kind], last, NO] if not geos else [None, BORDER]
        for fl in flips:
            al = set() if fl == 'none' else full ^ ({fl} if fl else set())
            eng, st, d = setup(r, kind, geos)
            rs = run(r, eng, st, d, kind, al)
            r.check(len(rs) > 0, 'returns', w)
            for s, v in rs:
                r.check(not [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o)], 'validation changes nothing', w, 'validation writes to the disk', st=s)
                if eng.variant(s, v) != 0:
                    r.check(0, 'succeeds', w, 'validating a readable disk fails', st=s)
                    continue
                got = report(r, eng, s, v)
                want = expected(kind, geos, al)
                if got is None or any(None in g for g in got):
                    r.skip('report not resolved')
                    continue
                n += 1
                miss = [x for x in want if x not in got]
                extra = [x for x in got if x not in want]
                r.check(not miss, 'every inconsistency is reported', w, 'not reported (sector %s): %s' % (fl, miss[:3]), st=s)
                r.check(not extra, 'nothing else is reported', w, 'reported without cause: %s' % extra[:3], st=s)
                if not miss and not extra:
                    r.check(len(got) == len(want), 'reported once', w, 'an inconsistency is reported several times', st=s)
            r.panics(eng, 'validation never panics')
    r.check(n > 0, 'validated', w)


@rule('C24')
def damaged(r):
    """files that cannot be followed are reported and the rest is still checked; a damaged directory is an error"""
    kind = 'd64'
    w = r.where(dm(r, kind, 'validate'))
    for broken in ('loop', 'gone', 'zero', 'sys', 'dos', 'dir', 'same', 'noname', 'kinds'):
        eng, st, d = setup(r, kind, False, broken)
        if broken in ('gone', 'zero'):
            # the missing sector is inside the map but cannot be read: report it as the device does
            e = mk('agg', variants(r, 'disk::error::DiskError').index('InvalidLocation'), ())
            eng.device.ioe = lambda what, e=e: mk('ioerr', mk('op', ('kind',), None), e, r.ty('disk::error::DiskError'))
        al = set(system(kind)) | {DIR1[kind], DIR2[kind], A1, AB} | ({B1} if broken != 'noname' else set())
        for s, v in run(r, eng, st, d, kind, al):
            k = eng.variant(s, v)
            if broken == 'dir':
                r.check(k == 1, 'damaged directory', w, 'a directory that cannot be followed is not reported', st=s)
                continue
            if k != 0:
                r.check(0, broken + ': succeeds', w, 'a damaged file makes validation fail', st=s)
                continue
            got, want = report(r, eng, s, v), expected(kind, False, al, broken)
            if broken == 'gone':
                want = [x for x in want if x[0] != 'SectorOveroccupied']
            if got is None or any(None in g for g in got):
                r.skip('report not resolved')
                continue
            r.check(got == want, broken + ': exact report', w, 'with a damaged file the report is %s, expected %s' % (got[:4], want[:4]), st=s)
        r.panics(eng, 'validation never panics')


@rule('C24', *KINDS)
def map_listing(r, kind):
    """the lists of allocated and free sectors split all sectors by their bit"""
    ent = 'disk::bam::BamEntry'
    tr = TRACKS[kind]
    pts = [(t, s) for t in (1, 2, 17, 18, 35, 36, 40, 53, 70, 80) if t <= tr for s in (0, 7, 8, spt(kind, t) - 1)]
    if r.tier == 'quick':
        pts = pts[::3] + [(tr, spt(kind, tr) - 1)]
    base = 0
    for (pt, ps) in pts:
        base ^= 1
        eng = r.engine()
        eng.exact = 10 ** 6
        st = State()
        b = opaque(r, eng, st, 'bam', BAM)
        fn_ = [x['n'] for x in r.F.types[r.ty(BAM)]['variants'][0]['f']]
        fm = [x['n'] for x in r.F.types[r.ty(BAM)]['variants'][0]['f'] if 'DiskFormat' in r.F.types[x['t']]['s']]
        en = [x['n'] for x in r.F.types[r.ty(BAM)]['variants'][0]['f'] if 'BamEntry' in r.F.types[x['t']]['s']]
        inv = [x['n'] for x in r.F.types[r.ty(BAM)]['variants'][0]['f'] if r.F.types[x['t']]['s'] == 'bool']
        if len(fm) != 1 or len(en) != 1:
            raise Skip('map fields')
        b = setfield(r, b, BAM, fm[0], eng.deref(st, disk_format(r, kind)))
        if len(inv) == 1:
            b = setfield(r, b, BAM, inv[0], 0)
        bit = eng.mkop(r.ty('bool'), 'bit')
        es = []
        for t in range(1, tr + 1):
            e = opaque(r, eng, st, ('be', t), ent)
            m = sum(1 << s for s in range(spt(kind, t)) if (s * 7 + t * 5) % 3 == base)
            es.append((e, m))
        vals = []
        for bv in (0, 1):
            q = []
            for t in range(1, tr + 1):
                e, m = es[t - 1]
                if t == pt:
                    m = m & ~(1 << ps) | bv << ps
                q.append(setfield(r, e, ent, 'sector_map', m))
            vals.append(q)
        for bv in (0, 1):
            s0 = st.copy()
            bb = setfield(r, b, BAM, en[0], eng.mkseq(r.ty(ent), (('e', tuple(vals[bv])),)))
            p = mkobj(eng, s0, 'bam', r.ty(BAM), bb)
            for name, want in (('allocated_sectors', 0), ('free_sectors', 1)):
                f = r.fn(BAM + '::' + name)
                exp = []
                for t in range(1, tr + 1):
                    m = fieldv(r, eng, s0, vals[bv][t - 1], ent, 'sector_map')
                    exp += [(t, s) for s in range(spt(kind, t)) if (m >> s & 1) == want]
                for s, v in r.run(eng, f, [p], s0):
                    got = eng.explode(v.a[1][0]) if eng.variant(s, v) == 0 else None
                    if got is None:
                        r.check(0 if eng.variant(s, v) == 1 else None, name, r.where(f), name + ' fails on a valid map', st=s)
                        continue
                    gl = sorted(tuple(x.a[1]) if isV(x, 'agg') else x for x in got)
                    r.check(gl == exp, '%s: bit of %s' % (name, (pt, ps)), r.where(f), '%s lists %s wrongly' % (name, sorted(set(map(str, gl)) ^ set(map(str, exp)))[:3]), st=s)
        r.panics(eng, 'listing never panics')
