"""Record access: record i of a file is exactly the bytes stored for it; records that do not exist are refused."""
from ..core import *
from .bam import fieldv, loc
from .device import errname
from .disks import mkobj, opaque, BAM
from .files import LIN, REL, GEO, OPS, links, geos, vlir, side
from .streams import rope_same, explain_rope
from .trace import *

A, B, C, D, E, G = (1, 0), (1, 1), (2, 0), (2, 1), (3, 3), (4, 4)


def opened(r, ty, typ, extra, contents, locs):
    """A file of concrete type `ty` opened on a small device -> (engine, state, pointer, where)."""
    eng = r.engine()
    eng.exact = 4000
    device_of(r, eng, locs, {k: [v] for k, v in contents.items()})
    Trace(r, eng, fail=())
    st = State()
    for l, by in contents.items():
        o = ('sec', mk('agg', 0, l))
        b = eng.load(st, o)
        for i, x in by:
            b = eng.seq_set(st, b, i, x)
        st.mem[o] = b
        st.mem[('picked', o[1])] = 1
    st, entry = record(r, eng, st, typ=typ, first=A, extra=extra)
    new = r.fn(ty + '::new')
    bam = mkobj(eng, st, 'bam', r.ty(BAM), opaque(r, eng, st, 'bam', BAM))
    a = symargs(eng, new)
    a[1], a[2] = bam, entry
    rs = r.run(eng, new, a, st)
    if not rs and eng.panics:
        r.panics(eng, 'opening never panics')
        raise Skip('opening a file never returns')
    if len(rs) != 1:
        raise Limit('opening has %d outcomes' % len(rs))
    s, v = rs[0]
    if ty != LIN:
        k = eng.variant(s, v)
        if k != 0:
            return eng, s, None
        v = v.a[1][0]
    return eng, s, mkobj(eng, s, 'file', r.ty(ty), v)


def sec(eng, st, l, off=2, n=254):
    return list(eng.seq_slice(st, eng.load(st, ('sec', mk('agg', 0, l))), off, n))


def read_record(r, eng, st, p, ty, i):
    f = r.method(ty, 'record', OPS)
    return r.run(eng, f, [p, i], st.copy())


def check_record(r, eng, st, p, ty, i, want, what):
    """want: rope, or None when there is no such record."""
    f = r.method(ty, 'record', OPS)
    w = r.where(f)
    rs = read_record(r, eng, st, p, ty, i)
    r.check(len(rs) > 0, '%s: returns' % what, w)
    for s, v in rs:
        k = eng.variant(s, v)
        if want is None:
            r.check(k == 1, '%s: a record that does not exist is refused' % what, w, '%s: a record that does not exist is returned' % what, st=s)
            continue
        if k != 0:
            r.check(0, '%s: readable' % what, w, '%s: an existing record cannot be read' % what, st=s)
            continue
        got = v.a[1][0]
        if not isV(got, 'seq'):
            r.skip('%s: not a known sequence' % what)
            continue
        r.check(rope_same(s, got.a[1], want), '%s: exactly its bytes' % what, w, '%s: wrong bytes: %s' % (what, explain_rope(s, got.a[1], want)), st=s)


def check_count(r, eng, st, p, ty, n, what):
    f = r.method(ty, 'record_count', OPS)
    for s, v in r.run(eng, f, [p], st.copy()):
        if eng.variant(s, v) != 0:
            r.check(0, '%s: count' % what, r.where(f), '%s: counting records fails' % what, st=s)
        else:
            r.want(s, v.a[1][0], n, '%s: number of records' % what, r.where(f))


def anyindex(st, low):
    i = term('sym', 64, ('index',))
    st.assume(mk_ge0(lin_add(i, -low)), 1)
    return i


@rule('C09')
def linear(r):
    """a linear file has one record, its contents"""
    for n, cont in ((1, {A: links((0, 77))[0]}), (2, {A: links(B)[0], B: links((0, 1))[0]}), (3, {A: links(B)[0], B: links(C)[0], C: links((0, 255))[0]})):
        eng, st, p = opened(r, LIN, 0x82, (0,) * 9, cont, (A, B, C))
        want = []
        for i, l in enumerate((A, B, C)[:n]):
            want += sec(eng, st, l, 2, 254 if i + 1 < n else cont[l][1][1] - 1)
        what = 'linear file of %d sectors' % n
        check_count(r, eng, st, p, LIN, 1, what)
        check_record(r, eng, st, p, LIN, 0, want, what)
        s = st.copy()
        check_record(r, eng, s, p, LIN, anyindex(s, 1), None, what)
        r.panics(eng, 'reading records never panics')


@rule('C09')
def geos_records(r):
    """record i of a GEOS file is its i-th chain; unavailable records are empty; other indices are refused"""
    for structure, recs in ((0, None), (1, ()), (1, (B,)), (1, (B, None, D)), (1, (None, D)), (1, (D,) + (None,) * 125 + (B,)), (1, (B, (0, 5), D))):
        cont = {B: links((0, 100))[0], D: links(E)[0], E: links((0, 9))[0], C: []}
        cont[A] = vlir(*recs) if structure else links(B)[0]
        eng, st, p = opened(r, GEO, 0x83, geos(structure, C), cont, (A, B, C, D, E))
        f = r.method(GEO, 'record', OPS)
        what = 'GEOS sequential' if not structure else 'GEOS VLIR with %d records' % len(recs)
        if p is None:
            r.check(0, what + ': opens', r.where(f), what + ' cannot be opened', st=st)
            continue
        data = {B: sec(eng, st, B, 2, 99), D: sec(eng, st, D) + sec(eng, st, E, 2, 8), None: [], (0, 5): None}
        ws = [sec(eng, st, A) + data[B]] if not structure else [data[x] for x in recs]
        check_count(r, eng, st, p, GEO, len(ws), what)
        for i, x in enumerate(ws):
            if i < 4 or i + 1 == len(ws):
                check_record(r, eng, st, p, GEO, i, x, what + ', record %d' % i)
        s = st.copy()
        check_record(r, eng, s, p, GEO, anyindex(s, len(ws)), None, what)
        r.panics(eng, 'reading records never panics')


def rope_sub(eng, st, segs, off, n):
    q = eng.mkseq(eng.tyid('u8'), tuple(segs))
    return list(eng.seq_slice(st, q, off, n))


@rule('C09')
def relative_records(r):
    """record i of a relative file is bytes i*n .. (i+1)*n of its data, across sector boundaries"""
    sizes = (1, 2, 3, 50, 100, 127, 128, 200, 253, 254, 255) if r.tier == 'quick' else range(1, 256)
    for size in sizes:
        for nsec in (1, 3):
            ds = (A, B, D)[:nsec]
            # the largest number of whole records that ends in the last sector
            full = 254 * (nsec - 1)
            last = [k for k in range(1, 255) if (full + k) % size == 0]
            if not last:
                continue
            for used in {last[0], last[-1]}:
                cont = {C: side((0, 15 + 2 * nsec), 0, [C], ds)}
                for i, l in enumerate(ds):
                    cont[l] = links(ds[i + 1] if i + 1 < nsec else (0, used + 1))[0]
                eng, st, p = opened(r, REL, 0x84, list(C) + [size] + [0] * 6, cont, (A, B, C, D))
                what = 'relative file, record length %d, %d sectors, %d bytes' % (size, nsec, full + used)
                f = r.method(REL, 'record', OPS)
                if p is None:
                    r.check(0, what + ': opens', r.where(f), what + ': cannot be opened', st=st)
                    continue
                data = []
                for i, l in enumerate(ds):
                    data += sec(eng, st, l, 2, 254 if i + 1 < nsec else used)
                n = (full + used) // size
                check_count(r, eng, st, p, REL, n, what)
                pick = {0, n - 1} | {k for k in range(n) if (k * size) // 254 != (k * size + size - 1) // 254 or (k * size) % 254 == 0 or (k * size + size) % 254 == 0}
                for k in sorted(pick):
                    check_record(r, eng, st, p, REL, k, rope_sub(eng, st, data, k * size, size), what + ', record %d' % k)
                s = st.copy()
                check_record(r, eng, s, p, REL, anyindex(s, n), None, what)
                r.panics(eng, 'reading records never panics')


@rule('C09')
def relative_large(r):
    """the same for relative files of more than 64 KB, with as many side sectors as there may be"""
    for size, nsec in ((200, 300), (254, 720), (255, 600), (100, 265), (1, 260), (127, 720)):
        full = 254 * (nsec - 1)
        used = max(k for k in range(1, 255) if (full + k) % size == 0) if any((full + k) % size == 0 for k in range(1, 255)) else None
        if used is None:
            continue
        ds = [A] + [(t, s) for t in range(20, 70) for s in range(18)][:nsec - 1]
        ns = (nsec + 119) // 120
        ss = [C] + [(80, i) for i in range(1, ns)]
        cont = {ds[-1]: links((0, used + 1))[0], A: links(ds[1])[0]}
        for i, l in enumerate(ss):
            part = ds[120 * i:120 * i + 120]
            cont[l] = side(ss[i + 1] if i + 1 < ns else (0, 15 + 2 * len(part)), i, ss, part)
        what = 'relative file, record length %d, %d sectors' % (size, nsec)
        n = (full + used) // size
        pick = {0, n - 1} | {k + j for b in (255, 256, 32768, 65536, 65536 * 2, 255 * 254, 256 * 254, 120 * 254, 240 * 254) for k in (b // size,) for j in (-1, 0, 1) if 0 <= k + j < n}
        for x in pick:
            for y in (x * size // 254, (x * size + size - 1) // 254):
                cont.setdefault(ds[y], links(ds[y + 1])[0] if y + 1 < nsec else None)
        for y in range(nsec - 1):
            cont.setdefault(ds[y], links(ds[y + 1])[0])
        eng, st, p = opened(r, REL, 0x84, list(C) + [size] + [0] * 6, cont, set(ds) | set(ss))
        f = r.method(REL, 'record', OPS)
        if p is None:
            r.check(0, what + ': opens', r.where(f), what + ': cannot be opened', st=st)
            continue
        check_count(r, eng, st, p, REL, n, what)
        for k in sorted(pick):
            y, o = divmod(k * size, 254)
            m = min(size, 254 - o)
            want = sec(eng, st, ds[y], 2 + o, m) + (sec(eng, st, ds[y + 1], 2, size - m) if m < size else [])
            check_record(r, eng, st, p, REL, k, want, what + ', record %d' % k)
        r.panics(eng, 'reading records never panics')


@rule('C09')
def relative_refused(r):
    """a relative file whose side sectors contradict each other or its data is refused, never misread"""
    bad = (
        ('record length 0', 0, {C: side((0, 17), 0, [C], [A]), A: links((0, 101))[0]}),
        ('partial record', 7, {C: side((0, 17), 0, [C], [A]), A: links((0, 101))[0]}),
        ('wrong side sector list', 10, {C: side((0, 17), 0, [D], [A]), A: links((0, 101))[0]}),
        ('incomplete side sector list', 10, {C: side(D, 0, [C], [A] * 120), D: side((0, 17), 1, [C, D], [A]), A: links((0, 101))[0]}),
        ('odd side sector', 10, {C: side((0, 18), 0, [C], [A, B]), A: links((0, 101))[0], B: links((0, 101))[0]}),
        ('short side sector', 10, {C: side((0, 13), 0, [C], []), A: links((0, 101))[0]}),
        ('last sector is not the last of its chain', 10, {C: side((0, 17), 0, [C], [A]), A: links(B)[0], B: links((0, 101))[0]}),
        ('side sectors loop', 10, {C: side(D, 0, [C, D], [A] * 120), D: side(C, 1, [C, D], [A] * 120), A: links((0, 101))[0]}),
        ('data sector outside the disk', 10, {C: side((0, 17), 0, [C], [(99, 0)])}),
    )
    f = r.fn(REL + '::new')
    for what, size, cont in bad:
        eng, st, p = opened(r, REL, 0x84, list(C) + [size] + [0] * 6, cont, (A, B, C, D))
        r.check(p is None, 'refused: ' + what, r.where(f), 'a relative file with a defect is opened: ' + what, st=st)
        r.panics(eng, 'opening never panics')
