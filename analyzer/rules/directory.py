"""Listing the directory, looking names up, finding and making free slots."""
from ..core import *
from .alloc import setfield, DIRT
from .bam import KINDS, fieldv, loc
from .chain import sector_byte
from .create import diskerr, PET
from .device import errname
from .disks import mkobj, opaque, disk, dm, dty
from .files import links, persisted, OUT, GONE
from .trace import *

DI = 'disk::directory::DirectoryIterator'
FIRST = {'d64': (18, 1), 'd71': (18, 1), 'd81': (40, 3)}
USED, FREE, CLOSEDDEL = 0x82, 0x00, 0x80


def slots(link, types, tag=1):
    """The bytes of a directory sector: 8 records with the given type bytes and distinct names."""
    by = []
    for k in range(8):
        t = types[k]
        rec = [0, 0, t, 17, k, 65 + tag, 65 + k] + [0xa0] * 14 + [0] * 9 + [k + 1, 0]
        if k == 0:
            rec[:2] = link
        by += [(32 * k + i, b) for i, b in enumerate(rec)]
    return by


def name_of(tag, k):
    return (65 + tag, 65 + k)


FULL = (USED,) * 8


def one_free(k, how=FREE):
    return tuple(how if i == k else USED for i in range(8))


def dirdisk(r, kind, contents, locs, border=None, fail=(), trace=True):
    eng = r.engine()
    eng.exact = 600
    device_of(r, eng, locs, contents)
    tr = Trace(r, eng, fail=fail, entry=False)
    st = State()
    hd = opaque(r, eng, st, 'header', 'disk::header::Header')
    H = 'disk::header::Header'
    if border is None:
        hd = setfield(r, hd, H, 'geos', none())
    else:
        gt = r.F.types[r.ty(H)]['variants'][0]['f']
        gt = [f['t'] for f in gt if f['n'] == 'geos'][0]
        gh = r.F.types[gt]['args'][0]
        g = eng.expand(st, eng.mkop(gh, 'gh'), 0)
        g = setfield(r, g, r.F.strip(r.F.types[gh]['s']), 'border', loc(*border))
        hd = setfield(r, hd, H, 'geos', some(g))
    d, bam = disk(r, eng, st, kind, header=hd)
    return eng, tr, st, d


def listing(r, eng, kind, st, d, limit=40):
    """Run the iterator to its end: yields (state, [entry values], error or None)."""
    new = r.fn('disk::directory::DirectoryIterator::new::<%s>' % dty(kind))
    nx = r.method(DI, 'next', 'std::iter::Iterator')
    out = []
    for s, v in r.run(eng, new, [d], st):
        it = mkobj(eng, s, 'dirit', r.ty(DI), v)
        todo = [(s, [], None)]
        for _ in range(limit):
            nxt = []
            for s1, got, e in todo:
                for s2, o in r.run(eng, nx, [it], s1):
                    k = eng.variant(s2, o)
                    if k is None:
                        raise Skip('iterator result')
                    if k == 0:
                        out.append((s2, got, e))
                    elif e is not None:
                        out.append((s2, got, 'more'))
                    else:
                        x = o.a[1][0]
                        if eng.variant(s2, x) == 1:
                            nxt.append((s2, got, x))
                        else:
                            nxt.append((s2, got + [x.a[1][0]], None))
            todo = nxt
            if not todo:
                break
        if todo:
            out += [(s1, got, 'endless') for s1, got, e in todo]
    return new, nx, out


def nameof(r, eng, s, e):
    v = fieldv(r, eng, s, e, DE, 'filename')
    while isV(v, 'agg') and len(v.a[1]) == 1:
        v = v.a[1][0]
    x = eng.explode(v) if isV(v, 'seq') else None
    return tuple(x) if x is not None and all(isinstance(y, int) for y in x) else None


def posof(r, eng, s, e):
    p = fieldv(r, eng, s, e, DE, 'position')
    if eng.variant(s, p) != 1:
        return None
    p = p.a[1][0]
    P = 'disk::block::Position'
    l = fieldv(r, eng, s, p, P, 'location')
    return (tuple(l.a[1]), fieldv(r, eng, s, p, P, 'offset'), fieldv(r, eng, s, p, P, 'size'))


def cases(kind):
    a = FIRST[kind]
    b, c = (a[0], 4), (a[0], 8)
    mixed = (USED, FREE, CLOSEDDEL, 0x02, 0x40, 0xC3, 0x20, 0x01)
    locs = (a, b, c)
    for nm, sec, border in (
            ('one sector', [(a, (0, 255), mixed)], None),
            ('two sectors', [(a, b, FULL), (b, (0, 255), mixed)], None),
            ('three sectors', [(a, b, mixed), (b, c, (FREE,) * 8), (c, (0, 255), one_free(7))], None),
            ('short last sector', [(a, b, FULL), (b, (0, 95), FULL)], None),
            ('partial last entry', [(a, (0, 100), FULL)], None),
            ('border block', [(a, (0, 255), one_free(0))], (19, 7)),
            ('border block after two sectors', [(a, b, mixed), (b, (0, 255), FULL)], (19, 7)),
            ('border block after a partial entry', [(a, (0, 100), FULL)], (19, 7)),
            ('border block on the directory track', [(a, b, mixed), (b, (0, 255), FULL)], (a[0], 12)),
            ('border block with the sector number of a directory sector', [(a, b, mixed), (b, (0, 255), FULL)], (19, b[1])),
            ('loop', [(a, b, FULL), (b, a, mixed)], None),
            ('link off the disk', [(a, (99, 1), mixed)], None),
            ('bad link', [(a, (0, 0), mixed)], None)):
        yield nm, locs, sec, border


def expected(sec, border, bt=None):
    """-> entries [(name, location, offset, border?)], fails"""
    cont = {l: [slots(k, t, i + 1)] for i, (l, k, t) in enumerate(sec)}
    want, cur, seen, bad = [], sec[0][0], [], None
    by = {l: (k, t, i + 1) for i, (l, k, t) in enumerate(sec)}
    while True:
        if cur in seen:
            bad = 'ChainLoop'
            break
        if cur not in by:
            bad = 'io'
            break
        seen.append(cur)
        k, t, tag = by[cur]
        if tuple(k) == (0, 0):
            bad = 'InvalidChainLink'
            break
        n = 256 if k[0] else k[1] + 1
        for i in range(n // 32):
            if not (t[i] & 15 == 0 and t[i] & 0x80 == 0):
                want.append((name_of(tag, i), cur, 32 * i, 0))
        if not k[0]:
            break
        cur = tuple(k)
    if border:
        cont[border] = [slots((0, 255), bt, 20)]
        if bad is None:
            for i in range(8):
                if not (bt[i] & 15 == 0 and bt[i] & 0x80 == 0):
                    want.append((name_of(20, i), border, 32 * i, 1))
    return cont, want, bad


@rule('C20', *KINDS)
def lists_everything(r, kind):
    """listing yields every entry that is not scratched, once, in disk order, with its own position; errors are reported"""
    for nm, locs, sec, border in cases(kind):
        bt = (USED, FREE, USED, FREE, FREE, CLOSEDDEL, FREE, FREE)
        cont, want, bad = expected(sec, border, bt)
        eng, tr, st, d = dirdisk(r, kind, cont, locs + ((border,) if border else ()), border)
        new, nx, res = listing(r, eng, kind, st, d)
        w = r.where(nx)
        nm = '%s, %s' % (kind, nm)
        r.check(len(res) > 0, nm + ': ends', w)
        for s, got, e in res:
            if e == 'endless' or e == 'more':
                r.check(False, '', w, '%s: listing the directory does not end after %s' % (nm, 'an error' if e == 'more' else '%d entries' % len(got)), st=s)
                continue
            if bad is None:
                r.check(e is None, nm + ': no error', w, '%s: an intact directory is reported as broken (%s)' % (nm, show(e)[:80]), st=s)
            else:
                r.check(e is not None, nm + ': the error is reported', w, '%s: a broken directory chain is not reported' % nm, st=s)
                if e is not None and bad != 'io':
                    r.check(errname(r, e) == bad, nm + ': ' + bad, w, '%s: reported as %s' % (nm, errname(r, e)), st=s)
            if bad is not None and border:
                continue
            ns = [nameof(r, eng, s, x) for x in got]
            if None in ns:
                r.skip(nm + ': names')
                continue
            wn = [x[0] for x in want]
            r.check(ns == wn, nm + ': the right entries', w, '%s: entries missing %s, unexpected %s%s' % (
                nm, [chr(a) + chr(b) for a, b in wn if (a, b) not in ns][:5], ['%r' % (x,) for x in ns if x not in wn][:5],
                '' if sorted(ns) != sorted(wn) else ' (order)'), st=s)
            if ns != wn:
                continue
            for x, (_, l, off, bo) in zip(got, want):
                r.check(posof(r, eng, s, x) == (l, off, 32), nm + ': position', w, '%s: entry at %s+%d claims position %s' % (nm, l, off, posof(r, eng, s, x)), st=s)
                r.want(s, fieldv(r, eng, s, x, DE, 'geos_border'), bo, nm + ': border flag', w)
                r.want(s, fieldv(r, eng, s, x, DE, 'first_sector'), loc(17, off // 32), nm + ': own contents', w)
            r.check(not [x for x in tr.events(s) if x[0] not in ('sector',)], nm + ': read only', w, '%s: listing changes the disk (%s)' % (nm, show_evs(tr.events(s))), st=s)
        r.panics(eng, nm + ': no panic')


@rule('C20', *KINDS)
def unformatted(r, kind):
    """an unformatted disk has no directory: listing yields one error"""
    eng = r.engine()
    eng.exact = 30
    Trace(r, eng)
    st = State()
    d, _ = disk(r, eng, st, kind, formatted=False)
    new, nx, res = listing(r, eng, kind, st, d)
    for s, got, e in res:
        r.check(not got and errname(r, e) == 'Unformatted' if isinstance(e, V) else False, kind + ': one error', r.where(nx), kind + ': an unformatted disk lists %d entries' % len(got), st=s)
    r.check(len(res) > 0, kind + ': returns', r.where(nx))
    r.panics(eng, kind + ': no panic')


@rule('C20', *KINDS)
def lookup(r, kind):
    """looking a name up yields the first entry in disk order with exactly that name, NotFound only if there is none, and no error is taken for either"""
    a = FIRST[kind]
    b = (a[0], 4)
    f = dm(r, kind, 'find_directory_entry')
    w = r.where(f)
    dup = slots((0, 255), FULL, 1)     # the same names again in the second sector
    for nm, key, cont, want in (
            ('first entry', (66, 65), {a: [slots(b, FULL, 1)], b: [dup]}, (a, 0)),
            ('last of first sector', (66, 72), {a: [slots(b, FULL, 1)], b: [dup]}, (a, 224)),
            ('in second sector', (67, 67), {a: [slots(b, FULL, 1)], b: [slots((0, 255), FULL, 2)]}, (b, 64)),
            ('scratched', (66, 67), {a: [slots(b, one_free(2), 1)], b: [slots((0, 255), FULL, 2)]}, 'NotFound'),
            ('scratched, then reused', (66, 67), {a: [slots(b, one_free(2), 1)], b: [dup]}, (b, 64)),
            ('prefix', (66,), {a: [slots((0, 255), FULL, 1)]}, 'NotFound'),
            ('longer', (66, 67, 68), {a: [slots((0, 255), FULL, 1)]}, 'NotFound'),
            ('other', (1, 2), {a: [slots((0, 255), FULL, 1)]}, 'NotFound'),
            ('before a loop', (66, 67), {a: [slots(a, FULL, 1)]}, (a, 64)),
            ('not before a loop', (1, 2), {a: [slots(a, FULL, 1)]}, 'ChainLoop'),
            ('bad link', (66, 67), {a: [slots((0, 0), FULL, 1)]}, 'InvalidChainLink')):
        eng, tr, st, d = dirdisk(r, kind, cont, (a, b))
        nv = eng.expand(st, eng.mkop(r.ty(PET), 'key'), 0)

        def put(v):
            return mk('agg', v.a[0], (put(v.a[1][0]),)) if isV(v, 'agg') else eng.mkseq(eng.tyid('u8'), (('e', key),))
        p = mkobj(eng, st, 'key', r.ty(PET), put(nv))
        rs = r.run(eng, f, [d, p], st)
        nm = '%s, %s' % (kind, nm)
        r.check(len(rs) > 0, nm + ': returns', w)
        for s, v in rs:
            k = eng.variant(s, v)
            if isinstance(want, str):
                r.check(k == 1 and errname(r, v) == want, nm + ': ' + want, w, '%s: expected %s, got %s' % (nm, want, errname(r, v) if k else 'an entry'), st=s)
            else:
                r.check(k == 0, nm + ': found', w, '%s: an existing file is not found (%s)' % (nm, errname(r, v)), st=s)
                if k == 0:
                    r.check(posof(r, eng, s, v.a[1][0]) == want + (32,), nm + ': the right one', w, '%s: found at %s instead of %s' % (nm, posof(r, eng, s, v.a[1][0]), want), st=s)
        r.panics(eng, nm + ': no panic')


def slot_runs(r, kind, fail=('search', 'bamflush')):
    a = FIRST[kind]
    b = (a[0], 4)
    new = (a[0], 9)
    for nm, cont, want in (
            [('slot %d of the first sector' % k, {a: [slots(b, one_free(k), 1)], b: [slots((0, 255), (FREE,) * 8, 2)]}, (a, 32 * k)) for k in range(8)] +
            [('slot %d of the second sector' % k, {a: [slots(b, FULL, 1)], b: [slots((0, 255), one_free(k, 0x40), 2)]}, (b, 32 * k)) for k in (0, 3, 7)] +
            [('closed DEL entries are not free', {a: [slots((0, 255), (CLOSEDDEL,) * 7 + (FREE,), 1)]}, (a, 224)),
             ('open files are not free', {a: [slots((0, 255), (0x02, 0x01, 0x03, 0x04, 0x22, 0x05, 0x0f, FREE), 1)]}, (a, 224)),
             ('full, one sector', {a: [slots((0, 255), FULL, 1)]}, a),
             ('full, two sectors', {a: [slots(b, FULL, 1)], b: [slots((0, 255), FULL, 2)]}, b),
             ('partial last entry', {a: [slots((0, 100), FULL, 1)]}, a),
             ('loop', {a: [slots(b, FULL, 1)], b: [slots(a, FULL, 2)]}, None),
             ('bad link', {a: [slots((0, 0), FULL, 1)]}, None),
             ('link off the disk', {a: [slots((99, 3), FULL, 1)]}, None)]):
        eng, tr, st, d = dirdisk(r, kind, cont, (a, b, new), fail=fail)
        tr.fixed = new

        def search(e, st, ctx, x, tr=tr):
            return tr.split(st, 'search', loc(*new), loc(*new), x[1])
        eng.hooks[r.fn('disk::bam::Bam::next_free_block')['lpath']] = search
        f = dm(r, kind, 'next_free_directory_entry')
        rs = r.run(eng, f, [d], st)
        r.check(len(rs) > 0, '%s, %s: returns' % (kind, nm), r.where(f))
        yield '%s, %s' % (kind, nm), eng, tr, rs, want, r.where(f), cont, new


@rule('C20', *KINDS)
def free_slot(r, kind):
    """a new entry goes to the first scratched slot; a full directory is extended by one empty, allocated, linked sector"""
    for nm, eng, tr, rs, want, w, cont, new in slot_runs(r, kind):
        n = 0
        for s, v in rs:
            evs = tr.events(s)
            ch = [e for e in evs if e[0] in ('sector_mut', 'alloc', 'free', 'bamflush')]
            k = eng.variant(s, v)
            if want is None:
                r.check(k == 1 and not ch, nm + ': refused', w, '%s: a broken directory is extended (%s)' % (nm, show_evs(evs)), st=s)
                n += 1
                continue
            if k == 1:
                if ('failed', 'search') in evs or ('failed', 'map') in evs and not [e for e in evs if e[0] == 'alloc']:
                    lk = [e for e in evs if e[0] == 'sector_mut' and tuple(e[1].a[1]) != new]
                    r.check(not lk, nm + ': not linked', w, '%s: the directory is linked to a sector that was not allocated (%s)' % (nm, show_evs(evs)), st=s)
                continue
            n += 1
            e = v.a[1][0]
            if len(want) == 2 and isinstance(want[0], tuple):
                r.check(posof(r, eng, s, e) == want + (32,), nm + ': the first free slot', w, '%s: slot %s chosen instead of %s' % (nm, posof(r, eng, s, e), want), st=s)
                r.check(not ch, nm + ': nothing changed', w, '%s: finding a free slot changes the disk (%s)' % (nm, show_evs(evs)), st=s)
                continue
            r.check(posof(r, eng, s, e) == (new, 0, 32), nm + ': first slot of the new sector', w, '%s: slot %s' % (nm, posof(r, eng, s, e)), st=s)
            se = [x for x in evs if x[0] == 'search']
            okk = len(se) == 1 and eng.variant(s, se[0][2]) == 1 and same(s, se[0][2].a[1][0], loc(*want)) == 1
            r.check(okk, nm + ': next to the last sector', w, '%s: the new sector is not searched from the last directory sector' % nm, st=s)
            r.check([tuple(x[1].a[1]) for x in evs if x[0] == 'alloc'] == [new] and 'free' not in names(evs), nm + ': allocated', w, '%s: allocations %s' % (nm, show_evs(evs)), st=s)
            sec = eng.load(s, ('sec', loc(*new)))
            r.want(s, eng.seq_get(s, sec, 0), 0, nm + ': ends the chain', w)
            r.want(s, eng.seq_get(s, sec, 1), 255, nm + ': entirely used', w)
            zs = [eng.seq_get(s, sec, i) for i in range(2, 256)]
            r.check(all(x == 0 for x in zs), nm + ': empty', w, '%s: the new directory sector is not empty' % nm, st=s)
            r.check(link_at(eng, s, want) == new, nm + ': linked', w, '%s: the last sector links to %s' % (nm, link_at(eng, s, want)), st=s)
            for l, alts in cont.items():
                for i, x in alts[0]:
                    if l == want and i < 2:
                        continue
                    g = sector_byte(eng, s, loc(*l), i)
                    if g != x:
                        r.check(same(s, g, x) == 1, nm, w, '%s: byte %d of directory sector %s is changed' % (nm, i, l), st=s)
                        break
                else:
                    r.ok(nm + ': other directory contents untouched')
        r.check(n > 0, nm + ': resolved', w)
        r.panics(eng, nm + ': no panic')


@rule('C07', *KINDS)
def extended_map_written(r, kind):
    """the map is written to the disk before extending the directory reports success"""
    for nm, eng, tr, rs, want, w, cont, new in slot_runs(r, kind):
        for s, v in rs:
            if eng.variant(s, v) == 0:
                persisted(r, tr, s, nm, w)


@rule('C18', *KINDS)
def extend_order(r, kind):
    """the directory links to a new sector only after that sector is empty, allocated and the map is on disk"""
    n = 0
    for nm, eng, tr, rs, want, w, cont, new in slot_runs(r, kind):
        for s, v in rs:
            evs = tr.events(s)
            for i, e in enumerate(evs):
                if e[0] != 'sector_mut' or tuple(e[1].a[1]) == new:
                    continue
                n += 1
                before = names(evs[:i])
                r.check('alloc' in before, nm + ': allocated before linked', w, '%s: linked before allocated (%s)' % (nm, show_evs(evs)), st=s)
                r.check('alloc' in before and 'bamflush' in before[before.index('alloc'):], nm + ': map written before linked', w, '%s: linked before the map is written (%s)' % (nm, show_evs(evs)), st=s)
                sec = tr.snaps[tr.chain(s)[i]].get(('sec', loc(*new)))
                okk = sec is not None and [eng.seq_get(s, sec, j) for j in range(256)] == [0, 255] + [0] * 254
                r.check(okk, nm + ': empty before linked', w, '%s: linked before the new sector is initialised (%s)' % (nm, show_evs(evs)), st=s)
    r.check(n > 0, kind + ': links analysed', 'next_free_directory_entry')


@rule('C20', *KINDS)
def any_record(r, kind):
    """whether a record is listed, and whether it is free, depends on its type byte alone: its start, size, attributes and the start of its name are unknown here"""
    a = FIRST[kind]
    for k, typ in ((0, 0x82), (3, 0x81), (7, 0x80), (5, 0x02), (4, 0xc4), (2, FREE), (7, 0x40)):
        if kind != 'd64' and k in (5, 4, 2) and r.tier == 'quick':
            continue
        used = bool(typ & 15 or typ & 0x80)
        cont = {a: [[(i, b) for i, b in slots((0, 255), (FREE,) * 8 if used else FULL) if i // 32 != k or i < 2 or 7 <= i % 32 < 21] + [(32 * k + 2, typ)]]}
        eng, tr, st, d = dirdisk(r, kind, cont, (a, (a[0], 4)))
        new, nx, res = listing(r, eng, kind, st, d)
        w = r.where(nx)
        nm = '%s, slot %d of type %02x' % (kind, k, typ)
        r.check(len(res) > 0, nm + ': ends', w)
        for s, got, e in res:
            r.check(e is None, nm + ': no error', w, nm + ': an intact directory is reported as broken', st=s)
            ps = [posof(r, eng, s, x) for x in got]
            want = [(a, 32 * k, 32)] if used else [(a, 32 * i, 32) for i in range(8) if i != k]
            r.check(ps == want, nm + ': listed', w, '%s: the records listed are those at %s' % (nm, [p and p[1] for p in ps]), st=s)
        r.panics(eng, nm + ': no panic')
        if used:
            continue
        f = dm(r, kind, 'next_free_directory_entry')
        rs = r.run(eng, f, [d], st.copy())
        r.check(len(rs) > 0, nm + ': slot search returns', r.where(f))
        for s, v in rs:
            if eng.variant(s, v) != 0:
                r.check(0, nm + ': a free slot is found', r.where(f), nm + ': a free slot is not found', st=s)
                continue
            p = posof(r, eng, s, v.a[1][0])
            r.check(p == (a, 32 * k, 32), nm + ': the free slot', r.where(f), '%s: the slot used is %s' % (nm, p), st=s)
        r.panics(eng, nm + ': slot search never panics')
