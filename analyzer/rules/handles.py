"""File handles: opening a file gives access to that file, in the ways its organisation allows."""
from ..core import *
from .alloc import setfield
from .bam import fieldv, KINDS
from .create import PET
from .device import errname
from .disks import dm, mkobj
from .entry import variants
from .files import links
from .header import items
from .records import check_record, check_count, sec, anyindex
from .streams import buffer, rope_same, explain_rope
from .trace import *
from .validate import setup, KINDREC, KINDSEC, KINDOWN, DIR1, DIR2

FL, OPS = 'disk::file::File', 'disk::file::FileOps'
KIND = {b'DD': 'Linear', b'UN': 'Linear', b'US': 'Linear', b'RR': 'Relative', b'VV': 'GEOSVLIR', b'GS': 'GEOSSequential'}
DATA = {b'DD': [(7, 0)], b'UN': [(7, 1)], b'US': [(7, 2), (7, 3)], b'GS': [(9, 5)]}


def slot_of(nm):
    return [k for k, x in KINDREC.items() if x[2] == nm][0]


def petscii_of(r, eng, st, name):
    nv = eng.expand(st, eng.mkop(r.ty(PET), 'key'), 0)

    def put(v):
        return mk('agg', v.a[0], (put(v.a[1][0]),)) if isV(v, 'agg') else eng.mkseq(eng.tyid('u8'), (('e', tuple(name)),))
    return mkobj(eng, st, 'key', r.ty(PET), put(nv))


def handle(r, kind, nm, by='name', fail=(), called=None):
    """-> (engine, trace, state, file pointer)"""
    eng, st, d = setup(r, kind, False, 'kinds')
    tr = Trace(r, eng, fail=fail, inmap=lambda s, l: True)
    if by == 'name':
        f = dm(r, kind, 'open_file')
        a = [d, petscii_of(r, eng, st, nm)]
    else:
        st, e = record(r, eng, st, typ=KINDREC[slot_of(nm)][0], first=KINDREC[slot_of(nm)][1], name=called or nm,
                       extra=(KINDREC[slot_of(nm)] + ((0,) * 9,))[3], size=(2, 0), at=DIR2[kind], off=32 * slot_of(nm))
        f = dm(r, kind, 'open_file_from_entry')
        a = [d, mkobj(eng, st, 'entry', r.ty(DE), e)]
    rs = r.run(eng, f, a, st)
    w = r.where(f)
    r.check(len(rs) > 0, 'opens', w)
    out = []
    for s, v in rs:
        if eng.variant(s, v) != 0:
            r.check(0, 'opens', w, 'file %s cannot be opened by %s (%s)' % (nm.decode(), by, errname(r, v)), st=s)
            continue
        r.check(not [e for e in tr.events(s) if e[0] != 'sector'], 'opening changes nothing', w, 'opening a file changes the disk', st=s)
        out.append((s, mkobj(eng, s, 'file', r.ty(FL), v.a[1][0]), v.a[1][0]))
    if len(out) > 1:
        raise Limit('opening has %d outcomes' % len(out))
    r.panics(eng, 'opening never panics')
    return (eng, tr) + out[0] + (w,) if out else (eng, tr, None, None, None, w)


def content(eng, st, nm):
    out = []
    for l in DATA[nm]:
        link = KINDSEC[l]
        out += sec(eng, st, l, 2, 254 if link[0][1] else link[1][1] - 1)
    return out


@rule('C28', *KINDS)
def opened_file(r, kind):
    """opening by name or by entry gives a handle on that file: organisation, entry, name, records and sectors are its own"""
    vs = variants(r, FL)
    for nm, want in KIND.items():
        for by in ('name', 'entry'):
            if kind != 'd64' and by == 'entry' and r.tier == 'quick':
                continue
            eng, tr, s, p, v, w = handle(r, kind, nm, by)
            if p is None:
                continue
            what = '%s: %s, opened by %s' % (kind, nm.decode(), by)
            k = eng.variant(s, v)
            r.check(None if k is None else vs[k] == want, what + ': organisation', w, '%s: opened as %s instead of %s' % (what, k is not None and vs[k], want), st=s)
            f = r.method(FL, 'entry', OPS)
            for s1, e in r.run(eng, f, [p], s.copy()):
                e = eng.deref(s1, e)
                n = items(eng, s1, fieldv(r, eng, s1, e, DE, 'filename'))
                r.check(None if n is None else bytes(n) == nm if all(isinstance(x, int) for x in n) else None, what + ': its entry', r.where(f), '%s: the entry is that of %s' % (what, n), st=s1)
                r.want(s1, fieldv(r, eng, s1, e, DE, 'first_sector'), mk('agg', 0, KINDREC[slot_of(nm)][1]), what + ': first sector', r.where(f))
                ps = fieldv(r, eng, s1, e, DE, 'position')
                r.check(eng.variant(s1, ps) == 1, what + ': position', r.where(f), what + ': the entry has no position', st=s1)
                if eng.variant(s1, ps) == 1:
                    P = 'disk::block::Position'
                    r.want(s1, fieldv(r, eng, s1, ps.a[1][0], P, 'location'), mk('agg', 0, DIR2[kind]), what + ': position', r.where(f))
                    r.want(s1, fieldv(r, eng, s1, ps.a[1][0], P, 'offset'), 32 * slot_of(nm), what + ': offset', r.where(f))
            f = r.method(FL, 'name', OPS)
            for s1, n in r.run(eng, f, [p], s.copy()):
                n = items(eng, s1, n)
                r.check(None if n is None else list(n) == list(nm), what + ': its name', r.where(f), '%s: its name is %s' % (what, n), st=s1)
            f = r.method(FL, 'occupied_sectors', OPS)
            for s1, o in r.run(eng, f, [p], s.copy()):
                if eng.variant(s1, o) != 0:
                    r.check(0, what + ': its sectors', r.where(f), what + ': its sectors cannot be listed', st=s1)
                    continue
                es = eng.explode(o.a[1][0])
                got = None if es is None else [tuple(x.a[1]) for x in es]
                r.check(None if got is None else sorted(got) == sorted(KINDOWN[nm]), what + ': its sectors', r.where(f), '%s: the sectors are %s' % (what, got), st=s1)
            if nm == b'RR':
                check_count(r, eng, s, p, FL, 10, what)
                for i in (0, 9):
                    check_record(r, eng, s, p, FL, i, sec(eng, s, (8, 0), 2 + 10 * i, 10), '%s, record %d' % (what, i))
                last = 10
            elif nm == b'VV':
                check_count(r, eng, s, p, FL, 3, what)
                check_record(r, eng, s, p, FL, 0, sec(eng, s, (9, 1)) + sec(eng, s, (9, 3), 2, 19), what + ', record 0')
                check_record(r, eng, s, p, FL, 1, [], what + ', record 1')
                check_record(r, eng, s, p, FL, 2, sec(eng, s, (9, 2), 2, 1), what + ', record 2')
                last = 3
            else:
                check_count(r, eng, s, p, FL, 1, what)
                check_record(r, eng, s, p, FL, 0, content(eng, s, nm), what + ', its record')
                last = 1
            s1 = s.copy()
            check_record(r, eng, s1, p, FL, anyindex(s1, last), None, what)
            r.panics(eng, 'accessing a file never panics')


@rule('C28')
def same_name(r):
    """a file opened by its entry is that file, even if another one, or none, is found under its name"""
    vs = variants(r, FL)
    for nm, want in KIND.items():
        for called in (b'US' if nm != b'US' else b'GS', b'ZZ', b''):
            eng, tr, s, p, v, w = handle(r, 'd64', nm, 'entry', called=called or b'\xa0')
            if p is None:
                continue
            what = '%s, called %s' % (nm.decode(), called.decode())
            k = eng.variant(s, v)
            r.check(None if k is None else vs[k] == want, what + ': organisation', w, '%s: opened as %s instead of %s' % (what, k is not None and vs[k], want), st=s)
            f = r.method(FL, 'entry', OPS)
            for s1, e in r.run(eng, f, [p], s.copy()):
                e = eng.deref(s1, e)
                r.want(s1, fieldv(r, eng, s1, e, DE, 'first_sector'), mk('agg', 0, KINDREC[slot_of(nm)][1]), what + ': first sector', r.where(f))


@rule('C28')
def by_stream(r):
    """a linear or GEOS sequential file can be read as a stream, only a linear one written; everything else is refused"""
    rd, wr = r.method(FL, 'reader', OPS), r.method(FL, 'writer', OPS)
    for nm, kd in KIND.items():
        eng, tr, s0, p, v, w = handle(r, 'd64', nm)
        if p is None:
            continue
        what = nm.decode() + ' (%s)' % kd
        rs = r.run(eng, rd, [p], s0.copy())
        r.check(len(rs) > 0, what + ': reader returns', r.where(rd))
        for s, v in rs:
            k = eng.variant(s, v)
            if nm not in DATA:
                r.check(k == 1 and errname(r, v) == 'NonLinearFile', what + ': no stream', r.where(rd), '%s: asking for a reader gives %s' % (what, errname(r, v) if k else 'one'), st=s)
                continue
            r.check(k == 0, what + ': readable', r.where(rd), what + ': no reader is given', st=s)
            if k != 0:
                continue
            if v.a[1][0].a[2] != r.ty('disk::chain::ChainReader'):
                r.skip('another kind of stream')
                continue
            s = s.copy()
            box = mkobj(eng, s, 'stream', r.ty('disk::chain::ChainReader'), eng.deref(s, v.a[1][0]))
            want = content(eng, s0, nm)
            f = r.method('disk::chain::ChainReader', 'read', 'std::io::Read')
            s = s.copy()
            o, sl, n = buffer(eng, s, 'out', 1000)
            for s2, v2 in r.run(eng, f, [box, sl], s):
                if eng.variant(s2, v2) != 0:
                    r.check(0, what + ': read', r.where(rd), what + ': cannot be read', st=s2)
                    continue
                q = v2.a[1][0]
                if not isinstance(q, int):
                    r.skip('count')
                    continue
                got = list(eng.seq_slice(s2, s2.mem[o], 0, q))
                r.check(rope_same(s2, tuple(got), want), what + ': its bytes', r.where(rd), '%s: wrong bytes: %s' % (what, explain_rope(s2, tuple(got), want)), st=s2)
        rs = r.run(eng, wr, [p], s0.copy())
        r.check(len(rs) > 0, what + ': writer returns', r.where(wr))
        for s, v in rs:
            k = eng.variant(s, v)
            r.check(not [e for e in tr.events(s) if e[0] not in ('sector', 'sector_mut')], what + ': opening a writer changes nothing', r.where(wr), what + ': opening a writer changes the disk', st=s)
            if kd != 'Linear':
                e = 'ReadOnly' if kd == 'GEOSSequential' else 'NonLinearFile'
                r.check(k == 1 and errname(r, v) == e, what + ': not writable', r.where(wr), '%s: asking for a writer gives %s' % (what, errname(r, v) if k else 'one'), st=s)
                continue
            if k != 0:
                r.check(s.decide(term('sym', 1, ('writable',))) == 0, what + ': writable', r.where(wr), what + ': no writer is given', st=s)
                continue
            if v.a[1][0].a[2] != r.ty('disk::chain::ChainWriter'):
                r.skip('another kind of stream')
                continue
            s = s.copy()
            box = mkobj(eng, s, 'stream', r.ty('disk::chain::ChainWriter'), eng.deref(s, v.a[1][0]))
            f = r.method('disk::chain::ChainWriter', 'write', 'std::io::Write')
            g = r.method('disk::chain::ChainWriter', 'flush', 'std::io::Write')
            s = s.copy()
            o, sl, n = buffer(eng, s, 'data', 5)
            for s2, v2 in r.run(eng, f, [box, sl], s):
                if eng.variant(s2, v2) != 0:
                    r.check(s2.decide(term('sym', 1, ('writable',))) == 0, what + ': writes', r.where(wr), what + ': cannot be written', st=s2)
                    continue
                for s3, v3 in r.run(eng, g, [box], s2):
                    if eng.variant(s3, v3) != 0:
                        continue
                    l = DATA[nm][-1]
                    b = eng.load(s3, ('sec', mk('agg', 0, l)))
                    old = eng.load(s0, ('sec', mk('agg', 0, l)))
                    used = KINDSEC[l][1][1]
                    wantb = [0, used + 5] + [eng.seq_get(s0, old, i) for i in range(2, used + 1)] + [eng.seq_get(s, s.mem[o], i) for i in range(5)]
                    bad = [i for i, x in enumerate(wantb) if same(s3, eng.seq_get(s3, b, i), x) != 1]
                    r.check(not bad, what + ': appends to this file', r.where(wr), '%s: byte %s of its last sector is wrong after writing' % (what, bad[:1]), st=s3)
        r.panics(eng, what + ': no panic')


@rule('C28')
def through_handle(r):
    """deleting through a handle frees the sectors of that file and scratches its entry; the info block is that of the file"""
    f = r.method(FL, 'delete', OPS)
    gi = r.fn(FL + '::geos_info')
    for nm, kd in KIND.items():
        eng, tr, s0, p, v, w = handle(r, 'd64', nm)
        if p is None:
            continue
        what = nm.decode() + ' (%s)' % kd
        n = 0
        for s, v in r.run(eng, f, [p], s0.copy()):
            if eng.variant(s, v) != 0:
                r.check(s.decide(term('sym', 1, ('writable',))) == 0, what + ': deletes', r.where(f), what + ': cannot be deleted', st=s)
                continue
            n += 1
            evs = tr.events(s)
            freed = sorted({tuple(e[1].a[1]) for e in evs if e[0] == 'free'})
            r.check(freed == sorted(KINDOWN[nm]), what + ': its sectors', r.where(f), '%s: deleting it frees %s' % (what, freed), st=s)
            ws = [e for e in evs if e[0] == 'entry']
            r.check(len(ws) == 1, what + ': its entry', r.where(f), '%s: %d entries are written' % (what, len(ws)), st=s)
            for e in ws:
                P = 'disk::block::Position'
                r.want(s, fieldv(r, eng, s, e[1], P, 'location'), mk('agg', 0, DIR2['d64']), what + ': its slot', r.where(f))
                r.want(s, fieldv(r, eng, s, e[1], P, 'offset'), 32 * slot_of(nm), what + ': its slot', r.where(f))
        r.check(n > 0, what + ': can be deleted', r.where(f))
        eng.exact = 10 ** 6
        for s, v in r.run(eng, gi, [p], s0.copy()):
            if eng.variant(s, v) != 0:
                r.check(0, what + ': info', r.where(gi), what + ': asking for the info block fails', st=s)
                continue
            has = eng.variant(s, v.a[1][0])
            r.check(None if has is None else has == int('GEOS' in kd), what + ': info block', r.where(gi), '%s: info block %s' % (what, 'missing' if not has else 'reported'), st=s)
        r.panics(eng, what + ': no panic')
