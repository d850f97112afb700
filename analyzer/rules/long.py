"""The same promises at the largest sizes: chains as long as a disk, directories of hundreds of entries."""
from ..core import *
from .bam import fieldv, loc
from .chain import blocksref
from .device import errname
from .directory import slots, dirdisk, listing, nameof, posof, FULL, USED, FREE, FIRST, DI, one_free
from .disks import disk, dm, dty, opaque, mkobj, BAM
from .files import long_chain, links, vlir, geos, LIN, GEO, OPS
from .records import opened, check_record, sec, A
from .streams import buffer, rope_same, rope_take, explain_rope, Writing, WR, GR, INFO, HEAD
from .trace import device_of, record, Trace
from .validate import dirsec, DIR1, VE
from . import validate as V_
from .format import system

CI = 'disk::chain::ChainIterator'
CR = 'disk::chain::ChainReader'
DE = 'disk::directory::DirectoryEntry'
LAST = 78


def sizes(r):
    return (300, 3160) if r.tier == 'quick' else (300, 1000, 1400, 3160)


def lay(eng, st, cont):
    for l, by in cont.items():
        o = ('sec', mk('agg', 0, l))
        b = eng.load(st, o)
        for i, x in by:
            b = eng.seq_set(st, b, i, x)
        st.mem[o] = b
        st.mem[('picked', o[1])] = 1


def chain_of(n):
    ls, cont = long_chain(n)
    cont = {l: c[0] for l, c in cont.items()}
    cont[ls[-1]] = links((0, LAST))[0]
    return ls, cont


def stored(eng, st, ls):
    want = []
    for i, l in enumerate(ls):
        want += sec(eng, st, l, 2, 254 if i + 1 < len(ls) else LAST - 1)
    return want


@rule('C10')
def chain_long(r):
    """a chain as long as a disk is followed to its end: every sector once, no error"""
    new = r.fn(CI + '::new')
    nx = r.method(CI, 'next', 'std::iter::Iterator')
    w = r.where(nx)
    for n in sizes(r):
        eng = r.engine()
        eng.exact = 10 ** 5
        ls, cont = chain_of(n)
        device_of(r, eng, set(ls), {})
        st = State()
        lay(eng, st, cont)
        rs = r.run(eng, new, [blocksref(r, eng, new), loc(*ls[0])], st)
        if len(rs) != 1:
            raise Limit('ChainIterator::new')
        s, v = rs[0]
        p = mkobj(eng, s, 'ci', r.ty(CI), v)
        bad = None
        for i in range(n + 1):
            rs = r.run(eng, nx, [p], s)
            if not rs:
                break
            if len(rs) != 1:
                raise Limit('following a known chain forks')
            s, o = rs[0]
            k = eng.variant(s, o)
            if k == 0:
                bad = None if i == n else 'ends after %d sectors' % i
                break
            x = o.a[1][0]
            if eng.variant(s, x) != 0:
                bad = 'fails at sector %d' % (i + 1)
                break
            if i == n:
                bad = 'does not end'
                break
            cs = x.a[1][0]
            l = fieldv(r, eng, s, cs, 'disk::chain::ChainSector', 'location')
            if not same(s, l, loc(*ls[i])):
                bad = 'yields %s as sector %d' % (show(l), i + 1)
                break
        r.check(bad is None, 'a chain of %d sectors is followed' % n, w, 'a chain of %d sectors %s' % (n, bad), st=s)
        r.panics(eng, 'following a long chain never panics')


@rule('C16')
def read_long(r):
    """a file as long as a disk is read whole, by one read as by many"""
    new = r.fn(CR + '::new')
    rd = r.method(CR, 'read', 'std::io::Read')
    w = r.where(rd)
    for n in sizes(r):
        for step in (None, 65536) if n < 3160 else (None,):
            eng = r.engine()
            eng.exact = 10 ** 5
            ls, cont = chain_of(n)
            device_of(r, eng, set(ls), {})
            st = State()
            lay(eng, st, cont)
            want = stored(eng, st, ls)
            total = (n - 1) * 254 + LAST - 1
            rs = r.run(eng, new, [blocksref(r, eng, new), loc(*ls[0])], st)
            if len(rs) != 1:
                raise Limit('ChainReader::new')
            s, v = rs[0]
            p = mkobj(eng, s, 'cr', r.ty(CR), v)
            got, cnt = [], 0
            for i in range(40):
                s = s.copy()
                o, sl, ln = buffer(eng, s, i, step or total + 10)
                rs = r.run(eng, rd, [p, sl], s)
                if len(rs) != 1:
                    if not rs:
                        break
                    raise Limit('reading a known chain forks')
                s, res = rs[0]
                if eng.variant(s, res) != 0:
                    r.check(0, 'a long file is readable', w, 'reading a file of %d sectors fails after %s bytes' % (n, show(cnt)), st=s)
                    break
                c = res.a[1][0]
                if c == 0:
                    break
                got += rope_take(s, eng.deref(s, mk('ptr', o, (), None)).a[1], c)
                cnt = lin_add(cnt, c)
            r.want(s, cnt, total, 'length of a file of %d sectors' % n, w)
            if cnt == total:
                r.check(rope_same(s, got, want), 'a file of %d sectors is read whole' % n, w, 'reading a file of %d sectors gives other bytes' % n, st=s)
            r.panics(eng, 'reading a long file never panics')


@rule('C16')
def convert_long(r):
    """a GEOS file of hundreds of blocks is serialised whole"""
    new = r.fn(GR + '::new')
    rd = r.method(GR, 'read', 'std::io::Read')
    w = r.where(rd)
    for n in (300,) if r.tier == 'quick' else (300, 1400, 3000):
        eng = r.engine()
        eng.exact = 10 ** 5
        ls, cont = chain_of(n)
        con = dict(cont)
        con[(81, 0)] = []
        device_of(r, eng, set(con) | {(18, 1)}, {})
        st = State()
        lay(eng, st, con)
        st, e = record(r, eng, st, typ=0x83, first=ls[0], name=b'DOC', extra=(81, 0, 0, 6, 90, 5, 6, 7, 8), size=(9, 1))
        ep = mkobj(eng, st, 'entry', r.ty(DE), e)
        want = sec(eng, st, (81, 0)) + stored(eng, st, ls)
        total = 508 + (n - 1) * 254 + LAST - 1
        for s, v in r.run(eng, new, [blocksref(r, eng, new), ep], st):
            if eng.variant(s, v) != 0:
                r.check(0, 'opens', w, 'opening a GEOS reader on a proper file fails', st=s)
                continue
            p = mkobj(eng, s, 'gr', r.ty(GR), v.a[1][0])
            o, sl, ln = buffer(eng, s, 0, total + 10)
            for s2, res in r.run(eng, rd, [p, sl], s):
                if eng.variant(s2, res) != 0:
                    r.check(0, 'a long GEOS file is readable', w, 'serialising a GEOS file of %d blocks fails' % n, st=s2)
                    continue
                c = res.a[1][0]
                # a reader may return less than asked; only the beginning is compared then
                if not isinstance(c, int):
                    r.skip('length not resolved')
                    continue
                got = rope_take(s2, eng.deref(s2, mk('ptr', o, (), None)).a[1], c)
                rest = []
                for i in range(1, 40):
                    s2 = s2.copy()
                    o2, sl2, _ = buffer(eng, s2, i, total + 10)
                    rs = r.run(eng, rd, [p, sl2], s2)
                    if len(rs) != 1 or eng.variant(rs[0][0], rs[0][1]) != 0:
                        raise Limit('reading on')
                    s2, res = rs[0]
                    if res.a[1][0] == 0:
                        break
                    rest += rope_take(s2, eng.deref(s2, mk('ptr', o2, (), None)).a[1], res.a[1][0])
                    c = lin_add(c, res.a[1][0])
                r.want(s2, c, total, 'length of a serialised file of %d blocks' % n, w)
                if c == total:
                    q = eng.mkseq(eng.tyid('u8'), tuple(got + rest))
                    r.check(rope_same(s2, list(eng.seq_slice(s2, q, 254, total - 254)), want), 'a GEOS file of %d blocks is serialised whole' % n, w, 'a GEOS file of %d blocks is serialised with other bytes' % n, st=s2)
        r.panics(eng, 'serialising never panics')


@rule('C09')
def record_long(r):
    """a record of hundreds of blocks is returned whole"""
    for n in (300,) if r.tier == 'quick' else (300, 1400, 3000):
        ls, cont = chain_of(n)
        for what, ty, typ, extra in (('linear', LIN, 0x82, (0,) * 9), ('GEOS sequential', GEO, 0x83, geos(0, (81, 0))), ('GEOS VLIR', GEO, 0x83, geos(1, (81, 0)))):
            con = dict(cont)
            con[(81, 0)] = []
            part = ls
            if what == 'GEOS VLIR':
                con[A] = vlir(None, ls[1])
                part = ls[1:]
            eng, st, p = opened(r, ty, typ, extra, con, set(con))
            eng.exact = 10 ** 5
            if p is None:
                r.check(0, 'opens', ty, '%s file of %d blocks cannot be opened' % (what, n), st=st)
                continue
            check_record(r, eng, st, p, ty, 1 if part is not ls else 0, stored(eng, st, part), '%s file of %d blocks' % (what, n))
            r.panics(eng, 'reading records never panics')


@rule('C17')
def append_to_long(r):
    """appending to a file as long as a disk continues at its end"""
    wr = r.method(WR, 'write', 'std::io::Write')
    fl = r.method(WR, 'flush', 'std::io::Write')
    w = r.where(wr)
    for n in (300, 2000) if r.tier == 'quick' else (300, 1000, 2000, 3160):
        W = Writing(r, n, 250, fail=(), grow=2)
        eng, t = W.eng, W.t
        eng.exact = 10 ** 5
        for s, p in W.open():
            if p is None:
                r.check(0, 'the writer opens', w, 'a file of %d sectors cannot be opened for writing' % n, st=s)
                continue
            s = s.copy()
            o, sl, ln = buffer(eng, s, 0, 100)
            for s2, res in r.run(eng, wr, [p, sl], s):
                if eng.variant(s2, res) != 0:
                    r.check(0, 'a write is taken', w, 'appending to a file of %d sectors fails' % n, st=s2)
                    continue
                for s3, r3 in r.run(eng, fl, [p], s2.copy()):
                    got, secs = W.content(s3)
                    if got is None:
                        r.check(0, 'the chain is well-formed', w, 'after appending to a file of %d sectors, the chain is broken: %s' % (n, secs), st=s3)
                        continue
                    r.check(rope_same(s3, got, list(W.before) + [('b', ('buf', 0), 0, res.a[1][0])]), 'appended at the end', w, 'appending to a file of %d sectors damages it' % n, st=s3)
        r.panics(eng, 'appending never panics')


def bigdir(kind, n, last):
    """n full directory sectors, the last one with the given types; distinct names everywhere"""
    a = FIRST[kind]
    ls = [a] + [(40 + i // 30, i % 30) if kind != 'd81' else (50 + i // 30, i % 30) for i in range(n - 1)]
    cont = {}
    for i, l in enumerate(ls):
        by = slots(ls[i + 1] if i + 1 < n else (0, 255), FULL if i + 1 < n else last, 1)
        by = [(k, x if k % 32 not in (5, 6) else (66 + i if k % 32 == 5 else 65 + k // 32)) for k, x in by]
        cont[l] = [by]
    return ls, cont


def bigname(i, k):
    return (66 + i, 65 + k)


@rule('C20', 'd64', 'd81')
def listing_long(r, kind):
    """a directory of hundreds of entries is listed whole"""
    n = 45
    last = (USED, FREE, USED, FREE, FREE, FREE, FREE, USED)
    ls, cont = bigdir(kind, n, last)
    eng, tr, st, d = dirdisk(r, kind, cont, set(ls))
    eng.exact = 10 ** 4
    new, nx, res = listing(r, eng, kind, st, d, limit=8 * n + 2)
    w = r.where(nx)
    want = [bigname(i, k) for i in range(n) for k in range(8) if i + 1 < n or last[k] == USED]
    r.check(len(res) > 0, 'ends', w)
    for s, got, e in res:
        r.check(e is None, 'no error', w, '%s: a directory of %d sectors is reported as broken' % (kind, n), st=s)
        ns = [nameof(r, eng, s, x) for x in got]
        if None in ns:
            r.skip('names')
            continue
        r.check(ns == want, 'all entries', w, '%s: of %d entries %d are listed' % (kind, len(want), len(ns)), st=s)
        if ns == want:
            r.check(posof(r, eng, s, got[-1]) == (ls[-1], 224, 32), 'position', w, '%s: the last entry has the wrong position' % kind, st=s)
    r.panics(eng, 'no panic')


def find_long(r, kind):
    """a name is found wherever it is in a directory of hundreds of entries, and is then not available"""
    n = 45
    f = dm(r, kind, 'find_directory_entry')
    g = dm(r, kind, 'check_filename_availability')
    from .handles import petscii_of
    for key, want in (((66 + n - 1, 72), 1),) if r.tier == 'quick' else (((66 + n - 1, 72), 1), ((66 + 30, 65), 1), ((1, 2), 0)):
        ls, cont = bigdir(kind, n, FULL)
        for fn in (f, g):
            w = r.where(fn)
            eng, tr, st, d = dirdisk(r, kind, cont, set(ls))
            eng.exact = 10 ** 4
            p = petscii_of(r, eng, st, bytes(key))
            rs = r.run(eng, fn, [d, p], st)
            r.check(len(rs) > 0, 'returns', w)
            for s, v in rs:
                k = eng.variant(s, v)
                if fn is f:
                    r.check(k == (0 if want else 1), 'found', w, '%s: in a directory of %d entries an existing file is not found' % (kind, 8 * n) if want else 'a missing file is found', st=s)
                    if k == 0 and want:
                        r.check(nameof(r, eng, s, v.a[1][0]) == key, 'the right one', w, '%s: another file is found' % kind, st=s)
                else:
                    r.check(k == (1 if want else 0), 'availability', w, '%s: in a directory of %d entries the name of an existing file is available' % (kind, 8 * n) if want else 'a free name is refused', st=s)
            r.panics(eng, 'no panic')


@rule('C20', 'd64', 'd81')
def lookup_long(r, kind):
    """a name is found wherever it is in a directory of hundreds of entries"""
    find_long(r, kind)


@rule('C19')
def taken_long(r):
    """a name is taken wherever it is in a directory of hundreds of entries"""
    find_long(r, 'd64')


@rule('C28')
def name_long(r):
    """a file is found by its name wherever it is in a directory of hundreds of entries"""
    find_long(r, 'd71')


def slot_long(r, kind):
    """the free slot, or the end of the chain, is found in a directory of hundreds of entries"""
    n = 45
    new = (30, 9)
    for last in (one_free(5), FULL):
        ls, cont = bigdir(kind, n, last)
        eng, tr, st, d = dirdisk(r, kind, cont, set(ls) | {new})
        eng.exact = 10 ** 4
        eng.device.writable = lambda st: True

        def search(e, st, ctx, x, tr=tr):
            return tr.split(st, 'search', loc(*new), loc(*new), x[1])
        eng.hooks[r.fn('disk::bam::Bam::next_free_block')['lpath']] = search
        f = dm(r, kind, 'next_free_directory_entry')
        w = r.where(f)
        k = 0
        for s, v in r.run(eng, f, [d], st):
            if eng.variant(s, v) != 0:
                r.check(last is FULL and 'failed' in [e[0] for e in tr.events(s)], 'a slot is found', w, '%s: no slot is found in a directory of %d sectors (%s)' % (kind, n, [show(x) for x in tr.events(s)[-1]]), st=s)
                continue
            k += 1
            at = posof(r, eng, s, v.a[1][0])
            want = (new, 0, 32) if last is FULL else (ls[-1], 160, 32)
            r.check(at == want, 'the right slot', w, '%s: in a directory of %d sectors the new entry goes to %s instead of %s' % (kind, n, at, want), st=s)
            for i, l in enumerate(ls):
                b = eng.load(s, ('sec', loc(*l)))
                x = (eng.seq_get(s, b, 0), eng.seq_get(s, b, 1))
                y = ls[i + 1] if i + 1 < n else (new if last is FULL else (0, 255))
                if x != y:
                    r.check(0, 'links', w, '%s: directory sector %d of %d links to %s instead of %s' % (kind, i + 1, n, x, y), st=s)
                    break
            else:
                r.ok('the directory is kept')
        r.check(k > 0, 'a slot is found', w)
        r.panics(eng, 'no panic')


@rule('C20', 'd64', 'd81')
def slots_long(r, kind):
    """a new entry never cuts off a directory of hundreds of entries"""
    slot_long(r, kind)


@rule('C19')
def created_long(r):
    """creating a file never damages a directory of hundreds of entries"""
    slot_long(r, 'd64')


@rule('C24')
def validated_long(r):
    """long files, long directories and many files are validated whole"""
    kind = 'd81'
    eng = r.engine()
    eng.exact = 10 ** 6
    w = r.where(dm(r, kind, 'validate'))
    dirs = [DIR1[kind]] + [(40, s) for s in range(4, 40)] + [(41, s) for s in range(3)]
    big = [(t, s) for t in range(1, 36) for s in range(40)][:1390]
    cont = {l: links(big[i + 1])[0] if i + 1 < len(big) else links((0, 9))[0] for i, l in enumerate(big)}
    own = {l: b'BIG' for l in big}
    free = [(t, s) for t in range(45, 81) for s in range(40)]
    k = 0
    for i, l in enumerate(dirs):
        recs = {}
        for j in range(8):
            nm = bytes((65 + i, 65 + j))
            if i == 20 and j == 3:
                recs[j] = (0x82, big[0], b'BIG')
            elif i == 21 and j == 3:
                recs[j] = (0x83, (42, 0), b'VLR', tuple(geos(1, (42, 1))))
                cont[(42, 0)] = vlir(*((42, 2),) + (None,) * 125 + ((42, 3),))
                cont[(42, 1)] = [(0, 0), (1, 255)]
                cont[(42, 2)] = cont[(42, 3)] = links((0, 9))[0]
                own.update({(42, x): b'VLR' for x in range(4)})
            else:
                recs[j] = (0x82, free[k], nm)
                cont[free[k]] = links((0, 9))[0]
                own[free[k]] = nm
                k += 1
        cont[l] = dirsec(dirs[i + 1] if i + 1 < len(dirs) else (0, 255), recs)
    # nothing but these is wrong
    bad = [dirs[-1], dirs[10], big[-1], big[700], free[k - 1], free[10], (42, 3)]
    spare = (44, 7)
    st = State()
    lay(eng, st, cont)
    device_of(r, eng, set(cont), {})
    h = V_.opaque(r, eng, st, 'header', V_.HD)
    h = V_.setfield(r, h, V_.HD, 'geos', none())
    d, bp = disk(r, eng, st, kind, header=h, geos=0)
    al = (set(system(kind)) | set(cont) | {spare}) - set(bad)
    want = sorted([('SectorMisoccupied', l, own.get(l, V_.DOS)) for l in bad if l not in system(kind)] + [('SystemSectorNotAllocated', l) for l in bad if l in system(kind)] +
                  [('SectorMisallocated', spare)], key=str)
    n = 0
    for s, v in V_.run(r, eng, st, d, kind, al):
        if eng.variant(s, v) != 0:
            r.check(0, 'succeeds', w, 'validating a large disk fails', st=s)
            continue
        got = V_.report(r, eng, s, v, known=set(own.values()))
        if got is None or any(None in g for g in got):
            r.skip('report not resolved')
            continue
        n += 1
        miss, extra = [x for x in want if x not in got], [x for x in got if x not in want]
        r.check(not miss, 'every inconsistency is reported', w, 'with a large directory or file not reported: %s' % miss[:3], st=s)
        r.check(not extra, 'nothing else is reported', w, 'with a large directory or file reported without cause: %s' % extra[:3], st=s)
    r.check(n > 0, 'validated', w)
    r.panics(eng, 'validation never panics')
