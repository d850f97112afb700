"""Reading and writing file contents through sector chains."""
from ..core import *
from ..seqs import seg_len, total
from .alloc import setfield
from .bam import fieldv, loc
from .chain import symloc, sector_byte, blocksref
from .device import errname
from .disks import mkobj, opaque, BAM
from .trace import *

RD = 'disk::chain::ChainReader'
U8 = 'u8'


def buffer(eng, st, name, n=None):
    """A caller's buffer of n (default: any number of) unknown bytes -> (object, slice)."""
    if n is None:
        n = term('sym', 64, ('len', name))
    o = ('O', ('buf', name), eng.tyid('u8'))
    st.mem[o] = eng.mkseq(eng.tyid('u8'), (('b', ('buf', name), 0, n),))
    return o, mk('sl', o, (), 0, n), n


def payload(eng, st, l0, limit):
    """The chain from l0 as far as this path has resolved it -> (segments, total length, complete?)"""
    segs, cur = (), l0
    n = 0
    for i in range(limit + 1):
        o = ('sec', cur)
        sec = eng.load(st, o)
        b0, b1 = eng.seq_get(st, sec, 0), eng.seq_get(st, sec, 1)
        t = st.decide(mk_eq(b0, 0))
        if t is None:
            return segs, n, None
        k = 254 if t == 0 else lin_add(b1, -1)
        segs = segs + eng.seq_slice(st, sec, 2, k)
        n = lin_add(n, k)
        if t == 1:
            return segs, n, True
        cur = loc(b0, b1)
    return segs, n, None


def drop_empty(st, segs):
    return [x for x in segs if st.decide(mk_eq(seg_len(x), 0)) != 1]


def seg_from(s, n, m):
    """Elements n.. of a segment (m: what is left)."""
    if s[0] == 'e':
        return ('e', s[1][n:]) if isinstance(n, int) else None
    if s[0] == 'b':
        return ('b', s[1], lin_add(s[2], n), m)
    return ('f', s[1], m)


def explain(a, b):
    return '%s, expected %s' % (str(a)[:160], str(b)[:160])


def norm(segs):
    """Join neighbours, write runs of one constant as fills."""
    out = []
    for x in segs:
        parts = [x]
        if x[0] == 'e':
            parts, k = [], 0
            while k < len(x[1]):
                m = k
                while m < len(x[1]) and x[1][m] == x[1][k]:
                    m += 1
                parts.append(('f', x[1][k], m - k))
                k = m
        for y in parts:
            if out and out[-1][0] == 'f' and y[0] == 'f' and out[-1][1] == y[1]:
                out[-1] = ('f', y[1], lin_add(out[-1][2], y[2]))
            elif out and out[-1][0] == 'b' and y[0] == 'b' and out[-1][1] == y[1] and lin_add(out[-1][2], out[-1][3]) == y[2]:
                out[-1] = ('b', y[1], out[-1][2], lin_add(out[-1][3], y[3]))
            else:
                out.append(y)
    return out


def may_differ(st, a, b):
    WATCH.diffs.append((st, a, b))


def rope_prefix(st, a, b):
    """Is rope a a prefix of rope b?  1 / 0 / None, and the rest of b."""
    a, b = drop_empty(st, norm(a)), drop_empty(st, norm(b))
    while a:
        if not b:
            z = st.decide(mk_eq(total(a), 0))
            may_differ(st, total(a), 0)
            return (1 if z == 1 else 0 if z == 0 else None), []
        x, y = a[0], b[0]
        lx, ly = seg_len(x), seg_len(y)
        d = lin_add(lx, ly, -1)
        if d == 0 or st.decide(mk_eq(d, 0)) == 1:
            n = lx
            nx, ny = None, None
        elif st.decide(mk_lt(lx, ly)) == 1:
            n, nx, ny = lx, None, seg_from(y, lx, lin_add(ly, lx, -1))
            if ny is None:
                return None, b
        elif st.decide(mk_lt(ly, lx)) == 1:
            n, ny, nx = ly, None, seg_from(x, ly, lin_add(lx, ly, -1))
            if nx is None:
                return None, b
        else:
            return None, b
        # compare n elements
        if x[0] == 'b' and y[0] == 'b':
            if x[1] != y[1]:
                z = st.decide(mk_eq(n, 0))
                return (0 if z == 0 else None), b
            e = st.decide(mk_eq(lin_add(x[2], y[2], -1), 0))
            if e != 1:
                if st.decide(mk_lt(0, n)) == 1:
                    may_differ(st, x[2], y[2])
                return e, b
        elif x[0] == 'f' and y[0] == 'f':
            e = same(st, x[1], y[1])
            if e != 1:
                if st.decide(mk_lt(0, n)) == 1:
                    may_differ(st, x[1], y[1])
                return e, b
        elif isinstance(n, int):
            for i in range(n):
                u, v = elem_of(x, i), elem_of(y, i)
                e = same(st, u, v)
                if e != 1:
                    may_differ(st, u, v)
                    return e, b
        else:
            return None, b
        a = ([nx] if nx else []) + a[1:]
        b = ([ny] if ny else []) + b[1:]
        a, b = drop_empty(st, a), drop_empty(st, b)
    return 1, b


def elem_of(s, i):
    if s[0] == 'e':
        return s[1][i]
    if s[0] == 'b':
        return term('el', 8, s[1], lin_add(s[2], i))
    return s[1]


def rope_same(st, a, b):
    e, rest = rope_prefix(st, a, b)
    if e != 1:
        may_differ(st, total(a), total(b))
        return e
    z = st.decide(mk_eq(total(rest), 0))
    may_differ(st, total(rest), 0)
    return z


def filled(st, segs, name):
    """Split a buffer's contents into the part written and the untouched rest."""
    out = []
    for i, x in enumerate(segs):
        if x[0] == 'b' and x[1] == ('buf', name):
            return out, list(segs[i:])
        out.append(x)
    return out, []


@rule('C16')
def reader(r):
    """successive reads, with buffers of any size, return exactly the file's bytes in order, then end of file; chain errors are reported"""
    K, reads = (3, 2) if r.tier == 'quick' else (4, 3)
    eng = r.engine()
    eng.exact = 2000
    prune(eng, K)
    st = State()
    l0 = symloc(eng, st, r, 'start')
    new = r.fn(RD + '::new')
    rd = r.method(RD, 'read', 'std::io::Read')
    w = r.where(rd)
    (s, v), = r.run(eng, new, [blocksref(r, eng, new), l0], st)
    p = mkobj(eng, s, 'rd', r.ty(RD), v)
    todo = [(s, [], 0, False)]
    seen = {}
    for i in range(reads):
        nxt = []
        for s, got, pos, over in todo:
            s = s.copy()
            o, sl, n = buffer(eng, s, i)
            for s2, res in r.run(eng, rd, [p, sl], s):
                k = eng.variant(s2, res)
                if k == 1:
                    seen['error'] = 1
                    r.check(not over, 'read %d: no error after the end of the file' % i, w, 'read %d fails after the end of the file' % i, st=s2)
                    continue
                cnt = res.a[1][0]
                done, rest = filled(s2, eng.deref(s2, mk('ptr', o, (), None)).a[1], i)
                c = r.truth(s2, mk_eq(lin_add(total(done), cnt, -1), 0))
                r.check(c, 'read %d: returns the number of bytes stored' % i, w, 'read %d returns %s but stores %s bytes' % (i, show(cnt)[:60], show(total(done))[:60]), st=s2)
                segs, tot, complete = payload(eng, s2, l0, K)
                c, _ = rope_prefix(s2, got + done, segs)
                r.check(c, 'read %d: the bytes are the next ones of the file' % i, w, 'read %d: the bytes returned are not the next bytes of the file: %s' % (i, explain(got + done, segs)), st=s2)
                # progress: everything wanted was delivered unless the file ends
                full = s2.decide(mk_eq(lin_add(cnt, n, -1), 0))
                if full != 1:
                    end = r.truth(s2, mk_eq(lin_add(lin_add(pos, cnt), tot, -1), 0)) if complete else 0
                    r.check(1 if end == 1 else None if complete and end is None else 0, 'read %d: a short read means end of file' % i, w,
                            'read %d returns fewer bytes than requested before the end of the file' % i, st=s2)
                    seen['short'] = 1
                else:
                    seen['full'] = 1
                nxt.append((s2, got + done, lin_add(pos, cnt), over or full == 0))
        todo = nxt
    r.check(set(seen) >= {'error', 'short', 'full'}, 'all outcomes seen', w, 'outcomes missing: only %s' % sorted(seen))
    r.panics(eng, 'reading never panics')


# ------------------------------------------------------------------ writing
WR = 'disk::chain::ChainWriter'
OLD = ((1, 0), (2, 5))
NEW = ((20, 1), (20, 2), (20, 3))


class Writing:
    """A file with `old` sectors whose tail uses byte `used` as its last one, a writer on it, and fresh sectors to be handed out."""

    def __init__(self, r, old, used, fail, grow):
        fresh = self.fresh = NEW if grow <= len(NEW) else NEW + tuple((21 + i // 19, i % 19) for i in range(grow - len(NEW)))
        self.r, self.used, self.grow = r, used, fresh[:grow]
        self.old = OLD[:old] if old <= len(OLD) else OLD + tuple((3 + i // 17, i % 17 + 60) for i in range(old - len(OLD)))
        self.eng = eng = r.engine()
        eng.exact = 4000
        self.t = Trace(r, eng, fail=fail, inmap=lambda st, l: True)
        f = r.fn('disk::bam::Bam::next_free_block')
        eng.hooks[f['lpath']] = self.search
        eng.thooks[(DEV, 'flush')] = lambda e, st, ctx, a: self.t.split(st, 'medium', UNIT)
        locs = self.old + fresh + ((18, 1),)
        con = {}
        for i, l in enumerate(self.old):
            con[l] = [[(0, self.old[i + 1][0]), (1, self.old[i + 1][1])]] if i + 1 < old else [[(0, 0), (1, used)]]
        device_of(r, eng, locs, con, writable=True)
        # the old sectors are what they are before anything happens
        self.st = st = State()
        self.base = {}
        for l in self.old:
            o = ('sec', mk('agg', 0, l))
            b = eng.load(st, o)
            for i, x in con[l][0]:
                b = eng.seq_set(st, b, i, x)
            st.mem[o] = b
            st.mem[('picked', o[1])] = 1
        self.known = set(self.old + fresh)
        self.before = self.content(st)[0]

    def search(self, eng, st, ctx, a):
        n = sum(1 for e in self.t.events(st) if e[0] == 'search')
        if n >= len(self.grow):
            if 'full' in self.t.fail:
                self.t.note(st, 'failed', 'full')
                return [(st, self.t.ioerr('full'))]
            return []
        return self.t.split(st, 'search', mk('agg', 0, self.grow[n]), mk('agg', 0, self.grow[n]), a[1])

    def content(self, st, snap=None):
        """(rope, sectors) of the file as stored in the sectors, or (None, why)."""
        segs, cur, seen = [], self.old[0], []
        while True:
            if cur in seen:
                return None, 'loop'
            if cur not in self.known:
                return None, 'link to %s' % (cur,)
            seen.append(cur)
            o = ('sec', mk('agg', 0, cur))
            sec = (snap or st.mem).get(o)
            if sec is None:
                return None, 'sector %s was never initialised' % (cur,)
            b0, b1 = self.eng.seq_get(st, sec, 0), self.eng.seq_get(st, sec, 1)
            if not isinstance(b0, int):
                raise Limit('link byte %s' % show(b0)[:80])
            if b0:
                segs += self.eng.seq_slice(st, sec, 2, 254)
                cur = (b0, b1)
            else:
                z = st.decide(mk_eq(b1, 0))
                if z != 0:
                    return None, 'invalid tail link'
                segs += self.eng.seq_slice(st, sec, 2, lin_add(b1, -1))
                return segs, seen

    def open(self):
        r, eng = self.r, self.eng
        new = r.fn(WR + '::new')
        st, e = record(r, eng, self.st, first=self.old[0], size=(len(self.old), 0))
        args = symargs(eng, new)
        args[2], args[3] = e, mk('agg', 0, self.old[0])
        out = []
        for s, v in r.run(eng, new, args, st):
            k = eng.variant(s, v)
            if k == 0:
                p = mkobj(eng, s, 'wr', r.ty(WR), v.a[1][0])
                out.append((s, p))
            else:
                out.append((s, None))
        return out


def lens(used, tier):
    """Interesting lengths of a first write to a tail with `used` as its last-byte index."""
    room = 255 - used
    return sorted({0, 1, room - 1, room, room + 1} & set(range(0, 600)))


def sizes(r, evs):
    return [e for e in evs if e[0] == 'entry']


def writes(r, fail, grow, uses):
    """All ways of opening a file, writing one or two buffers (with or without a flush before) and flushing or dropping the writer ->
    (W, state, [(buffer number, length, bytes taken or None for an error, failure met?)], flush result)"""
    wr = r.method(WR, 'write', 'std::io::Write')
    fl = r.method(WR, 'flush', 'std::io::Write')
    w = r.where(wr)
    for old in (1, 2):
        for used in uses:
            ops = [(None,)] + ([(n, None) for n in lens(used, r.tier)] if old == 1 else [])
            ops += [('flush', None), (255 - used, 'flush', None), (None, 'drop')] if old == 1 else []
            for seq in ops:
                W = Writing(r, old, used, fail=fail, grow=grow)
                eng, t = W.eng, W.t
                todo = []
                for s, p in W.open():
                    r.check(p is not None, 'the writer opens', w, 'opening a proper file for writing fails', st=s)
                    if p is not None:
                        todo.append((s, p, []))
                for i, n in enumerate(seq):
                    nxt = []
                    if n == 'drop':
                        continue
                    for s, p, hist in todo:
                        s = s.copy()
                        if n == 'flush':
                            nxt += [(s2, p, hist) for s2, res in r.run(eng, fl, [p], s) if eng.variant(s2, res) == 0]
                            continue
                        o, sl, ln = buffer(eng, s, i, n)
                        was = len(t.events(s))
                        for s2, res in r.run(eng, wr, [p, sl], s):
                            k = eng.variant(s2, res)
                            bad = any(e[0] == 'failed' for e in t.events(s2)[was:])
                            nxt.append((s2, p, hist + [(i, ln, res.a[1][0] if k == 0 else None, bad)]))
                    todo = nxt
                for s, p, hist in todo:
                    if seq[-1] == 'drop':
                        was = len(t.events(s))
                        ti = r.ty(WR)
                        if ti not in r.F.drops and eng.needs_drop(ti):
                            raise Skip('drop of ' + WR)
                        for s2, res in r.run(eng, r.F.insts[r.F.drops[ti]], [p], s.copy()) if ti in r.F.drops else [(s, UNIT)]:
                            yield W, s2, hist, int(any(e[0] == 'failed' for e in t.events(s2)[was:]))
                        continue
                    for s2, res in r.run(eng, fl, [p], s.copy()):
                        yield W, s2, hist, eng.variant(s2, res)
                yield W, None, None, None


@rule('C17')
def append(r):
    """whatever is written, in any pieces, is appended: afterwards the chain holds the old bytes followed by exactly the bytes reported as written"""
    w = r.where(r.method(WR, 'write', 'std::io::Write'))
    uses = (1, 2, 100, 254, 255) if r.tier == 'quick' else tuple(range(1, 256))
    grown = failed = 0
    for W, s, hist, fl in writes(r, ('search', 'entry', 'reread', 'full', 'bamflush', 'medium'), 2, uses):
        eng, t = W.eng, W.t
        if s is None:
            r.panics(eng, 'writing never panics')
            continue
        evs = t.events(s)
        want = []
        for i, ln, cnt, bad in hist:
            if cnt is None:
                failed += 1
                r.check(bad, 'write %d fails only if a step fails' % i, w, 'write %d fails although every step succeeds' % i, st=s)
                continue
            if not bad:
                r.want(s, cnt, ln, 'write %d takes the whole buffer' % i, w)
            else:
                r.check(r.truth(s, mk_eq(cnt, 0), 0), 'write %d reports progress' % i, w, 'write %d meets an error but reports success without having stored anything' % i, st=s)
            want.append(('b', ('buf', i), 0, cnt))
        tail = next((k for k in range(len(evs)) if evs[k][0] == 'failed'), None)
        if fl != 0:
            r.check(tail is not None, 'flush fails only if a step fails', w, 'flush fails although every step succeeds', st=s)
            continue
        got, secs = W.content(s)
        if got is None:
            r.check(0, 'the chain is well-formed', w, 'after writing, the chain is broken: %s (%s)' % (secs, show_evs(evs)), st=s)
            continue
        r.check(1, 'the chain is well-formed', w)
        exp = [x for x in list(W.before) + want]
        c = rope_same(s, got, exp)
        r.check(c, 'old bytes followed by the new ones', w, 'the file does not hold the old bytes followed by the written ones (last byte used was %d; %s): %s' % (W.used, show_evs(evs), explain(got, exp)), st=s)
        held = []
        for e in evs:
            if e[0] == 'alloc':
                held.append(tuple(e[1].a[1]))
            elif e[0] == 'free':
                x = tuple(e[1].a[1])
                if x in held:
                    held.remove(x)
                else:
                    r.check(0, 'nothing else is freed', w, 'sector %s is freed while writing' % (x,), st=s)
        extra = [x for x in secs if x not in W.old]
        grown += bool(extra)
        r.check(sorted(held) == sorted(extra), 'exactly the new sectors are allocated', w, 'allocated %s, but the chain grew by %s (%s)' % (held, extra, show_evs(evs)), st=s)
        # the entry counts them
        ent, prev = 0, None
        for e in evs:
            if e[0] == 'reread':
                prev = fieldv(r, eng, s, e[2], DE, 'file_size')
            elif e[0] == 'entry':
                ent += 1
                now = fieldv(r, eng, s, e[2], DE, 'file_size')
                if prev is not None and s.decide(mk_eq(prev, 65535)) == 1:
                    continue
                c = r.truth(s, mk_eq(now, lin_add(prev, 1))) if prev is not None else 0
                r.check(c, 'the entry counts the new sector', w, 'the block count in the entry becomes %s (was %s)' % (show(now), show(prev)), st=s)
        if tail is None:
            r.check(ent == len(extra), 'the entry is updated once per new sector', w, 'entry written %d times for %d new sectors' % (ent, len(extra)), st=s)
    r.check(grown > 0 and failed > 0, 'chains grow, writes fail', w)


@rule('C17')
def append_long(r):
    """a single write of hundreds of blocks is taken whole, or up to where the disk is full"""
    wr = r.method(WR, 'write', 'std::io::Write')
    fl = r.method(WR, 'flush', 'std::io::Write')
    w = r.where(wr)
    for blocks, room, tail in ((260, 300, 1), (300, 270, 7)) if r.tier == 'quick' else ((260, 300, 1), (300, 270, 7), (700, 800, 0), (700, 664, 0)):
        n = blocks * 254 + tail
        W = Writing(r, 1, 1, fail=('full',), grow=room)
        eng, t = W.eng, W.t
        eng.exact = max(eng.exact, 300000)
        # nobody else changes the record meanwhile: reading it again gives what was written last
        first = []

        def reread(e, st, ctx, a, t=t, first=first):
            was, pos = t.pos_of(st, a[1])
            if not first:
                first.append(was)
            last = [x[2] for x in t.events(st) if x[0] == 'entry']
            e.store(st, a[1], last[-1] if last else first[0])
            return [(st, ok(UNIT))]
        eng.thooks[(DEV, 'positioned_read')] = reread
        for s, p in W.open():
            if p is None:
                r.check(0, 'the writer opens', w, st=s)
                continue
            s = s.copy()
            o, sl, ln = buffer(eng, s, 0, n)
            for s2, res in r.run(eng, wr, [p, sl], s):
                if eng.variant(s2, res) != 0:
                    r.check(0, 'a long write is taken', w, 'a write of %d bytes fails although there is room for some' % n, st=s2)
                    continue
                cnt = res.a[1][0]
                r.want(s2, cnt, min(n, (room + 1) * 254), 'a write of %d bytes takes what fits' % n, w)
                for s3, r3 in r.run(eng, fl, [p], s2.copy()):
                    r.check(eng.variant(s3, r3) == 0, 'flush succeeds', w, st=s3)
                    got, secs = W.content(s3)
                    if got is None:
                        r.check(0, 'the chain is well-formed', w, 'after a long write, the chain is broken: %s' % secs, st=s3)
                        continue
                    exp = list(W.before) + [('b', ('buf', 0), 0, cnt)]
                    r.check(rope_same(s3, got, exp), 'a long write is stored', w, 'the file does not hold what was written: ' + explain(got, exp), st=s3)
                    last = [x[2] for x in t.events(s3) if x[0] == 'entry']
                    if last:
                        r.want(s3, fieldv(r, eng, s3, last[-1], 'disk::directory::DirectoryEntry', 'file_size'), len(secs), 'the block count follows a long write', w)
                    else:
                        r.check(0, 'the record is written', w, 'a file grew but its record was not written', st=s3)
        r.panics(eng, 'a long write never panics')


@rule('C07')
def written_map_flushed(r):
    """after writing, a successful flush has written the map after the last allocation"""
    w = r.where(r.method(WR, 'flush', 'std::io::Write'))
    n = 0
    for W, s, hist, fl in writes(r, ('search', 'entry', 'reread', 'full', 'bamflush', 'medium'), 2, (1, 254, 255)):
        if s is None or fl != 0:
            continue
        evs = names(W.t.events(s))
        ch = [i for i, x in enumerate(evs) if x in ('alloc', 'free')]
        if ch:
            n += 1
            r.check('bamflush' in evs[ch[-1]:], 'the map is written after the last change', w, 'flush succeeds but the map was not written after the last allocation: ' + show_evs(W.t.events(s)), st=s)
        if ch:
            r.check(evs[-1] == 'medium', 'the medium is flushed last', w, 'flush succeeds but the medium is not flushed after the map: ' + show_evs(W.t.events(s)), st=s)
    r.check(n > 0, 'allocations seen', w)


@rule('C18')
def grow_order(r):
    """a chain links to a new sector only after that sector is an empty chain tail and allocated"""
    w = r.where(r.fn(WR + '::allocate_next_block', WR + '::write'))
    n = 0
    for W, s, hist, fl in writes(r, ('search', 'entry', 'reread', 'full', 'bamflush', 'medium'), 2, (1, 100, 255)):
        if s is None:
            continue
        eng, t = W.eng, W.t
        done = set()
        for x in t.chain(s) + [None]:
            snap = t.snaps[x] if x is not None else s.mem
            got, secs = W.content(s, snap)
            r.check(got is not None, 'the chain is whole at every step', w, 'at some point the chain is broken: %s (%s)' % (secs if got is None else '', show_evs(t.events(s))), st=s)
            if got is None:
                break
            for l in secs:
                if l not in W.old and l not in done:
                    r.check(0, 'linked only when allocated', w, 'sector %s is linked before it is allocated' % (l,), st=s)
            if x is not None and x.a[2] == 'alloc':
                done.add(tuple(x.a[3][0].a[1]))
                n += 1
            elif x is not None and x.a[2] == 'free':
                done.discard(tuple(x.a[3][0].a[1]))
    r.check(n > 0, 'chains grow', w)


# ------------------------------------------------------------------ GEOS Convert stream
GR = 'disk::geos::reader::GEOSReader'
INFO, HEAD = (5, 0), (6, 0)
SIG = b' formatted GEOS file V1.0'


def chainof(n, base, last):
    """n sectors starting at track `base`, the last one using bytes 2..=last -> {sector: link}"""
    out = {}
    for i in range(n):
        out[(base, i)] = (base, i + 1) if i + 1 < n else (0, last)
    return out


def geos_case(structure, recs):
    """recs: per VLIR index slot None (unavailable) or (sectors, last byte); or the single chain of a sequential file."""
    con = {INFO: [], HEAD: []}
    chains = []
    if structure == 1:
        idx = []
        for i, x in enumerate(recs):
            if x is None or x == 'bad':
                idx.append((0, 255 if x is None else 5))
            else:
                c = chainof(x[0], 7 + i, x[1])
                con.update({k: v for k, v in c.items()})
                idx.append((7 + i, 0))
                chains.append((7 + i, x))
        con[HEAD] = [(0, 0), (1, 255)] + [(2 + 2 * i + j, y[j]) for i, y in enumerate(idx) for j in (0, 1)] + \
            [(k, 0) for k in range(2 + 2 * len(idx), 256)]
    else:
        con.update(chainof(recs[0][0], HEAD[0], recs[0][1]))
        chains.append((HEAD[0], recs[0]))
    out = {}
    for k, v in con.items():
        out[k] = [v] if isinstance(v, list) else [[(0, v[0]), (1, v[1])]]
    return out, chains


def geos_want(eng, st, by, structure, recs, chains):
    z = lambda n: ('e', (0,) * n)
    sec = lambda l, n=254: list(eng.seq_slice(st, eng.load(st, ('sec', mk('agg', 0, l))), 2, n))
    sig = (b'PRG' if structure == 1 else b'SEQ') + SIG
    segs = [('e', tuple(by[2:32]) + tuple(sig) + (0,) * (254 - 30 - len(sig)))]
    segs += sec(INFO)
    if structure == 1:
        idx = []
        for x in recs:
            idx += [0, 255] if x is None else [0, 5] if x == 'bad' else [x[0], x[1]]
        segs.append(('e', tuple(idx) + (0,) * (254 - len(idx))))
    for i, (t, (n, last)) in enumerate(chains):
        for k in range(n):
            if k + 1 < n:
                segs += sec((t, k))
            else:
                segs += sec((t, k), last - 1)
                if i + 1 < len(chains) and last < 255:
                    segs.append(z(255 - last))
    return segs


GEOS_CASES = (
    (0, [(1, 255)]), (0, [(1, 1)]), (0, [(2, 17)]), (0, [(3, 200)]),
    (1, []), (1, [None]), (1, [(1, 255)]), (1, [(1, 40)]), (1, [(2, 40), None, (1, 255)]), (1, [(1, 2), (1, 9)]),
    (1, [(1, 255), (2, 254), (1, 3)]), (1, [None, None, (1, 77), None]), (1, [None] * 126 + [(1, 30)]),
    (1, [(2, 90), (1, 1)]), (1, [(1, 1)]), (1, [(1, 60), 'bad']), (1, ['bad', (1, 60)]),
)


@rule('C16')
def geos_long(r):
    """a VLIR record of up to 255 blocks is serialised with its count; one whose count cannot be stored is refused"""
    new = r.fn(GR + '::new')
    rd = r.method(GR, 'read', 'std::io::Read')
    w = r.where(rd)
    for n in (127, 128, 255, 256, 300):
        eng = r.engine()
        eng.exact = 6000
        ls = [(7, 0)] + [(t, s) for t in range(20, 40) for s in range(20)][:n - 1]
        con = {l: [(0, ls[i + 1][0]), (1, ls[i + 1][1])] if i + 1 < n else [(0, 0), (1, 77)] for i, l in enumerate(ls)}
        con[INFO] = []
        con[HEAD] = [(0, 0), (1, 255), (2, 7), (3, 0)] + [(k, 0) for k in range(4, 256)]
        device_of(r, eng, set(con) | {(18, 1)}, {k: [v] for k, v in con.items()})
        st = State()
        st, e = record(r, eng, st, typ=0x83, first=HEAD, name=b'DOC', extra=(INFO[0], INFO[1], 1, 6, 90, 5, 6, 7, 8), size=(9, 1))
        ep = mkobj(eng, st, 'entry', r.ty(DE), e)
        for s, v in r.run(eng, new, [blocksref(r, eng, new), ep], st):
            if eng.variant(s, v) != 0:
                r.check(0, 'opens', w, 'opening a GEOS reader on a proper file fails', st=s)
                continue
            p = mkobj(eng, s, 'gr', r.ty(GR), v.a[1][0])
            o, sl, ln = buffer(eng, s, 0, 254 * 3)
            for s2, res in r.run(eng, rd, [p, sl], s):
                k = eng.variant(s2, res)
                if n > 255:
                    r.check(k == 1, 'a record of %d blocks is refused' % n, w, 'a VLIR record of %d blocks is serialised although its count cannot be stored' % n, st=s2)
                    continue
                r.check(k == 0, 'a record of %d blocks is serialised' % n, w, 'a VLIR file with a record of %d blocks cannot be serialised' % n, st=s2)
                if k != 0:
                    continue
                got = rope_take(s2, eng.deref(s2, mk('ptr', o, (), None)).a[1], res.a[1][0])
                want = [('e', (n, 77) + (0,) * 252)]
                c = rope_same(s2, list(eng.seq_slice(s2, eng.mkseq(eng.tyid('u8'), tuple(got)), 508, 254)), want)
                r.check(c, 'the index of a record of %d blocks' % n, w, 'the index entry of a VLIR record of %d blocks is wrong' % n, st=s2)
        r.panics(eng, 'serialising never panics')


@rule('C16', 'seq', 'vlir')
def geos_stream(r, what):
    """a GEOS file is serialised in Convert format: entry, info block, VLIR index as (block count, last byte), records padded except the last"""
    new = r.fn(GR + '::new')
    rd = r.method(GR, 'read', 'std::io::Read')
    w = r.where(rd)
    for structure, recs in GEOS_CASES:
        if (structure == 1) != (what == 'vlir'):
            continue
        eng = r.engine()
        eng.exact = 6000
        con, chains = geos_case(structure, recs)
        device_of(r, eng, tuple(con) + ((18, 1),), con)
        st = State()
        ex = (INFO[0], INFO[1], structure, 6, 90, 5, 6, 7, 8)
        name = b'DOC'
        st, e = record(r, eng, st, typ=0x83, first=HEAD, name=name, extra=ex, size=(9, 1))
        by = [0, 0, 0x83] + list(HEAD) + list(name) + [0xa0] * (16 - len(name)) + list(ex) + [9, 1]
        for l in con:
            o = ('sec', mk('agg', 0, l))
            b = eng.load(st, o)
            for i, x in con[l][0]:
                b = eng.seq_set(st, b, i, x)
            st.mem[o] = b
            st.mem[('picked', o[1])] = 1
        bad = 'bad' in recs
        want = None if bad else geos_want(eng, st, by, structure, recs, chains)
        ep = mkobj(eng, st, 'entry', r.ty(DE), e)
        rs = r.run(eng, new, [blocksref(r, eng, new), ep], st)
        for s, v in rs:
            k = eng.variant(s, v)
            if bad and k == 1:
                continue
            r.check(k == 0, 'the reader opens', w, 'opening a GEOS reader on a proper file fails', st=s)
            if k != 0:
                continue
            p = mkobj(eng, s, 'gr', r.ty(GR), v.a[1][0])
            deep = (structure, recs) in ((0, [(2, 17)]), (1, [(2, 40), None, (1, 255)])) or r.tier != 'quick'
            for plan in ((4000, 4000), (100, 300, 254, 1, 4000)) + (((None, 4000), (254, None, 4000)) if deep else ()):
                todo = [(s.copy(), [], False)]
                for i, n in enumerate(plan):
                    nxt = []
                    for s1, got, over in todo:
                        s1 = s1.copy()
                        o, sl, ln = buffer(eng, s1, i, n)
                        if n is None:
                            s1.assume(mk_ge0(lin_add(5000, ln, -1)), 1)
                        for s2, res in r.run(eng, rd, [p, sl], s1):
                            k = eng.variant(s2, res)
                            if bad and k == 1:
                                continue
                            r.check(k == 0, 'reading succeeds', w, 'reading a proper GEOS file fails', st=s2)
                            if k != 0:
                                continue
                            cnt = res.a[1][0]
                            done = rope_take(s2, eng.deref(s2, mk('ptr', o, (), None)).a[1], cnt)
                            nxt.append((s2, got + done, over))
                    todo = nxt
                for s2, got, over in todo:
                    if bad:
                        r.check(0, 'a bad index entry is an error', w, 'a VLIR index entry that is neither a record nor a marker ends the stream as if the file were complete', st=s2)
                        continue
                    c = rope_same(s2, got, want)
                    r.check(c, 'the stream is the Convert serialisation', w,
                            'the stream of a GEOS file (structure %d, records %s) is wrong: %s' % (structure, str(recs)[-60:], explain_rope(s2, got, want)), st=s2)
        r.panics(eng, 'serialising never panics')


def rope_take(st, segs, n):
    """The first n elements of a rope (n not larger than it)."""
    out, rest = [], n
    for x in segs:
        if st.decide(mk_eq(rest, 0)) == 1:
            break
        l = seg_len(x)
        c = st.decide(mk_lt(rest, l))
        if c == 0:
            out.append(x)
            rest = lin_add(rest, l, -1)
        elif c == 1:
            if x[0] == 'b':
                out.append(('b', x[1], x[2], rest))
            elif x[0] == 'f':
                out.append(('f', x[1], rest))
            else:
                k = next((k for k in range(len(x[1])) if st.decide(mk_eq(rest, k)) == 1), None)
                if k is None:
                    raise Limit('rope_take %s %s %s' % (show(rest)[:80], [(y[0], show(seg_len(y))) for y in segs], str(st.ineq)[:300]))
                out.append(('e', x[1][:k]))
            break
        else:
            raise Limit('rope_take: %s of %s' % (show(rest)[:60], show(l)[:60]))
    return out


def explain_rope(st, a, b):
    """Where two ropes part."""
    sh = lambda x: '%s[%d]' % (x[0], len(x[1])) if x[0] == 'e' else str(x)
    return '%s, expected %s' % (' '.join(map(sh, a))[:220], ' '.join(map(sh, b))[:220])
