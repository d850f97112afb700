"""File-system level events (allocation, freeing, map flush, entry writes, sector access) along one path."""
from ..core import *
from .bam import fieldv
from .device import errname

DE = 'disk::directory::DirectoryEntry'
EV = ('EV',)


class Trace:
    """Replaces the availability map's operations and positioned entry access by events.  Each may fail."""

    def __init__(self, r, eng, fail=('bamflush', 'search', 'entry', 'reread'), bam=True, entry=True, inmap=None):
        self.r, self.eng, self.fail = r, eng, set(fail)
        self.inmap = inmap
        self.snaps = {}
        self.nloc = 0
        if bam:
            for m, h in (('allocate', self.allocate), ('free', self.free), ('flush', self.flush), ('next_free_block', self.search)):
                f = r.fn('disk::bam::Bam::' + m)
                eng.hooks[f['lpath']] = h
            try:
                eng.hooks[r.fn('disk::bam::Bam::check_location')['lpath']] = self.check
            except Skip:
                pass
        if entry:
            eng.thooks[(DEV, 'positioned_write')] = self.pwrite
            eng.thooks[(DEV, 'positioned_read')] = self.pread
        eng.device.watch.append(lambda e, st, ctx, what, l: self.note(st, what, l))

    # ---- log
    def note(self, st, what, *a):
        prev = st.mem.get(EV)
        n = 0 if prev is None else prev.a[0] + 1
        snap = {o: v for o, v in st.mem.items() if o[0] == 'sec'}
        x = mk('tr', n, prev, what, a)
        self.snaps.setdefault(x, snap)
        st.mem[EV] = x

    def events(self, st):
        out = []
        x = st.mem.get(EV)
        while x is not None:
            out.append((x.a[2],) + tuple(x.a[3]))
            x = x.a[1]
        return out[::-1]

    def chain(self, st):
        out = []
        x = st.mem.get(EV)
        while x is not None:
            out.append(x)
            x = x.a[1]
        return out[::-1]

    def ioerr(self, what):
        return err(mk('op', ('fail', what), self.eng.tyid('std::io::Error')))

    def both(self, st, what, v):
        """Success and, if it may fail, failure."""
        out = [(st, ok(v))]
        if what in self.fail:
            s2 = st.copy()
            self.note(s2, 'failed', what)
            out.append((s2, self.ioerr(what)))
        return out

    def split(self, st, what, v, *ev):
        """Success logs the event; failure logs only the failure."""
        out = []
        if what in self.fail:
            s2 = st.copy()
            self.note(s2, 'failed', what)
            out.append((s2, self.ioerr(what)))
        self.note(st, what, *ev)
        return [(st, ok(v))] + out

    # ---- the map
    def locv(self, st, v):
        return self.eng.device.locv(st, v)

    def covered(self, st, v):
        """Does the map cover this sector?"""
        l = self.locv(st, v)
        if self.inmap is not None:
            if not (isV(l, 'agg') and all(isinstance(x, int) for x in l.a[1])):
                raise Limit('map: ' + show(l)[:200])
            return self.inmap(st, l)
        return self.eng.cond(st, term('sym', 1, ('inmap', l)))

    def onmap(self, st, what, v):
        if not self.covered(st, v):
            self.note(st, 'failed', 'map')
            return [(st, self.ioerr('map'))]
        if what is None:
            return [(st, ok(UNIT))]
        return self.split(st, what, UNIT, self.locv(st, v))

    def check(self, eng, st, ctx, a):
        return self.onmap(st, None, a[1])

    def allocate(self, eng, st, ctx, a):
        return self.onmap(st, 'alloc', a[1])

    def free(self, eng, st, ctx, a):
        return self.onmap(st, 'free', a[1])

    def flush(self, eng, st, ctx, a):
        return self.split(st, 'bamflush', UNIT)

    def search(self, eng, st, ctx, a):
        n = sum(1 for e in self.events(st) if e[0] == 'search')
        l = eng.expand(st, eng.mkop(self.r.ty('disk::block::Location'), ('new', n)), 0)
        k = eng.variant(st, a[1]) if not isV(a[1], 'op') else None
        return self.split(st, 'search', l, l, a[1])

    # ---- positioned entries
    def pos_of(self, st, p):
        e = self.eng.deref(st, p)
        return e, fieldv(self.r, self.eng, st, e, DE, 'position')

    def pwrite(self, eng, st, ctx, a):
        e, pos = self.pos_of(st, a[1])
        k = eng.variant(st, pos)
        if k is None:
            raise Limit('entry position')
        if k == 0:
            self.note(st, 'failed', 'unpositioned')
            return [(st, self.ioerr('unpositioned'))]
        return self.split(st, 'entry', UNIT, pos.a[1][0], e)

    def pread(self, eng, st, ctx, a):
        e, pos = self.pos_of(st, a[1])
        if eng.variant(st, pos) != 1:
            raise Limit('entry position')
        n = sum(1 for x in self.events(st) if x[0] == 'reread')
        t = self.r.ty(DE)
        w = eng.expand(st, eng.mkop(t, ('stored', pos.a[1][0], n)), 0)
        fs = [f['n'] for f in self.r.F.types[t]['variants'][0]['f']]
        fl = list(w.a[1])
        fl[fs.index('position')] = pos
        w = mk('agg', 0, tuple(fl))
        out = []
        if 'reread' in self.fail:
            s2 = st.copy()
            self.note(s2, 'failed', 'reread')
            out.append((s2, self.ioerr('reread')))
        self.note(st, 'reread', pos.a[1][0], w)
        eng.store(st, a[1], w)
        return [(st, ok(UNIT))] + out


def names(evs):
    return [e[0] for e in evs]


def show_ev(e):
    return e[0] + ('(%s)' % ', '.join(show(x)[:50] for x in e[1:2]) if len(e) > 1 else '')


def show_evs(evs):
    return ' '.join(show_ev(e) for e in evs)[:300]


def prune(eng, limit):
    """Give up paths that read more than `limit` sectors through chains."""
    real = eng.device.sector

    def sector(e, st, ctx, args):
        n = st.mem.get(('cnt', 'reads'), 0)
        if n >= limit:
            return []
        st.mem[('cnt', 'reads')] = n + 1
        return real(e, st, ctx, args)
    eng.thooks[(DEV, 'sector')] = sector


def device_of(r, eng, locs, contents, writable=None):
    """A device with exactly the sectors `locs` (concrete).  contents: sector -> list of alternatives, each a list of
    (index, byte); an alternative is chosen (all ways) when the sector is first accessed, other bytes are unknown."""
    real, realm = eng.device.sector, eng.device.sector_mut
    eng.device.valid = lambda e, st, l: (tuple(l.a[1]) in locs) if isV(l, 'agg') and all(isinstance(x, int) for x in l.a[1]) else None
    if writable is not None:
        eng.device.writable = lambda st: writable

    def conc(st, v):
        l = eng.device.locv(st, v)
        if not (isV(l, 'agg') and all(isinstance(x, int) for x in l.a[1])):
            raise Limit('symbolic location on a small device: ' + show(l)[:150])
        return l

    def pick(st, l):
        o = ('sec', l)
        alts = contents.get(tuple(l.a[1]))
        if alts is None or ('picked', l) in st.mem or tuple(l.a[1]) not in locs:
            return [st]
        out = []
        for alt in alts:
            s = st.copy()
            b = eng.load(s, o)
            for i, x in alt:
                b = eng.seq_set(s, b, i, x)
            s.mem[o] = b
            s.mem[('picked', l)] = 1
            out.append(s)
        return out

    def wrap(f):
        def g(e, st, ctx, a):
            out = []
            for s in pick(st, conc(st, a[1])):
                out += f(e, s, ctx, a)
            return out
        return g
    eng.thooks[(DEV, 'sector')] = wrap(real)
    eng.thooks[(DEV, 'sector_mut')] = wrap(realm)


def link_at(eng, st, l):
    """(track, sector) link bytes stored in concrete sector l, or None."""
    o = ('sec', mk('agg', 0, tuple(l)))
    b = [eng.seq_get(st, eng.load(st, o), i) for i in (0, 1)]
    return tuple(b) if all(isinstance(x, int) for x in b) else None


class Unread(Limit):
    """A sector of a chain whose link the program never looked at."""

    def __init__(self, l):
        Limit.__init__(self, 'link of %s not known' % (l,))
        self.loc = l


def walk(eng, st, first, locs):
    """The chain starting at `first`: list of sectors, or None if it is not a proper chain."""
    out, cur = [], tuple(first)
    while True:
        if cur in out or cur not in locs:
            return None
        out.append(cur)
        b = link_at(eng, st, cur)
        if b is None:
            raise Unread(cur)
        if b[0] == 0:
            return out if b[1] > 0 else None
        cur = b


def record(r, eng, st, typ=0x82, first=(1, 0), name=b'ABC', extra=(0,) * 9, size=(1, 0), at=(18, 1), off=32):
    """A directory entry decoded from a concrete 32-byte record at a concrete slot."""
    by = [0, 0, typ] + list(first) + list(name) + [0xa0] * (16 - len(name)) + list(extra) + list(size)
    assert len(by) == 32
    f = r.fn('disk::directory::DirectoryEntry::from_positioned_bytes')
    o = ('O', 'rec', len(by))
    st.mem[o] = eng.mkseq(eng.tyid('u8'), (('e', tuple(by)),))
    pv = eng.expand(st, eng.mkop(r.ty('disk::block::Position'), 'p'), 0)
    from .alloc import setfield
    P = 'disk::block::Position'
    pv = setfield(r, setfield(r, setfield(r, pv, P, 'location', mk('agg', 0, tuple(at))), P, 'offset', off), P, 'size', 32)
    rs = r.run(eng, f, [mk('sl', o, (), 0, 32), pv], st)
    if len(rs) != 1:
        raise Skip('from_positioned_bytes')
    return rs[0]
