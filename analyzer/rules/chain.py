"""Sector chains: traversal, reading, writing, removal."""
from ..core import *
from .alloc import setfield
from .bam import fieldv, loc
from .device import errname
from .disks import mkobj, opaque, BAM
from .trace import *

IT = 'disk::chain::ChainIterator'
CS = 'disk::chain::ChainSector'


def symloc(eng, st, r, name):
    v = eng.expand(st, eng.mkop(r.ty('disk::block::Location'), name), 0)
    return v


def sector_byte(eng, st, l, i):
    return eng.seq_get(st, eng.load(st, ('sec', l)), i)


def ptr_to(eng, st, name, v, ty):
    return mkobj(eng, st, name, ty, v)


def blocksref(r, eng, inst, i=0):
    return eng.mkop(inst['body']['locals'][i + 1], 'blocks')


def seqv(eng, st, v):
    """The elements of a fully known sequence, else None."""
    while isV(v, 'agg') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def distinct(st, a, b):
    """1 surely the same location, 0 surely different, None unknown."""
    rs = [st.decide(mk_eq(x, y)) for x, y in zip(a.a[1], b.a[1])]
    return 0 if 0 in rs else 1 if all(x == 1 for x in rs) else None


def prefix_ok(eng, st, data, l, n):
    """data is the first n bytes of sector l."""
    data = seqv(eng, st, data)
    if not isV(data, 'seq'):
        return None
    want = eng.mkseq(data.a[0], eng.seq_slice(st, eng.load(st, ('sec', l)), 0, n))
    if data is want:
        return 1
    ln = eng.seq_len(data)
    c = same(st, ln, n)
    if c != 1:
        return c
    if isinstance(ln, int):
        rs = [same(st, eng.seq_get(st, data, i), sector_byte(eng, st, l, i)) for i in range(ln)]
        return 0 if 0 in rs else 1 if all(x == 1 for x in rs) else None
    return None


def step(r, eng, nx, it, s, visited, cur, w):
    """One call of next() checked against the documented traversal.  Yields (state, visited, cur)."""
    out = []
    rs = r.run(eng, nx, [it], s)
    r.check(len(rs) > 0, 'next returns', w)
    n = len(visited)
    for s2, v in rs:
        k = eng.variant(s2, v)
        if cur is None:
            r.check(k == 0, 'step %d: an ended chain stays ended' % n, w, 'the traversal goes on after it ended (step %d)' % n, st=s2)
            continue
        seen = [distinct(s2, cur, x) for x in visited]
        if k == 0:
            r.check(False, '', w, 'the traversal stops silently although the chain goes on at step %d' % n, st=s2)
            continue
        if k is None:
            r.skip('result not resolved')
            continue
        res = v.a[1][0]
        k = eng.variant(s2, res)
        if k == 1:
            e = errname(r, res)
            if e == 'ChainLoop':
                r.check(1 in seen or (None if None in seen else 0), 'step %d: ChainLoop only for a sector already visited' % n, w,
                        'a loop is reported for a sector not visited before (step %d)' % n, st=s2)
            elif e == 'InvalidChainLink':
                b = [sector_byte(eng, s2, cur, i) for i in (0, 1)]
                r.check(all(s2.decide(mk_eq(x, 0)) == 1 for x in b), 'step %d: InvalidChainLink only for (0,0)' % n, w, 'a valid link is rejected (step %d)' % n, st=s2)
            elif e is None:
                r.check(1 not in seen, 'step %d: device error' % n, w, 'a sector is visited twice before the loop is reported (step %d)' % n, st=s2)
            else:
                r.check(False, '', w, 'unexpected error %s (step %d)' % (e, n), st=s2)
            out.append((s2, visited, None))
            continue
        cs = res.a[1][0]
        g = lambda x: fieldv(r, eng, s2, cs, CS, x)
        r.want(s2, g('location'), cur, 'step %d: yields the sector the link names' % n, w)
        r.check(all(x == 0 for x in seen) or (0 if 1 in seen else None), 'step %d: no sector is yielded twice' % n, w,
                'a sector already visited is yielded again (step %d)' % n, st=s2)
        b0, b1 = (sector_byte(eng, s2, cur, i) for i in (0, 1))
        t = s2.decide(mk_eq(b0, 0))
        if t is None:
            r.skip('link of step %d not resolved' % n)
            continue
        if t == 1:
            r.check(r.truth(s2, mk_eq(b1, 0), 0), 'step %d: a (0,0) link is not accepted' % n, w, st=s2)
        c = prefix_ok(eng, s2, g('data'), cur, 256 if t == 0 else lin_add(b1, 1))
        r.check(c, 'step %d: data is the used part of the sector' % n, w, 'step %d: the data yielded is not the used part of the sector: %s' % (n, show(g('data'))[:120]), st=s2)
        out.append((s2, visited + [cur], loc(b0, b1) if t == 0 else None))
    return out


@rule('C10')
def traversal(r):
    """the first sectors of any chain: each yielded once with its used bytes, loops and bad links end it"""
    K = 3 if r.tier == 'quick' else 5
    eng = r.engine()
    eng.exact = 12
    new = r.fn('disk::chain::ChainIterator::new')
    nx = r.method(IT, 'next', 'std::iter::Iterator')
    w = r.where(nx)
    st = State()
    l0 = symloc(eng, st, r, 'start')
    todo = []
    for s, v in r.run(eng, new, [blocksref(r, eng, new), l0], st):
        it = mkobj(eng, s, 'it', r.ty(IT), v)
        todo.append((s, [], l0))
    for i in range(K):
        nxt = []
        for s, vis, cur in todo:
            nxt += step(r, eng, nx, it, s, vis, cur, w)
        todo = nxt
    r.panics(eng, 'traversal never panics')


@rule('C10')
def induction(r):
    """one step from any reachable iterator state: visited sectors are remembered, so every traversal terminates"""
    eng = r.engine()
    nx = r.method(IT, 'next', 'std::iter::Iterator')
    w = r.where(nx)
    fs = [f['n'] for f in r.F.types[r.ty(IT)]['variants'][0]['f']]
    if not {'next_sector', 'visited_sectors'} <= set(fs):
        r.ok('other representation; covered by the unrolled traversal')
        return
    st = State()
    v = opaque(r, eng, st, 'it', IT)
    cur = symloc(eng, st, r, 'cur')
    v = setfield(r, v, IT, 'next_sector', some(cur))
    vis = mk('set', eng.mkop(eng.F.types[r.ty(IT)]['variants'][0]['f'][fs.index('visited_sectors')]['t'], 'visited'), ())
    v = setfield(r, v, IT, 'visited_sectors', vis)
    it = mkobj(eng, st, 'it', r.ty(IT), v)
    n = 0
    for s, res in r.run(eng, nx, [it], st):
        after = eng.deref(s, it)
        ns = fieldv(r, eng, s, after, IT, 'next_sector')
        k = eng.variant(s, ns)
        x = eng.variant(s, res)
        if x == 1 and eng.variant(s, res.a[1][0]) == 0:
            n += 1
            inn = s.decide(term('sym', 1, ('in', vis, cur)))
            r.check(inn == 0, 'a sector is yielded only if it was not visited', w, 'a sector is yielded although it may have been visited', st=s)
            vs = fieldv(r, eng, s, after, IT, 'visited_sectors')
            r.check(isV(vs, 'set') and vs.a[0] is vis.a[0] and any(same(s, e, cur) == 1 for e in vs.a[1]), 'the sector is remembered', w,
                    'a visited sector is not remembered', st=s)
        else:
            r.check(k == 0, 'after an error or the end the iterator has ended', w, 'the traversal goes on after an error', st=s)
    r.check(n > 0, 'steps succeed', w)
    r.panics(eng, 'a step never panics')


class Endless(Exception):
    pass


def small_device(r, eng, locs, limit, tails=(255,)):
    """A device with exactly the sectors `locs`; the link of each is chosen (all ways) when it is first read."""
    links = [x for x in locs] + [(0, n) for n in tails] + [(0, 0), (99, 99)]

    def sector(e, st, ctx, args):
        l = eng.device.locv(st, args[1])
        if not (isV(l, 'agg') and all(isinstance(x, int) for x in l.a[1])):
            raise Limit('symbolic location on the small device')
        if tuple(l.a[1]) not in locs:
            return [(st, err(eng.device.ioe('loc')))]
        n = st.mem.get(('cnt', 'reads'), 0)
        if n + 1 > limit:
            raise Endless('%d sectors read from a device with %d sectors' % (n + 1, len(locs)))
        st.mem[('cnt', 'reads')] = n + 1
        o = ('sec', l)
        out = []
        if o in st.mem:
            out.append(st)
        else:
            base = eng.load(st, o)
            for x in links:
                s = st.copy()
                s.mem[o] = eng.seq_set(s, eng.seq_set(s, base, 0, x[0]), 1, x[1])
                out.append(s)
        return [(s, ok(mk('sl', o, (), 0, 256))) for s in out]
    eng.thooks[(DEV, 'sector')] = sector


@rule('C10')
def openers_terminate(r):
    """following links while opening a writer or listing a chain ends on every disk, also on looping ones"""
    for nm in ('disk::chain::ChainWriter::new', 'disk::chain::ChainIterator::locations', 'disk::chain::remove_chain'):
        f = r.fn(nm)
        eng = r.engine()
        eng.exact = 40
        small_device(r, eng, ((1, 0), (1, 1)), 6)
        Trace(r, eng, fail=())
        st = State()
        args = symargs(eng, f)
        if nm.endswith('locations'):
            new = r.fn('disk::chain::ChainIterator::new')
            (s, v), = r.run(eng, new, [blocksref(r, eng, new), loc(1, 0)], st)
            st, args = s, [v]
        else:
            args[-1] = loc(1, 0)
        try:
            rs = r.run(eng, f, args, st)
        except Endless as e:
            r.fail(r.where(f), 'following sector links does not end on a looping chain: %s' % e)
            continue
        r.check(len(rs) > 0, nm + ' returns', r.where(f))
        for s, v in rs:
            k = eng.variant(s, v)
            r.check(k in (0, 1), nm + ': ends', r.where(f), st=s)
        r.panics(eng, nm + ' never panics')
