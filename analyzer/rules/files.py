"""Deleting files: exactly the file's sectors are freed, the map is written, and failure changes nothing."""
from ..core import *
from .alloc import setfield
from .bam import fieldv, loc
from .device import errname
from .disks import mkobj, opaque, BAM
from .entry import variants
from .trace import *

LIN = 'disk::file::LinearFile'
REL = 'disk::file::RelativeFile'
GEO = 'disk::geos::file::GEOSFile'
OPS = 'disk::file::FileOps'
FA = 'disk::directory::FileAttributes'

A, B, C, D, E = (1, 0), (1, 1), (2, 0), (2, 1), (3, 3)
OUT = (36, 0)      # readable, but not covered by the map
GONE = (99, 99)    # not on the disk


def links(*xs):
    """Alternatives for the link bytes of a sector."""
    return [[(0, x[0]), (1, x[1])] for x in xs]


TAIL = (0, 200)


def geos(structure, info, gtype=6):
    return list(info) + [structure, gtype, 88, 1, 2, 3, 4]


def vlir(*recs):
    """Index block alternatives: records as locations / None (unavailable)."""
    by = [(0, 0), (1, 255)]
    for i, x in enumerate(recs):
        t = (0, 255) if x is None else x
        by += [(2 + 2 * i, t[0]), (3 + 2 * i, t[1])]
    for i in range(2 + 2 * len(recs), 256):
        by.append((i, 0))
    return by


def side(link, n, lst, data, locs=6):
    by = [(0, link[0]), (1, link[1]), (2, n), (3, 100)]
    for i in range(6):
        t = lst[i] if i < len(lst) else (0, 0)
        by += [(4 + 2 * i, t[0]), (5 + 2 * i, t[1])]
    for i, t in enumerate(data):
        by += [(16 + 2 * i, t[0]), (17 + 2 * i, t[1])]
    return by


def scenario_linear():
    locs = (A, B, C, OUT)
    every = links(A, B, C, OUT, GONE, TAIL, (0, 1), (0, 0))
    yield dict(name='linear', ty=LIN, typ=0x82, extra=(0,) * 9, locs=locs, contents={x: every for x in locs},
               want=lambda eng, st: walk(eng, st, A, locs))


def long_chain(n):
    """n distinct sectors on consecutive tracks, the last one a tail."""
    ls = [A] + [(t, s) for t in range(1, 81) for s in range(40) if (t, s) not in (A, OUT)]
    ls = ls[:n]
    return ls, {l: links(ls[i + 1] if i + 1 < n else TAIL) for i, l in enumerate(ls)}


def scenario_long(n):
    ls, cont = long_chain(n)
    yield dict(name='linear, %d sectors' % n, ty=LIN, typ=0x82, extra=(0,) * 9, locs=set(ls), contents=cont, want=lambda eng, st: list(ls))


def scenario_relative():
    locs = (A, B, C, D, E)
    one = [side((0, 19), 0, [C], [A, B])]
    tails = links((0, 101))
    for nm, cont in (
            ('two data sectors', {C: one, A: links(B), B: tails}),
            ('data chain with any links', {C: one, A: links(A, B, GONE, (0, 0)), B: tails + links((0, 0), A)}),
            ('two side sectors', {C: [side(D, 0, [C, D], [A] + [A] * 119)], D: [side((0, 17), 1, [C, D], [B])], A: links(B), B: tails}),
            ('side sectors loop', {C: [side(D, 0, [C, D], [A] * 120)], D: [side(C, 1, [C, D], [B] * 120)], A: links(B), B: tails})):
        def want(eng, st, cont=cont):
            ss, ds = walk(eng, st, C, locs), walk(eng, st, A, locs)
            return None if ss is None or ds is None else ds + ss
        yield dict(name='relative, ' + nm, ty=REL, typ=0x84, extra=list(C) + [1] + [0] * 6, locs=locs, contents=cont, want=want)


def scenario_geos():
    locs = (A, B, C, D, E, OUT)
    for info in (C, (0, 0), OUT):
        base = [info] if info != (0, 0) else []
        every = links(A, B, D, GONE, TAIL, (0, 0))
        yield dict(name='GEOS sequential, info block %s' % (info,), ty=GEO, typ=0x83, extra=geos(0, info), locs=locs,
                   contents={A: every, B: every, D: links(TAIL, A)}, want=lambda eng, st, base=base: plus(walk(eng, st, A, locs), base))
        for recs in ((), (B,), (B, None, D), (None, D), (B, B)) + (((None,) * 126 + (B,), (B, (0, 5))) if info == C else ()):
            def want(eng, st, base=base, recs=recs):
                w = plus([A], base)
                for x in recs:
                    if x is not None:
                        w = plus(w, walk(eng, st, x, locs))
                return w
            yield dict(name='GEOS VLIR, info block %s, records %s' % (info, list(recs) if len(recs) < 9 else '%d' % len(recs)), ty=GEO, typ=0x83, extra=geos(1, info), locs=locs,
                       contents={A: [vlir(*recs)], B: links(TAIL, E, GONE, B), D: links((0, 1), (0, 0)), E: links(TAIL)}, want=want)


def plus(a, b):
    return None if a is None or b is None else a + b


def delete_runs(r, scenarios=None):
    """Every deletion scenario on every outcome: yields (scenario, engine, trace, state, result, entry before)."""
    for sc in scenarios or list(scenario_linear()) + list(scenario_relative()) + list(scenario_geos()):
        eng = r.engine()
        eng.exact = 5000
        device_of(r, eng, sc['locs'], sc['contents'])
        tr = Trace(r, eng, fail=('bamflush', 'entry'), inmap=lambda st, l: tuple(l.a[1]) != OUT)
        st = State()
        st, entry = record(r, eng, st, typ=sc['typ'], first=A, extra=sc['extra'])
        new = r.fn(sc['ty'] + '::new')
        bam = mkobj(eng, st, 'bam', r.ty(BAM), opaque(r, eng, st, 'bam', BAM))
        a = symargs(eng, new)
        a[1], a[2] = bam, entry
        f = r.method(sc['ty'], 'delete', OPS)
        w = r.where(f)
        for s, v in r.run(eng, new, a, st):
            if sc['ty'] != LIN:
                k = eng.variant(s, v)
                if k == 1:
                    yield sc, eng, tr, s, v, entry, w      # could not be opened at all
                    continue
                if k is None:
                    r.skip('opening not resolved')
                    continue
                v = v.a[1][0]
            fp = mkobj(eng, s, 'file', r.ty(sc['ty']), v)
            for s2, v2 in r.run(eng, f, [fp], s):
                yield sc, eng, tr, s2, v2, entry, w


@rule('C08')
def delete_frees_exactly(r):
    """a successful deletion frees exactly the file's sectors and scratches its entry, nothing else"""
    n = {}
    for sc, eng, tr, s0, v, entry, w in delete_runs(r):
        if eng.variant(s0, v) == 1:
            continue
        for s, want in settled(sc, eng, s0):
            deleted(r, sc, eng, tr, s, want, entry, w, n)
    r.check(len(n) >= 10, 'deletions succeed', 'delete', 'only %d scenarios delete' % len(n))


@rule('C08')
def delete_long(r):
    """the same for a file as long as a disk"""
    n = {}
    for sc, eng, tr, s, v, entry, w in delete_runs(r, list(scenario_long(300)) + list(scenario_long(3160))):
        if eng.variant(s, v) == 0:
            deleted(r, sc, eng, tr, s, sc['want'](eng, s), entry, w, n)
    r.check(len(n) == 2, 'long files are deleted', 'delete', 'a long file cannot be deleted')


def settled(sc, eng, s):
    """The sectors the file owns, for every content of the sectors deletion did not look at."""
    try:
        return [(s, sc['want'](eng, s))]
    except Unread as u:
        out = []
        l = tuple(u.loc)
        if l not in sc['contents']:
            raise
        for alt in sc['contents'][l]:
            q = s.copy()
            o = ('sec', mk('agg', 0, l))
            b = eng.load(q, o)
            for i, x in alt:
                b = eng.seq_set(q, b, i, x)
            q.mem[o] = b
            q.mem[('picked', o[1])] = 1
            out += settled(sc, eng, q)
        return out


def deleted(r, sc, eng, tr, s, want, entry, w, n):
    fts = variants(r, 'disk::directory::FileType')
    nm = sc['name']
    evs = tr.events(s)
    if want is None:
        r.check(False, '', w, '%s: the file cannot be followed to its end, but deletion succeeds (%s)' % (nm, show_evs(evs)), st=s)
        return
    n[nm] = n.get(nm, 0) + 1
    freed = {tuple(e[1].a[1]) for e in evs if e[0] == 'free'}
    r.check(freed >= set(want), nm + ': every sector is freed', w, '%s: sectors %s of the file are not freed' % (nm, sorted(set(want) - freed)), st=s)
    r.check(freed <= set(want), nm + ': nothing else is freed', w, '%s: sectors %s do not belong to the file, but are freed' % (nm, sorted(freed - set(want))), st=s)
    bad = [e for e in evs if e[0] in ('sector_mut', 'alloc')]
    r.check(not bad, nm + ': nothing else is changed', w, '%s: deletion also does %s' % (nm, show_evs(bad)), st=s)
    ws = [e for e in evs if e[0] == 'entry']
    r.check(len(ws) == 1, nm + ': the entry is written', w, '%s: %d entries written' % (nm, len(ws)), st=s)
    for e in ws:
        g = lambda x, v=e[2], t=DE: fieldv(r, eng, s, v, t, x)
        r.want(s, e[1], fieldv(r, eng, s, entry, DE, 'position').a[1][0], nm + ': at its own position', w)
        at = g('file_attributes')
        ft = fieldv(r, eng, s, at, FA, 'file_type')
        k = eng.variant(s, ft)
        r.check(None if k is None else fts[k] == 'DEL', nm + ': type DEL', w, '%s: the entry is not marked deleted: %s' % (nm, show(ft)), st=s)
        r.want(s, fieldv(r, eng, s, at, FA, 'closed_flag'), 0, nm + ': open', w)
        for x in ('filename', 'first_sector', 'extra', 'file_size'):
            r.want(s, g(x), fieldv(r, eng, s, entry, DE, x), '%s: %s kept' % (nm, x), w)
    r.panics(eng, nm + ': no panic')


@rule('C08')
def failed_delete(r):
    """a deletion refused for the state of the disk (unreadable or looping chain, sectors outside the map, write protection) changes nothing"""
    n = 0
    for sc, eng, tr, s, v, entry, w in delete_runs(r):
        if eng.variant(s, v) == 0:
            continue
        evs = tr.events(s)
        if any(e[0] == 'failed' and e[1] in ('bamflush', 'entry') for e in evs):
            if any(e[0] in ('alloc', 'free') for e in evs):
                r.check(s.decide(term('sym', 1, ('writable',))) == 1, sc['name'] + ': the map is changed on writable disks only', w,
                        '%s: deletion changes the map of a read-only disk before it fails (%s)' % (sc['name'], show_evs(evs)), st=s)
            continue
        n += 1
        bad = [e for e in evs if e[0] in ('sector_mut', 'alloc', 'free', 'bamflush', 'entry')]
        r.check(not bad, sc['name'] + ': failure changes nothing', w, '%s: deletion fails after %s' % (sc['name'], show_evs(evs)), st=s)
        r.panics(eng, sc['name'] + ': no panic')
    r.check(n > 10, 'failures analysed', 'delete')


@rule('C07')
def deleted_map_written(r):
    """the map is written to the disk after the last sector is freed, before deletion reports success"""
    n = 0
    for sc, eng, tr, s, v, entry, w in delete_runs(r):
        if eng.variant(s, v) != 0:
            continue
        n += 1
        persisted(r, tr, s, sc['name'], w)
    r.check(n > 10, 'deletions analysed', 'delete')


def persisted(r, tr, s, nm, w):
    ns = names(tr.events(s))
    last = max([i for i, x in enumerate(ns) if x in ('free', 'alloc')], default=None)
    if last is None:
        r.ok(nm + ': the map is unchanged')
        return
    r.check('bamflush' in ns[last:], nm + ': the map is written', w,
            '%s: success is reported without writing the availability map (%s)' % (nm, show_evs(tr.events(s))), st=s)
