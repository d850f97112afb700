"""Whole disk objects (D64/D71/D81) with chosen or unknown parts."""
from ..core import *
from .alloc import setfield
from .bam import KINDS, fieldv, disk_format
from .device import errname

BAM = 'disk::bam::Bam'


def dty(kind):
    return 'disk::%s::%s' % (kind, kind.upper())


def mkobj(eng, st, name, ty, v):
    o = ('O', name, ty)
    st.mem[o] = v
    return mk('ptr', o, (), None)


def opaque(r, eng, st, name, ty):
    """An arbitrary value of a struct type."""
    return eng.expand(st, eng.mkop(r.ty(ty), name), 0)


def disk(r, eng, st, kind, formatted=True, bam=None, header=None, geos=None):
    """-> (disk pointer, bam pointer or None)"""
    t = r.ty(dty(kind))
    v = eng.expand(st, eng.mkop(t, 'disk'), 0)
    names = [f['n'] for f in r.F.types[t]['variants'][0]['f']]
    for n in names:
        if n not in ('blocks', 'header', 'bam', 'format'):
            raise Skip('unexpected field %s.%s' % (dty(kind), n))
    bp = None
    if formatted:
        if bam is None:
            bp = mkobj(eng, st, 'bam', r.ty(BAM), opaque(r, eng, st, 'bam', BAM))
        else:
            bp = bam
        v = setfield(r, v, dty(kind), 'bam', some(bp))
        v = setfield(r, v, dty(kind), 'header', some(header if header is not None else opaque(r, eng, st, 'header', 'disk::header::Header')))
        fm = eng.deref(st, disk_format(r, kind))
        if geos is not None:
            fm = setfield(r, fm, 'disk::format::DiskFormat', 'geos', geos)
        v = setfield(r, v, dty(kind), 'format', some(fm))
    else:
        for n in ('bam', 'header', 'format'):
            v = setfield(r, v, dty(kind), n, none())
    return mkobj(eng, st, 'disk', t, v), bp


def dm(r, kind, m):
    """The implementation of a Disk method for a disk type."""
    return r.method(dty(kind), m, 'disk::Disk')


def refuses(r, eng, s, bam, what, construct):
    for m in ('allocate', 'free', 'next_free_block', 'flush'):
        f = r.fn('disk::bam::Bam::' + m)
        a = symargs(eng, f)
        a[0] = bam
        for s2, v in r.run(eng, f, a, s):
            r.check(eng.variant(s2, v) == 1 and errname(r, v) == 'InvalidBAM', '%s: %s refused' % (what, m), construct,
                    '%s: an old handle still performs %s' % (what, m), st=s2)


@rule('C22', *KINDS)
def replaced(r, kind):
    """replacing the map reaches every holder: old handles act on the new map, or refuse when there is none"""
    f = dm(r, kind, 'set_bam')
    g = dm(r, kind, 'bam')
    w = r.where(f)
    for new in (True, False):
        eng = r.engine()
        st = State()
        d, bp = disk(r, eng, st, kind)
        nv = opaque(r, eng, st, 'newbam', BAM)
        rs = r.run(eng, f, [d, some(nv) if new else none()], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, _ in rs:
            if new:
                now = eng.deref(s, bp)
                if now is nv:
                    r.ok('old handles see the new map')
                else:
                    refuses(r, eng, s, bp, 'map replaced', w)
            else:
                refuses(r, eng, s, bp, 'disk unformatted', w)
            for s2, v in r.run(eng, g, [d], s):
                k = eng.variant(s2, v)
                if new:
                    r.check(k == 0 and eng.deref(s2, v.a[1][0]) is nv, 'the disk uses the new map', r.where(g), 'after replacing the map the disk does not use the new one', st=s2)
                else:
                    r.check(k == 1 and errname(r, v) == 'Unformatted', 'no map on an unformatted disk', r.where(g), 'an unformatted disk hands out a map', st=s2)
        r.panics(eng, 'never panics')
        # the map is installed where there was none
        eng = r.engine()
        st = State()
        d, _ = disk(r, eng, st, kind, formatted=False)
        nv = opaque(r, eng, st, 'newbam', BAM)
        for s, _ in r.run(eng, f, [d, some(nv) if new else none()], st):
            for s2, v in r.run(eng, g, [d], s):
                k = eng.variant(s2, v)
                if new:
                    r.check(k == 0 and eng.deref(s2, v.a[1][0]) is nv, 'the disk uses the new map', r.where(g), 'installing a map on an unformatted disk has no effect', st=s2)
                else:
                    r.check(k == 1, 'still no map', r.where(g), st=s2)
        r.panics(eng, 'never panics')
