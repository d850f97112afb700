"""Sector addressing, geometry, read-only protection."""
from ..core import *


def spt(kind, t):
    """Sectors per track of the documented formats (the oracle)."""
    if kind == 'd81':
        return 40
    if kind == 'd71' and t > 35:
        t -= 35
    return 21 if t <= 17 else 19 if t <= 24 else 18 if t <= 30 else 17


SIZES = {'d64': {174848: (35, 0), 175531: (35, 1), 196608: (40, 0), 197376: (40, 1)},
         'd71': {349696: (70, 0), 351062: (70, 1)},
         'd81': {819200: (80, 0), 822400: (80, 1)}}


def geometries(r):
    """(kind, static key, tracks, errors) of every geometry constant in the crate."""
    gt = r.ty('disk::Geometry')
    out = []
    for k, s in r.F.statics.items():
        if s['t'] == gt:
            for kind in ('d64', 'd71', 'd81'):
                if '::%s::' % kind in k:
                    out.append((kind, k))
    if len(out) < 3:
        raise Skip('geometry constants not found')
    return out


def gfields(r, eng, key):
    """(tracks, with_error_table) of a geometry constant, by field name."""
    v = eng.load(State(), ('S', key))
    fs = [f['n'] for f in r.F.types[r.ty('disk::Geometry')]['variants'][0]['f']]
    d = dict(zip(fs, v.a[1]))
    ints = {n: x for n, x in d.items() if isinstance(x, int)}
    if 'tracks' not in ints or 'with_error_table' not in ints:
        raise Skip('geometry fields')
    return ints['tracks'], ints['with_error_table']


def image_value(r, eng, variant):
    """An Image of this variant; -> (value, backing (obj, path), length)."""
    it = r.ty('disk::image::Image')
    vs = r.F.types[it]['variants']
    i = [k for k, v in enumerate(vs) if v['n'] == variant]
    if not i or len(vs[i[0]]['f']) != 1:
        raise Skip('image variant ' + variant)
    return mk('agg', i[0], (eng.mkop(vs[i[0]]['f'][0]['t'], ('img', variant)),))


def device_value(r, eng, img, geo):
    t = r.F.types[r.ty('disk::block::ImageBlockDevice')]
    out = []
    for f in t['variants'][0]['f']:
        if r.F.types[f['t']]['s'].endswith('Image'):
            out.append(img)
        elif 'Geometry' in r.F.types[f['t']]['s']:
            out.append(mk('ptr', ('S', geo), (), None))
        else:
            out.append(eng.mkop(f['t'], ('dev', f['n'])))
    return mk('agg', 0, tuple(out))


def still(r, eng, st, st0, obj):
    """A device is still over the same image and geometry (bookkeeping such as a flag for changes aside)."""
    a, b = st.mem.get(obj), st0.mem[obj]
    if a is b:
        return 1
    fs = r.F.types[r.ty('disk::block::ImageBlockDevice')]['variants'][0]['f']
    own = [i for i, f in enumerate(fs) if r.F.types[f['t']]['s'].endswith('Image') or 'Geometry' in r.F.types[f['t']]['s']]
    return int(bool(own) and all(eng.field(st, a, i, 0) is eng.field(st0, b, i, 0) for i in own))


def derr(r):
    """The DiskError type (its path depends on the crate it is seen from)."""
    for n in ('disk::error::DiskError', 'disk::DiskError'):
        if n in r.F.by_tystr:
            return r.F.by_tystr[n]
    raise Skip('type DiskError')


def diskerror(r, eng, name):
    """The io::Error made from a DiskError."""
    vs = [v['n'] for v in r.F.types[derr(r)]['variants']]
    fr = [x for x in r.F.insts if 'body' in x and x['lname'].endswith('DiskError> for std::io::Error>::from')]
    if name not in vs or len(fr) != 1:
        raise Skip('DiskError::' + name)
    return r.run(eng, fr[0], [mk('agg', vs.index(name), ())], State())[0][1]


def errname(r, v):
    """Name of the DiskError carried by Err(io::Error)."""
    e = v.a[1][0] if isV(v, 'agg') and v.a[0] == 1 and v.a[1] else None
    if isV(e, 'ioerr') and isV(e.a[1], 'agg'):
        return r.F.types[derr(r)]['variants'][e.a[1].a[0]]['n']
    return None


DOBJ = ('O', 'device', None)


def setup(r, eng, variant, geo):
    st = State()
    dt = r.ty('disk::block::ImageBlockDevice')
    obj = ('O', 'device', dt)
    st.mem[obj] = device_value(r, eng, image_value(r, eng, variant), geo)
    return st, obj, mk('ptr', obj, (), None)


@rule('C02', 'd64', 'd71', 'd81')
def addressing(r, kind):
    """every location maps to its documented 256-byte slot; every other location is rejected"""
    eng = r.engine(device=False)
    f = r.method('disk::block::ImageBlockDevice', 'sector', 'disk::block::BlockDevice')
    g = r.method('disk::block::ImageBlockDevice', 'sector_mut', 'disk::block::BlockDevice')
    n = 0
    for k, key in geometries(r):
        if k != kind:
            continue
        n += 1
        tracks, errs = gfields(r, eng, key)
        base = 0
        bases = {}
        for t in range(1, tracks + 1):
            bases[t] = base
            base += spt(kind, t) * 256
        for fn, var in ((f, 'Memory'), (f, 'ReadOnlyMap'), (f, 'ReadWriteMap'), (g, 'Memory'), (g, 'ReadWriteMap')):
            st0, obj, dev = setup(r, eng, var, key)
            back = None
            tset = range(256)
            for t in tset:
                s = eng.mkop(r.ty('u8'), 'sector')
                rs = r.run(eng, fn, [dev, mk('agg', 0, (t, s))], st0)
                okc = 0
                for st, v in rs:
                    r.check(still(r, eng, st, st0, obj), 'device state unchanged', r.where(fn), st=st)
                    if eng.variant(st, v) == 0:
                        sl = v.a[1][0]
                        okc += 1
                        if t not in bases:
                            r.check(False, '', r.where(fn), 'track %d of %s accepted' % (t, key), st=st)
                            continue
                        r.check(st.decide(mk_lt(s, spt(kind, t))) == 1, 't%d: only existing sectors' % t, r.where(fn),
                                '%s: track %d accepts a sector >= %d' % (key, t, spt(kind, t)), st=st)
                        want = lin_add(bases[t], lin_scale(s, 256))
                        if not isV(sl, 'sl'):
                            r.skip('result of ' + fn['lname'])
                            continue
                        o, pa, off, ln = sl.a
                        back = back or (o, pa)
                        L = eng.seq_len(eng.read(st, o, pa))
                        r.check(st.decide(mk_eq(off, want)) == 1, 't%d: offset' % t, r.where(fn),
                                '%s: track %d sector s is at %s, expected %s' % (key, t, show(off), show(want)), st=st, got=off)
                        r.check(st.decide(mk_eq(ln, 256)) == 1, 't%d: 256 bytes' % t, r.where(fn), st=st)
                        r.check(st.decide(mk_lt(L, lin_add(off, ln))) == 0, 't%d: inside the image' % t, r.where(fn),
                                'returns bytes past the end of the image', st=st)
                        r.check((o, pa) == back, 't%d: the image itself' % t, r.where(fn), 'returns memory which is not the image', st=st)
                    else:
                        e = errname(r, v)
                        if e == 'InvalidLocation':
                            bad = t not in bases or st.decide(mk_lt(s, spt(kind, t))) == 0
                            r.check(bad, 't%d: rejected only if absent' % t, r.where(fn),
                                    '%s: an existing sector of track %d is rejected' % (key, t), st=st)
                        else:
                            r.check(e == 'InvalidOffset' and t in bases, 't%d: other errors only for short images' % t, r.where(fn),
                                    '%s: track %d fails with %s' % (key, t, e), st=st)
                r.check(len(rs) > 0 and (t not in bases) == (okc == 0), 't%d: outcome exists' % t, r.where(fn),
                        '%s: no successful outcome for track %d' % (key, t))
    r.check(n > 0, 'geometries analysed', kind)
    r.panics(eng, 'sector access never panics')


@rule('C02', 'd64', 'd71', 'd81')
def sizes(r, kind):
    """image sizes, size-based selection and the error table position of every geometry"""
    eng = r.engine(device=False)
    size = r.fn('disk::Geometry::size')
    find = r.fn('disk::Geometry::find_by_size')
    want = SIZES[kind]
    keys = []
    for k, key in geometries(r):
        if k != kind:
            continue
        keys.append(key)
        tracks, errs = gfields(r, eng, key)
        total = sum(spt(kind, t) for t in range(1, tracks + 1))
        w = total * 256 + (total if errs else 0)
        r.check(want.get(w) == (tracks, errs), 'a documented image size', key, '%s describes an image of %d bytes' % (key, w))
        for st, v in r.run(eng, size, [mk('ptr', ('S', key), (), None)]):
            r.check(st.decide(mk_eq(v, w)) == 1, 'size', r.where(size), '%s: size() = %s, documented %d' % (key, show(v), w), st=st, got=v)
        et = r.method('disk::block::ImageBlockDevice', 'error_table', 'disk::block::BlockDevice')
        em = r.method('disk::block::ImageBlockDevice', 'error_table_mut', 'disk::block::BlockDevice')
        for fn in (et, em):
            st0, obj, dev = setup(r, eng, 'Memory', key)
            img = image_value(r, eng, 'Memory')
            seq = eng.deref(st0, eng.field(st0, img, 0, img.a[0])) if isV(img, 'agg') else None
            # an image opened with this geometry has this geometry's size
            if isV(seq, 'seq'):
                st0.assume(mk_eq(eng.seq_len(seq), w), 1)
            for st, v in r.run(eng, fn, [dev], st0):
                if eng.variant(st, v) != 0:
                    r.check(False, '', r.where(fn), '%s: error table access fails: %s' % (key, errname(r, v)), st=st)
                    continue
                o = v.a[1][0]
                have = eng.variant(st, o)
                r.check(have == errs, 'error table present iff the geometry has one', r.where(fn), key, st=st)
                if have == 1 and errs:
                    sl = o.a[1][0]
                    r.check(isV(sl, 'sl') and st.decide(mk_eq(sl.a[2], total * 256)) == 1 and st.decide(mk_eq(sl.a[3], total)) == 1,
                            'error table: one byte per sector right after the data', r.where(fn),
                            '%s: error table at %s length %s' % (key, show(sl.a[2]), show(sl.a[3])), st=st)
    r.check(set((gfields(r, eng, k)) for k in keys) == set(want.values()), 'exactly the documented layouts', kind)
    # selection by size over the list the format itself uses
    lists = [k for k, s in r.F.statics.items() if '::%s::' % kind in k and 'Geometry' in r.F.types[s['t']]['s'] and r.F.types[s['t']]['k'] == 'array']
    for lk in lists:
        arr = eng.load(State(), ('S', lk))
        n = eng.seq_len(arr)
        sz = eng.mkop(r.ty('usize'), 'size')
        found = set()
        for st, v in r.run(eng, find, [sz, mk('sl', ('S', lk), (), 0, n)]):
            if eng.variant(st, v) == 1:
                p = v.a[1][0]
                tr, er = gfields(r, eng, p.a[0][1])
                w = [x for x, y in want.items() if y == (tr, er)]
                r.check(bool(w) and st.decide(mk_eq(sz, w[0])) == 1, 'selected only for its own size', r.where(find), st=st)
                found.add((tr, er))
            else:
                for w in want:
                    r.check(st.decide(mk_eq(sz, w)) == 0, 'size %d is recognised' % w, r.where(find),
                            'an image of %d bytes is not recognised' % w, st=st)
        r.check(found == set(want.values()), 'every documented size is recognised', lk)
    r.check(len(lists) > 0, 'list of allowed geometries', kind)
    r.panics(eng, 'size computations never panic')


@rule('C01')
def readonly_device(r):
    """on a read-only image every request for write access is refused with ReadOnly and changes nothing"""
    kind, key = geometries(r)[0]
    for m in ('sector_mut', 'error_table_mut', 'flush', 'check_writability'):
        f = r.method('disk::block::ImageBlockDevice', m, 'disk::block::BlockDevice')
        eng = r.engine(device=False)
        for k, key in geometries(r):
            st0, obj, dev = setup(r, eng, 'ReadOnlyMap', key)
            args = [dev] + ([eng.mkop(r.ty('disk::block::Location'), 'loc')] if m == 'sector_mut' else [])
            rs = r.run(eng, f, args, st0)
            r.check(len(rs) > 0, m + ' returns', r.where(f))
            for st, v in rs:
                r.check(eng.variant(st, v) == 1, m + ' refused', r.where(f), '%s succeeds on a read-only image (%s)' % (m, key), st=st)
                if eng.variant(st, v) == 1:
                    r.check(errname(r, v) == 'ReadOnly', m + ' reports ReadOnly', r.where(f), '%s reports %s on a read-only image' % (m, errname(r, v)), st=st)
                r.check(still(r, eng, st, st0, obj), m + ' changes nothing', r.where(f), st=st)
        r.panics(eng, m + ' never panics on a read-only image')
        if m in ('check_writability', 'sector_mut'):
            for var in ('Memory', 'ReadWriteMap'):
                st0, obj, dev = setup(r, eng, var, geometries(r)[0][1])
                args = [dev] + ([eng.mkop(r.ty('disk::block::Location'), 'loc')] if m == 'sector_mut' else [])
                rs = r.run(eng, f, args, st0)
                r.check(any(eng.variant(st, v) == 0 for st, v in rs), '%s: %s can succeed' % (var, m), r.where(f))
                for st, v in rs:
                    r.check(eng.variant(st, v) == 0 or errname(r, v) != 'ReadOnly', '%s: %s is writable' % (var, m), r.where(f),
                            'a writable image refuses %s' % m, st=st)


@rule('C01')
def mutable_paths(r):
    """the bytes of an image are mutably reachable only through functions that refuse read-only images"""
    it = r.ty('disk::image::Image')
    dt = r.ty('disk::block::ImageBlockDevice')
    n = 0
    for x in r.F.insts:
        if not (x.get('local') and 'body' in x and x['kind'] == 'item'):
            continue
        b = x['body']
        at = [r.F.types[b['locals'][i + 1]] for i in range(b['argc'])]
        ret = r.F.types[b['locals'][0]]['s']
        takes = [i for i, t in enumerate(at) if t['k'] == 'ref' and t.get('t') in (it, dt)]
        if not takes or '&mut [u8]' not in ret:
            continue
        n += 1
        # any function handing out &mut bytes of an Image must fail on the read-only variant
        eng = r.engine(device=False)
        st = State()
        args = symargs(eng, x)
        p = args[takes[0]]
        img = image_value(r, eng, 'ReadOnlyMap')
        st.mem[p.a[0]] = img if at[takes[0]]['t'] == it else device_value(r, eng, img, geometries(r)[0][1])
        for s, v in r.run(eng, x, args, st):
            if isV(v, 'agg') and r.F.types[b['locals'][0]].get('ldef') == 'std::result::Result':
                good = eng.variant(s, v) == 1
            else:
                good = False
            r.check(good, x['lname'] + ' refuses a read-only image', r.where(x), 'hands out mutable bytes of a read-only image', st=s)
    r.check(n >= 2, 'functions handing out mutable bytes', 'disk::image')


def openers(r, f, args, eng):
    """Run f with the file-system entry points replaced by recorders."""
    ev = []

    def opt(name):
        def h(e, st, ctx, a):
            if name == 'new':
                return [(st, e.fresh(st, ('opts',), ctx.dt))]
            st.event('opt', name, a[1] if len(a) > 1 and isinstance(a[1], int) else None if len(a) < 2 else a[1])
            return [(st, a[0])]
        return h
    for m in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
        eng.hooks['std::fs::OpenOptions::' + m] = opt(m)
    eng.hooks['std::fs::OpenOptions::new'] = opt('new')

    def call(name, fallible=True):
        def h(e, st, ctx, a):
            st.event('call', name, tuple(a[1:]))
            x = e.fresh(st, (name,), ctx.dt)
            t = e.F.types[ctx.dt]
            if fallible and t.get('ldef') == 'std::result::Result':
                st2 = st.copy()
                st2.event('failed', name)
                return [(st, ok(e.fresh(st, (name, 'v'), t['args'][0]))), (st2, err(mk('op', ('fserr',), t['args'][1])))]
            return [(st, x)]
        return h
    eng.hooks['std::fs::File::open'] = call('File::open')
    eng.hooks['std::fs::File::create'] = call('File::create')
    eng.hooks['std::fs::OpenOptions::open'] = call('OpenOptions::open')
    eng.hooks['std::fs::File::set_len'] = call('set_len')
    eng.hooks['memmap::MmapOptions::new'] = call('MmapOptions::new')
    for m in ('map', 'map_mut', 'map_copy', 'map_exec'):
        eng.hooks['memmap::MmapOptions::' + m] = call(m)
    return r.run(eng, f, args)


@rule('C01')
def open_mode(r):
    """opening an image without write access maps the file read-only; with write access, read-write"""
    fs = [x for x in r.F.insts if 'body' in x and x['crate'] == 'cbm' and x['kind'] == 'item' and
          x['lpath'].startswith('disk::') and x['lpath'].endswith('::open') and len(x['lpath'].split('::')) == 3 and
          x['lpath'].split('::')[1] in ('D64', 'D71', 'D81')]
    if len(fs) < 3:
        raise Skip('disk open functions not instantiated')
    for f in fs:
        for w in (0, 1):
            eng = r.engine()
            for n in ('D64', 'D71', 'D81'):
                def stop(e, st, ctx, a, n=n):
                    st.event('image', r.F.types[ctx.at[0]]['variants'][e.variant(st, a[0])]['n'] if isV(a[0]) else '?')
                    return [(st, err(mk('op', ('stop',), None)))]
                eng.hooks['disk::%s::new' % n] = stop
            a = symargs(eng, f)
            rs = openers(r, f, [a[0], w], eng)
            seen = 0
            for st, v in rs:
                calls = {e[1] for e in st.ev if e[0] == 'call'}
                wr = {e[1] for e in st.ev if e[0] == 'opt' and e[2] != 0 and e[1] in ('write', 'append', 'truncate', 'create', 'create_new')}
                img = [e[1] for e in st.ev if e[0] == 'image']
                if w == 0:
                    r.check(not wr and 'File::create' not in calls, 'file opened without write access', r.where(f),
                            'opened with %s although write access was not requested' % sorted(wr), st=st)
                    r.check('map_mut' not in calls, 'mapped read-only', r.where(f), 'mapped writable although write access was not requested', st=st)
                    if img:
                        seen += 1
                        r.check(img == ['ReadOnlyMap'], 'image is read-only', r.where(f), 'image is %s' % img, st=st)
                elif img:
                    seen += 1
                    r.check(img == ['ReadWriteMap'] and 'map_mut' in calls, 'image is writable', r.where(f), 'writable open yields %s' % img, st=st)
                    r.check(not ({'truncate', 'create', 'create_new'} & wr), 'opening keeps the contents', r.where(f), 'open with %s' % sorted(wr), st=st)
            r.check(seen > 0, 'open reaches the image (writable=%d)' % w, r.where(f))


open_mode.crate = 'cdisk'


@rule('C01')
def header_access(r):
    """the header of a disk is handed out for modification only if the disk can be written"""
    from .disks import disk, dm
    for kind in ('d64', 'd71', 'd81'):
        f = dm(r, kind, 'header_mut')
        eng = r.engine()
        st = State()
        d, _ = disk(r, eng, st, kind)
        n = set()
        for s, v in r.run(eng, f, [d], st):
            k = eng.variant(s, v)
            wr = s.decide(term('sym', 1, ('writable',)))
            n.add(k)
            if k == 0:
                r.check(wr == 1, kind + ': the header can be changed on writable disks only', r.where(f), kind + ': the header of a read-only disk is handed out for modification', st=s)
            else:
                r.check(wr == 0, kind + ': refused on read-only disks only', r.where(f), kind + ': the header of a writable disk is refused', st=s)
        r.check(n == {0, 1}, kind + ': both outcomes', r.where(f))
        r.panics(eng, kind + ': never panics')


ORDER = ('D64', 'D71', 'D81')


def generic_open(r, ext):
    """-> (engine, instance, [(writable, outcomes)]) of disk::open, the openers of the disk types replaced by recorders"""
    fs = [x for x in r.F.insts if 'body' in x and x['crate'] == 'cbm' and x['kind'] == 'item' and x['lpath'] == 'disk::open']
    if not fs:
        raise Skip('disk::open not instantiated')
    f = fs[0]
    out = []
    for w in (0, 1):
        eng = r.engine()
        bad = diskerror(r, eng, 'InvalidLayout')
        for n in ORDER:
            def h(e, st, ctx, a, n=n):
                res = []
                for o in ('ok', 'layout', 'other'):
                    s = st.copy()
                    s.event('open', n, a[1], o)
                    t = e.F.types[ctx.dt]['args'][0]
                    res.append((s, ok(e.mkop(t, ('opened', n))) if o == 'ok' else err(bad) if o == 'layout' else
                                err(mk('ioerr', mk('op', ('oskind', n), None), None, ('other', n)))))
                return res
            eng.hooks['disk::%s::open' % n] = h

        def fe(e, st, ctx, a):
            return [(st, none() if ext is None else some(mk('agg', ext, ())))]
        eng.hooks['disk::DiskType::from_extension'] = fe
        out.append((w, r.run(eng, f, [symargs(eng, f)[0], w])))
    return eng, f, out


@rule('C01', 'd64', 'd71', 'd81', 'none')
def open_any_mode(r, ext):
    """opening an image of any type passes the requested access mode on"""
    eng, f, out = generic_open(r, None if ext == 'none' else [v['n'].lower() for v in r.F.types[r.ty('disk::DiskType')]['variants']].index(ext))
    for w, rs in out:
        n = 0
        for s, v in rs:
            for e in s.ev:
                if e[0] == 'open':
                    n += 1
                    r.want(s, e[2], w, '%s: %s is opened as requested' % (ext, e[1]), r.where(f),
                           'a %s image is opened %s although write access was %srequested' % (e[1], 'writable' if e[2] == 1 else 'otherwise', '' if w else 'not '))
        r.check(n > 0, ext + ': opens an image', r.where(f))


open_any_mode.crate = 'cdisk'


@rule('C02', 'd64', 'd71', 'd81', 'none')
def open_any_type(r, ext):
    """an image is opened as the type its extension names; without a known one, as the first type whose size matches"""
    eng, f, out = generic_open(r, None if ext == 'none' else [v['n'].lower() for v in r.F.types[r.ty('disk::DiskType')]['variants']].index(ext))
    w = r.where(f)
    for _, rs in out:
        seen = set()
        for s, v in rs:
            evs = [e for e in s.ev if e[0] == 'open']
            k = eng.variant(s, v)
            r.check(None if k is None else len(evs) > 0, ext + ': an image is opened', w, ext + ': no image is opened', st=s)
            if not evs:
                continue
            last = evs[-1]
            want = [ext.upper()] if ext != 'none' else list(ORDER[:len(evs)])
            r.check([e[1] for e in evs] == want, ext + ': types tried', w, '%s: types tried: %s' % (ext, [e[1] for e in evs]), st=s)
            r.check(all(e[3] == 'layout' for e in evs[:-1]), ext + ': another type is tried only if the size does not fit', w,
                    '%s: another type is tried after %s' % (ext, [e[3] for e in evs]), st=s)
            r.check((last[3] == 'ok') == (k == 0), ext + ': success is success', w, '%s: opening %s, result %s' % (ext, last[3], 'success' if k == 0 else 'failure'), st=s)
            if k == 1:
                r.check(ext != 'none' or last[3] == 'other' or last[1] == 'D81', ext + ': every type is tried', w, '%s: gives up after %s' % (ext, last[1]), st=s)
                if last[3] == 'layout':
                    r.check(errname(r, v) == 'InvalidLayout', ext + ': InvalidLayout', w, '%s: a wrong size is reported as %s' % (ext, errname(r, v)), st=s)
                else:
                    e = v.a[1][0]
                    r.check(isV(e, 'ioerr') and e.a[2] == ('other', last[1]), ext + ': the error is reported', w, ext + ': the error of opening the image is lost', st=s, got=e)
            seen.add((last[1], last[3]))
        r.check(len(seen) == (3 if ext != 'none' else 7), ext + ': all outcomes', w, '%s: outcomes %s' % (ext, sorted(seen)))
        r.panics(eng, ext + ': never panics')


open_any_type.crate = 'cdisk'


@rule('C02')
def extension(r):
    """.d64, .d71 and .d81 name their disk type in any capitalisation; any other extension names none"""
    fs = [x for x in r.F.insts if 'body' in x and x['crate'] == 'cbm' and x['kind'] == 'item' and x['lpath'] == 'disk::DiskType::from_extension']
    if not fs:
        raise Skip('DiskType::from_extension not instantiated')
    vs = [v['n'].lower() for v in r.F.types[r.ty('disk::DiskType')]['variants']]
    for f in fs[:1]:
        for e in (None, False, 'd64', 'D64', 'd71', 'D71', 'd81', 'D81', 'd80', 'd6', 'd644', 'prg', '', 'd82'):
            eng = r.engine()

            def ext(en, st, ctx, a):
                return [(st, none() if e is None else some(en.mkop(r.F.types[ctx.dt]['args'][0], ('ext',))))]

            def to_str(en, st, ctx, a):
                if e is False:
                    return [(st, none())]
                key = ('K', 'str', e.encode())
                en.const[key] = en.mkseq(en.u8(), (('e', tuple(e.encode())),))
                return [(st, some(mk('sl', key, (), 0, len(e))))]
            eng.hooks['std::path::Path::extension'] = ext
            eng.hooks['std::ffi::OsStr::to_str'] = to_str
            want = vs.index(e.lower()) if e and e.lower() in vs else None
            n = 0
            for s, v in r.run(eng, f, symargs(eng, f)):
                n += 1
                k = eng.variant(s, v)
                got = None if k == 0 else eng.variant(s, v.a[1][0]) if k == 1 else '?'
                r.check(None if got == '?' else got == want, 'extension %s' % (e,), r.where(f),
                        'extension %s is taken for %s' % (e, 'no disk type' if got is None else vs[got]), st=s, got=v)
            r.check(n > 0, 'returns', r.where(f))
            r.panics(eng, 'never panics')


extension.crate = 'cdisk'


@rule('C02', 'd64', 'd71', 'd81')
def raw_access(r, kind):
    """reading a sector through the disk gives its 256 bytes; writing one takes exactly 256 bytes and touches nothing else"""
    from .disks import disk, dm
    from .streams import buffer, rope_same
    for formatted in (True, False):
        eng = r.engine()
        st = State()
        d, _ = disk(r, eng, st, kind, formatted=formatted)
        l = mk('agg', 0, (eng.mkop(r.ty('u8'), 'track'), eng.mkop(r.ty('u8'), 'sector')))
        f = dm(r, kind, 'read_sector')
        w = r.where(f)
        rs = r.run(eng, f, [d, l], st.copy())
        good = 0
        for s, v in rs:
            r.check(not [o for o in s.mem if o[0] == 'sec' and s.mem[o] is not st.mem.get(o) and o != ('sec', l)], 'reading changes nothing', w, 'reading a sector writes to the disk', st=s)
            if eng.variant(s, v) == 0:
                good += 1
                x = v.a[1][0]
                q = [eng.seq_get(s, x, i) for i in range(256)] if eng.seq_len(x) == 256 else None
                want = [eng.seq_get(st, eng.load(st, ('sec', l)), i) for i in range(256)]
                r.check(q is not None, 'reads 256 bytes', w, 'a sector read has %s bytes' % show(eng.seq_len(x)), st=s)
                bad = [i for i in range(256) if q is not None and q[i] != want[i]]
                r.check(not bad, 'reads the sector', w, 'byte %s of a sector is read as %s' % (bad[:1], bad and show(q[bad[0]])), st=s)
        r.check(good > 0, 'reads', w, 'a sector cannot be read')
        r.panics(eng, 'reading a sector never panics')
        f = dm(r, kind, 'write_sector')
        w = r.where(f)
        for n in (256, 0, 1, 255, 257, 512):
            eng.panics.clear()
            s0 = st.copy()
            o, sl, _ = buffer(eng, s0, 'data', n)
            data = [eng.seq_get(s0, s0.mem[o], i) for i in range(min(n, 256))]
            rs = r.run(eng, f, [d, l, sl], s0)
            good = 0
            for s, v in rs:
                k = eng.variant(s, v)
                sec = eng.load(s, ('sec', l))
                now = [eng.seq_get(s, sec, i) for i in range(256)]
                was = [eng.seq_get(st, eng.load(st, ('sec', l)), i) for i in range(256)]
                other = [x for x in s.mem if x[0] == 'sec' and x != ('sec', l) and s.mem[x] is not s0.mem.get(x)]
                r.check(not other, 'writes only that sector', w, 'writing a sector changes another one', st=s)
                if k == 0:
                    good += 1
                    r.check(n == 256, 'exactly 256 bytes', w, '%d bytes are accepted as the contents of a sector' % n, st=s)
                    bad = [i for i in range(256) if n == 256 and now[i] != data[i]]
                    r.check(not bad, 'stores the bytes', w, 'byte %s of the data is not stored' % bad[:1], st=s)
                elif k == 1:
                    r.check(now == was, 'a refused write changes nothing', w, 'a write of %d bytes fails and changes the sector' % n, st=s)
                    if n != 256:
                        r.check(errname(r, v) in ('WriteUnderrun', 'InvalidLocation', 'ReadOnly', None), 'refused', w, 'a write of %d bytes fails with %s' % (n, errname(r, v)), st=s)
            if n == 256:
                r.check(good > 0, 'writes', w, 'a sector cannot be written')
            r.panics(eng, 'writing %d bytes never panics' % n)


@rule('C02')
def positioned(r):
    """access by position touches exactly the bytes of that position"""
    from .trace import record, DE
    from .entry import position
    from .bam import fieldv
    DEVT, BD = 'disk::block::ImageBlockDevice', 'disk::block::BlockDevice'
    rp, pr, pw = (r.method(DEVT, m, BD) for m in ('read_position', 'positioned_read', 'positioned_write'))
    P = 'disk::block::Position'
    from .alloc import setfield
    from .disks import mkobj
    for off in range(0, 256, 32):
        eng = r.engine()
        eng.exact = 2000
        st = State()
        l = (3, 5)
        d = mkobj(eng, st, 'dev', r.ty(DEVT), eng.mkop(r.ty(DEVT), 'dev'))
        o = ('sec', mk('agg', 0, l))
        pv = eng.expand(st, eng.mkop(r.ty(P), 'p'), 0)
        for size in (32, 1, 254 if off == 0 else 5):
            q = setfield(r, setfield(r, setfield(r, pv, P, 'location', mk('agg', 0, l)), P, 'offset', off), P, 'size', size)
            s0 = st.copy()
            p = mkobj(eng, s0, 'pos', r.ty(P), q)
            n = 0
            for s, v in r.run(eng, rp, [d, p], s0):
                if eng.variant(s, v) == 0:
                    n += 1
                    x = v.a[1][0]
                    r.check(isV(x, 'sl') and x.a[0] == o and x.a[2] == off and x.a[3] == size, 'read_position', r.where(rp),
                            'position offset %d size %d reads %s' % (off, size, show(x)[:120]), st=s)
            r.check(n > 0, 'read_position reads', r.where(rp))
        s0, e = record(r, eng, st.copy(), typ=0x82, first=(17, 4), name=b'XY', at=l, off=off)
        want = [None, None, 0x82, 17, 4, 0x58, 0x59] + [0xA0] * 14 + [0] * 9 + [1, 0]
        ep = mkobj(eng, s0, 'entry', r.ty(DE), e)
        was = [eng.seq_get(s0, eng.load(s0, o), i) for i in range(256)]
        n = 0
        for s, v in r.run(eng, pw, [d, ep], s0.copy()):
            now = [eng.seq_get(s, eng.load(s, o), i) for i in range(256)]
            exp = list(was)
            if eng.variant(s, v) == 0:
                n += 1
                for i, x in enumerate(want):
                    if x is not None:
                        exp[off + i] = x
            bad = [i for i in range(256) if same(s, now[i], exp[i]) != 1]
            r.check(not bad, 'entry written at its offset', r.where(pw), 'writing the entry at offset %d leaves %s in byte %s' % (off, bad and show(now[bad[0]]), bad[:1]), st=s)
            other = [x for x in s.mem if x[0] == 'sec' and x != o and s.mem[x] is not s0.mem.get(x)]
            r.check(not other, 'only that sector', r.where(pw), 'writing an entry changes another sector', st=s)
        r.check(n > 0, 'entries can be written', r.where(pw))
        s1 = s0.copy()
        b = eng.load(s1, o)
        for i, x in enumerate([0, 0, 0x81, 9, 8, 0x51] + [0xA0] * 15 + [0] * 9 + [7, 0]):
            b = eng.seq_set(s1, b, off + i, x)
        s1.mem[o] = b
        n = 0
        for s, v in r.run(eng, pr, [d, ep], s1):
            if eng.variant(s, v) == 0:
                n += 1
                g = eng.deref(s, ep)
                r.want(s, fieldv(r, eng, s, g, DE, 'first_sector'), mk('agg', 0, (9, 8)), 'entry read from its offset', r.where(pr))
                r.want(s, fieldv(r, eng, s, g, DE, 'file_size'), 7, 'entry read from its offset', r.where(pr))
        r.check(n > 0, 'entries can be read', r.where(pr))
        r.panics(eng, 'access by position never panics')


@rule('C02', 'd64', 'd71', 'd81')
def every_sector(r, kind):
    """iterating over the sectors of a disk yields every sector once, in order"""
    from .bam import TRACKS, disk_format
    from .disks import mkobj
    todo = []
    for nm, mkr, src in (('disk::format::DiskFormat::location_iter', None, None), ('disk::block::LocationIterator::from_geometry', 1, 1)):
        f = [x for x in r.F.insts if x.get('lname') == nm and 'body' in x]
        if len(f) == 1:
            todo.append((f[0], src))
    if not todo:
        raise Skip('no sector iterators')
    for f, src in todo:
        rt = [x for x in r.F.insts if 'body' in x and x['lname'].endswith('LocationIterator%s as std::iter::Iterator>::next' % ("<'_>" if src is None else '')) and (('::block::' in x['lname']) == bool(src))]
        if len(rt) != 1:
            raise Skip('iterator')
        nx = rt[0]
        for geo in ([None] if src is None else [k for kd, k in geometries(r) if kd == kind]):
            eng = r.engine(device=False)
            eng.exact = 10 ** 6
            st = State()
            if geo is None:
                a = disk_format(r, kind)
                tr = TRACKS[kind]
            else:
                a = mk('ptr', ('S', geo), (), None)
                tr, _ = gfields(r, eng, geo)
            want = [(t, s) for t in range(1, tr + 1) for s in range(spt(kind, t))]
            for s, it in r.run(eng, f, [a], st):
                p = mkobj(eng, s, 'locs', f['body']['locals'][0]['t'] if isinstance(f['body']['locals'][0], dict) else f['body']['locals'][0], it)
                got = []
                for _ in range(len(want) + 1):
                    rs = r.run(eng, nx, [p], s)
                    if len(rs) != 1:
                        raise Limit('iterating has %d outcomes' % len(rs))
                    s, v = rs[0]
                    if eng.variant(s, v) == 0:
                        break
                    got.append(tuple(v.a[1][0].a[1]))
                bad = [(x, y) for x, y in zip(got + [None] * len(want), want + [None]) if x != y]
                r.check(got == want, 'every sector', r.where(nx), 'iterating over the sectors yields %s where %s is due' % (bad[0] if bad else (None, None)), st=s)
            r.panics(eng, 'iterating never panics')


def disk_new(r, kind):
    fs = [x for x in r.F.insts if 'body' in x and x['crate'] == 'cbm' and x['lpath'] in ('disk::%s::%s::new' % (kind, kind.upper()), 'disk::%s::new' % kind.upper())]
    if len(fs) != 1:
        raise Skip('%s::new' % kind.upper())
    return fs[0]


def disk_fn(r, kind, name):
    fs = [x for x in r.F.insts if 'body' in x and x['crate'] == 'cbm' and x['kind'] == 'item' and
          x['lpath'] in ('disk::%s::%s::%s' % (kind, kind.upper(), name), 'disk::%s::%s' % (kind.upper(), name))]
    if not fs:
        raise Skip('%s::%s is not instantiated' % (kind.upper(), name))
    return fs


def stop_at_new(r, eng, kind, keep):
    def stop(e, st, ctx, a):
        k = e.variant(st, a[0])
        st.event('image', None if k is None else r.F.types[ctx.at[0]]['variants'][k]['n'])
        keep.append((st.copy(), a[0]))
        return [(st, err(mk('op', ('stop',), None)))]
    eng.hooks[disk_new(r, kind)['lpath']] = stop


@rule('C29', 'd64', 'd71', 'd81')
def created(r, kind):
    """creating an image makes a file of exactly the size of the layout, empty, and spares an existing file if asked to"""
    for f in disk_fn(r, kind, 'create'):
        w = r.where(f)
        for k, key in geometries(r):
            if k != kind:
                continue
            for new in (0, 1):
                eng = r.engine(device=False)
                tracks, errs = gfields(r, eng, key)
                size = [x for x, y in SIZES[kind].items() if y == (tracks, errs)][0]
                stop_at_new(r, eng, kind, [])
                a = symargs(eng, f)
                n = 0
                for st, v in openers(r, f, [a[0], mk('ptr', ('S', key), (), None), new], eng):
                    calls = [e[1] for e in st.ev if e[0] == 'call']
                    opt = {e[1]: e[2] for e in st.ev if e[0] == 'opt'}
                    img = [e[1] for e in st.ev if e[0] == 'image']
                    if new:
                        r.check(opt.get('create_new', 0) == 1 and 'File::create' not in calls, 'a new file only', w, 'an existing file would be overwritten (%s)' % opt, st=st)
                    else:
                        r.check('File::create' in calls or (opt.get('create_new', 0) == 0 and opt.get('create') == 1), 'makes the file', w, 'the file is not created (%s)' % opt, st=st)
                        r.check('File::create' in calls or opt.get('truncate') == 1, 'old contents are removed', w, 'an existing file keeps its contents', st=st)
                    r.check(eng.variant(st, v) == 1, 'stops at the first failure', w, st=st)
                    if not img:
                        continue
                    n += 1
                    bad = [e[1] for e in st.ev if e[0] == 'failed']
                    r.check(not bad, 'no failed step is passed over', w, 'the image is used although %s failed' % bad[:1], st=st)
                    r.check('File::create' in calls or opt.get('write') == 1 and opt.get('read') == 1, 'writable', w, 'the new file is not opened for reading and writing', st=st)
                    r.check(img == ['ReadWriteMap'], 'mapped writable', w, 'a new image is %s' % img, st=st)
                    ls = [e[2][0] for e in st.ev if e[0] == 'call' and e[1] == 'set_len' and e[2]]
                    r.check(len(ls) > 0, 'its size is set', w, 'the size of the new file is not set', st=st)
                    if ls:
                        r.want(st, ls[-1], size, 'its size', w, 'a new image of %d tracks%s gets %s bytes' % (tracks, ' with errors' if errs else '', show(ls[-1])))
                        r.check('map_mut' in calls and calls.index('map_mut') > len(calls) - 1 - calls[::-1].index('set_len'), 'mapped with its full size', w, 'the new file is mapped before its size is set', st=st)
                r.check(n > 0, 'images are created', w)
                r.panics(eng, 'creating an image never panics')


created.crate = 'vinst'


@rule('C29', 'd64', 'd71', 'd81')
def in_memory(r, kind):
    """an image in memory has the size of the layout and holds only zeros"""
    f = disk_fn(r, kind, 'open_memory')[0]
    w = r.where(f)
    for k, key in geometries(r):
        if k != kind:
            continue
        eng = r.engine(device=False)
        keep = []
        tracks, errs = gfields(r, eng, key)
        size = [x for x, y in SIZES[kind].items() if y == (tracks, errs)][0]
        stop_at_new(r, eng, kind, keep)
        rs = r.run(eng, f, [mk('ptr', ('S', key), (), None)], State())
        r.check(len(keep) > 0, 'images are made', w, 'no image is made in memory')
        for st, img in keep:
            k = eng.variant(st, img)
            nm = r.F.types[r.ty('disk::image::Image')]['variants'][k]['n']
            r.check(nm == 'Memory', 'in memory', w, 'the image is %s' % nm, st=st)
            if nm != 'Memory':
                continue
            b = eng.deref(st, eng.field(st, img, 0, k))
            if not isV(b, 'seq'):
                r.skip('contents ' + show(b)[:200])
                continue
            r.want(st, eng.seq_len(b), size, 'its size', w, 'an image in memory of %d tracks has %s bytes' % (tracks, show(eng.seq_len(b))))
            if eng.seq_len(b) == size:
                bad = [i for i in (0, 1, 255, 256, 91392, size // 2, size - 1) if same(st, eng.seq_get(st, b, i), 0) != 1]
                r.check(not bad, 'all zero', w, 'byte %s of a new image is not zero' % bad[:1], st=st)
        r.panics(eng, 'making an image never panics')


@rule('C29', 'd64', 'd71', 'd81')
def accepted(r, kind):
    """a disk is made from exactly the images of a documented size, with that layout, and initialised from the image"""
    f = disk_new(r, kind)
    w = r.where(f)
    DEVT = 'disk::block::ImageBlockDevice'
    want = SIZES[kind]
    from .disks import dm, dty
    from .bam import fieldv
    for var in ('Memory', 'ReadOnlyMap', 'ReadWriteMap'):
        eng = r.engine(device=False)
        ini = dm(r, kind, 'initialize')

        def init(e, st, ctx, a):
            st.event('init')
            return [(st, UNIT)]
        eng.hooks[ini['lpath']] = init
        eng.hooks['disk::Disk::initialize'] = init
        img = image_value(r, eng, var)
        found = set()
        st = State()
        lens = {}
        for n in sorted(want) + [None]:
            s0 = st.copy()
            ln = r.fn('disk::image::Image::len')
            N = term('sym', 64, ('image size',)) if n is None else n
            eng.hooks[ln['lpath']] = lambda e, s, c, a, N=N: [(s, N)]
            if n is None:
                for x in want:
                    s0.assume(mk_eq(N, x), 0)
            rs = r.run(eng, f, [img], s0)
            r.check(len(rs) > 0, 'returns', w)
            for s, v in rs:
                k = eng.variant(s, v)
                if n is None:
                    r.check(k == 1 and errname(r, v) == 'InvalidLayout', 'other sizes are refused', w, 'an image of an undocumented size gives %s' % (errname(r, v) if k else 'a disk'), st=s)
                    continue
                r.check(k == 0, 'size %d accepted' % n, w, 'an image of %d bytes is refused' % n, st=s)
                if k != 0:
                    continue
                r.check([e for e in s.ev if e[0] == 'init'] != [], 'initialised', w, 'a disk is opened without reading its header and map', st=s)
                b = eng.deref(s, fieldv(r, eng, s, v.a[1][0], dty(kind), 'blocks'))
                while isV(b, 'agg') and len(b.a[1]) == 1:
                    b = b.a[1][0]
                g = [x for x in (b.a[1] if isV(b, 'agg') else ()) if isV(x, 'ptr') and x.a[0][0] == 'S']
                if len(g) != 1:
                    r.skip('layout of the device')
                    continue
                r.check(gfields(r, eng, g[0].a[0][1]) == want[n], 'its layout', w, 'an image of %d bytes is taken for one of %s' % (n, gfields(r, eng, g[0].a[0][1])), st=s)
                r.check(img in b.a[1], 'the image itself', w, 'the disk does not use the image it was opened with', st=s)
        r.panics(eng, 'opening never panics')


@rule('C29', 'd64', 'd71', 'd81')
def layouts(r, kind):
    """the layouts offered are the documented ones"""
    for name, tr in (('geometry', {'d64': 35, 'd71': 70, 'd81': 80}[kind]), ('geometry_40_tracks', 40)):
        if name != 'geometry' and kind != 'd64':
            continue
        f = disk_fn(r, kind, name)[0]
        for e in (0, 1):
            eng = r.engine(device=False)
            for s, v in r.run(eng, f, [e], State()):
                r.check(isV(v, 'ptr') and v.a[0][0] == 'S' and gfields(r, eng, v.a[0][1]) == (tr, e), '%s(%d)' % (name, e), r.where(f), '%s(%s) is %s' % (name, bool(e), show(v)), st=s)


@rule('C29')
def flushed(r):
    """flushing an image writes the mapping of a writable file, and is refused on a read-only one"""
    f = r.method('disk::block::ImageBlockDevice', 'flush', 'disk::block::BlockDevice')
    w = r.where(f)
    key = geometries(r)[0][1] if isinstance(geometries(r), list) else next(iter(geometries(r)))[1]
    for var in ('Memory', 'ReadOnlyMap', 'ReadWriteMap'):
        eng = r.engine(device=False)

        def fl(e, st, ctx, a):
            st.event('flush')
            s2 = st.copy()
            s2.event('failed')
            return [(st, ok(UNIT)), (s2, err(mk('op', ('fserr',), None)))]
        eng.hooks['memmap::MmapMut::flush'] = fl

        def later(e, st, ctx, a):
            st.event('flush started')
            s2 = st.copy()
            s2.event('failed')
            return [(st, ok(UNIT)), (s2, err(mk('op', ('fserr',), None)))]
        for m in ('flush_async', 'flush_async_range', 'flush_range'):
            eng.hooks['memmap::MmapMut::' + m] = later
        from .sequences import image_device
        st, dev = image_device(r, eng, var, key)
        if var != 'ReadOnlyMap':
            mu = r.method('disk::block::ImageBlockDevice', 'sector_mut', 'disk::block::BlockDevice')
            rs = [s for s, v in r.run(eng, mu, [dev, mk('agg', 0, (1, 0))], st) if eng.variant(s, v) == 0]
            if len(rs) != 1:
                raise Skip('sector_mut has %d outcomes' % len(rs))
            st = rs[0].copy()
        rs = r.run(eng, f, [dev], st)
        r.check(len(rs) > 0, 'returns', w)
        for s, v in rs:
            k = eng.variant(s, v)
            ev = [e[0] for e in s.ev]
            if var == 'ReadOnlyMap':
                r.check(k == 1 and errname(r, v) == 'ReadOnly', 'refused on a read-only image', w, 'flushing a read-only image gives %s' % errname(r, v), st=s)
            elif var == 'Memory':
                r.check(k == 0, 'nothing to do in memory', w, 'flushing an image in memory fails', st=s)
            elif 'failed' in ev:
                r.check(k == 1, 'failures are reported', w, 'a failing flush is not reported', st=s)
            else:
                r.check(k == 0 and 'flush' in ev, 'written', w, 'flushing an image does not write it', st=s)
        r.panics(eng, 'flushing never panics')
