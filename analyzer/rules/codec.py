"""Chain links, error conversion."""
from ..core import *


def sector_bytes(eng, st, name, n):
    """A fresh n-byte buffer -> (object, slice value)."""
    obj = ('O', name, eng.tyid('[u8]'))
    st.mem[obj] = eng.mkseq(eng.u8(), (('b', name, 0, n),))
    return obj, mk('sl', obj, (), 0, n)


def byte(eng, st, obj, i):
    return eng.seq_get(st, st.mem[obj], i)


def eqv(st, a, b):
    if isV(a) and not isinstance(a, int) and a.k not in ('t', 'tab', 'bv'):
        return 1 if a is b else 0
    c = mk_eq(a, b)
    return st.decide(c)


@rule('C11')
def link_decode(r):
    """ChainLink::new decodes every pair of link bytes as documented, from the first two bytes only"""
    f = r.fn('disk::chain::ChainLink::new')
    eng = r.engine()
    st = State()
    obj, sl = sector_bytes(eng, st, 'blk', 256)
    b0, b1 = byte(eng, st, obj, 0), byte(eng, st, obj, 1)
    cover = {}
    for s, v in r.run(eng, f, [sl], st):
        if eng.variant(s, v) == 0:
            x = v.a[1][0]
            if eng.variant(s, x) == 0:
                loc = x.a[1][0]
                t, q = eng.field(s, loc, 0, None), eng.field(s, loc, 1, None)
                r.check(s.decide(mk_eq(b0, 0)) == 0, 'Next only when byte 0 is nonzero', r.where(f), st=s)
                r.check(eqv(s, t, b0) == 1 and eqv(s, q, b1) == 1, 'Next carries (byte 0, byte 1)', r.where(f),
                        'Next(%s, %s) for link bytes (b0, b1)' % (show(t), show(q)), st=s)
                cover['next'] = 1
            else:
                n = x.a[1][0]
                r.check(s.decide(mk_eq(b0, 0)) == 1, 'Tail only when byte 0 is zero', r.where(f), st=s)
                r.check(s.decide(mk_lt(b1, 1)) == 0, 'Tail needs byte 1 >= 1', r.where(f), st=s)
                r.check(s.decide(mk_eq(n, lin_add(b1, 1))) == 1, 'Tail size is byte 1 + 1', r.where(f), 'Tail(%s)' % show(n), st=s, got=n)
                cover['tail'] = 1
        else:
            r.check(s.decide(mk_eq(b0, 0)) == 1 and s.decide(mk_eq(b1, 0)) == 1, 'rejected only for (0,0)', r.where(f), st=s)
            cover['err'] = 1
        r.check(s.mem.get(obj, st.mem[obj]) is st.mem[obj], 'decoding changes nothing', r.where(f), st=s)
    for k in ('next', 'tail', 'err'):
        r.check(k in cover, 'outcome %s exists' % k, r.where(f))
    r.panics(eng, 'link decoding never panics')


@rule('C11')
def link_encode(r):
    """ChainLink::to_bytes writes exactly the two link bytes and decode(encode(x)) = x"""
    f = r.fn('disk::chain::ChainLink::to_bytes')
    dec = r.fn('disk::chain::ChainLink::new')
    lt = r.ty('disk::block::Location')
    u8 = r.ty('u8')
    for kind in ('next', 'tail'):
        eng = r.engine()
        st = State()
        obj, sl = sector_bytes(eng, st, 'blk', 256)
        if kind == 'next':
            t, q = eng.mkop(u8, 't'), eng.mkop(u8, 's')
            st.assume(mk_eq(t, 0), 0)
            x = mk('agg', 0, (mk('agg', 0, (t, q)),))
            want = (t, q)
        else:
            n = eng.mkop(r.ty('usize'), 'n')
            st.assume(mk_lt(n, 2), 0)
            st.assume(mk_lt(256, n), 0)
            x = mk('agg', 1, (n,))
            want = None
        lo = ('O', 'link', r.ty('disk::chain::ChainLink'))
        st.mem[lo] = x
        rs = r.run(eng, f, [mk('ptr', lo, (), None), sl], st)
        r.check(len(rs) > 0, kind + ': returns', r.where(f))
        for s, _ in rs:
            seq = s.mem[obj]
            rest = eng.seq_slice(s, seq, 2, 254)
            r.check(rest == eng.seq_slice(s, st.mem[obj], 2, 254), kind + ': bytes 2..256 untouched', r.where(f), st=s)
            for s2, v in r.run(eng, dec, [sl], s):
                good = eng.variant(s2, v) == 0
                y = v.a[1][0] if good else None
                if good:
                    if kind == 'next':
                        good = eng.variant(s2, y) == 0 and all(eqv(s2, eng.field(s2, y.a[1][0], i, None), want[i]) == 1 for i in (0, 1))
                    else:
                        good = eng.variant(s2, y) == 1 and s2.decide(mk_eq(y.a[1][0], n)) == 1
                r.check(good, kind + ': decode(encode(link)) = link', r.where(f), 'decodes as ' + show(v), st=s2)
        r.panics(eng, kind + ': encoding a valid link never panics')


@rule('C12')
def error_roundtrip(r):
    """every DiskError survives conversion to io::Error and back; equality agrees; foreign errors never alias"""
    et = r.ty('disk::error::DiskError')
    into = r.fn('disk::error::<impl std::convert::From<disk::error::DiskError> for std::io::Error>::from')
    back = r.fn('disk::error::DiskError::from_io_error')
    frm = r.fn('<disk::error::DiskError as std::convert::From<std::io::Error>>::from')
    to = r.fn('disk::error::DiskError::to_io_error')
    eq1 = r.fn('<disk::error::DiskError as std::cmp::PartialEq<std::io::Error>>::eq')
    eq2 = r.fn('disk::error::<impl std::cmp::PartialEq<disk::error::DiskError> for std::io::Error>::eq')
    vs = r.F.types[et]['variants']
    r.check(len(vs) >= 2, 'the error type has several variants', 'DiskError')
    iot = r.ty('std::io::Error')

    def is_var(eng, s, v, i):
        return isV(v) and v.k in ('agg', 'op') and eng.variant(s, v) == i
    ios = []
    for i, v in enumerate(vs):
        for conv in (into, to):
            eng = r.engine()
            st = State()
            eo = ('O', 'e', et)
            st.mem[eo] = mk('agg', i, ())
            arg = st.mem[eo] if conv is into else mk('ptr', eo, (), None)
            rs = r.run(eng, conv, [arg], st)
            r.check(len(rs) > 0, '%s converts' % v['n'], r.where(conv))
            for s, io in rs:
                io_o = ('O', 'io', iot)
                s = s.copy()
                s.mem[io_o] = io
                if conv is into:
                    ios.append((i, io))
                p = mk('ptr', io_o, (), None)
                for s2, o in r.run(eng, back, [p], s):
                    good = eng.variant(s2, o) == 1 and is_var(eng, s2, o.a[1][0], i)
                    r.check(good, '%s: recovered by reference' % v['n'], r.where(conv), '%s comes back as %s' % (v['n'], show(o)), st=s2)
                for s2, o in r.run(eng, frm, [io], s):
                    r.check(is_var(eng, s2, o, i), '%s: recovered by value' % v['n'], r.where(frm), '%s comes back as %s' % (v['n'], show(o)), st=s2)
                for s2, o in r.run(eng, eq1, [mk('ptr', eo, (), None), p], s):
                    r.check(s2.decide(o) == 1, '%s == io' % v['n'], r.where(eq1), st=s2)
                for s2, o in r.run(eng, eq2, [p, mk('ptr', eo, (), None)], s):
                    r.check(s2.decide(o) == 1, 'io == %s' % v['n'], r.where(eq2), st=s2)
            r.panics(eng, '%s: conversions never panic' % v['n'])
    # distinct variants never compare equal
    eng = r.engine()
    for i, io in ios:
        for j in range(len(vs)):
            if i == j:
                continue
            s = State()
            s.mem[('O', 'io', iot)] = io
            s.mem[('O', 'e', et)] = mk('agg', j, ())
            a = [mk('ptr', ('O', 'e', et), (), None), mk('ptr', ('O', 'io', iot), (), None)]
            for s2, o in r.run(eng, eq1, a, s):
                r.check(s2.decide(o) == 0, '%s /= %s' % (vs[j]['n'], vs[i]['n']), r.where(eq1), st=s2)
            for s2, o in r.run(eng, eq2, a[::-1], s):
                r.check(s2.decide(o) == 0, 'io %s /= %s' % (vs[i]['n'], vs[j]['n']), r.where(eq2), st=s2)
    # an io::Error that carries no DiskError
    eng = r.engine()
    s = State()
    plain = mk('ioerr', mk('agg', 0, ()), None, None)
    s.mem[('O', 'io', iot)] = plain
    for s2, o in r.run(eng, back, [mk('ptr', ('O', 'io', iot), (), None)], s):
        r.check(eng.variant(s2, o) == 0, 'a plain io::Error yields None', r.where(back), st=s2)
    # neither does it compare equal to any, whatever it carries
    for what, io in (('a plain io::Error', plain), ('an io::Error of unknown kind', mk('ioerr', eng.mkop(r.F.by_tystr.get('std::io::ErrorKind'), 'kind'), None, None)),
                     ('an io::Error carrying another error', mk('ioerr', mk('agg', 0, ()), mk('op', ('payload',), None), r.ty('u8')))):
        for j, v in enumerate(vs):
            s1 = State()
            s1.mem[('O', 'io', iot)] = io
            s1.mem[('O', 'e', et)] = mk('agg', j, ())
            a = [mk('ptr', ('O', 'e', et), (), None), mk('ptr', ('O', 'io', iot), (), None)]
            for f, x in ((eq1, a), (eq2, a[::-1])):
                for s2, o in r.run(eng, f, x, s1):
                    r.check(s2.decide(o) == 0, '%s /= %s' % (what, v['n']), r.where(f), '%s compares equal to %s' % (what, v['n']), st=s2)
        for s2, o in r.run(eng, back, [a[1]], s1):
            r.check(eng.variant(s2, o) == 0, what + ' yields None', r.where(back), what + ' is taken for a DiskError', st=s2)
    unk = [i for i, v in enumerate(vs) if v['n'] == 'Unknown']
    for what, io in (('a plain io::Error', plain), ('an io::Error carrying another error', mk('ioerr', mk('agg', 0, ()), mk('op', ('payload',), None), r.ty('u8')))):
        for s2, o in r.run(eng, frm, [io], s):
            r.check(bool(unk) and is_var(eng, s2, o, unk[0]), what + ' becomes Unknown', r.where(frm), '%s becomes %s' % (what, show(o)[:60]), st=s2)
