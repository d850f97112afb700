"""Text: PETSCII strings to and from Unicode, padding, and what the listings print."""
from ..core import *
from .. import texts
from .disks import mkobj, opaque, disk, dty
from .alloc import setfield
from .bam import KINDS, fieldv
from .entry import variants

PET = 'petscii::Petscii'
X = 0xFFFD


def table():
    """The documented character of every PETSCII code."""
    t = [X] * 0x20 + list(range(0x20, 0x40)) + [0x40] + [ord(c) for c in 'abcdefghijklmnopqrstuvwxyz'] + [0x5B, 0xA3, 0x5D, 0x2191, 0x2190]
    up = [0x2501] + [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'] + [0x254B, X, 0x2503, 0x2592, X]
    g = [0xA0, 0x258C, 0x2584, 0x2594, 0x2581, 0x258E, 0x2592, 0x2595, X, X, 0x2595, 0x2523, 0x2597, 0x2517, 0x2513, 0x2582,
         0x250F, 0x253B, 0x2533, 0x252B, 0x258E, 0x258D, 0x2595, 0x2594, 0x2594, 0x2583, 0x2713, 0x2596, 0x259D, 0x2518, 0x2598]
    return t + up + [X] * 0x20 + g + [0x259A] + up + g + [0x2592]


TABLE = table()


def engine(r):
    eng = r.engine()
    texts.enable(eng)
    return eng


def pet(r, eng, st, es, name='pet'):
    q = eng.mkseq(eng.u8(), (('e', tuple(es)),) if es else ())
    pt = r.F.types[r.ty(PET)]['variants'][0]['f']
    if len(pt) != 1:
        raise Skip('representation of Petscii')
    v = mk('agg', 0, (q,))
    return mkobj(eng, st, name, r.ty(PET), v), v


def bytes_in(eng, st, v):
    while isV(v, 'agg') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return eng.explode(v) if isV(v, 'seq') else None


def show_of(r, eng, st, inst, p, flags=texts.PLAIN):
    """What a Display/Debug implementation writes: [(state, result, characters)]"""
    sp = texts.buffer(eng, st, 'out')
    f = texts.formatter(eng, st, 'fmtr', sp, flags)
    return [(s, v, texts.chars(eng, s, eng.deref(s, sp))) for s, v in r.run(eng, inst, [p, f], st)]


def shown(es):
    return ''.join(chr(x) if isinstance(x, int) else '<%s>' % show(x)[:30] for x in es or ())


def want_text(r, s, got, exp, text, w):
    if got is None:
        return r.skip(text + ': text not tracked')
    if len(got) != len(exp):
        c = 0
        if any(not isinstance(x, int) for x in got + exp):
            c = None if any(isV(x, 'op') for x in got + exp) else 0
        return r.check(c, text, w, '%s: prints "%s" instead of "%s"' % (text, shown(got)[:80], shown(exp)[:80]), st=s)
    for i, (a, b) in enumerate(zip(got, exp)):
        if a is b or a == b:
            continue
        if isinstance(a, int) and isinstance(b, int):
            return r.check(0, text, w, '%s: prints "%s" instead of "%s"' % (text, shown(got)[:80], shown(exp)[:80]), st=s)
        if isV(a, 'op') or isV(b, 'op'):
            return r.check(None, text, w, '%s: "%s" or "%s"' % (text, shown(got)[:80], shown(exp)[:80]), st=s)
        return r.want(s, a, b, '%s (character %d)' % (text, i), w)
    r.ok(text)


def fmt_of(r, ty, trait='std::fmt::Display'):
    return r.method(ty, 'fmt', trait)


def char_of(b):
    """The documented character of a byte, known or not."""
    return TABLE[b] if isinstance(b, int) else mk_tab(b, tuple(TABLE))


@rule('C26')
def displayed(r):
    """every PETSCII code is shown as its documented character, one character per byte, in order"""
    f = fmt_of(r, PET)
    w = r.where(f)
    for n in (0, 1, 2, 15, 16, 17, 255, 300):
        eng, st = engine(r), State()
        src = eng.mkseq(eng.u8(), (('b', 'pet', 0, n),) if n else ())
        bs = [eng.seq_get(st, src, i) for i in range(n)]
        p = mkobj(eng, st, 'pet', r.ty(PET), mk('agg', 0, (src,)))
        for s, v, got in show_of(r, eng, st, f, p):
            want_text(r, s, got, [char_of(b) for b in bs], 'a string of %d codes' % n, w)
            r.check(r.variant(eng, s, v, 'shown', w, 'result') == 0, 'showing a string succeeds', w, st=s)
        r.panics(eng, 'showing a string never panics')


@rule('C26')
def converted(r):
    """text becomes one code per character: the lowest code shown as that character, 0x7F if there is none"""
    F = r.fn('petscii::Petscii::from_str_lossy')
    w = r.where(F)
    first = {}
    for b, c in enumerate(TABLE):
        first.setdefault(c, b)
    for n, at in ((1, 0), (2, 0), (2, 1), (3, 1), (17, 16), (40, 39)):
        eng, st = engine(r), State()
        c = term('sym', 21, ('chr',))
        st.assume(mk_lt(c, 0x110000), 1)
        es = [TABLE[0x30 + i] for i in range(n)]
        es[at] = c
        q = mkobj(eng, st, 'text', r.ty('std::string::String'), eng.mkseq(eng.u8(), (('e', tuple(es)),)))
        rs = r.run(eng, F, [mk('sl', q.a[0], (), 0, n)], st)
        seen = set()
        for s, v in rs:
            got = bytes_in(eng, s, v)
            if got is None:
                r.skip('result not tracked')
                continue
            r.check(len(got) == n, 'one code per character', w, 'a text of %d characters becomes %d codes' % (n, len(got)), st=s)
            if len(got) != n:
                continue
            for i in range(n):
                if i != at:
                    r.want(s, got[i], 0x30 + i, 'character %d of %d' % (i, n), w)
            k = known(s, c, first)
            if k is None:
                if not r.possible(s):
                    continue
                r.want(s, got[at], 0x7F, 'a character without code', w)
                seen.add(None)
            elif k != X:
                r.want(s, got[at], first[k], 'character U+%04X' % k, w)
                seen.add(k)
        for k in first:
            if k != X:
                r.check(k in seen or not rs, 'character U+%04X has an outcome' % k, w) if k in seen else r.skip('U+%04X has no path of its own' % k)
        r.panics(eng, 'converting text never panics')
    for n in (0, 5, 16, 17, 100):
        eng, st = engine(r), State()
        es = [ord('a') + i % 26 for i in range(n)]
        q = mkobj(eng, st, 'text', r.ty('std::string::String'), eng.mkseq(eng.u8(), (('e', tuple(es)),) if es else ()))
        for s, v in r.run(eng, F, [mk('sl', q.a[0], (), 0, n)], st):
            got = bytes_in(eng, s, v)
            r.check(got == [0x41 + i % 26 for i in range(n)] if got is not None else None, 'a text of %d letters' % n, w, 'a text of %d letters becomes %d codes' % (n, len(got or ())), st=s)


def known(s, c, first):
    """The character c is known to be on this path, or None when it is known to be none of the table."""
    for k in first:
        if s.decide(mk_eq(c, k)) == 1:
            return k
    return None


@rule('C26')
def conversions(r):
    """every other way of converting (From, Into, to_string) agrees with these two"""
    names = {x['lname']: x for x in r.F.insts if 'body' in x and x['local']}
    txt = [ord(c) for c in ' Ab1 \u00a3\u2190!'] + [0x1F600, 0x20]
    codes = [0x20, 0x61, 0x42, 0x31, 0x20, 0x5C, 0x5F, 0x21, 0x7F, 0x20]
    n = 0
    for to, want in ((PET, codes), ('disk::Id', codes[:2])):
        for src in ('std::string::String', "&'a std::string::String", "&'a str", '&std::string::String', '&str'):
            f = names.get('<%s as std::convert::From<%s>>::from' % (to, src))
            if f is None:
                continue
            n += 1
            eng, st = engine(r), State()
            q = eng.mkseq(eng.u8(), (('e', tuple(txt)),))
            p = mkobj(eng, st, 'text', r.ty('std::string::String'), q)
            a = q if not src.startswith('&') else p if 'String' in src else mk('sl', p.a[0], (), 0, len(txt))
            for s, v in r.run(eng, f, [a], st):
                got = bytes_in(eng, s, v)
                r.check(None if got is None else got == want, 'conversion of text', r.where(f), 'text becomes %s instead of %s' % (got, want), st=s)
            r.panics(eng, 'conversion never panics')
    for src, args in ((PET, codes), ('disk::Id', codes[:2])):
        f = next((x for k, x in names.items() if k.endswith('<impl std::convert::From<%s> for std::string::String>::from' % src)), None)
        if f is None:
            continue
        n += 1
        eng, st = engine(r), State()
        a = mk('agg', 0, (eng.mkseq(eng.u8(), (('e', tuple(args)),)),))
        for s, v in r.run(eng, f, [a], st):
            want_text(r, s, texts.chars(eng, s, v) if isV(v, 'seq') else None, [TABLE[x] for x in args], 'conversion to text', r.where(f))
        r.panics(eng, 'conversion never panics')
    r.check(n >= 6 or None, 'the conversions were found', PET)


@rule('C26')
def identifier(r):
    """a disk id is the first two bytes given, zero where there is none; it is shown as those two characters"""
    f = r.method('disk::Id', 'from', 'std::convert::From<&[u8]>')
    w = r.where(f)
    for n in (0, 1, 2, 3, 17):
        eng, st = engine(r), State()
        q = mkobj(eng, st, 'b', r.ty('std::vec::Vec<u8>'), eng.mkseq(eng.u8(), (('b', 'id', 0, n),) if n else ()))
        bs = [eng.seq_get(st, st.mem[q.a[0]], i) for i in range(n)]
        for s, v in r.run(eng, f, [mk('sl', q.a[0], (), 0, n)], st):
            got = bytes_in(eng, s, v)
            if got is None:
                r.skip('id not tracked')
                continue
            r.check(len(got) == 2, 'an id has two bytes', w, st=s)
            for i in range(2):
                r.want(s, got[i], bs[i] if i < n else 0, 'byte %d of an id of %d bytes' % (i, n), w)
        r.panics(eng, 'an id can be made of any bytes')
    f = r.fn('disk::<impl std::convert::From<disk::Id> for petscii::Petscii>::from')
    eng, st = engine(r), State()
    q = eng.mkseq(eng.u8(), (('b', 'id', 0, 2),))
    for s, v in r.run(eng, f, [mk('agg', 0, (q,))], st):
        got = bytes_in(eng, s, v)
        for i in range(2):
            r.want(s, got[i] if got and len(got) == 2 else 0, eng.seq_get(s, q, i), 'byte %d of the id' % i, r.where(f))
    f = fmt_of(r, 'disk::Id')
    for a, b in ((0x32, 0x41), (0x00, 0xC1), (0xA0, 0x5F)):
        eng, st = engine(r), State()
        p = mkobj(eng, st, 'id', r.ty('disk::Id'), mk('agg', 0, (eng.mkseq(eng.u8(), (('e', (a, b)),)),)))
        for s, v, got in show_of(r, eng, st, f, p):
            want_text(r, s, got, [TABLE[a], TABLE[b]], 'the id %02x %02x' % (a, b), r.where(f))


@rule('C26')
def padding(r):
    """reading a padded field drops exactly the trailing padding; writing one copies the string and pads the rest, or refuses"""
    f = r.fn('petscii::Petscii::from_padded_bytes')
    w = r.where(f)
    for n in (0, 1, 2, 5, 16):
        eng, st = engine(r), State()
        src = eng.mkseq(eng.u8(), (('b', 'raw', 0, n),) if n else ())
        q = mkobj(eng, st, 'b', r.ty('std::vec::Vec<u8>'), src)
        bs = [eng.seq_get(st, src, i) for i in range(n)]
        pad = term('sym', 8, ('pad',))
        seen = set()
        for s, v in r.run(eng, f, [mk('sl', q.a[0], (), 0, n), pad], st):
            got = bytes_in(eng, s, v)
            if got is None:
                r.skip('padded string not tracked')
                continue
            k = len(got)
            seen.add(k)
            r.check(k <= n, 'no longer than the field', w, st=s)
            for i in range(min(k, n)):
                r.want(s, got[i], bs[i], 'byte %d of the string' % i, w)
            for i in range(k, n):
                r.truth(s, mk_eq(bs[i], pad), 1) == 1 or r.check(r.truth(s, mk_eq(bs[i], pad), 1), 'only padding is dropped', w, 'byte %d of a field of %d is dropped though it is not padding' % (i, n), st=s)
            if 0 < k <= n:
                r.check(r.truth(s, mk_eq(bs[k - 1], pad), 0), 'all trailing padding is dropped', w, 'the string of a field of %d bytes ends with padding' % n, st=s)
        for k in range(n + 1):
            k in seen or r.skip('no path for a string of %d in a field of %d' % (k, n))
        r.panics(eng, 'reading a padded field never panics')
    f = r.fn('petscii::Petscii::write_bytes_with_padding')
    w = r.where(f)
    for n in (0, 1, 2, 16):
        for m in (0, 1, 2, 3, 15, 16, 17):
            eng, st = engine(r), State()
            src = eng.mkseq(eng.u8(), (('b', 'nm', 0, n),) if n else ())
            p = mkobj(eng, st, 'pet', r.ty(PET), mk('agg', 0, (src,)))
            old = eng.mkseq(eng.u8(), (('b', 'old', 0, m),) if m else ())
            q = mkobj(eng, st, 'dst', r.ty('std::vec::Vec<u8>'), old)
            pad = term('sym', 8, ('pad',))
            for s, v in r.run(eng, f, [p, mk('sl', q.a[0], (), 0, m), pad], st):
                now = eng.explode(s.mem[q.a[0]])
                k = r.variant(eng, s, v, 'outcome', w, 'writing a padded field: outcome unclear')
                if k is None:
                    continue
                r.check(k == (1 if n > m else 0), 'refused exactly if too long', w, 'a string of %d codes %s a field of %d' % (n, 'does not fit' if k else 'is accepted for', m), st=s)
                if now is None or len(now) != m:
                    r.skip('field not tracked')
                    continue
                if k == 0 and n <= m:
                    for i in range(m):
                        r.want(s, now[i], eng.seq_get(s, src, i) if i < n else pad, 'byte %d of a field of %d holding %d' % (i, m, n), w)
                elif k:
                    for i in range(m):
                        r.want(s, now[i], eng.seq_get(s, old, i), 'a refused field is left alone', w)
            r.panics(eng, 'writing a padded field never panics')


@rule('C26')
def contents(r):
    """the bytes of a string are exactly those it was made of, however they are looked at; equality is equality of bytes"""
    f = r.fn('petscii::Petscii::from_bytes')
    for n in (0, 1, 3, 20):
        eng, st = engine(r), State()
        src = eng.mkseq(eng.u8(), (('b', 'raw', 0, n),) if n else ())
        q = mkobj(eng, st, 'b', r.ty('std::vec::Vec<u8>'), src)
        bs = [eng.seq_get(st, src, i) for i in range(n)]
        for s, v in r.run(eng, f, [mk('sl', q.a[0], (), 0, n)], st):
            p = mkobj(eng, s, 'pet', r.ty(PET), v)
            g = r.fn('petscii::Petscii::as_bytes')
            for s2, b in r.run(eng, g, [p], s.copy()):
                sq = eng.seq_of(s2, b)
                got = eng.explode(sq) if sq is not None else None
                r.check(None if got is None else len(got) == n and all(same(s2, x, y) == 1 for x, y in zip(got, bs)), 'as_bytes of %d' % n, r.where(g), 'as_bytes differs from the bytes given', st=s2)
            g = r.fn('petscii::Petscii::len')
            for s2, b in r.run(eng, g, [p], s.copy()):
                r.want(s2, b, n, 'len', r.where(g))
            g = r.fn('petscii::Petscii::is_empty')
            for s2, b in r.run(eng, g, [p], s.copy()):
                r.want(s2, b, int(n == 0), 'is_empty', r.where(g))
            g = r.method(PET, 'index', 'std::ops::Index<usize>')
            for i in range(n):
                for s2, b in r.run(eng, g, [p, i], s.copy()):
                    r.want(s2, eng.deref(s2, b), bs[i], 'byte %d' % i, r.where(g))
            g = r.method(PET, 'as_ref', 'std::convert::AsRef<[u8]>')
            for s2, b in r.run(eng, g, [p], s.copy()):
                sq = eng.seq_of(s2, b)
                got = eng.explode(sq) if sq is not None else None
                r.check(None if got is None else len(got) == n and all(same(s2, x, y) == 1 for x, y in zip(got, bs)), 'as_ref of %d' % n, r.where(g), 'as_ref differs from the bytes given', st=s2)
    g = r.method(PET, 'eq', 'std::cmp::PartialEq')
    w = r.where(g)
    for n, m in ((0, 0), (0, 1), (1, 1), (2, 1), (3, 3)):
        eng, st = engine(r), State()
        a = eng.mkseq(eng.u8(), (('b', 'x', 0, n),) if n else ())
        b = eng.mkseq(eng.u8(), (('b', 'y', 0, m),) if m else ())
        pa, pb = mkobj(eng, st, 'a', r.ty(PET), mk('agg', 0, (a,))), mkobj(eng, st, 'b', r.ty(PET), mk('agg', 0, (b,)))
        for s, v in r.run(eng, g, [pa, pb], st):
            for val in (0, 1):
                s2 = s.copy()
                if not s2.assume(v, val) if not isinstance(v, int) else v != val:
                    continue
                if n != m:
                    r.check(val == 0 or not r.possible(s2), 'strings of different length differ', w, 'strings of %d and %d codes are equal' % (n, m), st=s2)
                elif val == 1:
                    for i in range(n):
                        e = r.truth(s2, mk_eq(eng.seq_get(s2, a, i), eng.seq_get(s2, b, i)), 1)
                        r.check(e, 'equal strings have equal codes', w, 'strings differing in code %d of %d are equal' % (i, n), st=s2)


# ---------------------------------------------------------------------- listings

FT, FA, DE = 'disk::directory::FileType', 'disk::directory::FileAttributes', 'disk::directory::DirectoryEntry'
HD, LOC, POS = 'disk::header::Header', 'disk::block::Location', 'disk::block::Position'
TYPES = {'DEL': 'del', 'SEQ': 'seq', 'PRG': 'prg', 'USR': 'usr', 'REL': 'rel', 'Unknown': 'unk'}
T = lambda s: [ord(c) for c in s]


def attributes(r, eng, kind, closed, locked, replace):
    vs = variants(r, FT)
    fv = r.F.types[r.ty(FT)]['variants'][vs.index(kind)]['f']
    v = eng.expand(State(), eng.mkop(r.ty(FA), 'attr'), 0)
    for k, x in (('file_type', mk('agg', vs.index(kind), tuple(7 for _ in fv))), ('closed_flag', closed), ('locked_flag', locked), ('save_with_replace_flag', replace)):
        v = setfield(r, v, FA, k, x)
    return v


def shown_attributes(kind, closed, locked, replace):
    return (' ' if closed else '*') + TYPES[kind] + ({(1, 0): '<', (0, 1): '@', (1, 1): '<@', (0, 0): ' '}[locked, replace])


@rule('C27')
def file_kinds(r):
    """a file's type is shown as its three letters, open files with *, locked ones with <, replaced ones with @"""
    f = fmt_of(r, FA)
    for kind in variants(r, FT):
        if kind not in TYPES:
            raise Skip('file type ' + kind)
        for fl in [(c, l, p) for c in (0, 1) for l in (0, 1) for p in (0, 1)]:
            eng, st = engine(r), State()
            p = mkobj(eng, st, 'fa', r.ty(FA), attributes(r, eng, kind, *fl))
            for s, v, got in show_of(r, eng, st, f, p):
                want_text(r, s, got, T(shown_attributes(kind, *fl)), 'attributes of a %s file (closed, locked, replace = %s)' % (kind, fl), r.where(f))
                r.check(r.variant(eng, s, v, 'shown', r.where(f), 'result') == 0, 'showing attributes succeeds', r.where(f), st=s)
            r.panics(eng, 'showing attributes never panics')


SIZES = (0, 1, 9, 10, 99, 100, 664, 999, 1000, 9999, 10000, 65535)


@rule('C27')
def entry_line(r):
    """a directory line: block count in four columns, quoted name in eighteen, type and flags; border files are marked"""
    f = fmt_of(r, DE)
    w = r.where(f)
    cases = [(sz, n, 'PRG', (1, 0, 0), 0) for sz in SIZES + (None,) for n in (0, 5, 16)]
    cases += [(12, n, 'SEQ', (1, 1, 0), b) for n in range(17) for b in (0, 1)]
    cases += [(7, 3, k, fl, b) for k in TYPES for fl in ((0, 0, 0), (1, 1, 1), (0, 0, 1)) for b in (0, 1)]
    for sz, n, kind, fl, border in cases:
        for alt in (0, texts.ALT):
            eng, st = engine(r), State()
            size = term('sym', 16, ('size',)) if sz is None else sz
            src = eng.mkseq(eng.u8(), (('b', 'nm', 0, n),) if n else ())
            bs = [eng.seq_get(st, src, i) for i in range(n)]
            v = eng.expand(st, eng.mkop(r.ty(DE), 'entry'), 0)
            for k, x in (('file_size', size), ('filename', mk('agg', 0, (src,))), ('geos_border', border), ('file_attributes', attributes(r, eng, kind, *fl))):
                v = setfield(r, v, DE, k, x)
            vs = variants(r, 'disk::directory::Extra')
            v = setfield(r, v, DE, 'extra', mk('agg', vs.index('Linear'), (opaque(r, eng, st, 'lin', 'disk::directory::LinearExtra'),)))
            p = mkobj(eng, st, 'entry', r.ty(DE), v)
            num = T('%-4d' % sz) if sz is not None else [texts.num(eng, 'display', size, texts.PLAIN & ~(3 << 29) | texts.HASW, 4)]
            exp = num + T(' "') + [char_of(b) for b in bs] + T('"'.ljust(18 - n - 1)) + T(shown_attributes(kind, *fl))
            tail = T(' (GEOS border)') if border else []
            for s, rv, got in show_of(r, eng, st, f, p, texts.PLAIN | alt):
                if got is not None and alt:
                    # the verbose form adds a description of the storage scheme
                    r.check(len(got) > len(exp) + len(tail), 'the verbose line says more', w, st=s)
                    got = got[:len(exp)] + (got[-len(tail):] if tail else [])
                want_text(r, s, got, exp + tail, 'the line of a file of %s blocks with a name of %d' % (sz, n), w)
                r.check(r.variant(eng, s, rv, 'shown', w, 'result') == 0, 'showing an entry succeeds', w, st=s)
            r.panics(eng, 'showing an entry never panics')


@rule('C27', *KINDS)
def title_line(r, kind):
    """the title line: 0, the quoted disk name, the id, DOS version and format; an unreadable header is said to be so"""
    f = r.fn("<(dyn disk::Disk + 'static) as std::fmt::Display>::fmt", "<dyn disk::Disk as std::fmt::Display>::fmt")
    w = r.where(f)
    for n in (0, 1, 5, 16):
        eng, st = engine(r), State()
        src = eng.mkseq(eng.u8(), (('b', 'nm', 0, n),) if n else ())
        bs = [eng.seq_get(st, src, i) for i in range(n)]
        ids = eng.mkseq(eng.u8(), (('b', 'id', 0, 2),))
        ver, fmt = term('sym', 8, ('ver',)), term('sym', 8, ('fmt',))
        h = opaque(r, eng, st, 'hdr', HD)
        for k, x in (('disk_name', mk('agg', 0, (src,))), ('disk_id', mk('agg', 0, (ids,))), ('directory_dos_version', ver), ('directory_format_type', fmt), ('geos', none())):
            h = setfield(r, h, HD, k, x)
        p, _ = disk(r, eng, st, kind, header=h)
        p = mk('ptr', p.a[0], p.a[1], r.ty(dty(kind)))
        for s, v, got in show_of(r, eng, st, f, p):
            exp = T('0 "') + [char_of(b) for b in bs]
            end = T('" ') + [char_of(eng.seq_get(s, ids, i)) for i in range(2)] + T(' ') + [char_of(ver), char_of(fmt)]
            pad = len(got) - len(exp) - len(end) if got is not None else 0
            if pad and pad == 16 - n:
                exp = exp + T(' ' * pad)
            want_text(r, s, got, exp + end, 'the title of a disk with a name of %d' % n, w)
            r.check(r.variant(eng, s, v, 'shown', w, 'result') == 0, 'showing a disk succeeds', w, st=s)
        r.panics(eng, 'showing a disk never panics')


@rule('C27')
def places(r):
    """sectors are shown as (track,sector), positions with their offset in hexadecimal"""
    f = fmt_of(r, LOC)
    for t, x in [(t, x) for t in (0, 1, 9, 10, 18, 35, 99, 100, 255) for x in (0, 9, 10, 20, 99, 255)] + [(None, None)]:
        eng, st = engine(r), State()
        a, b = (term('sym', 8, ('t',)), term('sym', 8, ('s',))) if t is None else (t, x)
        d = lambda v: T(str(v)) if isinstance(v, int) else [texts.num(eng, 'display', v)]
        p = mkobj(eng, st, 'loc', r.ty(LOC), mk('agg', 0, (a, b)))
        for s, v, got in show_of(r, eng, st, f, p):
            want_text(r, s, got, T('(') + d(a) + T(',') + d(b) + T(')'), 'sector (%s,%s)' % (t, x), r.where(f))


VE = 'disk::validation::ValidationError'


@rule('C27')
def findings(r):
    """each validation error names its sector and the files involved, in order, and its kind"""
    f = fmt_of(r, VE)
    w = r.where(f)
    kinds = {}
    vs = r.F.types[r.ty(VE)]['variants']
    for i, vr in enumerate(vs):
        eng, st = engine(r), State()
        args, need, names = [], [], iter((T('first'), T('SECOND')))
        for k, x in enumerate(vr['f']):
            t = r.F.types[x['t']]
            if t.get('ldef') == LOC:
                args.append(mk('agg', 0, (18, 7)))
                need.append('(18,7)')
            elif t.get('ldef') == PET:
                nm = next(names)
                args.append(pet(r, eng, st, [c & 0x5F if c >= 97 else c + 32 for c in nm])[1])
                need.append('"%s"' % shown(nm))
            elif t.get('ldef') == 'disk::error::DiskError':
                args.append(mk('agg', [y['n'] for y in t['variants']].index('ChainLoop'), ()))
            else:
                raise Skip('validation error field')
        p = mkobj(eng, st, 've', r.ty(VE), mk('agg', i, tuple(args)))
        for s, v, got in show_of(r, eng, st, f, p):
            if got is None or s.taint:
                r.skip('text of %s not tracked' % vr['n'])
                continue
            text = shown(got)
            at = 0
            for x in need:
                k = text.find(x, at if x[0] == '"' else 0)
                r.check(k >= 0, '%s names %s' % (vr['n'], x), w, '%s is described as "%s" without %s' % (vr['n'], text, x), st=s)
                at = max(at, k + 1)
            kinds.setdefault(text.split('(')[0].split('"')[0], []).append(vr['n'])
            r.check(len(kinds[text.split('(')[0].split('"')[0]]) == 1 or len(need) > 1, '%s can be told apart' % vr['n'], w, '%s reads like %s' % (vr['n'], kinds[text.split('(')[0].split('"')[0]][0]), st=s)
        r.panics(eng, 'describing an error never panics')


@rule('C27')
def hexdump(r):
    """a dump shows every byte once, in order, in rows of sixteen with their offset, in hexadecimal and as text"""
    f = r.fn('util::hexdump')
    w = r.where(f)
    for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 256):
        for base in (0, 131) if n < 256 else (0,):
            eng, st = engine(r), State()
            es = [(base + 37 * i) & 255 if n != 256 else i for i in range(n)]
            q = mkobj(eng, st, 'buf', r.ty('std::vec::Vec<u8>'), eng.mkseq(eng.u8(), (('e', tuple(es)),) if es else ()))
            pre = mkobj(eng, st, 'pre', r.ty('std::string::String'), eng.mkseq(eng.u8(), (('e', tuple(T('> '))),)))
            sp = texts.buffer(eng, st, 'out')
            fm = texts.formatter(eng, st, 'fmtr', sp)
            rows = []
            for o in range(0, max(n, 1), 16):
                row = es[o:o + 16]
                rows.append('> %04x: ' % o + ''.join('%02x ' % b for b in row) + ('   ' * (16 - len(row)) if row else '') + ''.join(chr(b) if 0x20 <= b <= 0x7E else '.' for b in row))
            for s, v in r.run(eng, f, [fm, mk('sl', pre.a[0], (), 0, 2), mk('sl', q.a[0], (), 0, n)], st):
                want_text(r, s, texts.chars(eng, s, eng.deref(s, sp)), T('\n'.join(rows)), 'a dump of %d bytes' % n, w)
            r.panics(eng, 'dumping never panics')


@rule('C27')
def geos_text(r):
    """a GEOS string is shown up to its terminator, printable characters as they are"""
    f = r.fn('disk::geos::GEOSString::to_escaped_string')
    w = r.where(f)
    t = r.ty('disk::geos::GEOSString')
    for b in range(256):
        for es in ([b], [0x41, b, 0x42, 0x20, 0, 0x43], [b, b], []):
            eng, st = engine(r), State()
            p = mkobj(eng, st, 'gs', t, mk('agg', 0, (eng.mkseq(eng.u8(), (('e', tuple(es)),) if es else ()),)))
            cut = es[:es.index(0)] if 0 in es else es
            if any(not 0x20 <= x < 0x7F or x in (0x22, 0x27, 0x5C) for x in cut):
                exp = None                       # escaped: only bounded from below
            else:
                exp = list(cut)
            for s, v in r.run(eng, f, [p], st):
                got = texts.chars(eng, s, v) if isV(v, 'seq') else None
                if exp is not None:
                    want_text(r, s, got, exp, 'the GEOS string %s' % bytes(es), w)
                elif got is None:
                    r.skip('GEOS string not tracked')
                else:
                    r.check(len(got) >= len(cut) and all(isinstance(x, int) and 0x20 <= x < 0x7F for x in got), 'the GEOS string %s is printable' % bytes(es), w, st=s)
            r.panics(eng, 'showing a GEOS string never panics')


BLOCKS = [0x20, 0x2597, 0x2596, 0x2584, 0x259D, 0x2590, 0x259E, 0x259F, 0x2598, 0x259A, 0x258C, 0x2599, 0x2580, 0x259C, 0x259B, 0x2588]


@rule('C27')
def icon(r):
    """an icon is drawn pixel by pixel: two by two pixels per character, twelve characters per line, eleven lines"""
    f = r.fn('sprite::Sprite::to_unicode')
    w = r.where(f)
    for y in range(11):
        for x in range(12):
            for bg in (0, 1):
                # the four pixels of one character are unknown
                c = term('sym', 4, ('cell',))
                px = lambda i, j: bg if (i // 2, j // 2) != (x, y) else (c, 3 - (i % 2) - 2 * (j % 2), 0)
                es = [bits_value([px(8 * k + 7 - b, j) for b in range(8)], 8) for j in range(21) for k in range(3)]
                eng, st = engine(r), State()
                p = mkobj(eng, st, 'sp', r.ty('sprite::Sprite'), mk('agg', 0, (eng.mkseq(eng.u8(), (('e', tuple(es)),)),)))
                for s, v in r.run(eng, f, [p], st):
                    got = texts.chars(eng, s, v) if isV(v, 'seq') else None
                    exp = []
                    for j in range(11):
                        last = j == 10
                        for i in range(12):
                            tab = [BLOCKS[k & 12 if last else k] for k in range(16)]
                            exp.append(mk_tab(c, tab) if (i, j) == (x, y) else tab[15 * bg])
                        exp.append(10)
                    want_text(r, s, got, exp, 'pixels of the character in column %d, line %d' % (x, y), w)
                r.panics(eng, 'drawing an icon never panics')
