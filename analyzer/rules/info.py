"""The GEOS info block codec."""
from ..core import *
from .bam import fieldv
from .codec import sector_bytes, byte
from .device import errname
from .entry import bytes_of, variants, FLAGS, FA, mask
from .header import items

GI = 'disk::geos::GEOSInfo'
GT = ('NonGEOS', 'BASIC', 'Assembler', 'DataFile', 'SystemFile', 'DeskAccessory', 'Application', 'ApplicationData', 'FontFile',
      'PrinterDriver', 'InputDriver', 'DiskDriver', 'SystemBootFile', 'Temporary', 'AutoExecuteFile')
STR = (('icon', 5, 63), ('class', 0x4D, 20), ('author', 0x61, 20), ('application', 0x75, 20), ('reserved', 0x89, 23), ('description', 0xA0, 96))
ADDR = (('program_load_address', 0x47), ('program_end_address', 0x49), ('program_start_address', 0x4B))


def cases(r, st, by):
    """Split by file type nibble, GEOS type and structure byte; the quick tier varies one of them at a time."""
    full = (1 << 256) - 1
    for t in range(6):
        s = st.copy()
        s.con[by[0x44]] = mask(v for v in range(256) if (v & 15 == t or t == 5 and v & 15 >= 5))
        if r.tier == 'quick':
            s.con[by[0x45]], s.con[by[0x46]] = 1 << 6, 2
        yield s
    for k in list(range(15)) + [None]:
        s = st.copy()
        s.con[by[0x45]] = full & ~mask(range(15)) if k is None else 1 << k
        s.con[by[0x44]] = 1 << 0x83
        s.con[by[0x46]] = 1
        yield s
    for k in (0, 1, None):
        s = st.copy()
        s.con[by[0x46]] = full & ~3 if k is None else 1 << k
        s.con[by[0x44]] = 1 << 0x82
        s.con[by[0x45]] = 1 << 3
        yield s


@rule('C15')
def info_decode(r):
    """every field of a GEOS info block comes from its documented bytes"""
    eng = r.engine()
    eng.exact = 100
    f = r.fn('disk::geos::GEOSInfo::from_bytes')
    w = r.where(f)
    st0 = State()
    obj, buf = sector_bytes(eng, st0, 'info', 256)
    by = [byte(eng, st0, obj, i) for i in range(256)]
    gts, sts, fts = variants(r, 'disk::geos::GEOSFileType'), variants(r, 'disk::geos::GEOSFileStructure'), variants(r, 'disk::directory::FileType')
    n = 0
    for st in cases(r, st0, by):
        for s, v in r.run(eng, f, [buf], st):
            n += 1
            g = lambda x, v=v, t=GI: fieldv(r, eng, s, v, t, x)
            for x, o, L in STR:
                nv = items(eng, s, g(x))
                r.check(None if nv is None else len(nv) == L and all(same(s, nv[i], by[o + i]) == 1 for i in range(L)), '%s = bytes %#x..%#x' % (x, o, o + L), w,
                        '%s of a GEOS info block is not the %d bytes at %#x' % (x, L, o), st=s)
            for x, o in ADDR:
                r.want(s, g(x), lin_add(by[o], lin_scale(by[o + 1], 256)), '%s = bytes %#x,%#x' % (x, o, o + 1), w)
            for x, o, names, doc in (('geos_file_type', 0x45, gts, GT), ('structure', 0x46, sts, ('Sequential', 'VLIR'))):
                k = eng.variant(s, g(x))
                if k is None:
                    r.skip(x + ' not resolved')
                elif names[k] in doc:
                    r.check(r.truth(s, mk_eq(by[o], doc.index(names[k]))), x + ' = ' + names[k], w, '%s decoded as %s for another byte' % (x, names[k]), st=s)
                else:
                    r.want(s, eng.field(s, g(x), 0, k), by[o], x + ': unknown values keep their byte', w)
                    r.check(all(s.decide(mk_eq(by[o], i)) == 0 for i in range(len(doc))), x + ': unknown only for undocumented values', w, 'a documented %s is decoded as unknown' % x, st=s)
            fa = g('file_attributes')
            for x, b in FLAGS:
                r.want(s, g(x, fa, FA), bits_value((as_bits(by[0x44], 8)[b],), 1), '%s = bit %d of byte 0x44' % (x, b), w)
            low = bits_value(as_bits(by[0x44], 8)[:4], 8)
            ft = g('file_type', fa, FA)
            k = eng.variant(s, ft)
            if k is not None and fts[k] in ('DEL', 'SEQ', 'PRG', 'USR', 'REL'):
                r.check(r.truth(s, mk_eq(low, ('DEL', 'SEQ', 'PRG', 'USR', 'REL').index(fts[k]))), 'file type', w, 'the CBM file type in an info block is misread as %s' % fts[k], st=s)
    r.check(n > 0, 'decoding returns', w)
    r.panics(eng, 'decoding an info block never panics')


@rule('C15')
def info_roundtrip(r):
    """writing an info block reproduces every byte it was read from and leaves the first five bytes alone"""
    eng = r.engine()
    eng.exact = 100
    f = r.fn('disk::geos::GEOSInfo::from_bytes')
    f2 = r.fn('disk::geos::GEOSInfo::to_bytes')
    w = r.where(f2)
    st0 = State()
    obj, buf = sector_bytes(eng, st0, 'info', 256)
    out, obuf = sector_bytes(eng, st0, 'out', 256)
    by = [byte(eng, st0, obj, i) for i in range(256)]
    ob = [byte(eng, st0, out, i) for i in range(256)]
    n = 0
    for st in cases(r, st0, by):
        for s, v in r.run(eng, f, [buf], st):
            s = s.copy()
            o = ('O', 'gi', r.ty(GI))
            s.mem[o] = v
            for s2, _ in r.run(eng, f2, [mk('ptr', o, (), None), obuf], s):
                n += 1
                for i in range(256):
                    got = byte(eng, s2, out, i)
                    r.want(s2, got, ob[i] if i < 5 else by[i], 'byte %#x' % i, w, 'byte %#x of a rewritten GEOS info block becomes %s' % (i, show(got)[:80]))
    r.check(n > 0, 'encoding returns', w)
    r.panics(eng, 'encoding an info block never panics')


@rule('C15')
def info_of_file(r):
    """the info block of a GEOS file is decoded from the sector its directory entry names; an unreadable one is an error"""
    from .records import opened, links, vlir, geos, A
    f = r.fn('disk::geos::file::GEOSFile::info')
    w = r.where(f)
    seen = set()
    I = (9, 4)
    for struct in (0, 1):
        for where in (I, (0, 0), (99, 1)):
            cont = {A: vlir(None) if struct else links((0, 101))[0]}
            eng, st, p = opened(r, 'disk::geos::file::GEOSFile', 0x83, geos(struct, where), cont, (A, I))
            if p is None:
                r.skip('GEOS file does not open')
                continue
            eng.exact = 100
            for s, v in r.run(eng, f, [p], st):
                k = eng.variant(s, v)
                if where == (99, 1):
                    r.check(k == 1, 'unreadable info block', w, 'the info block cannot be read but no error is reported', st=s)
                    seen.add('err')
                    continue
                if k != 0:
                    r.check(0, 'info', w, 'reading the info block at %s fails' % (where,), st=s)
                    continue
                o = v.a[1][0]
                ok = eng.variant(s, o)
                if where == (0, 0):
                    r.check(ok == 0, 'no info block', w, 'a file without info block yields one', st=s)
                    seen.add('none')
                    continue
                r.check(ok == 1, 'info block found', w, 'the info block is not reported', st=s)
                if ok == 1:
                    seen.add('some')
                    gi = eng.field(s, o, 0, 1)
                    sec = eng.load(s, ('sec', mk('agg', 0, where)))
                    for x, off, L in STR:
                        nv = items(eng, s, fieldv(r, eng, s, gi, GI, x))
                        r.check(None if nv is None else len(nv) == L and all(same(s, nv[i], eng.seq_get(s, sec, off + i)) == 1 for i in range(L)), x, w,
                                '%s comes from elsewhere than sector %s' % (x, where), st=s)
            r.panics(eng, 'never panics')
    r.check(seen == {'err', 'none', 'some'}, 'outcomes', w, 'outcomes %s' % seen)
