"""Creating and renaming files, extending the directory."""
from ..core import *
from .alloc import setfield
from .bam import KINDS, fieldv, loc
from .chain import ptr_to, sector_byte
from .device import errname
from .disks import mkobj, opaque, BAM, disk, dm
from .entry import variants
from .files import persisted, FA
from .trace import *

PET = 'petscii::Petscii'


def diskerr(r, eng, name):
    """The io::Error for a DiskError."""
    vs = variants(r, 'disk::error::DiskError')
    if name not in vs:
        raise Skip('DiskError::' + name)
    f = r.fn('disk::error::<impl std::convert::From<disk::error::DiskError> for std::io::Error>::from')
    rs = r.run(eng, f, [mk('agg', vs.index(name), ())], State())
    if len(rs) != 1:
        raise Skip('io::Error from DiskError')
    return rs[0][1]


def petscii(r, eng, st, name):
    """An arbitrary Petscii string of arbitrary length -> (pointer, value, length)."""
    t = r.ty(PET)
    v = eng.expand(st, eng.mkop(t, name), 0)
    s = v
    while isV(s, 'agg') and len(s.a[1]) == 1:
        s = s.a[1][0]
    if not isV(s, 'seq'):
        raise Skip('representation of Petscii')
    return mkobj(eng, st, name, t, v), v, eng.seq_len(s)


def lookup_hook(r, eng, tr, st0=None):
    """find_directory_entry(name): found / NotFound / an I/O or chain error."""
    nf = diskerr(r, eng, 'NotFound')
    bad = diskerr(r, eng, 'ChainLoop')

    def find(e, st, ctx, a):
        nm = eng.deref(st, a[1])
        n = sum(1 for x in tr.events(st) if x[0].startswith('find'))
        out = []
        s = st.copy()
        ent = eng.expand(s, eng.mkop(r.ty(DE), ('found', n)), 0)
        pos = eng.expand(s, eng.mkop(r.ty('disk::block::Position'), ('foundpos', n)), 0)
        ent = setfield(r, setfield(r, ent, DE, 'position', some(pos)), DE, 'filename', nm)
        tr.note(s, 'find+', nm, ent)
        out.append((s, ok(ent)))
        for k, x in (('find-', nf), ('find!', bad), ('find?', mk('ioerr', mk('op', ('oskind',), None), None, None))):
            s = st.copy()
            tr.note(s, k, nm)
            out.append((s, err(x)))
        return out
    eng.hooks[r.fn('<disk::d64::D64 as disk::Disk>::find_directory_entry')['lpath']] = find


def changes(evs):
    return [e for e in evs if e[0] in ('sector_mut', 'alloc', 'free', 'bamflush', 'entry', 'slot')]


def create_runs(r, kind, fail=('search', 'bamflush', 'entry'), formatted=True):
    eng = r.engine()
    st = State()
    d, bam = disk(r, eng, st, kind, formatted=formatted)
    tr = Trace(r, eng, fail=fail)
    lookup_hook(r, eng, tr)
    slot = r.fn('disk::directory::next_free_directory_entry::<disk::%s::%s>' % (kind, kind.upper()))

    def free_slot(e, st, ctx, a):
        s = st.copy()
        ent = eng.expand(s, eng.mkop(r.ty(DE), 'slot'), 0)
        pos = eng.expand(s, eng.mkop(r.ty('disk::block::Position'), 'slotpos'), 0)
        ent = setfield(r, ent, DE, 'position', some(pos))
        tr.note(s, 'slot', ent)
        s2 = st.copy()
        tr.note(s2, 'failed', 'slot')
        return [(s, ok(ent)), (s2, tr.ioerr('slot'))]
    eng.hooks[slot['lpath']] = free_slot
    f = dm(r, kind, 'create_file')
    p, nm, ln = petscii(r, eng, st, 'filename')
    ft = eng.mkop(r.ty('disk::directory::FileType'), 'ftype')
    sch = variants(r, 'disk::file::Scheme').index('Linear')
    rs = r.run(eng, f, [d, p, ft, mk('agg', sch, ())], st)
    r.check(len(rs) > 0, kind + ': create returns', r.where(f))
    return eng, tr, r.where(f), rs, nm, ln, ft


@rule('C19', *KINDS)
def create_refuses(r, kind):
    """a name that is too long or already taken, or a directory that cannot be read, is refused before anything is changed"""
    eng, tr, w, rs, nm, ln, ft = create_runs(r, kind)
    seen = {}
    for s, v in rs:
        evs = tr.events(s)
        ns = names(evs)
        bad = changes(evs)
        k = eng.variant(s, v)
        long = s.decide(mk_lt(16, ln))
        if long is None:
            r.check(k == 1 and not bad, kind + ': the name length is looked at', w, kind + ': the length of the name does not matter', st=s)
            continue
        if long:
            seen['long'] = 1
            r.check(k == 1 and errname(r, v) == 'FilenameTooLong' and not bad, kind + ': long names are refused', w,
                    kind + ': a name longer than 16 characters is accepted or refused too late (%s)' % show_evs(evs), st=s)
            continue
        if not any(n.startswith('find') for n in ns):
            r.check(k == 1 and not bad, kind + ': the directory is searched', w, kind + ': a file is created without looking for its name', st=s)
            continue
        for e in evs:
            if e[0].startswith('find'):
                r.want(s, e[1], nm, kind + ': the name looked up is the new name', w)
        if 'find+' in ns:
            seen['taken'] = 1
            r.check(k == 1 and errname(r, v) == 'FileExists' and not bad, kind + ': taken names are refused', w,
                    kind + ': an existing name is accepted or refused too late (%s)' % show_evs(evs), st=s)
        elif 'find!' in ns or 'find?' in ns:
            seen['error'] = 1
            r.check(k == 1 and not bad, kind + ': an unreadable directory is refused', w,
                    kind + ': an error while searching the directory is ignored (%s)' % show_evs(evs), st=s)
            r.check(k != 1 or errname(r, v) == ('ChainLoop' if 'find!' in ns else None), kind + ': the error is reported', w,
                    kind + ': an error while searching the directory is reported as something else', st=s)
        elif k == 0:
            seen['ok'] = 1
        else:
            seen['failed'] = 1
    r.check(set(seen) >= {'long', 'taken', 'error', 'ok', 'failed'}, kind + ': all cases seen', w, '%s: outcomes missing: only %s' % (kind, sorted(seen)))
    r.panics(eng, kind + ': create never panics')


@rule('C19', *KINDS)
def create_result(r, kind):
    """a created file: one free sector, allocated, initialised as an empty chain, and an entry that describes exactly that"""
    eng, tr, w, rs, nm, ln, ft = create_runs(r, kind)
    sch = variants(r, 'disk::file::Scheme')
    n = 0
    for s, v in rs:
        if eng.variant(s, v) != 0:
            continue
        n += 1
        evs = tr.events(s)
        ev = lambda k: [e for e in evs if e[0] == k]
        se, al, en = ev('search'), ev('alloc'), ev('entry')
        r.check(len(al) == 1 and not ev('free'), kind + ': one sector is allocated', w, '%s: allocations: %s' % (kind, show_evs(evs)), st=s)
        r.check(len(en) == 1, kind + ': one entry is written', w, '%s: entries: %s' % (kind, show_evs(evs)), st=s)
        if len(al) != 1 or len(en) != 1:
            continue
        l = al[0][1]
        r.check(any(e[1] is l or same(s, e[1], l) == 1 for e in se), kind + ': it was free', w, kind + ': the allocated sector is not the free sector found', st=s)
        r.check(all(eng.variant(s, e[2]) == 0 for e in se if same(s, e[1], l) == 1), kind + ': chosen as the start of a file', w,
                kind + ': the first sector of a file is chosen relative to another sector', st=s)
        wr = {e[1] for e in ev('sector_mut')}
        r.check(wr == {l}, kind + ': only that sector is written', w, '%s: sectors written: %s' % (kind, show_evs(evs)), st=s)
        for i, b in ((0, 0), (1, 1)):
            r.want(s, sector_byte(eng, s, l, i), b, '%s: byte %d of an empty file' % (kind, i), w)
        e = en[0][2]
        g = lambda x, v=e, t=DE: fieldv(r, eng, s, v, t, x)
        slot = ev('slot')[0][1]
        r.want(s, en[0][1], fieldv(r, eng, s, slot, DE, 'position').a[1][0], kind + ': written to the free slot', w)
        r.want(s, g('first_sector'), l, kind + ': first sector', w)
        r.want(s, g('filename'), nm, kind + ': name', w)
        r.want(s, g('file_size'), 1, kind + ': one block', w)
        k = r.variant(eng, s, g('scheme'), kind + ': linear', w, kind + ': the layout of the new file is whatever the slot held before')
        r.check(None if k is None else sch[k] == 'Linear', kind + ': linear', w, kind + ': not a linear file', st=s)
        at = g('file_attributes')
        a = lambda x: fieldv(r, eng, s, at, FA, x)
        r.want(s, a('file_type'), ft, kind + ': type', w)
        r.want(s, a('closed_flag'), 1, kind + ': closed', w)
        for x in ('locked_flag', 'save_with_replace_flag', 'unused_bit'):
            r.want(s, a(x), 0, kind + ': not ' + x, w)
        # the handle
        fv = v.a[1][0]
        fvs = variants(r, 'disk::file::File')
        k = eng.variant(s, fv)
        r.check(None if k is None else fvs[k] == 'Linear', kind + ': a linear file handle', w, kind + ': the handle is not a linear file', st=s)
        if k is not None and fvs[k] == 'Linear':
            h = fieldv(r, eng, s, fv.a[1][0], 'disk::file::LinearFile', 'entry')
            r.want(s, h, e, kind + ': the handle describes the entry written', w)
    r.check(n > 0, kind + ': creation succeeds', w)


@rule('C19', *KINDS)
def create_rolls_back(r, kind):
    """when creation fails, no sector stays allocated and no entry refers to the file"""
    eng, tr, w, rs, nm, ln, ft = create_runs(r, kind)
    n = 0
    for s, v in rs:
        if eng.variant(s, v) != 1:
            continue
        evs = tr.events(s)
        fl = [e[1] for e in evs if e[0] == 'failed']
        al = [e[1] for e in evs if e[0] == 'alloc']
        fr = [e[1] for e in evs if e[0] == 'free']
        if not al:
            n += 1
            r.check(not [e for e in evs if e[0] in ('entry', 'free')], kind + ': nothing changed', w, '%s: fails after %s' % (kind, show_evs(evs)), st=s)
            continue
        n += 1
        r.check(all(any(same(s, x, y) == 1 for y in fr) for x in al), kind + ': the sector is released again', w,
                '%s: creation fails, but leaves a sector allocated (%s)' % (kind, show_evs(evs)), st=s)
        if fl.count('bamflush') < 1:
            persisted(r, tr, s, kind + ': failed creation', w)
        r.check(not [e for e in evs if e[0] == 'entry'], kind + ': no entry', w, '%s: creation fails, but leaves an entry (%s)' % (kind, show_evs(evs)), st=s)
    r.check(n > 3, kind + ': failures analysed', w)


@rule('C07', *KINDS)
def created_map_written(r, kind):
    """the map is written to the disk before creating a file reports success"""
    eng, tr, w, rs, nm, ln, ft = create_runs(r, kind)
    n = 0
    for s, v in rs:
        if eng.variant(s, v) == 0:
            n += 1
            persisted(r, tr, s, kind + ': creating a file', w)
    r.check(n > 0, kind + ': creations analysed', w)


@rule('C18', *KINDS)
def create_order(r, kind):
    """the entry is written only after its first sector holds a valid chain, is allocated and the map is on disk"""
    eng, tr, w, rs, nm, ln, ft = create_runs(r, kind)
    n = 0
    for s, v in rs:
        evs = tr.events(s)
        for i, x in enumerate(tr.chain(s)):
            if x.a[2] != 'entry':
                continue
            n += 1
            e = x.a[3][1]
            l = fieldv(r, eng, s, e, DE, 'first_sector')
            before = evs[:i]
            al = [j for j, y in enumerate(before) if y[0] == 'alloc' and same(s, y[1], l) == 1]
            r.check(bool(al), kind + ': allocated first', w, '%s: the entry is written before its sector is allocated (%s)' % (kind, show_evs(evs)), st=s)
            if al:
                r.check('bamflush' in names(before[al[-1]:]), kind + ': map written first', w, '%s: the entry is written before the map (%s)' % (kind, show_evs(evs)), st=s)
            sec = tr.snaps[x].get(('sec', l))
            okk = sec is not None and all(same(s, eng.seq_get(s, sec, j), b) == 1 for j, b in ((0, 0), (1, 1)))
            r.check(okk, kind + ': initialised first', w, '%s: the entry is written before its first sector is an empty chain (%s)' % (kind, show_evs(evs)), st=s)
    r.check(n > 0, kind + ': entry writes analysed', w)


# ------------------------------------------------------------------ rename

def rename_runs(r, kind):
    eng = r.engine()
    st = State()
    d, bam = disk(r, eng, st, kind)
    tr = Trace(r, eng, fail=('entry',))
    lookup_hook(r, eng, tr)
    f = dm(r, kind, 'rename')
    p, old, _ = petscii(r, eng, st, 'oldname')
    q, new, ln = petscii(r, eng, st, 'newname')
    rs = r.run(eng, f, [d, p, q], st)
    r.check(len(rs) > 0, kind + ': rename returns', r.where(f))
    return eng, tr, r.where(f), rs, old, new, ln


@rule('C19', *KINDS)
def rename(r, kind):
    """renaming changes the name of the entry found under the old name, and only if the new one is valid and free"""
    eng, tr, w, rs, old, new, ln = rename_runs(r, kind)
    seen = {}
    for s, v in rs:
        evs = tr.events(s)
        k = eng.variant(s, v)
        bad = changes(evs)
        fo = [e for e in evs if e[0].startswith('find') and same(s, e[1], old) == 1]
        fn = [e for e in evs if e[0].startswith('find') and same(s, e[1], new) == 1]
        long = s.decide(mk_lt(16, ln))
        if k == 1:
            if not any(e[0] == 'failed' for e in evs):
                r.check(not bad, kind + ': refusal changes nothing', w, '%s: renaming fails after %s' % (kind, show_evs(evs)), st=s)
                if fo and fo[-1][0] == 'find-':
                    seen['missing'] = 1
                    r.check(errname(r, v) == 'NotFound', kind + ': NotFound', w, kind + ': a missing file is reported as %s' % errname(r, v), st=s)
                elif long == 1:
                    seen['long'] = 1
                    r.check(errname(r, v) == 'FilenameTooLong', kind + ': FilenameTooLong', w, kind + ': a long name is reported as %s' % errname(r, v), st=s)
                elif fn and fn[-1][0] == 'find+':
                    seen['taken'] = 1
                    r.check(errname(r, v) == 'FileExists', kind + ': FileExists', w, kind + ': a taken name is reported as %s' % errname(r, v), st=s)
                else:
                    seen['error'] = 1
            continue
        seen['ok'] = 1
        r.check(long == 0, kind + ': the new name fits', w, kind + ': a name longer than 16 characters is accepted', st=s)
        r.check(len(fo) == 1 and fo[0][0] == 'find+', kind + ': the file exists', w, '%s: renaming succeeds without finding the file (%s)' % (kind, show_evs(evs)), st=s)
        r.check(len(fn) >= 1 and all(e[0] == 'find-' for e in fn), kind + ': the new name is free', w,
                '%s: renaming succeeds although the new name was not found to be free (%s)' % (kind, show_evs(evs)), st=s)
        r.check(names(bad) == ['entry'], kind + ': one entry is written', w, '%s: renaming does %s' % (kind, show_evs(evs)), st=s)
        if names(bad) == ['entry'] and fo:
            was, now = fo[0][2], bad[0][2]
            r.want(s, bad[0][1], fieldv(r, eng, s, was, DE, 'position').a[1][0], kind + ': in place', w)
            for fl in r.F.types[r.ty(DE)]['variants'][0]['f']:
                x = fl['n']
                r.want(s, fieldv(r, eng, s, now, DE, x), new if x == 'filename' else fieldv(r, eng, s, was, DE, x), '%s: %s' % (kind, x), w)
    r.check(set(seen) >= {'missing', 'long', 'taken', 'error', 'ok'}, kind + ': all cases seen', w, '%s: outcomes missing: only %s' % (kind, sorted(seen)))
    r.panics(eng, kind + ': rename never panics')
