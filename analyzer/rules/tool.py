"""The cdisk program: every command, from its command line to the steps it takes and the exit status."""
import re

from ..core import *
from .alloc import setfield
from .bam import KINDS, TRACKS, fieldv, disk_format
from .device import spt
from .disks import opaque, mkobj, BAM
from .entry import variants

IMAGE = b'IMG.d64'


def text(eng, st, v):
    """The bytes of a concrete string value, else None."""
    for _ in range(4):
        if isV(v, 'ptr'):
            v = eng.deref(st, v)
        if isV(v, 'agg') and len(v.a[1]) == 1 and isV(v.a[1][0], 'seq'):
            v = v.a[1][0]
    q = v if isV(v, 'seq') else eng.seq_of(st, v) if isV(v, 'sl') else None
    es = eng.explode(q) if q is not None else None
    if es is None or not all(isinstance(x, int) for x in es):
        return None
    return bytes(es)


def string(eng, b):
    key = ('K', 'str', b)
    eng.const[key] = eng.mkseq(eng.u8(), (('e', tuple(b)),))
    return mk('sl', key, (), 0, len(b))


class Hooks(dict):
    """Hooks by path, ignoring generic arguments; everything of the command line library goes to one hook."""
    def get(self, k, d=None):
        k = re.sub(r'::<[^<>]*>', '', k)
        if k.startswith('clap::') and 'clap' in self:
            return lambda e, st, ctx, a: self['clap'](e, st, ctx, a, k)
        return dict.get(self, k, d)


class Tool:
    """One command line, interpreted from main with the library's operations as opaque steps that may fail."""

    def __init__(self, r, words, opts=None, kind='d64', image=IMAGE):
        self.r, self.opts, self.kind, self.image = r, opts or {}, kind, image
        self.words = words                      # e.g. ['bam', 'show'] + positional arguments
        self.exits = []
        self.rejected = False
        self.eng = eng = r.engine()
        eng.exact = 10 ** 6
        self.h = Hooks()
        eng.hooks = self.h
        self.h['clap'] = self.clap
        self.h['std::process::exit'] = self.exit
        self.install()

    # ---------------------------------------------------------------- command line library
    def clap(self, e, st, ctx, a, k):
        m = k.split('::')[-1]
        tag = lambda v: v.a[0] if isV(v, 'op') else None
        new = lambda t: [(st, e.mkop(ctx.dt, t))]
        if k.startswith('clap::Arg::') and m == 'with_name' or k == 'clap::Arg::new':
            return new(('arg', text(e, st, a[0]), ()))
        if k in ('clap::SubCommand::with_name', 'clap::App::new'):
            return new(('app', text(e, st, a[0]), (), ()))
        if k.startswith('clap::ArgMatches::'):
            return self.matches(e, st, ctx, a, m)
        if m == 'print_help' or m == 'print_long_help':
            self.ev(st, 'help')
            return [(st, ok(0))]
        v = a[0] if a else None
        t = tag(e.deref(st, v) if isV(v, 'ptr') else v)
        while t is not None and len(t) and t[0] == 'fresh':
            t = None
        if t is None:
            return None
        if t[0] == 'arg':
            return new(('arg', t[1], t[2] + ((m, a[1] if len(a) > 1 else None),)))
        if t[0] == 'app':
            if m == 'arg':
                return new(('app', t[1], t[2] + (tag(a[1]),), t[3]))
            if m == 'subcommand':
                return new(('app', t[1], t[2], t[3] + (tag(a[1]),)))
            if m == 'get_matches':
                return new(('m', t, 0))
            if m == 'clone':
                return [(st, e.deref(st, v))]
            return new(t)
        return None

    def sub(self, t, name):
        return next((x for x in t[3] if x and x[1] == name), None)

    def matches(self, e, st, ctx, a, m):
        t = e.deref(st, a[0])
        t = t.a[0] if isV(t, 'op') else None
        if not t or t[0] != 'm':
            return None
        app, lv = t[1], t[2]
        self.apps = getattr(self, 'apps', {})
        if m == 'subcommand':
            w = self.words[lv] if lv < len(self.words) else None
            s = self.sub(app, w) if w is not None else None
            if s is None:
                raise Skip('the command %s does not exist' % self.words)
            p = mkobj(e, st, ('m', lv + 1), e.peel(ctx.at[0]) if False else self.mty, e.mkop(self.mty, ('m', s, lv + 1)))
            return [(st, mk('agg', 0, (string(e, w), some(p))))]
        name = text(e, st, a[1]) if len(a) > 1 else None
        x = next((x for x in app[2] if x and x[1] == name), None)
        if x is None:
            raise Skip('unknown argument %s' % (name,))
        prop = dict(x[2])
        if 'short' in prop or 'long' in prop:
            key = (text(e, st, prop.get('long')) or text(e, st, prop.get('short')) or b'').decode()
            if m == 'occurrences_of':
                return [(st, self.opts.get(key, 0))]
            if m == 'is_present':
                return [(st, int(key in self.opts))]
            val = self.opts.get(key)
            if val is None and 'default_value' in prop:
                val = text(e, st, prop['default_value'])
        else:
            pos = [y[1] for y in app[2] if y and not ({'short', 'long'} & set(dict(y[2])))].index(name)
            given = [self.image] if lv == 0 else self.words[lv:]
            val = given[pos] if pos < len(given) else None
            if m == 'is_present':
                return [(st, int(val is not None))]
        if m != 'value_of':
            return None
        if val is not None and 'validator' in prop and not self.valid(prop['validator'], val):
            self.rejected = True
            return []
        return [(st, none() if val is None else some(string(e, val)))]

    def valid(self, f, val):
        e = self.eng
        rs = e.call_value(State(), f, [e.mkseq(e.u8(), (('e', tuple(val)),))], Ctx0(self.r))
        ks = {e.variant(s, v) for s, v in rs}
        if len(ks) != 1 or any(s.taint for s, v in rs):
            raise Skip('validator on %s' % (val,))
        return ks == {0}

    # ---------------------------------------------------------------- steps
    def ev(self, st, *x):
        st.ev = st.ev + (x + (len(st.ev),),)

    def exit(self, e, st, ctx, a):
        self.exits.append((st, a[0]))
        return []

    def name(self, st, v):
        """What a step's argument is: a string, a thing made by an earlier step, a number."""
        e = self.eng
        b = text(e, st, v)
        if b is not None:
            return b
        for _ in range(3):
            if isV(v, 'op') and isinstance(v.a[0], tuple) and v.a[0][:1] == ('made',):
                return v.a[0][1]
            if isV(v, 'ptr'):
                o = v.a[0]
                while isinstance(o, tuple) and o:
                    if o[0] == 'made':
                        return o[1]
                    o = o[1] if len(o) > 1 and o[0] in ('O', 'H', 'heap', 'box') else None
                v = e.deref(st, v)
        return v

    def step(self, name, ok_only=False, post=None, variants_=None):
        def h(e, st, ctx, a):
            t = e.F.types[ctx.dt]
            args = tuple(self.name(st, x) for x in a)
            res = t['k'] == 'adt' and t['ldef'] == 'std::result::Result'
            ty = t['args'][0] if res else ctx.dt
            out = []
            s = st.copy()
            self.ev(s, name, args, 'ok')
            v = post(e, s, ty, a) if post else e.mkop(ty, ('made', name))
            for v1 in (v if isinstance(v, list) else [v]):
                s1 = s.copy() if isinstance(v, list) else s
                out.append((s1, ok(v1) if res else v1))
            if res and not ok_only:
                s = st.copy()
                self.ev(s, name, args, 'failed')
                out.append((s, err(mk('ioerr', mk('op', ('failure', name), None), None, ('failure', name)))))
            return out
        return h

    def install(self):
        r, e, h = self.r, self.eng, self.h
        self.mty = next((i for i, t in enumerate(r.F.types) if t['k'] == 'adt' and t['ldef'] == 'clap::ArgMatches'), None)
        step = self.step
        h['disk::open'] = step('open')
        for m in ('open_file', 'create_file', 'write_format', 'rename', 'dump', 'validate', 'disk_format', 'bam', 'iter', 'find_directory_entry', 'flush_header', 'write_sector',
                  'write_directory_entry', 'open_file_from_entry'):
            e.thooks[('disk::Disk', m)] = step(m, post=getattr(self, 'p_' + m, None))
        for m in ('reader', 'writer', 'delete', 'dump', 'details', 'record', 'records'):
            e.thooks[('disk::file::FileOps', m)] = step('file ' + m)
        h['disk::geos::GEOSFile::reader'] = step('geos reader')
        h['std::io::copy'] = step('copy')

        def take(e, st, ctx, a, cut=step('a part of a reader')):
            # what nobody can exceed cuts nothing off
            return cut(e, st, ctx, a) if isinstance(a[1], int) and a[1] < 1 << 40 else [(st, a[0])]
        e.thooks[('std::io::Read', 'take')] = take
        e.thooks[('std::io::Write', 'flush')] = step('flush')
        h['std::fs::File::open'] = step('fs open')
        h['std::fs::File::create'] = step('fs create')
        h['std::io::stdin'] = step('stdin')
        h['std::io::stdout'] = step('stdout')
        h['std::fs::OpenOptions::new'] = lambda e, st, ctx, a: [(st, e.mkop(ctx.dt, ('made', ('options',))))]
        for m in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
            h['std::fs::OpenOptions::' + m] = self.option(m)
        h['std::fs::OpenOptions::open'] = step('fs options open')
        h['std::io::_print'] = h['std::io::_eprint'] = self.out
        h['disk::bam::Bam::flush'] = step('map flush')
        h['disk::bam::BamEntry::allocate'] = self.mark('allocate')
        h['disk::bam::BamEntry::free'] = self.mark('free')
        h['disk::bam::Bam::allocate'] = self.markloc('allocate')
        h['disk::bam::Bam::free'] = self.markloc('free')
        h['disk::bam::Bam::blocks_free'] = step('blocks_free')
        for t in ('std::convert::From',):
            e.thooks[(t, 'from')] = self.convert
        e.thooks[('std::iter::Iterator', 'next')] = self.next

    def out(self, e, st, ctx, a):
        return [(st, 0)]

    def option(self, m):
        def h(e, st, ctx, a):
            v = e.deref(st, a[0])
            t = v.a[0][1] if isV(v, 'op') and v.a[0][0] == 'made' else None
            if t is None:
                return None
            e.store(st, a[0], e.mkop(v.a[1], ('made', t + ((m, a[1]),))))
            return [(st, a[0])]
        return h

    def convert(self, e, st, ctx, a):
        """Texts become PETSCII: keep the text (the conversion itself is another property)."""
        t = e.F.types[ctx.dt]
        if t['k'] == 'adt' and t['ldef'] in ('petscii::Petscii', 'Petscii'):
            b = text(e, st, a[0])
            if b is not None:
                return [(st, mk('agg', 0, (e.mkseq(e.u8(), (('e', tuple(b)),)),)))]
        return None

    def next(self, e, st, ctx, a):
        """The directory listing: an entry, a second one, an error, or the end."""
        v = e.deref(st, a[0])
        if not (isV(v, 'op') and v.a[0][:2] == ('made', 'iter')):
            return None
        n = sum(1 for x in st.ev if x[0] == 'entry')
        out = []
        t = e.F.types[e.F.types[ctx.dt]['args'][0]]['args'][0]
        over = bool([x for x in st.ev if x[0] == 'entry' and x[2] == 'failed'])
        if n < 2 and not over:
            s = st.copy()
            self.ev(s, 'entry', n, 'ok')
            out.append((s, some(ok(e.mkop(t, ('made', ('entry', n)))))))
            s = st.copy()
            self.ev(s, 'entry', n, 'failed')
            out.append((s, some(err(mk('ioerr', mk('op', ('failure', 'entry'), None), None, ('failure', 'entry'))))))
        s = st.copy()
        self.ev(s, 'end')
        return out + [(s, none())]

    def p_create_file(self, e, st, ty, a):
        vs = variants(self.r, 'disk::file::File')
        f = e.F.types[ty]['variants'][vs.index('Linear')]['f']
        return mk('agg', vs.index('Linear'), tuple(e.mkop(x['t'], ('made', 'create_file')) for x in f))

    def p_disk_format(self, e, st, ty, a):
        return disk_format(self.r, self.kind)

    def p_bam(self, e, st, ty, a):
        bv = opaque(self.r, e, st, 'bam', BAM)
        fs = self.r.F.types[self.r.ty(BAM)]['variants'][0]['f']
        for f in fs:
            s = self.r.F.types[f['t']]['s']
            if 'DiskFormat' in s and 'disk_format' not in s:
                bv = setfield(self.r, bv, BAM, f['n'], e.deref(st, disk_format(self.r, self.kind)) if not s.startswith('&') else disk_format(self.r, self.kind))
            elif 'BamEntry' in s:
                es = tuple(opaque(self.r, e, st, ('be', t), 'disk::bam::BamEntry') for t in range(1, TRACKS[self.kind] + 1))
                bv = setfield(self.r, bv, BAM, f['n'], e.mkseq(self.r.ty('disk::bam::BamEntry'), (('e', es),)))
            elif s == 'bool':
                bv = setfield(self.r, bv, BAM, f['n'], 0)
        return mkobj(e, st, 'themap', self.r.ty(BAM), bv)

    def p_validate(self, e, st, ty, a):
        t = e.F.types[ty]['args'][0]
        return [e.mkseq(t, (('e', tuple(e.mkop(t, ('problem', i)) for i in range(n))),)) for n in (0, 1, 2)]

    def mark(self, what):
        def h(e, st, ctx, a):
            p = a[0]
            ix = [x for x in p.a[1] if isinstance(x, tuple) and x and x[0] in ('i', 'ix', 'idx')] if isV(p, 'ptr') else []
            self.ev(st, what, p.a[1] if isV(p, 'ptr') else None, a[1])
            return [(st, 0)]
        return h

    def markloc(self, what):
        def h(e, st, ctx, a):
            l = a[1]
            self.ev(st, what, l, None)
            return [(st, ok(0))]
        return h

    def run(self):
        """-> [(state, success?)]: every way the program ends"""
        f = self.r.fn('main')
        out = []
        for s, v in self.r.run(self.eng, f, [], State()):
            t = self.r.F.types[f['body']['locals'][0]]
            if t['k'] == 'adt' and t['ldef'] == 'std::result::Result':
                out.append((s, self.eng.variant(s, v) == 0))
            elif t['k'] == 'adt':
                b = v
                while isV(b, 'agg') and len(b.a[1]) == 1:
                    b = b.a[1][0]
                if not isinstance(b, int):
                    raise Skip('exit code')
                out.append((s, b == 0))
            else:
                out.append((s, True))
        for s, c in self.exits:
            if not isinstance(c, int):
                self.r.skip('exit code')
                continue
            out.append((s, c == 0))
        return out


MUTATE = {'create_file', 'write_format', 'rename', 'file writer', 'file delete', 'map flush', 'allocate', 'free', 'flush_header', 'write_sector', 'write_directory_entry'}
QUIET = {'stdout', 'stdin', 'disk_format', 'blocks_free', 'bam', 'iter', 'entry', 'end', 'help', 'find_directory_entry', 'file details', 'validate'}
FILES = {'open': 'the image', 'made': ''}


def src(n):
    return ('fs open', (n,)) if n != b'-' else ('stdin', ())


def dst(n):
    return ('fs create', (n,)) if n != b'-' else ('stdout', ())


def scenarios(r):
    """(name, words, options, write access, steps a success takes, (a, b): a before b)"""
    ft = variants(r, 'disk::directory::FileType')
    lin = mk('agg', variants(r, 'disk::file::Scheme').index('Linear'), ())
    typ = lambda n: mk('agg', ft.index(n), ())
    for d in (None, b'OUT', b'-'):
        o = dst(d or b'FILE')
        for cmd, rd in ((b'read', 'file reader'), (b'geosread', 'geos reader')):
            yield ('%s %s' % (cmd.decode(), d), [cmd, b'FILE'] + ([d] if d else []), {}, 0,
                   [('open_file', ('open', b'FILE')), (rd, None), o, ('copy', (rd, o[0])), ('flush', (o[0],))],
                   [(rd, o[0]), ('copy', 'flush')])
    for s in (b'IN', b'-'):
        for d in (None, b'FILE'):
            i = src(s)
            for opt, t in (((None, 'SEQ'), ('prg', 'PRG'), ('seq', 'SEQ'), ('usr', 'USR')) if d else ((None, 'SEQ'),)):
                yield ('write %s %s %s' % (s.decode(), d, opt), [b'write', s] + ([d] if d else []), {'type': opt.encode()} if opt else {}, 1,
                       [i, ('create_file', ('open', d or s, typ(t), lin)), ('file writer', None), ('copy', (i[0], 'file writer')), ('flush', ('file writer',))],
                       [(i[0], 'create_file'), ('copy', 'flush')])
            yield ('append %s %s' % (s.decode(), d), [b'append', s] + ([d] if d else []), {}, 1,
                   [i, ('open_file', ('open', d or s)), ('file writer', ('open_file',)), ('copy', (i[0], 'file writer')), ('flush', ('file writer',))],
                   [('copy', 'flush')])
    yield 'rename', [b'rename', b'OLD', b'NEW'], {}, 1, [('rename', ('open', b'OLD', b'NEW'))], []
    yield 'delete', [b'delete', b'FILE'], {}, 1, [('open_file', ('open', b'FILE')), ('file delete', ('open_file',))], []
    yield 'format', [b'format', b'NAME', b'ID'], {}, 1, [('write_format', ('open', b'NAME', b'ID'))], []
    yield 'dump', [b'dump'], {}, 0, [('dump', ('open', 'stdout')), ('flush', ('stdout',))], []
    yield 'dump FILE', [b'dump', b'FILE'], {}, 0, [('open_file', ('open', b'FILE')), ('file dump', ('open_file', 'stdout')), ('flush', ('stdout',))], []
    yield 'validate', [b'validate'], {}, 0, [('validate', ('open',))], []
    yield 'bam show', [b'bam', b'show'], {}, 0, [('bam', ('open',))], []
    for v in (0, 1, 2):
        yield 'dir -%d' % v, [b'dir'], {'verbose': v}, 0, [('iter', ('open',)), ('end', None)], []


def brief(evs):
    return ' '.join(e[0] + ('!' if e[2:] and e[2] == 'failed' else '') for e in evs)[:200]


def failed(evs):
    return next((i for i, e in enumerate(evs) if len(e) > 3 and e[2] == 'failed'), None)


@rule('C25', 'read', 'write', 'append', 'geosread', 'rename', 'delete', 'format', 'dump', 'validate', 'bam', 'dir')
def command(r, which):
    """a command opens the image as it needs to, takes exactly its steps on exactly its arguments, and succeeds exactly if all of them do"""
    w = r.where(r.fn('main'))
    for name, words, opts, wr, steps, order in scenarios(r):
        if words[0].decode() != which:
            continue
        T = Tool(r, words, opts)
        rs = T.run()
        won = 0
        for s, good in rs:
            evs = s.ev
            fi = failed(evs)
            opens = [e for e in evs if e[0] == 'open']
            r.check(len(opens) <= 1 and all(e[1][0] == IMAGE for e in opens), name + ': opens the image', w, '%s opens %s' % (name, [e[1] for e in opens]), st=s)
            for e in opens:
                r.want(s, e[1][1], wr, name + ': access', w, '%s opens the image %s' % (name, 'without write access' if wr else 'for writing'))
            for e in evs:
                if not wr:
                    r.check(e[0] not in MUTATE, name + ': changes nothing', w, '%s changes the image (%s)' % (name, e[0]), st=s)
                if e[0] in QUIET or e[0] == 'open':
                    continue
                c = [x for x in steps if x[0] == e[0]]
                if name == 'dir -2' and e[0] == 'open_file':
                    continue
                r.check(len(c) > 0, name + ': only its steps', w, '%s also does: %s' % (name, e[0]), st=s)
                for x in c[:1]:
                    if x[1] is not None:
                        r.check(e[1] == x[1], '%s: %s on the right things' % (name, x[0]), w, '%s: %s acts on %s, expected %s' % (name, x[0], str(e[1])[:80], str(x[1])[:80]), st=s, got=[y for y in e[1] if isV(y)])
            for a, b in order:
                ia = [i for i, e in enumerate(evs) if e[0] == a]
                ib = [i for i, e in enumerate(evs) if e[0] == b]
                r.check(not ib or ia and ia[-1] < ib[0], '%s: %s before %s' % (name, a, b), w, '%s: %s comes before %s' % (name, b, a), st=s)
            if fi is not None:
                r.check(not good, name + ': a failure is reported', w, '%s: succeeds although a step failed (%s)' % (name, brief(evs)), st=s)
                r.check(not [e for e in evs[fi + 1:] if e[0] not in QUIET], name + ': stops at a failure', w, '%s goes on after a failure (%s)' % (name, brief(evs)), st=s)
            elif good:
                won += 1
                for x in steps:
                    n = [e for e in evs if e[0] == x[0]]
                    r.check(len(n) == 1 or len(n) > 0 and x[0] in QUIET, '%s: %s happens once' % (name, x[0]), w, '%s: %s happens %d times (%s)' % (name, x[0], len(n), brief(evs)), st=s)
        good_ = {len([e for e in s.ev if e[0] == 'entry']) for s, g in rs if g}
        r.check(won > 0, name + ': can succeed', w, name + ' never succeeds')
        if which == 'validate':
            vals = [g for s, g in rs if failed(s.ev) is None]
            r.check(sorted(vals) == [False, False, True], 'validate: succeeds exactly if there are no errors', w, 'validate: with 0, 1 and 2 errors found the outcomes are %s' % vals)
        if which == 'geosread':
            bad = [s for s, g in rs if failed(s.ev) is None and not g]
            r.check(len(bad) > 0, 'geosread: other files are refused', w)
        r.panics(T.eng, name + ': never panics')


command.crate = 'cdisk'


EXT = {b'X.d64': 'd64', b'X.d71': 'd71', b'X.d81': 'd81', b'X': None}
SIZE = {'d64': 174848, 'd71': 349696, 'd81': 819200, None: 174848}


@rule('C25', 'd64', 'd71', 'd81', 'none')
def create(r, ext):
    """create makes a new file of the size of the disk type the extension names, all zero, and never touches an existing one"""
    w = r.where(r.fn('main'))
    image = {v or 'none': k for k, v in EXT.items()}[ext]
    vs = [v['n'].lower() for v in r.F.types[r.ty('disk::DiskType')]['variants']]
    T = Tool(r, [b'create'], image=image)
    T.h['disk::DiskType::from_extension'] = lambda e, st, ctx, a: [(st, none() if ext == 'none' else some(mk('agg', vs.index(ext), ())))]
    T.h['std::fs::File::create_new'] = T.step('fs create_new')
    won = 0
    for s, good in T.run():
        evs = s.ev
        op = [e for e in evs if e[0].startswith('fs ')]
        for e in op:
            if e[0] == 'fs options open':
                o = dict(e[1][0][1:]) if isinstance(e[1][0], tuple) else {}
                r.check(o.get('create_new') == 1, ext + ': a new file only', w, 'create may overwrite an existing file (%s)' % o, st=s)
            else:
                r.check(e[0] == 'fs create_new', ext + ': a new file only', w, 'create may overwrite an existing file', st=s)
            r.check(e[1][-1] == image, ext + ': the named file', w, 'create makes %s' % (e[1],), st=s)
        fi = failed(evs)
        if fi is not None:
            r.check(not good, ext + ': a failure is reported', w, 'create succeeds although a step failed (%s)' % brief(evs), st=s)
            continue
        r.check(good, ext + ': succeeds', w, 'create fails although every step succeeded', st=s)
        cp = [e for e in evs if e[0] == 'copy']
        if len(cp) != 1:
            r.skip('create: contents are not written by copying')
            continue
        won += 1
        v = cp[0][1][0]
        t = r.F.by_tystr.get('FillReader')
        if not isV(v, 'agg') or t is None:
            r.skip('create: source of the contents')
            continue
        f = dict(zip([x['n'] for x in r.F.types[t]['variants'][0]['f']], v.a[1]))
        if set(f) != {'fill_byte', 'size'}:
            r.skip('create: source of the contents')
            continue
        r.want(s, f['size'], SIZE[ext if ext != 'none' else None], ext + ': size', w, 'create makes an image of %s bytes for %s' % (f['size'], image.decode()))
        r.want(s, f['fill_byte'], 0, ext + ': zero', w)
        r.check([e[0] for e in evs if e[0] in ('copy', 'flush')][-1] == 'flush', ext + ': flushed', w, 'create does not flush', st=s)
    r.check(won > 0, ext + ': can succeed', w)
    r.panics(T.eng, ext + ': never panics')


create.crate = 'cdisk'


@rule('C25')
def filler(r):
    """the filler delivers exactly its number of fill bytes"""
    from .streams import buffer
    f = r.method('FillReader', 'read', 'std::io::Read')
    t = r.ty('FillReader')
    w = r.where(f)
    names = [x['n'] for x in r.F.types[t]['variants'][0]['f']]
    if set(names) != {'fill_byte', 'size'}:
        raise Skip('fields of FillReader')
    for n, size in [(n, z) for n in (0, 1, 7, 300) for z in (0, 1, 6, 7, 8, 299, 300, 301)]:
        eng = r.engine()
        st = State()
        fb = term('sym', 8, ('fill',))
        p = mkobj(eng, st, 'fr', t, mk('agg', 0, tuple(size if x == 'size' else fb for x in names)))
        o, sl, ln = buffer(eng, st, 0, n)
        for s, v in r.run(eng, f, [p, sl], st):
            r.check(eng.variant(s, v) == 0, 'never fails', w, 'the filler fails', st=s)
            cnt = v.a[1][0]
            small = s.decide(mk_lt(size, ln))
            if small is None:
                small = s.decide(mk_ge0(lin_add(size, ln, -1)))
                small = None if small is None else 1 - small
            if small is None and s.decide(mk_eq(cnt, size)) == 1 and s.decide(mk_eq(cnt, ln)) == 1:
                small = 1
            if small is None:
                r.skip('filler: case')
                continue
            k = size if small else ln
            r.want(s, cnt, k, 'as many as there are and fit', w)
            left = fieldv(r, eng, s, eng.deref(s, p), 'FillReader', 'size')
            r.want(s, left, lin_add(size, k, -1), 'the rest remains', w)
            b = eng.deref(s, mk('ptr', o, (), None))
            if n:
                for i in range(n):
                    x = eng.seq_get(s, b, i)
                    if s.decide(mk_lt(i, k)) == 1:
                        r.want(s, x, fb, 'filled', w)
        r.panics(eng, 'the filler never panics')


filler.crate = 'cdisk'


def blocks_of(kind, track, sector):
    """-> the set of blocks meant, None if one of them does not exist"""
    ts = range(1, TRACKS[kind] + 1) if track == 'all' else [int(track)]
    out = set()
    for t in ts:
        if not 1 <= t <= TRACKS[kind]:
            return None
        ss = range(spt(kind, t)) if sector == 'all' else [int(sector)]
        for s in ss:
            if not 0 <= s < spt(kind, t):
                return None
            out.add((t, s))
    return out


@rule('C25', *KINDS)
def edit_map(r, kind):
    """bam allocate and free change exactly the blocks named, then write the map; blocks that do not exist are refused and nothing is written"""
    w = r.where(r.fn('main'))
    last = TRACKS[kind]
    for cmd in ('allocate', 'free'):
        for t, x in (('1', '0'), ('17', '20'), (str(last), '0'), (str(last), str(spt(kind, last) - 1)), (str(last), str(spt(kind, last))), ('18', '19'), ('5', 'all'), ('all', 'all'), ('all', '3'),
                     (str(last + 1), '0'), ('40', '0'), ('80', '39'), ('36', '25'), ('all', '16')):
            name = 'bam %s %s %s on %s' % (cmd, t, x, kind)
            want = blocks_of(kind, t, x)
            T = Tool(r, [b'bam', cmd.encode(), t.encode(), x.encode()], {}, kind)
            won = 0
            rs = T.run()
            if T.rejected:
                r.check(want is None, name + ': accepted', w, name + ' is refused')
                continue
            for s, good in rs:
                evs = s.ev
                fi = failed(evs)
                marks = [e for e in evs if e[0] in ('allocate', 'free')]
                fl = [i for i, e in enumerate(evs) if e[0] == 'map flush']
                r.check(all(e[1] == (IMAGE, 1) for e in evs if e[0] == 'open'), name + ': access', w, name + ' opens the image without write access', st=s)
                if want is None:
                    r.check(not fl and not good, name + ': refused', w, name + ' is not refused', st=s)
                    continue
                if fi is not None:
                    r.check(not good, name + ': failure', w, '%s: succeeds although a step failed (%s)' % (name, brief(evs[-4:])), st=s)
                    continue
                r.check(good, name + ': succeeds', w, name + ' fails', st=s)
                got = {self_loc(e) for e in marks}
                if None in got:
                    r.skip(name + ': blocks not resolved')
                    continue
                won += 1
                r.check({e[0] for e in marks} == {cmd}, name + ': the right way', w, name + ' does the opposite', st=s)
                r.check(got == want, name + ': the right blocks', w, '%s: blocks %s wrong' % (name, sorted(got ^ want)[:3]), st=s)
                r.check(len(fl) == 1 and evs[-1][0] == 'map flush', name + ': written', w, name + ': the map is not written afterwards', st=s)
            r.check(won > 0 or want is None, name + ': can succeed', w, name + ' never succeeds')
            r.panics(T.eng, name + ': never panics')


def self_loc(e):
    """(track, sector) of an allocate/free event"""
    if isV(e[1], 'agg') and all(isinstance(x, int) for x in e[1].a[1]):
        return tuple(e[1].a[1])
    ix = [x[1] for x in e[1] or () if isinstance(x, tuple) and x[0] == 'x']
    return (ix[-1] + 1, e[2]) if ix and isinstance(ix[-1], int) and isinstance(e[2], int) else None


edit_map.crate = 'cdisk'


@rule('C25')
def accepted(r):
    """the command line accepts every track and sector some disk has, and the program handles everything it accepts"""
    w = r.where(r.fn('main'))
    for cmd in (b'allocate', b'free'):
        for pos, good in (('track', ['all'] + [str(i) for i in range(1, 81)]), ('sector', ['all'] + [str(i) for i in range(40)])):
            for txt in good + ['0', '40', '81', '255', '256', '-1', '', 'ALL', 'x', '1x', '+5', '0007']:
                words = [b'bam', cmd, txt.encode(), b'0'] if pos == 'track' else [b'bam', cmd, b'1', txt.encode()]
                T = Tool(r, words, {}, 'd81')
                rs = T.run()
                if txt in good:
                    r.check(not T.rejected and any(g for s, g in rs), '%s %s accepted' % (pos, txt), w, 'bam %s refuses %s %s' % (cmd.decode(), pos, txt))
                r.panics(T.eng, 'bam %s with %s %r: never panics' % (cmd.decode(), pos, txt))


accepted.crate = 'cdisk'


def Ctx0(r):
    from ..engine import Ctx
    f = r.fn('main')
    return Ctx((), 0, f, {'f': {}, 'a': []}, [], None, 1)
