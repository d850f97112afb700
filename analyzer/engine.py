"""Path-sensitive abstract interpreter over the compiler's MIR.

Every local function body is interpreted over abstract values (vals.py); calls are
analysed in context; loops are solved by partitioned fixpoints with widening (loops.py).
Nothing of the analysed program is executed.
"""
import sys
import time
from collections import Counter

from .vals import *
from .state import *
from .accel import Accel
from .seqs import Seqs, seg_len, total
from .loops import Loops

sys.setrecursionlimit(60000)

TRANSPARENT = {
    'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::cell::UnsafeCell', 'std::cell::Cell',
    'std::cell::RefCell', 'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique',
    'core::ptr::unique::Unique', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling',
    'core::mem::maybe_dangling::MaybeDangling',
}
BOXES = {'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'}
SEQS = {'std::vec::Vec', 'std::collections::VecDeque'}


class Ctx:
    __slots__ = ('fr', 'bb', 'inst', 't', 'at', 'dt', 'depth')

    def __init__(self, fr, bb, inst, t, at, dt, depth):
        self.fr, self.bb, self.inst, self.t, self.at, self.dt, self.depth = fr, bb, inst, t, at, dt, depth

    @property
    def site(self):
        return (self.fr, self.bb)


class Engine(Seqs, Loops, Accel):
    def __init__(self, F):
        self.F = F
        self.text = None           # text mode (texts.py): strings are sequences of characters
        self.hooks = {}            # lpath -> fn(eng, st, ctx, args) -> [(st, ret)] | None
        self.thooks = {}           # (trait, method) -> fn
        self.const = F.__dict__.setdefault('_const', {})
        self.constid = F.__dict__.setdefault('_constid', {})
        self.frames = {}
        self.frinfo = {}
        self.panics = {}           # (function, kind, detail) -> definite?
        self.unmodelled = Counter()
        self.seen_fns = set()
        self.nblocks = 0
        self.ncalls = 0
        self.forced = set()
        self.cmpconst = {}
        self.maxdepth = 80
        self.maxstates = 1500
        self.apart = False            # keep paths apart: states merge only when equal
        self.exact = 0                # >0: enumerate loops and paths exactly, up to this many head visits
        self.maxblocks = 600000
        self.deadline = None
        self.dyn_default = {}
        self.monitors = []
        self.opaque_fns = set()
        self.phi_seq = {}
        self.assume_ok = None
        self._canon_frames = {}
        from . import models
        models.install(self)

    # ================================================================ types
    def ty(self, i):
        return self.F.types[i]

    def pointee(self, i):
        t = self.F.types[i]
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'adt' and (t['ldef'] in BOXES or t['ldef'] in TRANSPARENT):
            if t['ldef'] in BOXES:
                return t['args'][0]
            return self.pointee(t['args'][0])
        return None

    def peel(self, i):
        """Strip transparent wrappers."""
        while True:
            t = self.F.types[i]
            if t['k'] == 'adt' and t['ldef'] in TRANSPARENT and t['ldef'].split('::')[-1] not in ('Unique', 'NonNull'):
                i = t['args'][0]
            else:
                return i

    def elemty(self, i):
        t = self.F.types[i]
        if t['k'] in ('array', 'slice'):
            return t['t']
        if t['k'] == 'str':
            return self.u8()
        if t['k'] == 'adt' and t['ldef'] in SEQS:
            return t['args'][0]
        if t['k'] == 'adt' and t['ldef'] == 'std::string::String':
            return self.u8()
        return None

    def u8(self):
        return self.F.by_tystr['u8']

    def tyid(self, s):
        return self.F.by_tystr.get(s)

    def mkop(self, ti, name):
        """An arbitrary value of the type, identified by name."""
        t = self.F.types[ti]
        k = t['k']
        if k == 'int':
            if t['signed']:
                return term('sgn', t['bits'], name)
            return term('sym', t['bits'], name)
        if k == 'bool':
            return term('sym', 1, name)
        if k == 'char':
            return term('sym', 21, name)
        if k in ('ref', 'ptr'):
            return self.mkptr(t['t'], name)
        if k == 'array':
            return self.mkseq(t['t'], (('b', name, 0, t['len']),))
        if k == 'tuple' and not t['ts']:
            return UNIT
        if k == 'adt':
            d = t['ldef']
            if d in BOXES:
                return self.mkptr(t['args'][0], name)
            if d in TRANSPARENT:
                return self.mkop(t['args'][0], name)
            if d in SEQS:
                return self.mkseq(t['args'][0], (('b', name, 0, self.lenof(name)),))
            if d == 'std::string::String':
                return self.mkseq(self.u8(), (('b', name, 0, self.lenof(name)),))
        return mk('op', name, ti)

    def lenof(self, name):
        return term('len', 63, name)

    def mkptr(self, ti, name):
        ti = self.peel(ti)
        t = self.F.types[ti]
        if t['k'] in ('slice', 'str'):
            ety = t['t'] if t['k'] == 'slice' else self.u8()
            return mk('sl', ('O', name, ti), (), 0, self.lenof(name))
        if t['k'] == 'dyn':
            return mk('ptr', ('O', name, ti), (), self.dyn_default.get(t['ltrait']))
        return mk('ptr', ('O', name, ti), (), None)

    def variants(self, ti):
        t = self.F.types[ti]
        return t['variants'] if t['k'] == 'adt' else None

    # ================================================================ constants
    def constv(self, c, ti):
        if isinstance(c, bool):
            return int(c)
        if isinstance(c, int):
            return c
        if c is None:
            return self.mkop(ti, ('constv', ti))
        k = c.get('c')
        t = self.F.types[ti]
        if k == 'agg':
            if t['k'] == 'adt' and (t['ldef'] in TRANSPARENT or t['ldef'] in BOXES) and len(c['v']) == 1:
                return self.constv(c['v'][0], t['args'][0])
            if t['k'] == 'tuple':
                return mk('agg', 0, tuple(self.constv(x, y) for x, y in zip(c['v'], t['ts'])))
            if t['k'] == 'closure':
                return mk('clo', ti, tuple(self.constv(x, y) for x, y in zip(c['v'], t['ups'])))
            var = c.get('var') or 0
            fs = t['variants'][var]['f']
            if t['k'] == 'adt' and t['ldef'] in SEQS:
                return self.mkseq(t['args'][0], ())
            if t['k'] == 'adt' and t['ldef'] == 'std::string::String':
                return self.mkseq(self.u8(), ())
            return mk('agg', var, tuple(self.constv(x, y['t']) for x, y in zip(c['v'], fs)))
        if k == 'arr':
            return self.mkseq(t['t'], (('e', tuple(self.constv(x, t['t']) for x in c['v'])),))
        if k == 'str':
            b = c['v'].encode() if isinstance(c['v'], str) else bytes(c['v'])
            key = ('K', 'str', b)
            es = tuple(b) if self.text is None else tuple(map(ord, b.decode('utf8', 'replace')))
            if key not in self.const:
                self.const[key] = self.mkseq(self.u8(), (('e', es),))
            return mk('sl', key, (), 0, len(es))
        if k == 'ref':
            pt = self.pointee(ti)
            if c.get('static'):
                obj = ('S', self.F.static_key(c['static']))
                p = self.peel(pt) if pt is not None else None
                if c.get('slice') and self.F.types[p]['k'] in ('slice', 'str'):
                    return mk('sl', obj, (), 0, c['len'])
                return mk('ptr', obj, (), None)
            # anonymous constant object
            import json
            kk = (pt, json.dumps(c, sort_keys=True))
            if kk not in self.constid:
                self.constid[kk] = len(self.constid)
                obj = ('K', self.constid[kk])
                ptt = self.F.types[pt]
                if ptt['k'] in ('slice', 'str'):
                    ety = ptt['t'] if ptt['k'] == 'slice' else self.u8()
                    vs = c['v']
                    if isinstance(vs, dict):
                        vs = vs['v']
                    self.const[obj] = self.mkseq(ety, (('e', tuple(self.constv(x, ety) for x in vs)),))
                else:
                    self.const[obj] = self.constv(c['v'], pt)
            obj = ('K', self.constid[kk])
            ptt = self.F.types[pt]
            if ptt['k'] in ('slice', 'str'):
                return mk('sl', obj, (), 0, self.seq_len(self.const[obj]))
            return mk('ptr', obj, (), None)
        if k == 'zst':
            if t['k'] == 'fndef':
                return mk('fn', t.get('inst'))
            if t['k'] == 'closure':
                return mk('clo', ti, ())
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'array':
                return self.mkseq(t['t'], ())
            if t['k'] == 'adt' and t.get('adt') == 'struct':
                return mk('agg', 0, tuple(self.constv({'c': 'zst'}, f['t']) for f in t['variants'][0]['f']))
            return ZST
        if t['k'] == 'adt' and t['ldef'] in SEQS:
            return self.mkseq(t['args'][0], ())
        if t['k'] == 'adt' and t['ldef'] == 'std::string::String':
            return self.mkseq(self.u8(), ())
        return self.mkop(ti, ('const', ti, str(c)[:60]))

    # ================================================================ memory
    def load(self, st, obj):
        v = st.mem.get(obj)
        if v is not None:
            return v
        k = obj[0]
        if k == 'S':
            v = self.const.get(obj)
            if v is None:
                s = self.F.statics[obj[1]]
                v = self.constv(s['v'], s['t'])
                self.const[obj] = v
            return v
        if k == 'K':
            return self.const[obj]
        if k == 'O':
            t = self.F.types[obj[2]]
            if t['k'] in ('slice', 'str'):
                ety = t['t'] if t['k'] == 'slice' else self.u8()
                return self.mkseq(ety, (('b', obj[1], 0, self.lenof(obj[1])),))
            return self.mkop(obj[2], ('*', obj[1]))
        if k == 'sec':
            return self.sector_content(st, obj[1])
        return mk('undef')

    def sector_content(self, st, loc):
        ep = st.mem.get(('EPOCH',), 0)
        if isV(ep, 'ep') and isinstance(ep.a[1], tuple) and isV(loc, 'agg') and all(isinstance(x, int) for x in loc.a[1]) and loc not in ep.a[1]:
            ep = ep.a[0]           # only other, known sectors were written since
        return self.mkseq(self.u8(), (('b', ('disk', ep, loc), 0, 256),))

    def field(self, st, v, i, var):
        if not isinstance(v, V):
            return v
        if v.k == 'agg':
            if i < len(v.a[1]):
                return v.a[1][i]
            return mk('undef')
        if v.k == 'op':
            name, ti = v.a
            if ti is None:
                return mk('op', ('f', name, var, i), None)
            t = self.F.types[ti]
            if t['k'] == 'adt':
                if var is None:
                    var = 0
                return self.mkop(t['variants'][var]['f'][i]['t'], ('f', name, var, i))
            if t['k'] == 'tuple':
                return self.mkop(t['ts'][i], ('f', name, 0, i))
            if t['k'] == 'closure':
                return self.mkop(t['ups'][i], ('f', name, 0, i))
            return mk('op', ('f', name, var, i), None)
        if v.k == 'clo':
            return v.a[1][i]
        if v.k in ('ptr', 'sl'):
            return v
        if v.k == 'undef':
            return v
        return mk('op', ('field', v, i), None)

    def readp(self, st, v, path):
        var = None
        for e in path:
            if e[0] == 'f':
                v = self.field(st, v, e[1], var)
                var = None
            elif e[0] == 'd':
                var = e[1]
            else:
                if isV(v, 'seq'):
                    v = self.seq_get(st, v, e[1])
                elif isV(v, 'op') and v.a[1] is None:
                    v = mk('op', ('x', v.a[0], e[1]), None)
                else:
                    v = mk('undef')
                var = None
        return v

    def expand(self, st, v, var):
        """op -> agg with symbolic fields."""
        name, ti = v.a
        if ti is None:
            return None
        t = self.F.types[ti]
        if t['k'] == 'adt':
            vv = var if var is not None else st.disc.get(name, 0)
            if isinstance(vv, frozenset):
                raise Fork([('v', name, i) for i in sorted(vv)])
            n = len(t['variants'][vv]['f'])
            return mk('agg', vv, tuple(self.field(st, v, i, vv) for i in range(n)))
        if t['k'] == 'tuple':
            return mk('agg', 0, tuple(self.field(st, v, i, None) for i in range(len(t['ts']))))
        if t['k'] == 'closure':
            return mk('clo', ti, tuple(self.field(st, v, i, None) for i in range(len(t['ups']))))
        return None

    def writep(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == 'd':
            rest = path[1:]
            if isV(v, 'op'):
                v2 = self.expand(st, v, e[1])
                if v2 is not None:
                    v = v2
            elif not isV(v, 'agg'):
                v = mk('agg', e[1], ())
            elif v.a[0] != e[1]:
                v = mk('agg', e[1], ())
            return self.writep(st, v, rest, val) if rest else v
        if e[0] == 'f':
            i = e[1]
            if isV(v, 'op'):
                v2 = self.expand(st, v, None)
                if v2 is None:
                    return v
                v = v2
            if isV(v, 'agg') or isV(v, 'clo'):
                fs = v.a[1]
                if i >= len(fs):
                    fs = fs + (mk('undef'),) * (i + 1 - len(fs))
                new = self.writep(st, fs[i], path[1:], val)
                return mk(v.k, v.a[0], fs[:i] + (new,) + fs[i + 1:])
            if isV(v, 'ptr') or isV(v, 'sl'):
                return self.writep(st, v, path[1:], val)
            fs = (mk('undef'),) * i + (self.writep(st, mk('undef'), path[1:], val),)
            return mk('agg', 0, fs)
        if e[0] == 'x':
            if not isV(v, 'seq'):
                return v
            if len(path) == 1:
                return self.seq_set(st, v, e[1], val)
            old = self.seq_get(st, v, e[1])
            return self.seq_set(st, v, e[1], self.writep(st, old, path[1:], val))
        raise AssertionError(e)

    def read(self, st, obj, path):
        return self.readp(st, self.load(st, obj), path)

    def write(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val
        else:
            st.mem[obj] = self.writep(st, self.load(st, obj), path, val)
        for m in self.monitors:
            m.on_write(self, st, obj, path, val)

    # pointer helpers used by models
    def deref(self, st, p):
        """The value behind a ptr or sl (for sl: a seq of exactly the slice)."""
        if isV(p, 'ptr'):
            return self.read(st, p.a[0], p.a[1])
        if isV(p, 'sl'):
            o, pa, off, n = p.a
            v = self.read(st, o, pa)
            if isV(v, 'seq'):
                if off == 0 and n == self.seq_len(v):
                    return v
                return mk('seq', v.a[0], self.seq_slice(st, v, off, n))
            return v
        return mk('op', ('deref', p), None)

    def store(self, st, p, val):
        if isV(p, 'ptr'):
            self.write(st, p.a[0], p.a[1], val)
        elif isV(p, 'sl'):
            o, pa, off, n = p.a
            v = self.read(st, o, pa)
            segs = val.a[1]
            self.write(st, o, pa, self.seq_replace(st, v, off, n, segs))

    def seq_of(self, st, v):
        """A seq for: a seq, or a pointer (possibly to pointer) to a seq / slice."""
        for _ in range(4):
            if isV(v, 'seq'):
                return v
            if isV(v, 'ptr') or isV(v, 'sl'):
                v = self.deref(st, v)
            elif isV(v, 'guard'):
                v = self.read(st, v.a[1], v.a[2])
            else:
                return None
        return None

    def heap(self, st, site, val):
        n = 0
        while ('H', site, n) in st.mem:
            n += 1
        obj = ('H', site, n)
        st.mem[obj] = val
        return obj

    def fresh(self, st, tag, ti):
        key = ('cnt', tag)
        n = st.mem.get(key, 0)
        st.mem[key] = lin_add(n, 1)
        return self.mkop(ti, ('fresh', tag, n))

    # ================================================================ places
    def resolve(self, st, fr, inst, place):
        """-> (obj, path, slice info or None, type id or None, dyn type)"""
        l = place['l']
        obj, path, sl, dyn = (fr, l), (), None, None
        ti = inst['body']['locals'][l]
        for e in place['p']:
            k = e[0]
            if k == '*':
                v = self.read(st, obj, path)
                pt = self.pointee(ti) if ti is not None else None
                if isV(v, 'ptr'):
                    obj, path, dyn = v.a
                    sl = None
                elif isV(v, 'sl'):
                    obj, path, off, n = v.a
                    sl = (off, n)
                    dyn = None
                elif isV(v, 'guard'):
                    obj, path, dyn = v.a[1], v.a[2], v.a[3]
                    sl = None
                else:
                    # unknown pointer: an anonymous object named after it
                    if pt is not None and isV(v):
                        p = self.mkptr(pt, ('anon', v))
                        if isV(p, 'sl'):
                            obj, path, off, n = p.a
                            sl = (off, n)
                        else:
                            obj, path, dyn = p.a
                            sl = None
                    else:
                        obj, path, sl, dyn = ('U', v), (), None, None
                ti = self.peel(pt) if pt is not None else None
            elif k == 'f':
                tr = False
                if ti is not None:
                    t = self.F.types[ti]
                    if t['k'] == 'adt' and t['ldef'] in TRANSPARENT:
                        tr = True
                    elif t['k'] == 'adt' and t['ldef'] in BOXES:
                        tr = True
                if not tr:
                    path = path + (('f', e[1]),)
                ti = e[2]
            elif k == 'd':
                path = path + (('d', e[1]),)
            elif k == 'i':
                idx = self.read(st, (fr, e[1]), ())
                if sl is not None:
                    idx = lin_add(sl[0], idx)
                    sl = None
                path = path + (('x', idx),)
                ti = self.elemty(ti) if ti is not None else None
            elif k == 'ci':
                off, frm = e[1], e[3]
                if frm:
                    n = sl[1] if sl is not None else self.seq_len(self.read(st, obj, path))
                    idx = lin_add(n, off, -1)
                else:
                    idx = off
                if sl is not None:
                    idx = lin_add(sl[0], idx)
                    sl = None
                path = path + (('x', idx),)
                ti = self.elemty(ti) if ti is not None else None
            elif k == 'ss':
                n = sl[1] if sl is not None else self.seq_len(self.read(st, obj, path))
                base = sl[0] if sl is not None else 0
                hi = lin_add(n, e[2], -1) if e[3] else e[2]
                sl = (lin_add(base, e[1]), lin_add(hi, e[1], -1))
            # 'id' and others: no effect
        return obj, path, sl, ti, dyn

    def rplace(self, st, fr, inst, place):
        if not place['p']:
            return self.load(st, (fr, place['l']))
        obj, path, sl, ti, dyn = self.resolve(st, fr, inst, place)
        if sl is not None:
            return self.deref(st, mk('sl', obj, path, sl[0], sl[1]))
        return self.read(st, obj, path)

    def wplace(self, st, fr, inst, place, val):
        if not place['p']:
            st.mem[(fr, place['l'])] = val
            return
        obj, path, sl, ti, dyn = self.resolve(st, fr, inst, place)
        self.write(st, obj, path, val)

    def operand(self, st, fr, inst, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.rplace(st, fr, inst, o['p'])
        if k == 'const':
            c = o.get('_v')
            if c is None:
                c = o['_v'] = self.constv(o['v'], o['t'])
            return c
        return 0        # runtime checks disabled

    # ================================================================ scalars
    def fits(self, st, v, ti):
        t = self.F.types[ti]
        lo, hi = st.rng(v)
        if t['k'] == 'int':
            a, b = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1) if t['signed'] else (0, (1 << t['bits']) - 1)
            if lo >= a and hi <= b:
                return True
            if not st.ineq or not isV(v):
                return False
            return (lo >= a or st.ge0(lin_add(v, -a)) == 1) and (hi <= b or st.ge0(lin_add(b, v, -1)) == 1)
        return True

    def wrap(self, st, v, ti):
        """v reduced to the type's range."""
        t = self.F.types[ti]
        if t['k'] != 'int':
            return v
        bits, signed = t['bits'], t['signed']

        def red(x):
            x &= (1 << bits) - 1
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return x
        if isinstance(v, int):
            return red(v)
        if not isV(v) or v.k not in ('t', 'tab', 'bv'):
            return v
        if self.fits(st, v, ti):
            return v
        t_ = as_tab(v)
        if t_ is not None:
            m = st.con.get(t_[0])
            return mk_tab(t_[0], [None if x is None else red(x) for x in t_[1]])
        if not signed:
            b = as_bits(v, bits)
            if b is not None:
                return bits_value(b, bits)
        return term('trunc', bits, v)

    def binop(self, st, op, a, b, ti):
        """ti is the operand type."""
        t = self.F.types[ti]
        if isV(a, 'undef') or isV(b, 'undef'):
            return term('undef', 64, op)
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(st, lin_add(a, b), ti)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(st, lin_add(a, b, -1), ti)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(st, self.mul(st, a, b), ti)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = lin_add(a, b) if op[0] == 'A' else (lin_add(a, b, -1) if op[0] == 'S' else self.mul(st, a, b))
            bits = t['bits']
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t['signed'] else (0, (1 << bits) - 1)
            if self.fits(st, r, ti):
                return mk('agg', 0, (r, 0))
            under = bnot(mk_ge0(lin_add(r, -lo)))
            over = mk_ge0(lin_add(r, -hi - 1))
            if op[0] == 'S' and not t['signed']:
                return mk('agg', 0, (r, under))
            if st.decide(under) == 0:
                return mk('agg', 0, (r, over))
            if st.decide(over) == 0:
                return mk('agg', 0, (r, under))
            return mk('agg', 0, (r, self.bool_or(st, under, over)))
        if op in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == 'Div' else a - q * b
            if isinstance(b, int) and b > 0:
                t_ = as_tab(a)
                if t_ is not None:
                    return mk_tab(t_[0], [None if x is None else (x // b if op == 'Div' else x % b) for x in t_[1]])
                if b & (b - 1) == 0 and not t.get('signed'):
                    sh = b.bit_length() - 1
                    return self.shift(st, 'Shr', a, sh, ti) if op == 'Div' else self.bitop(st, 'BitAnd', a, b - 1, ti)
                if op == 'Div':
                    c, d = as_lin(a)
                    if all(x % b == 0 for x in d.values()) and d:
                        return mk_lin(c // b, {k: x // b for k, x in d.items()})
                else:
                    lo, hi = st.rng(a)
                    if lo >= 0 and hi < b:
                        return a
            return term('div' if op == 'Div' else 'rem', t.get('bits', 64), a, b)
        if op in ('Eq', 'Ne'):
            c = self.eq(st, a, b)
            return c if op == 'Eq' else bnot(c)
        if op == 'Lt':
            return self.cmp_lt(a, b)
        if op == 'Ge':
            return bnot(self.cmp_lt(a, b))
        if op == 'Gt':
            return self.cmp_lt(b, a)
        if op == 'Le':
            return bnot(self.cmp_lt(b, a))
        if op == 'Cmp':
            if self.cond(st, self.cmp_lt(a, b)):
                return mk('agg', 0, ())
            if self.cond(st, self.eq(st, a, b)):
                return mk('agg', 1, ())
            return mk('agg', 2, ())
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if t['k'] == 'bool':
                for x, y in ((a, b), (b, a)):
                    d = st.decide(x)
                    if d is not None:
                        if op == 'BitAnd':
                            return y if d else 0
                        if op == 'BitOr':
                            return 1 if d else y
                        return bnot(y) if d else y
                ta, tb = as_tab(a), as_tab(b)
                if ta and tb and ta[0] is tb[0]:
                    return self.bitop(st, op, a, b, ti)
                raise Fork([('c', a, 1), ('c', a, 0)])
            return self.bitop(st, op, a, b, ti)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.shift(st, op[:3], a, b, ti)
        if op == 'Offset':
            return term('offset', 64, a, b)
        return term('op_' + op, t.get('bits', 64) if t['k'] == 'int' else 64, a, b)

    def bool_or(self, st, a, b):
        d = st.decide(a)
        if d is not None:
            return 1 if d else b
        d = st.decide(b)
        if d is not None:
            return 1 if d else a
        ta, tb = as_tab(a), as_tab(b)
        if ta and tb and ta[0] is tb[0]:
            return mk_tab(ta[0], [None if x is None or y is None else x | y for x, y in zip(ta[1], tb[1])])
        raise Fork([('c', a, 1), ('c', a, 0)])

    def cmp_lt(self, a, b):
        if self.scalar(a) and self.scalar(b):
            return mk_lt(a, b)
        return term('sym', 1, ('lt', a, b))

    def scalar(self, v):
        return isinstance(v, int) or (isV(v) and v.k in ('t', 'tab', 'bv'))

    def eq(self, st, a, b):
        if self.scalar(a) and self.scalar(b):
            return mk_eq(a, b)
        if a is b:
            return 1
        return term('sym', 1, ('eq', a, b))

    def mul(self, st, a, b):
        if isinstance(b, int):
            return lin_scale(a, b)
        if isinstance(a, int):
            return lin_scale(b, a)
        ta, tb = as_tab(a), as_tab(b)
        if ta and tb and ta[0] is tb[0]:
            return mk_tab(ta[0], [None if x is None or y is None else x * y for x, y in zip(ta[1], tb[1])])
        if ta and tb is None and len(set(ta[1])) == 1:
            return lin_scale(b, ta[1][0])
        x, y = sorted((a, b), key=lambda v: v.uid)
        return term('mul', 64, x, y)

    def known(self, st, v):
        """The constant a scalar is known to be, else the scalar."""
        t = as_tab(v) if isV(v) else None
        if t is not None and t[0] in st.con:
            lo, hi = st.rng(v)
            if lo == hi and st.con[t[0]]:
                return lo
        return v

    def bitop(self, st, op, a, b, ti):
        f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op]
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        a, b = self.known(st, a), self.known(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        t = self.F.types[ti]
        w = t.get('bits', 1) if t['k'] == 'int' else 1
        ta = as_tab(a) if isV(a) else None
        tb = as_tab(b) if isV(b) else None
        if ta and isinstance(b, int):
            return mk_tab(ta[0], [None if x is None else f(x, b) for x in ta[1]])
        if tb and isinstance(a, int):
            return mk_tab(tb[0], [None if x is None else f(x, a) for x in tb[1]])
        if ta and tb and ta[0] is tb[0]:
            return mk_tab(ta[0], [None if x is None or y is None else f(x, y) for x, y in zip(ta[1], tb[1])])
        x, y = as_bits(a, w), as_bits(b, w)
        if x is not None and y is not None:
            out = []
            for p, q in zip(x, y):
                if isinstance(p, int) and isinstance(q, int):
                    out.append(f(p, q))
                    continue
                if isinstance(p, int):
                    p, q = q, p
                if isinstance(q, int):
                    if op == 'BitAnd':
                        out.append(p if q else 0)
                    elif op == 'BitOr':
                        out.append(1 if q else p)
                    else:
                        out.append((p[0], p[1], 1 - p[2]) if q else p)
                    continue
                if p == q:
                    out.append(0 if op == 'BitXor' else p)
                    continue
                out = None
                break
            if out is not None:
                return bits_value(out, w)
        p, q = (a, b)
        return term('op_' + op, w, p, q)

    def shift(self, st, op, a, b, ti):
        t = self.F.types[ti]
        w = t.get('bits', 64)
        if isinstance(b, int):
            if not 0 <= b < w:
                b %= w
            if isinstance(a, int):
                return (a << b) & ((1 << w) - 1) if op == 'Shl' else (a & ((1 << w) - 1)) >> b
            ta = as_tab(a) if isV(a) else None
            if ta:
                return mk_tab(ta[0], [None if x is None else ((x << b) & ((1 << w) - 1) if op == 'Shl' else x >> b) for x in ta[1]])
            x = as_bits(a, w)
            if x is not None:
                if op == 'Shl':
                    return bits_value((0,) * b + x[:w - b], w)
                return bits_value(x[b:] + (0,) * b, w)
            if op == 'Shl' and st.rng(a)[0] >= 0 and st.rng(a)[1] << b < 1 << w:
                return lin_scale(a, 1 << b)
        else:
            tb = as_tab(b) if isV(b) else None
            if tb and isinstance(a, int):
                return mk_tab(tb[0], [None if x is None else ((a << (x % w)) & ((1 << w) - 1) if op == 'Shl' else a >> (x % w)) for x in tb[1]])
            ta = as_tab(a) if isV(a) else None
            if ta and tb and ta[0] is tb[0]:
                return mk_tab(tb[0], [None if x is None or y is None else ((y << (x % w)) & ((1 << w) - 1) if op == 'Shl' else y >> (x % w)) for x, y in zip(tb[1], ta[1])])
        return term('op_' + op, w, a, b)

    def discriminant(self, st, v, ti):
        """Discriminant value of an enum value (forks on opaque enums)."""
        var = self.variant(st, v)
        if isinstance(var, int):
            if ti is not None:
                vs = self.F.types[ti].get('variants')
                if vs:
                    return vs[var]['d']
            return var
        return var

    def variant(self, st, v):
        if isV(v, 'agg'):
            return v.a[0]
        if isV(v, 'op'):
            name, ti = v.a
            d = st.disc.get(name)
            if isinstance(d, frozenset):
                raise Fork([('v', name, i) for i in sorted(d)])
            if d is not None:
                return d
            vs = self.F.types[ti].get('variants') if ti is not None else None
            if vs:
                dead = getattr(self, 'never_variants', {}).get(ti, ())
                raise Fork([('v', name, i) for i in range(len(vs)) if i not in dead])
            return term('sym', 64, ('discr', name))
        if isinstance(v, int) or (isV(v) and v.k in ('t', 'tab', 'bv')):
            return v
        return term('sym', 64, ('discr', v))

    # ================================================================ rvalues
    def rvalue(self, st, fr, inst, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, inst, r['o'])
        if k == 'ref':
            obj, path, sl, ti, dyn = self.resolve(st, fr, inst, r['p'])
            if sl is not None:
                return mk('sl', obj, path, sl[0], sl[1])
            return mk('ptr', obj, path, dyn)
        if k == 'bin':
            a = self.operand(st, fr, inst, r['a'])
            b = self.operand(st, fr, inst, r['b'])
            return self.binop(st, r['op'], a, b, r['t'])
        if k == 'un':
            a = self.operand(st, fr, inst, r['a'])
            t = self.F.types[r['t']]
            if r['op'] == 'Not':
                if t['k'] == 'bool':
                    return bnot(a) if self.scalar(a) else term('sym', 1, ('not', a))
                if isinstance(a, int):
                    return (~a) & ((1 << t['bits']) - 1)
                return self.bitop(st, 'BitXor', a, (1 << t['bits']) - 1, r['t'])
            if r['op'] == 'Neg':
                return lin_scale(a, -1)
            if r['op'] == 'PtrMetadata':
                if isV(a, 'sl'):
                    return a.a[3]
                if isV(a, 'ptr'):
                    v = self.deref(st, a)
                    if isV(v, 'seq'):
                        return self.seq_len(v)
                return ZST
            return term('un_' + r['op'], 64, a)
        if k == 'cast':
            return self.cast(st, r['c'], self.operand(st, fr, inst, r['o']), r['from'], r['t'])
        if k == 'discr':
            obj, path, sl, ti, dyn = self.resolve(st, fr, inst, r['p'])
            return self.discriminant(st, self.read(st, obj, path), ti)
        if k == 'agg':
            fs = tuple(self.operand(st, fr, inst, o) for o in r['f'])
            a = r['a']
            if a == 'array':
                return self.mkseq(r['et'], (('e', fs),))
            if a == 'closure':
                return mk('clo', r['t'], fs)
            if a == 'adt':
                t = self.F.types[r['t']]
                if t['ldef'] in TRANSPARENT and len(fs) == 1:
                    return fs[0]
                return mk('agg', r.get('var') or 0, fs)
            if a == 'rawptr':
                p = fs[0]
                if isV(p, 'ptr') and self.scalar(fs[1]):
                    v = self.deref(st, p)
                    if isV(v, 'seq'):
                        return mk('sl', p.a[0], p.a[1], 0, fs[1])
                return p
            return mk('agg', 0, fs)
        if k == 'repeat':
            v = self.operand(st, fr, inst, r['o'])
            ety = self.F.types[r['t']]['t'] if 't' in r else self.u8()
            return self.mkseq(ety, (('f', v, r['n']),))
        return mk('op', ('rv', fr, k), None)

    def cast(self, st, c, v, frm, to):
        tt = self.F.types[to]
        ft = self.F.types[frm]
        if c == 'IntToInt':
            if ft['k'] == 'bool' or ft['k'] == 'char' or tt['k'] == 'char':
                return v if tt['k'] != 'int' else self.wrap(st, v, to)
            if ft['k'] == 'adt':
                return self.discriminant(st, v, frm)
            return self.wrap(st, v, to)
        if c.startswith('PointerCoercion(Unsize'):
            pt, pf = self.pointee(to), self.pointee(frm)
            if pt is None or pf is None:
                return v
            pt, pf = self.peel(pt), self.peel(pf)
            if self.F.types[pt]['k'] == 'slice':
                if isV(v, 'ptr'):
                    n = self.F.types[pf].get('len')
                    if n is None:
                        n = self.seq_len(self.deref(st, v))
                    return mk('sl', v.a[0], v.a[1], 0, n)
                return v
            if self.F.types[pt]['k'] == 'dyn' and isV(v, 'ptr'):
                if self.F.types[pf]['k'] == 'dyn':
                    return v
                return mk('ptr', v.a[0], v.a[1], pf)
            return v
        if c.startswith('PointerCoercion(ReifyFnPointer') or c.startswith('PointerCoercion(ClosureFn'):
            return v
        if c in ('Transmute', 'PtrToPtr', 'FnPtrToPtr') or c.startswith('PointerCoercion'):
            if tt['k'] == 'int' and self.scalar(v):
                return self.wrap(st, v, to)
            return v
        if c in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            if c == 'FloatToInt':
                return self.mkop(to, ('float', v))
            return mk('op', ('float', v), to)
        if tt['k'] in ('ref', 'ptr') and isV(v) and v.k in ('ptr', 'sl'):
            return v
        return self.mkop(to, ('cast', v))

    # ================================================================ statements
    def stmt(self, st, fr, inst, s):
        k = s['k']
        if k == '=':
            v = self.rvalue(st, fr, inst, s['r'])
            p = s['p']
            if not p['p']:
                st.mem[(fr, p['l'])] = v
            else:
                self.wplace(st, fr, inst, p, v)
        elif k == 'setd':
            obj, path, sl, ti, dyn = self.resolve(st, fr, inst, s['p'])
            v = self.read(st, obj, path)
            if isV(v, 'agg'):
                self.write(st, obj, path, mk('agg', s['v'], v.a[1]))
            else:
                self.write(st, obj, path, mk('agg', s['v'], ()))
        elif k in ('sl', 'sd'):
            st.mem.pop((fr, s['l']), None)

    # ================================================================ functions
    def frame(self, parent, bb, iid):
        key = (parent, bb, iid)
        f = self.frames.get(key)
        if f is None:
            f = len(self.frames) + 1
            self.frames[key] = f
            self.frinfo[f] = key
        return f

    def stack(self, fr):
        out = []
        while fr:
            p, bb, iid = self.frinfo[fr]
            out.append(self.inst_name(iid))
            fr = p
        return out[::-1]

    def inst_name(self, iid):
        if isinstance(iid, int):
            return self.F.insts[iid]['lname']
        return str(iid)

    def run(self, inst, args, st, parent=0, bb=0, depth=0):
        """Analyse one call of inst; -> list of (state, return value)."""
        body = inst['body']
        fr = self.frame(parent, bb, inst['id'])
        if depth > self.maxdepth:
            raise Limit('call depth at ' + inst['lname'])
        self.seen_fns.add(inst['id'])
        st = st.copy()
        for i in range(len(body['locals'])):
            st.mem.pop((fr, i), None)
        argc = body['argc']
        if body.get('spread') is not None and body['spread'] and len(args) != argc:
            pass
        for i, a in enumerate(args[:argc]):
            st.mem[(fr, i + 1)] = a
        cfg = self.F.cfg(inst)
        pend = {0: [st]}
        rec = {}
        exits = {}
        results = []
        blocks = body['blocks']
        npred = cfg.pred
        while pend:
            b = min(pend, key=cfg.prio.__getitem__)
            states = pend.pop(b)
            if b in cfg.heads:
                out = []
                for s in states:
                    self.prune(s, fr, body, cfg, b)
                    r = self.at_head(fr, b, s, rec.setdefault(b, {}), exits.get(b, 0))
                    if r is not None and self.exact and self.accel:
                        r = self.accelerate(fr, inst, cfg, b, r, rec[b], depth)
                    if r is not None:
                        out.append(r)
                states = out
            elif len(states) > 1:
                for s in states:
                    self.prune(s, fr, body, cfg, b)
                states = self.merge(states)
            if len(states) > self.maxstates:
                raise Limit('%d states at %s' % (len(states), inst['lname']))
            for s in states:
                self.nblocks += 1
                if self.nblocks > self.maxblocks:
                    raise Limit('block budget exhausted in ' + inst['lname'])
                if self.deadline and self.nblocks & 15 == 0 and time.monotonic() > self.deadline:
                    raise Limit('time budget exhausted in ' + inst['lname'])
                for s2, nb in self.block(s, fr, inst, blocks[b], b, depth):
                    if nb is None:
                        results.append(s2)
                    else:
                        if b in cfg.ctl:
                            for h in cfg.ctl[b]:
                                if nb not in cfg.loops[h]:
                                    exits[h] = exits.get(h, 0) + 1
                        pend.setdefault(nb, []).append(s2)
        out = []
        n = len(body['locals'])
        for s in results:
            rv = s.mem.get((fr, 0), UNIT)
            for i in range(n):
                s.mem.pop((fr, i), None)
            out.append((s, rv))
        return self.merge_results(out)

    def merge_results(self, out):
        if len(out) < 2:
            if out:
                self.gc(out[0][0], out[0][1])
            return out
        for s, rv in out:
            s.mem[('RET',)] = rv
            self.gc(s, rv)
        ms = self.merge([s for s, _ in out])
        return [(s, s.mem.pop(('RET',))) for s in ms]

    def prune(self, st, fr, body, cfg, b):
        live = cfg.live[b]
        taken = cfg.taken
        for i in range(len(body['locals'])):
            if i not in live and i not in taken and (fr, i) in st.mem:
                del st.mem[(fr, i)]

    def block(self, st, fr, inst, blk, b, depth):
        out = []
        stmts = blk['s']
        n = len(stmts)
        stack = [(st, 0)]
        while stack:
            s, i = stack.pop()
            try:
                while i < n:
                    self.stmt(s, fr, inst, stmts[i])
                    i += 1
                out.extend(self.terminator(s, fr, inst, blk['t'], b, depth))
            except Fork as f:
                self.note_fork(f, fr, inst, b)
                for alt in reversed(f.alts):
                    s2 = s.copy()
                    if s2.apply(alt):
                        stack.append((s2, i))
        return out

    def note_fork(self, f, fr, inst, b):
        """A scalar compared with many different constants in one frame: widen its loops."""
        a = f.alts[0] if f.alts else ('x',)
        if a[0] != 'c' or not isV(a[1], 't') or a[1].a[0] not in ('ge0', 'eq0'):
            return
        c, d = as_lin(a[1].a[2][0])
        key = (fr, tuple(sorted((k.uid, x) for k, x in d.items())))
        cs = self.cmpconst.setdefault(key, set())
        cs.add(c)
        if len(cs) >= 5:
            f2, b2, i2 = fr, b, inst
            for _ in range(6):
                cfg = self.F.cfg(i2)
                hs = [h for h, body in cfg.loops.items() if b2 in body]
                if hs:
                    h = min(hs, key=lambda h: len(cfg.loops[h]))
                    self.forced.add((f2, h))
                    return
                f2, b2, iid = self.frinfo[f2]
                if not f2:
                    return
                iid2 = self.frinfo[f2][2]
                i2 = self.F.insts[iid2] if isinstance(iid2, int) else self.synth[iid2]

    def panic(self, st, fr, inst, kind, definite=True, detail='', soft=False):
        loc = inst['lname'] if isinstance(inst, dict) else str(inst)
        key = (loc, kind, detail)
        rec = self.panics.get(key)
        if rec is None:
            self.panics[key] = rec = {'fn': loc, 'kind': kind, 'detail': detail, 'definite': 0, 'maybe': 0, 'stack': self.stack(fr), 'tainted': True, 'soft': True, 'states': []}
        if not st.taint and not soft and len(rec['states']) < 5:
            rec['states'].append(st)
        rec['definite' if definite else 'maybe'] += 1
        if not st.taint:
            rec['tainted'] = False
        if not soft:
            rec['soft'] = False

    def terminator(self, st, fr, inst, t, b, depth):
        k = t['k']
        if k == 'goto':
            return [(st, t['to'])]
        if k == 'return':
            return [(st, None)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            v = self.operand(st, fr, inst, t['o'])
            return self.switch(st, v, t)
        if k == 'drop':
            obj, path, sl, ti, dyn = self.resolve(st, fr, inst, t['p'])
            return [(s, t['to']) for s in self.drop(st, obj, path, t['t'], fr, b, depth, dyn)]
        if k == 'assert':
            v = self.operand(st, fr, inst, t['o'])
            exp = 1 if t['exp'] else 0
            if not self.scalar(v):
                return [(st, t['to'])]
            d = st.decide(v)
            if d == exp:
                return [(st, t['to'])]
            msg = t['msg'] if isinstance(t['msg'], str) else str(t['msg'])
            if d is None:
                s2 = st.copy()
                if s2.assume(v, 1 - exp):
                    self.panic(s2, fr, inst, 'assert:' + msg, definite=False, detail=show(v)[:200], soft=imprecise(v))
                if not st.assume(v, exp):
                    return []
                return [(st, t['to'])]
            self.panic(st, fr, inst, 'assert:' + msg)
            return []
        if k == 'call':
            return self.call(st, fr, inst, t, b, depth)
        return []

    def switch(self, st, v, t):
        if isV(v, 'undef') or not self.scalar(v):
            # unknown discriminant: all targets
            st.taint = st.taint or ('switch',)
            return [(st.copy(), bb) for bb in dict.fromkeys([x for _, x in t['v']] + [t['else']])]
        if isinstance(v, int):
            bits = self.F.types[t['t']].get('bits', 128) if 't' in t else 128
            for x, bb in t['v']:
                if x == v or (v < 0 and x == v & ((1 << bits) - 1)):
                    return [(st, bb)]
            return [(st, t['else'])]
        if isV(v, 't') and v.a[0] in ('ge0', 'eq0', 'not', 'bit'):
            if self.cond(st, v):
                v = 1
            else:
                v = 0
            return self.switch(st, v, t)
        tb = as_tab(v)
        if tb is not None:
            src, table = tb
            m = st.mask(src, len(table))
            tgt = dict((x, bb) for x, bb in t['v'])
            masks = {}
            for i, x in enumerate(table):
                if m >> i & 1 and x is not None:
                    bb = tgt.get(x, t['else'])
                    masks[bb] = masks.get(bb, 0) | 1 << i
            out = []
            for bb, mm in masks.items():
                s2 = st.copy() if len(masks) > 1 else st
                if mm != (1 << len(table)) - 1 or src in st.con:
                    s2.con[src] = mm
                out.append((s2, bb))
            return out
        for x, bb in t['v']:
            c = mk_eq(v, x)
            d = st.decide(c)
            if d == 1:
                return [(st, bb)]
            if d is None:
                raise Fork([('c', c, 1), ('c', c, 0)])
        return [(st, t['else'])]

    # ================================================================ calls
    def call(self, st, fr, inst, t, b, depth):
        f = t['f']
        args = [self.operand(st, fr, inst, o) for o in t['a']]
        self.ncalls += 1
        ctx = Ctx(fr, b, inst, t, t.get('at') or [], t.get('dt'), depth)
        if 'py' in f:
            snap = st.copy()
            res = f['py'](self, snap, ctx, args)
        else:
            res = self.call_target(st, f, args, ctx)
        out = []
        for s, rv in res:
            if t['to'] is None:
                continue
            self.wplace(s, fr, inst, t['d'], rv)
            out.append((s, t['to']))
        return out

    def call_target(self, st, f, args, ctx):
        if 'ptr' in f and f.get('inst') is None:
            fv = self.operand(st, ctx.fr, ctx.inst, f['ptr'])
            return self.call_value(st, fv, args, ctx)
        iid = f.get('inst')
        tr, m = f.get('trait'), f.get('m')
        if iid is None:
            return self.external(st, f.get('path', '?'), None, args, ctx)
        return self.call_inst(st, self.F.insts[iid], args, ctx, tr, m)

    def call_inst(self, st, inst, args, ctx, tr=None, m=None):
        if tr is None:
            tr, m = inst.get('trait'), inst.get('m')
        if tr is not None:
            ltr = self.F.strip(tr)
            h = self.thooks.get((ltr, m))
            if h is not None:
                r = h(self, st.copy(), ctx, args)
                if r is not None:
                    return r
        lp = inst['lpath']
        h = self.hooks.get(lp)
        if h is not None:
            r = h(self, st.copy(), ctx, args)
            if r is not None:
                return r
        if inst['kind'] == 'virtual':
            return self.virtual(st, inst, args, ctx, tr, m)
        mdl = self.model_for(inst, tr, m)
        if mdl is not None:
            r = mdl(self, st.copy(), ctx, args)
            if r is not None:
                return r
        if inst['kind'] in ('closure_once', 'shim') and not inst['local'] and args:
            r = self.shim(st, inst, args, ctx)
            if r is not None:
                return r
        if 'body' in inst:
            if inst['body'].get('spread') and len(args) == 2 and isV(args[1], 'agg') and inst['body']['argc'] != 2:
                args = [args[0]] + list(args[1].a[1])
            return self.run(inst, args, st, ctx.fr, ctx.bb, ctx.depth + 1)
        if inst['kind'] == 'clone_shim' and args:
            return [(st, self.deref(st, args[0]))]
        return self.external(st, lp, inst, args, ctx)

    def shim(self, st, inst, args, ctx):
        return self.call_value(st, args[0], list(args[1].a[1]) if len(args) > 1 and isV(args[1], 'agg') else args[1:], ctx) \
            if (isV(args[0], 'clo') or isV(args[0], 'fn')) else None

    def virtual(self, st, inst, args, ctx, tr, m):
        ltr = self.F.strip(tr) if tr else None
        p = args[0]
        dyn = None
        if isV(p, 'ptr'):
            dyn = p.a[2]
            if dyn is None and not p.a[1] and p.a[0][0] == 'O' and self.F.types[p.a[0][2]]['k'] == 'adt':
                dyn = p.a[0][2]
            if dyn is None:
                dyn = self.dyn_default.get(ltr)
        if dyn is not None:
            iid = self.F.vt.get((dyn, ltr, m))
            if iid is None:
                iid = self.F.traits.get((ltr, dyn, m))
            if iid is not None:
                ctx2 = ctx
                return self.call_inst(st, self.F.insts[iid], [mk('ptr', p.a[0], p.a[1], None)] + list(args[1:]), ctx2)
        # unknown receiver: every implementation in the crate, if any
        return self.external(st, inst['lpath'], inst, args, ctx)

    def call_value(self, st, fv, args, ctx):
        """Call a closure / fn item / pointer to one with untupled arguments."""
        for _ in range(4):
            if isV(fv, 'ptr'):
                if isV(self.deref(st, fv), 'clo') or isV(self.deref(st, fv), 'fn') or isV(self.deref(st, fv), 'ptr'):
                    inner = self.deref(st, fv)
                    if isV(inner, 'clo'):
                        return self.call_closure(st, inner, fv, args, ctx)
                    fv = inner
                    continue
            break
        if isV(fv, 'fn') and fv.a[0] is not None:
            return self.call_inst(st, self.F.insts[fv.a[0]], list(args), ctx)
        if isV(fv, 'clo'):
            return self.call_closure(st, fv, None, args, ctx)
        return self.external(st, 'call of unknown function value', None, [fv] + list(args), ctx)

    def call_closure(self, st, clo, ptr, args, ctx):
        t = self.F.types[clo.a[0]]
        iid = t.get('inst')
        if iid is None:
            return self.external(st, 'closure without body', None, args, ctx)
        inst = self.F.insts[iid]
        body = inst['body']
        self_t = self.F.types[body['locals'][1]] if body['argc'] >= 1 else None
        if self_t is not None and self_t['k'] == 'ref':
            tmp = None
            if ptr is None:
                st = st.copy()
                tmp = self.heap(st, ('clo', ctx.fr, ctx.bb), clo)
                ptr = mk('ptr', tmp, (), None)
            a = [ptr] + list(args)
        else:
            a = [clo] + list(args)
        return self.run(inst, a, st, ctx.fr, ctx.bb, ctx.depth + 1)

    def external(self, st, path, inst, args, ctx):
        """No body, no model: unknown result; memory behind mutable pointers becomes unknown."""
        self.unmodelled[path] += 1
        st = st.copy()
        st.taint = tuple(sorted(set(st.taint) | {path}))
        for a, ti in zip(args, ctx.at):
            self.havoc_arg(st, a, ti, ('ext', path))
        if ctx.dt is None:
            return [(st, mk('op', ('ext', path, ctx.fr, ctx.bb), None))]
        if self.F.types[ctx.dt]['k'] == 'never':
            return []
        return [(st, self.fresh(st, ('ext', path), ctx.dt))]

    def havoc_arg(self, st, a, ti, tag):
        t = self.F.types[ti]
        if t['k'] == 'ref' and t.get('mut'):
            if isV(a, 'ptr') and a.a[2] is None:
                self.write(st, a.a[0], a.a[1], self.fresh(st, tag, self.peel(t['t'])))
            elif isV(a, 'sl'):
                o, pa, off, n = a.a
                v = self.read(st, o, pa)
                if isV(v, 'seq'):
                    name = self.fresh(st, tag, self.tyid('usize'))
                    self.write(st, o, pa, self.seq_replace(st, v, off, n, (('b', ('havoc', name), 0, n),)))

    # ================================================================ drops
    def needs_drop(self, ti, seen=None):
        """Does dropping a value of this type do something we track (guards, user Drop)?"""
        c = getattr(self, '_nd', None)
        if c is None:
            c = self._nd = {}
        if ti in c:
            return c[ti]
        c[ti] = False
        t = self.F.types[ti]
        r = False
        if t['k'] == 'adt':
            d = t['ldef']
            if d in ('std::cell::Ref', 'std::cell::RefMut') or ti in self.F.drops:
                r = True
            elif d in BOXES or d in SEQS or d in TRANSPARENT:
                r = d != 'std::rc::Rc' and any(self.needs_drop(x) for x in t['args'][:1] if isinstance(x, int))
            else:
                r = any(self.needs_drop(f['t']) for v in t['variants'] for f in v['f'])
        elif t['k'] == 'tuple':
            r = any(self.needs_drop(x) for x in t['ts'])
        elif t['k'] == 'closure':
            r = any(self.needs_drop(x) for x in t['ups'])
        elif t['k'] == 'array':
            r = self.needs_drop(t['t'])
        elif t['k'] == 'dyn':
            r = True
        c[ti] = r
        return r

    def drop(self, st, obj, path, ti, fr, bb, depth, dyn=None):
        if not self.needs_drop(ti):
            return [st]
        v = self.read(st, obj, path)
        return self.drop_value(st, v, ti, mk('ptr', obj, path, dyn), fr, bb, depth)

    def drop_value(self, st, v, ti, p, fr, bb, depth):
        t = self.F.types[ti]
        if isV(v, 'guard'):
            self.release(st, v)
            return [st]
        if not self.needs_drop(ti) or isV(v, 'undef'):
            return [st]
        sts = [st]
        if t['k'] == 'adt':
            d = t['ldef']
            if d in BOXES:
                if d == 'std::rc::Rc':
                    return [st]
                inner = self.peel(t['args'][0])
                if self.F.types[inner]['k'] == 'dyn':
                    inner = v.a[2] if isV(v, 'ptr') else None
                if inner is None or not isV(v, 'ptr'):
                    return [st]
                return self.drop_value(st, self.deref(st, v), inner, v, fr, bb, depth)
            if d in TRANSPARENT:
                return self.drop_value(st, v, t['args'][0], p, fr, bb, depth)
            if ti in self.F.drops:
                inst = self.F.insts[self.F.drops[ti]]
                sts = [s for s, _ in self.run(inst, [p], st, fr, bb, depth + 1)]
            if isV(v, 'agg') and v.a[0] < len(t['variants']):
                for i, f in enumerate(t['variants'][v.a[0]]['f']):
                    if i < len(v.a[1]) and self.needs_drop(f['t']):
                        pp = mk('ptr', p.a[0], p.a[1] + (('f', i),), None)
                        nxt = []
                        for s in sts:
                            nxt.extend(self.drop_value(s, v.a[1][i], f['t'], pp, fr, bb, depth))
                        sts = nxt
            return sts
        if t['k'] in ('tuple', 'closure') and isV(v) and v.k in ('agg', 'clo'):
            ts = t['ts'] if t['k'] == 'tuple' else t['ups']
            for i, x in enumerate(ts):
                if i < len(v.a[1]) and self.needs_drop(x):
                    pp = mk('ptr', p.a[0], p.a[1] + (('f', i),), None)
                    sts = [s2 for s in sts for s2 in self.drop_value(s, v.a[1][i], x, pp, fr, bb, depth)]
        return sts

    def release(self, st, g):
        mode, obj, path = g.a[0], g.a[1], g.a[2]
        k = (obj, path)
        r, w = st.bor.get(k, (0, 0))
        if mode == 'w':
            w = max(0, w - 1)
        else:
            r = max(0, r - 1)
        if r or w:
            st.bor[k] = (r, w)
        else:
            st.bor.pop(k, None)

    # ================================================================ garbage
    def gc(self, st, extra=None):
        if not any([k[0] == 'H' for k in st.mem]):
            return
        seen = set()
        work = []

        def scan(v):
            if isinstance(v, tuple):
                for x in v:
                    scan(x)
            elif isinstance(v, V):
                for o in objs_of(v):
                    if o not in seen:
                        seen.add(o)
                        work.append(o)
        for k, v in st.mem.items():
            if type(v) is int:
                continue
            t = k[0]
            if t != 'H' and t != 'sec':
                scan(v)
        scan(extra)
        while work:
            o = work.pop()
            v = st.mem.get(o)
            if v is not None:
                scan(v)
        for k in [k for k in st.mem if k[0] == 'H' and k not in seen]:
            del st.mem[k]


_objs = {}


def objs_of(v):
    """Objects referenced by pointers inside v (cached)."""
    r = _objs.get(v)
    if r is not None:
        return r
    out = set()
    if v.k in ('ptr', 'sl'):
        out.add(v.a[0])
    elif v.k == 'guard':
        out.add(v.a[1])
    for x in v.a:
        _objs_in(x, out)
    r = _objs[v] = frozenset(out)
    return r


def _objs_in(x, out):
    if isinstance(x, V):
        out |= objs_of(x)
    elif isinstance(x, tuple):
        for y in x:
            _objs_in(y, out)
