"""Rule toolkit: engine set-up, the abstract block device, running one function."""
import threading, time, sys
from .facts import Facts
from .engine import *

threading.stack_size(1 << 30)
DEV = 'disk::block::BlockDevice'


def in_thread(fn):
    box = {}

    def go():
        try:
            box['r'] = fn()
        except BaseException as e:      # re-raised in the caller
            import traceback
            box['e'] = e
            box['tb'] = traceback.format_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in box:
        if not isinstance(box['e'], Limit):
            sys.stderr.write('\n'.join(box['tb'].splitlines()[-9:]) + '\n')
        raise box['e'].with_traceback(None)
    return box.get('r')


def ok(v):
    return mk('agg', 0, (v,))


def err(v):
    return mk('agg', 1, (v,))


def none():
    return mk('agg', 0, ())


def some(v):
    return mk('agg', 1, (v,))


class Device:
    """Sectors are 256-byte objects named by their location.  Whether a location exists and
    whether the image is writable are fixed, unknown facts of the device."""

    def __init__(self, eng):
        self.eng = eng
        self.watch = []                    # fn(eng, st, ctx, what, loc)
        self.valid = None                  # fn(eng, st, loc) -> True/False/None
        for m in ('check_writability', 'geometry', 'sector', 'sector_mut', 'error_table',
                  'error_table_mut', 'flush'):
            eng.thooks[(DEV, m)] = getattr(self, m)

    def ioe(self, what):
        eng = self.eng
        return mk('op', ('deverr', what), eng.tyid('std::io::Error'))

    def note(self, st, ctx, what, loc=None):
        for w in self.watch:
            w(self.eng, st, ctx, what, loc)

    def locv(self, st, v):
        if isV(v, 'agg') and v.a[0] == 0:
            return v
        if isV(v, 'op'):
            w = self.eng.expand(st, v, 0)
            if w is not None:
                return w
        return v

    def inrange(self, st, loc):
        if self.valid is not None:
            r = self.valid(self.eng, st, loc)
            if r is not None:
                return r
        return self.eng.cond(st, term('sym', 1, ('inrange', loc)))

    def writable(self, st):
        return self.eng.cond(st, term('sym', 1, ('writable',)))

    def check_writability(self, eng, st, ctx, args):
        if self.writable(st):
            return [(st, ok(UNIT))]
        return [(st, err(self.ioe('ro')))]

    def geometry(self, eng, st, ctx, args):
        return [(st, eng.mkop(ctx.dt, ('geometry',)))]

    def sector(self, eng, st, ctx, args):
        loc = self.locv(st, args[1])
        if not self.inrange(st, loc):
            return [(st, err(self.ioe('loc')))]
        self.note(st, ctx, 'sector', loc)
        return [(st, ok(mk('sl', ('sec', loc), (), 0, 256)))]

    def sector_mut(self, eng, st, ctx, args):
        loc = self.locv(st, args[1])
        if not self.writable(st):
            return [(st, err(self.ioe('ro')))]
        if not self.inrange(st, loc):
            return [(st, err(self.ioe('loc')))]
        self.note(st, ctx, 'sector_mut', loc)
        obj = ('sec', loc)
        st.mem.setdefault(obj, eng.load(st, obj))
        conc = self.concrete(loc)
        for o in [o for o in st.mem if o[0] == 'sec' and o != obj and not (conc and self.concrete(o[1]))]:
            if self.may_alias(st, o[1], loc):
                del st.mem[o]
        ep = st.mem.get(('EPOCH',), 0)
        base, ws = ep.a if isV(ep, 'ep') else (ep, ())
        if isV(loc, 'agg') and all(isinstance(x, int) for x in loc.a[1]) and isinstance(ws, tuple):
            if loc not in ws:
                st.mem[('EPOCH',)] = mk('ep', base, tuple(sorted(ws + (loc,), key=lambda x: x.uid)))
        else:
            n = st.mem.get(('cnt', 'epoch'), 0)
            st.mem[('cnt', 'epoch')] = lin_add(n, 1)
            st.mem[('EPOCH',)] = mk('epoch', n)
        return [(st, ok(mk('sl', obj, (), 0, 256)))]

    def concrete(self, l):
        return isV(l, 'agg') and len(l.a[1]) == 2 and type(l.a[1][0]) is int and type(l.a[1][1]) is int

    def may_alias(self, st, a, b):
        if not (isV(a, 'agg') and isV(b, 'agg')):
            return True
        for x, y in zip(a.a[1], b.a[1]):
            if self.eng.scalar(x) and self.eng.scalar(y) and st.decide(mk_eq(x, y)) == 0:
                return False
        return True

    def error_table(self, eng, st, ctx, args):
        return None if False else [(st, eng.mkop(ctx.dt, ('error_table',)))]

    def error_table_mut(self, eng, st, ctx, args):
        return [(st, eng.mkop(ctx.dt, ('error_table_mut',)))]

    def flush(self, eng, st, ctx, args):
        self.note(st, ctx, 'devflush')
        return [(st, ok(UNIT)), (st.copy(), err(self.ioe('flush')))]


def engine(F, device=True):
    eng = Engine(F)
    t = F.by_tystr
    for tr, ty in (('disk::block::BlockDevice', 'disk::block::ImageBlockDevice'),):
        i = t.get(ty)
        if i is not None:
            eng.dyn_default[tr] = i
    eng.device = Device(eng) if device else None
    return eng


def symargs(eng, inst):
    b = inst['body']
    return [eng.mkop(b['locals'][i + 1], ('arg', i)) for i in range(b['argc'])]
