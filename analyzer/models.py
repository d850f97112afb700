"""Models of the standard library functions the crate uses (and common alternatives)."""
import re

from .vals import *
from .state import *
from .seqs import seg_len, total
from .iters import *

_norm = {}


def norm(p):
    r = _norm.get(p)
    if r is not None:
        return r
    s = p
    m = re.match(r'^(?:core|std|alloc)::(?:slice|str|array)(?:::\w+)*::<impl (\[T\]|str|\[T; N\]|\[u8\])>::(\w+)$', s)
    if m:
        s = ('str' if m.group(1) == 'str' else 'slice') + '::' + m.group(2)
    else:
        m = re.match(r'^(?:core|std|alloc)::(?:num|char|bool|option|result)(?:::\w+)*::<impl (\w+)>::(\w+)$', s)
        if m:
            s = 'num::' + m.group(2)
        else:
            m = re.match(r'^alloc::io::error::<impl std::io::Error>::(\w+)$', s)
            if m:
                s = 'std::io::Error::' + m.group(1)
            else:
                out, d = [], 0
                i = 0
                while i < len(s):
                    c = s[i]
                    if c == '<':
                        if d == 0 and out[-2:] == [':', ':']:
                            out = out[:-2]
                        d += 1
                    elif c == '>' and s[i - 1] != '-':
                        d -= 1
                    elif d == 0:
                        out.append(c)
                    i += 1
                s = ''.join(out)
    _norm[p] = s
    return s


P = {}      # normalised path -> model
T = {}      # (trait, method) -> model


def path(*names):
    def d(f):
        for n in names:
            P[n] = f
        return f
    return d


def trait(tr, *ms):
    def d(f):
        for m in ms:
            T[(tr, m)] = f
        return f
    return d


def install(eng):
    eng.synth = {}
    eng.synth_depth = {}

    def model_for(inst, tr, m):
        if inst['local']:
            if tr is not None and '{closure' in inst['lname']:
                return T.get((eng.F.strip(tr), m)) if eng.F.strip(tr) in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') else None
            return None
        if tr is not None:
            tt = eng.F.strip(tr)
            f = T.get((tt, m))
            if f is not None:
                return f
        f = P.get(norm(inst['lpath']))
        if f is not None:
            return f
        lp = inst['lpath']
        if lp.startswith(('core::fmt', 'std::fmt', 'core::panicking', 'std::rt::', 'std::hash', 'core::hash')) or '::fmt::' in lp:
            return fmt_any
        return None
    eng.model_for = model_for


def one(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ panics and formatting

def fmt_any(eng, st, ctx, a):
    p = ctx.t['f'].get('path') or ''
    if ctx.t.get('to') is None or (ctx.dt is not None and eng.F.types[ctx.dt]['k'] == 'never'):
        eng.panic(st, ctx.fr, ctx.inst, 'panic', True, re.sub(r'.*::', '', norm(p)))
        return []
    if ctx.dt is None:
        return one(st, UNIT)
    if eng.text is not None:
        r = eng.text(eng, st, ctx, a, norm(p))
        if r is not None:
            return r
        st.taint = tuple(st.taint) + ('fmt ' + norm(p),)
    t = eng.F.types[ctx.dt]
    if t['k'] == 'adt' and t['ldef'] == 'std::result::Result':
        return one(st, eng.mkop(ctx.dt, ('fmtres',)))
    return one(st, eng.mkop(ctx.dt, ('fmt', tuple(x for x in a if isinstance(x, (int, V))))))


for _n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed',
           'core::panicking::unimplemented_default_msg', 'core::panicking::unreachable_default_msg',
           'std::result::unwrap_failed', 'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed::unwrap_failed_inner',
           'std::cell::panic_already_borrowed', 'std::cell::panic_already_mutably_borrowed', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
           'core::option::expect_failed', 'core::panicking::panic_display', 'core::panicking::panic_explicit'):
    P[_n] = fmt_any


@path('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::format', 'std::fmt::Formatter::write_fmt',
      'std::fmt::Formatter::write_str', 'std::fmt::Formatter::alternate', 'core::fmt::rt::Argument::new_display')
def _fmt(eng, st, ctx, a):
    return fmt_any(eng, st, ctx, a)


@trait('std::fmt::Write', 'write_fmt', 'write_char', 'write_str')
def _fmtw(eng, st, ctx, a):
    if eng.text is not None:
        return fmt_any(eng, st, ctx, a)
    # writing text into a String changes it in a way we do not track
    if a and isV(a[0], 'ptr'):
        v = eng.deref(st, a[0])
        if isV(v, 'seq'):
            eng.store(st, a[0], eng.fresh(st, ('fmtstr',), eng.tyid('std::string::String')))
    return fmt_any(eng, st, ctx, a)


@trait('std::fmt::Display', 'fmt')
def _disp(eng, st, ctx, a):
    return fmt_any(eng, st, ctx, a)


@trait('std::string::ToString', 'to_string')
def _tostr(eng, st, ctx, a):
    v = a[0]
    if eng.text is not None:
        from . import texts
        r = texts.to_string(eng, st, ctx, v, eng.F.types[ctx.at[0]]['t'])
        if r is not None:
            return r
    s = eng.seq_of(st, v) if isV(v, 'sl') else None
    if s is not None:
        return one(st, s)
    return one(st, eng.mkop(ctx.dt, ('tostr', eng.deref(st, v) if isV(v, 'ptr') else v)))


@path('str::parse')
def _parse(eng, st, ctx, a):
    # numbers in concrete texts
    q = eng.seq_of(st, a[0]) if isV(a[0], 'sl') else None
    es = eng.explode(q) if q is not None else None
    t = eng.F.types[eng.F.types[ctx.dt]['args'][0]]
    if es is None or not all(isinstance(x, int) for x in es) or t['k'] != 'int' or t.get('signed'):
        return None
    b = bytes(es)
    if b[:1] == b'+':
        b = b[1:]
    if not b or any(c not in b'0123456789' for c in b) or int(b) >= 1 << t['bits']:
        return one(st, err(eng.mkop(eng.F.types[ctx.dt]['args'][1], ('parseerr', b))))
    return one(st, ok(int(b)))


@path('std::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def _id(eng, st, ctx, a):
    return one(st, a[0])


# ------------------------------------------------------------------ Try

@trait('std::ops::Try', 'branch')
def _branch(eng, st, ctx, a):
    d = base_def(eng, ctx.at[0]) if ctx.at else ''

    def f(s):
        k = eng.variant(s, a[0])
        if d == 'std::result::Result':
            if k == 0:
                return [(s, mk('agg', 0, (eng.field(s, a[0], 0, 0),)))]
            return [(s, mk('agg', 1, (err(eng.field(s, a[0], 0, 1)),)))]
        if d == 'std::option::Option':
            if k == 1:
                return [(s, mk('agg', 0, (eng.field(s, a[0], 0, 1),)))]
            return [(s, mk('agg', 1, (NONE,)))]
        return None
    if d not in ('std::result::Result', 'std::option::Option'):
        return None
    return forks(eng, f, st)


@trait('std::ops::FromResidual', 'from_residual')
def _resid(eng, st, ctx, a):
    if ctx.dt is None or not ctx.at:
        return None
    t, f = eng.F.types[ctx.dt], eng.F.types[ctx.at[0]]
    if t['k'] != 'adt' or f['k'] != 'adt':
        return None
    if t['ldef'] == 'std::option::Option':
        return one(st, NONE)
    if t['ldef'] == 'std::result::Result' and f['ldef'] == 'std::result::Result' and t['args'][1] == f['args'][1]:
        return one(st, err(eng.field(st, a[0], 0, 1)))
    return None


# ------------------------------------------------------------------ function values

@trait('std::ops::FnOnce', 'call_once')
@trait('std::ops::FnMut', 'call_mut')
@trait('std::ops::Fn', 'call')
def _calltr(eng, st, ctx, a):
    args = list(a[1].a[1]) if len(a) > 1 and isV(a[1], 'agg') else []
    return eng.call_value(st, a[0], args, ctx)


# ------------------------------------------------------------------ smart pointers, cells

@path('std::boxed::Box::new', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::boxed::Box::pin')
def _boxnew(eng, st, ctx, a):
    return one(st, mk('ptr', eng.heap(st, ctx.site, a[0]), (), None))


@path('std::boxed::Box::new_uninit', 'std::boxed::box_new_uninit')
def _boxun(eng, st, ctx, a):
    return one(st, mk('ptr', eng.heap(st, ctx.site, mk('undef')), (), None))


@path('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'slice::into_vec')
def _boxvec(eng, st, ctx, a):
    v = eng.deref(st, a[0])
    while isV(v, 'agg') and v.a[1]:                 # MaybeUninit / ManuallyDrop wrappers
        fs = [x for x in v.a[1] if isV(x, 'seq') or isV(x, 'agg')]
        if len(fs) != 1:
            break
        v = fs[0]
    return one(st, v)


@path('std::boxed::Box::leak', 'std::boxed::Box::into_raw', 'std::boxed::Box::from_raw', 'std::boxed::Box::as_ref', 'std::boxed::Box::as_mut')
def _boxraw(eng, st, ctx, a):
    return one(st, a[0])


@path('std::rc::Rc::ptr_eq')
def _ptreq(eng, st, ctx, a):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    return one(st, 1 if x is y or x.a[0] == y.a[0] else term('sym', 1, ('ptreq', x, y)))


@path('std::rc::Rc::clone')
def _rcclone(eng, st, ctx, a):
    return one(st, eng.deref(st, a[0]))


@path('std::cell::RefCell::new', 'std::cell::Cell::new', 'std::cell::RefCell::into_inner', 'std::cell::UnsafeCell::new')
def _cellnew(eng, st, ctx, a):
    return one(st, a[0])


@path('std::cell::Cell::get')
def _cellget(eng, st, ctx, a):
    return one(st, eng.deref(st, a[0]))


@path('std::cell::Cell::set')
def _cellset(eng, st, ctx, a):
    eng.store(st, a[0], a[1])
    return one(st, UNIT)


def _bkey(p):
    return (p.a[0], p.a[1])


def do_borrow(eng, st, ctx, p, mode, definite=True):
    k = _bkey(p)
    r, w = st.bor.get(k, (0, 0))
    if w or (mode == 'w' and r):
        eng.panic(st, ctx.fr, ctx.inst, 'refcell', True, 'already %sborrowed' % ('mutably ' if w else ''))
        return None
    st.bor[k] = (r, w + 1) if mode == 'w' else (r + 1, w)
    return mk('guard', mode, p.a[0], p.a[1], p.a[2])


@path('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut')
def _borrow(eng, st, ctx, a):
    mode = 'w' if (ctx.t['f'].get('path') or '').endswith('borrow_mut') else 'r'
    if not isV(a[0], 'ptr'):
        return None
    g = do_borrow(eng, st, ctx, a[0], mode)
    return [] if g is None else one(st, g)


@path('std::cell::RefCell::try_borrow', 'std::cell::RefCell::try_borrow_mut')
def _tryborrow(eng, st, ctx, a):
    mode = 'w' if (ctx.t['f'].get('path') or '').endswith('mut') else 'r'
    k = _bkey(a[0])
    r, w = st.bor.get(k, (0, 0))
    if w or (mode == 'w' and r):
        return one(st, err(mk('op', ('borrowerr',), None)))
    return one(st, ok(do_borrow(eng, st, ctx, a[0], mode)))


@path('std::cell::RefCell::replace')
def _crep(eng, st, ctx, a):
    k = _bkey(a[0])
    if k in st.bor:
        eng.panic(st, ctx.fr, ctx.inst, 'refcell', True, 'replace while borrowed')
        return []
    old = eng.deref(st, a[0])
    eng.store(st, a[0], a[1])
    return one(st, old)


@path('std::cell::Ref::clone')
def _refclone(eng, st, ctx, a):
    g = eng.deref(st, a[0])
    k = (g.a[1], g.a[2])
    r, w = st.bor.get(k, (0, 0))
    st.bor[k] = (r + 1, w)
    return one(st, g)


@path('std::mem::drop', 'core::mem::drop')
def _drop(eng, st, ctx, a):
    h = eng.heap(st, ctx.site, a[0])
    st.mem[('PIN', h)] = mk('ptr', h, (), None)
    out = []
    for s in eng.drop_value(st, a[0], ctx.at[0], mk('ptr', h, (), None), ctx.fr, ctx.bb, ctx.depth):
        s.mem.pop(('PIN', h), None)
        s.mem.pop(h, None)
        out.append((s, UNIT))
    return out


@path('std::mem::forget')
def _forget(eng, st, ctx, a):
    return one(st, UNIT)


@path('std::mem::swap')
def _swap(eng, st, ctx, a):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    eng.store(st, a[0], y)
    eng.store(st, a[1], x)
    return one(st, UNIT)


@path('std::mem::replace')
def _replace(eng, st, ctx, a):
    x = eng.deref(st, a[0])
    eng.store(st, a[0], a[1])
    return one(st, x)


@path('std::mem::take')
def _take(eng, st, ctx, a):
    d = default_of(eng, ctx.dt)
    if d is None:
        return None
    x = eng.deref(st, a[0])
    eng.store(st, a[0], d)
    return one(st, x)


def default_of(eng, ti):
    t = eng.F.types[ti]
    if t['k'] in ('int', 'bool', 'char'):
        return 0
    if t['k'] == 'ref':
        p = eng.F.types[t['t']]
        if p['k'] in ('slice', 'str'):
            ety = p['t'] if p['k'] == 'slice' else eng.u8()
            key = ('K', 'empty', ety)
            eng.const[key] = eng.mkseq(ety, ())
            return mk('sl', key, (), 0, 0)
    if t['k'] == 'adt':
        if t['ldef'] in ('std::vec::Vec', 'std::collections::VecDeque'):
            return eng.mkseq(t['args'][0], ())
        if t['ldef'] == 'std::string::String':
            return eng.mkseq(eng.u8(), ())
        if t['ldef'] == 'std::option::Option':
            return NONE
        if t['ldef'] in ('std::collections::HashSet', 'std::collections::HashMap', 'std::collections::BTreeSet', 'std::collections::BTreeMap'):
            return mk('set', None, ())
    return None


@trait('std::default::Default', 'default')
def _default(eng, st, ctx, a):
    d = default_of(eng, ctx.dt) if ctx.dt is not None else None
    return None if d is None else one(st, d)


def ptr_to_seq(eng, st, p):
    """ptr/sl to a sequence -> sl"""
    if isV(p, 'sl'):
        return p
    if isV(p, 'ptr'):
        v = eng.deref(st, p)
        if isV(v, 'seq'):
            return mk('sl', p.a[0], p.a[1], 0, eng.seq_len(v))
        if isV(v, 'sl') or isV(v, 'ptr'):
            return ptr_to_seq(eng, st, v)
    return None


@trait('std::ops::Deref', 'deref')
@trait('std::ops::DerefMut', 'deref_mut')
@trait('std::convert::AsRef', 'as_ref')
@trait('std::convert::AsMut', 'as_mut')
@trait('std::borrow::Borrow', 'borrow')
@trait('std::borrow::BorrowMut', 'borrow_mut')
def _deref(eng, st, ctx, a):
    p = a[0]
    if not isV(p, 'ptr'):
        return one(st, p) if isV(p, 'sl') else None
    v = eng.deref(st, p)
    if isV(v, 'guard'):
        o, pa, dyn = v.a[1], v.a[2], v.a[3]
        return one(st, mk('ptr', o, pa, dyn))
    if isV(v, 'seq'):
        return one(st, mk('sl', p.a[0], p.a[1], 0, eng.seq_len(v)))
    if isV(v, 'ptr') or isV(v, 'sl'):
        return one(st, v)
    if isV(v, 'op') and v.a[1] is not None:
        d = base_def(eng, v.a[1])
        if d in ('memmap::Mmap', 'memmap::MmapMut'):
            return one(st, mk('sl', ('O', ('map', v.a[0]), eng.tyid('[u8]')), (), 0, eng.lenof(('map', v.a[0]))))
    return None


@trait('std::clone::Clone', 'clone')
def _clone(eng, st, ctx, a):
    if not isV(a[0], 'ptr'):
        return None
    v = eng.deref(st, a[0])
    if isV(v, 'guard'):
        return None
    t = eng.F.types[ctx.dt] if ctx.dt is not None else None
    if t is not None and t['k'] == 'adt' and t['ldef'] == 'std::boxed::Box':
        if isV(v, 'ptr'):
            return one(st, mk('ptr', eng.heap(st, ctx.site, eng.deref(st, v)), (), v.a[2]))
        if isV(v, 'sl'):
            s = eng.deref(st, v)
            return one(st, mk('sl', eng.heap(st, ctx.site, s), (), 0, eng.seq_len(s)))
    return one(st, v)


@trait('std::borrow::ToOwned', 'to_owned')
def _toowned(eng, st, ctx, a):
    return one(st, eng.deref(st, a[0]))


@trait('std::convert::From', 'from')
def _from(eng, st, ctx, a):
    t = eng.F.types[ctx.dt] if ctx.dt is not None else None
    if t is None:
        return None
    if t['k'] in ('int', 'char'):
        return one(st, a[0])
    if t['k'] == 'adt' and t['ldef'] in ('std::string::String', 'std::vec::Vec'):
        s = eng.seq_of(st, a[0])
        if s is not None:
            return one(st, s)
    if t['k'] == 'adt' and t['ldef'] == 'std::boxed::Box':
        if isV(a[0], 'ptr') or isV(a[0], 'sl'):
            return one(st, a[0])
        return one(st, mk('ptr', eng.heap(st, ctx.site, a[0]), (), ctx.at[0] if ctx.at else None))
    if ctx.at and ctx.at[0] == ctx.dt:
        return one(st, a[0])
    return None


# ------------------------------------------------------------------ equality

def seq_eq(eng, st, x, y):
    """Boolean value for equality of two seqs (may fork)."""
    if x is y or x.a[1] == y.a[1]:
        return 1
    nx, ny = eng.seq_len(x), eng.seq_len(y)
    if not eng.cond(st, mk_eq(nx, ny)):
        return 0
    ex, ey = eng.explode(x), eng.explode(y)
    if ex is None or ey is None:
        return term('sym', 1, ('seqeq', x, y))
    und = []
    for p, q in zip(ex, ey):
        c = val_eq(eng, st, p, q)
        d = st.decide(c) if eng.scalar(c) else None
        if d == 0:
            return 0
        if d is None:
            und.append(c)
    if not und:
        return 1
    if len(und) > 24:
        return term('sym', 1, ('seqeq', x, y))
    for c in und:
        if not eng.cond(st, c):
            return 0
    return 1


def val_eq(eng, st, x, y):
    if eng.scalar(x) and eng.scalar(y):
        return mk_eq(x, y)
    if x is y:
        return 1
    if isV(x, 'seq') and isV(y, 'seq'):
        return seq_eq(eng, st, x, y)
    if (isV(x, 'agg') or isV(x, 'op')) and (isV(y, 'agg') or isV(y, 'op')):
        kx, ky = eng.variant(st, x) if isV(x, 'op') and x.a[1] is not None and len(eng.variants(x.a[1]) or [1]) > 1 else (x.a[0] if isV(x, 'agg') else 0), \
            eng.variant(st, y) if isV(y, 'op') and y.a[1] is not None and len(eng.variants(y.a[1]) or [1]) > 1 else (y.a[0] if isV(y, 'agg') else 0)
        if kx != ky:
            return 0
        ax = x if isV(x, 'agg') else eng.expand(st, x, kx)
        ay = y if isV(y, 'agg') else eng.expand(st, y, ky)
        if ax is not None and ay is not None and len(ax.a[1]) == len(ay.a[1]):
            und = []
            for p, q in zip(ax.a[1], ay.a[1]):
                c = val_eq(eng, st, p, q)
                d = st.decide(c) if eng.scalar(c) else None
                if d == 0:
                    return 0
                if d is None:
                    und.append(c)
            if not und:
                return 1
            if len(und) == 1:
                return und[0]
            for c in und:
                if not eng.cond(st, c):
                    return 0
            return 1
    if (isV(x, 'ptr') or isV(x, 'sl')) and (isV(y, 'ptr') or isV(y, 'sl')):
        return val_eq(eng, st, eng.deref(st, x), eng.deref(st, y))
    return term('sym', 1, ('eq', x, y))


@trait('std::cmp::PartialEq', 'eq', 'ne')
def _peq(eng, st, ctx, a):
    ne = ctx.t['f'].get('m') == 'ne'

    def f(s):
        x = a[0] if isV(a[0], 'sl') else (eng.deref(s, a[0]) if isV(a[0], 'ptr') else a[0])
        y = a[1] if isV(a[1], 'sl') else (eng.deref(s, a[1]) if isV(a[1], 'ptr') else a[1])
        for _ in range(3):
            if isV(x, 'ptr') or isV(x, 'sl'):
                x = eng.deref(s, x)
            if isV(y, 'ptr') or isV(y, 'sl'):
                y = eng.deref(s, y)
        if isV(x, 'seq') and isV(y, 'seq'):
            r = seq_eq(eng, s, x, y)
        elif eng.scalar(x) and eng.scalar(y):
            r = mk_eq(x, y)
        elif (isV(x, 'agg') or isV(x, 'op')) and (isV(y, 'agg') or isV(y, 'op')):
            t = eng.F.types[strip_ref(eng, ctx.at[0])] if ctx.at else None
            if t is not None and t['k'] == 'adt' and t.get('crate') not in (None, 'core', 'std', 'alloc') and False:
                return None
            r = val_eq(eng, s, x, y)
        else:
            r = term('sym', 1, ('eq', x, y))
        return [(s, bnot(r) if ne else r)]
    return forks(eng, f, st)


# ------------------------------------------------------------------ sequences

@path('slice::len', 'str::len', 'std::vec::Vec::len', 'std::string::String::len', 'std::collections::VecDeque::len')
def _len(eng, st, ctx, a):
    if eng.text is not None and norm(ctx.t['f'].get('path') or '') in ('str::len', 'std::string::String::len') and not all(isinstance(x, int) and x < 128 for x in eng.explode(eng.seq_of(st, a[0])) or [None]):
        return one(st, eng.fresh(st, ('bytelen',), ctx.dt))
    if isV(a[0], 'sl'):
        return one(st, a[0].a[3])
    s = eng.seq_of(st, a[0])
    return None if s is None else one(st, eng.seq_len(s))


@path('slice::is_empty', 'str::is_empty', 'std::vec::Vec::is_empty', 'std::string::String::is_empty', 'std::collections::VecDeque::is_empty')
def _isempty(eng, st, ctx, a):
    if isV(a[0], 'sl'):
        return one(st, mk_eq(a[0].a[3], 0))
    s = eng.seq_of(st, a[0])
    return None if s is None else one(st, mk_eq(eng.seq_len(s), 0))


@path('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity',
      'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity')
def _vnew(eng, st, ctx, a):
    return one(st, default_of(eng, ctx.dt))


@path('std::vec::from_elem')
def _fromelem(eng, st, ctx, a):
    return one(st, eng.mkseq(eng.F.types[ctx.dt]['args'][0], (('f', a[0], a[1]),)))


@path('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _push(eng, st, ctx, a):
    s = eng.deref(st, a[0])
    if not isV(s, 'seq'):
        return None
    eng.store(st, a[0], eng.mkseq(s.a[0], s.a[1] + (('e', (a[1],)),)))
    return one(st, UNIT)


@path('std::string::String::push')
def _spush(eng, st, ctx, a):
    s = eng.deref(st, a[0])
    if not isV(s, 'seq'):
        return None
    if isinstance(a[1], int) and a[1] < 128 or eng.text is not None:
        eng.store(st, a[0], eng.mkseq(s.a[0], s.a[1] + (('e', (a[1],)),)))
    else:
        n = term('len', 63, ('utf8', a[1]))
        eng.store(st, a[0], eng.mkseq(s.a[0], s.a[1] + (('b', ('utf8', a[1]), 0, n),)))
    return one(st, UNIT)


@path('std::collections::VecDeque::push_front')
def _pushf(eng, st, ctx, a):
    s = eng.deref(st, a[0])
    eng.store(st, a[0], eng.mkseq(s.a[0], (('e', (a[1],)),) + s.a[1]))
    return one(st, UNIT)


@path('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _pop(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        n = eng.seq_len(s)
        if eng.cond(s0, mk_eq(n, 0)):
            return [(s0, NONE)]
        l = lin_add(n, -1)
        v = eng.seq_get(s0, s, l)
        eng.store(s0, a[0], mk('seq', s.a[0], eng.seq_slice(s0, s, 0, l)))
        return [(s0, some(v))]
    return forks(eng, f, st)


@path('std::collections::VecDeque::pop_front')
def _popf(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        n = eng.seq_len(s)
        if eng.cond(s0, mk_eq(n, 0)):
            return [(s0, NONE)]
        v = eng.seq_get(s0, s, 0)
        eng.store(s0, a[0], mk('seq', s.a[0], eng.seq_slice(s0, s, 1, lin_add(n, -1))))
        return [(s0, some(v))]
    return forks(eng, f, st)


@path('std::vec::Vec::clear', 'std::string::String::clear', 'std::collections::VecDeque::clear')
def _clear(eng, st, ctx, a):
    s = eng.deref(st, a[0])
    eng.store(st, a[0], eng.mkseq(s.a[0], ()))
    return one(st, UNIT)


@path('std::vec::Vec::truncate')
def _truncate(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        if eng.lt(s0, a[1], eng.seq_len(s)):
            eng.store(s0, a[0], mk('seq', s.a[0], eng.seq_slice(s0, s, 0, a[1])))
        return [(s0, UNIT)]
    return forks(eng, f, st)


@path('std::vec::Vec::resize')
def _resize(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        n = eng.seq_len(s)
        if eng.lt(s0, a[1], n):
            r = mk('seq', s.a[0], eng.seq_slice(s0, s, 0, a[1]))
        else:
            r = eng.mkseq(s.a[0], s.a[1] + (('f', a[2], lin_add(a[1], n, -1)),))
        eng.store(s0, a[0], r)
        return [(s0, UNIT)]
    return forks(eng, f, st)


@path('std::vec::Vec::insert')
def _vinsert(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        eng.store(s0, a[0], eng.seq_replace(s0, s, a[1], 0, (('e', (a[2],)),)))
        return [(s0, UNIT)]
    return forks(eng, f, st)


@path('std::vec::Vec::remove')
def _vremove(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        v = eng.seq_get(s0, s, a[1])
        eng.store(s0, a[0], eng.seq_replace(s0, s, a[1], 1, ()))
        return [(s0, v)]
    return forks(eng, f, st)


@path('std::vec::Vec::append')
def _append(eng, st, ctx, a):
    s, o = eng.deref(st, a[0]), eng.deref(st, a[1])
    eng.store(st, a[0], eng.mkseq(s.a[0], s.a[1] + o.a[1]))
    eng.store(st, a[1], eng.mkseq(s.a[0], ()))
    return one(st, UNIT)


@path('std::vec::Vec::extend_from_slice', 'std::string::String::push_str')
def _efs(eng, st, ctx, a):
    s, o = eng.deref(st, a[0]), eng.seq_of(st, a[1])
    if o is None or not isV(s, 'seq'):
        return None
    eng.store(st, a[0], eng.mkseq(s.a[0], s.a[1] + o.a[1]))
    return one(st, UNIT)


@path('std::vec::Vec::split_off')
def _splitoff(eng, st, ctx, a):
    def f(s0):
        s = eng.deref(s0, a[0])
        n = eng.seq_len(s)
        if s0.decide(mk_lt(n, a[1])) != 0:
            c = mk_lt(n, a[1])
            s2 = s0.copy()
            if s2.assume(c, 1):
                eng.panic(s2, ctx.fr, ctx.inst, 'split_off', s0.decide(c) == 1, show(c)[:150])
            if not s0.assume(c, 0):
                return []
        l = eng.seq_slice(s0, s, 0, a[1])
        r = eng.seq_slice(s0, s, a[1], lin_add(n, a[1], -1))
        eng.store(s0, a[0], mk('seq', s.a[0], l))
        return [(s0, mk('seq', s.a[0], r))]
    return forks(eng, f, st)


@path('std::vec::Vec::into_boxed_slice', 'std::vec::Vec::leak')
def _ibs(eng, st, ctx, a):
    return one(st, mk('sl', eng.heap(st, ctx.site, a[0]), (), 0, eng.seq_len(a[0])))


@path('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_str', 'std::string::String::as_bytes',
      'str::as_bytes', 'slice::as_slice', 'slice::as_mut_slice', 'std::array::as_slice', 'std::string::String::as_mut_str', 'str::as_bytes_mut',
      'std::array::as_mut_slice')
def _asslice(eng, st, ctx, a):
    s = ptr_to_seq(eng, st, a[0])
    return None if s is None else one(st, s)


@path('slice::to_vec', 'str::to_owned', 'str::to_string', 'std::string::String::into_bytes', 'slice::to_owned')
def _tovec(eng, st, ctx, a):
    s = eng.seq_of(st, a[0])
    return None if s is None else one(st, s)


def ascii_of(eng, st, v):
    """The bytes of a string known to the last character, or None."""
    s = eng.seq_of(st, v)
    n = eng.seq_len(s) if s is not None else None
    if type(n) is not int:
        return None
    b = [eng.seq_get(st, s, i) for i in range(n)]
    return bytes(b) if all(type(x) is int and x < 128 for x in b) else None


@path('str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def _eqcase(eng, st, ctx, a):
    x, y = ascii_of(eng, st, a[0]), ascii_of(eng, st, a[1])
    return None if x is None or y is None else one(st, int(x.lower() == y.lower()))


@path('std::string::String::from_utf8_lossy', 'str::to_uppercase', 'str::to_lowercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase')
def _strfn(eng, st, ctx, a):
    b = ascii_of(eng, st, a[0])
    f = (ctx.t['f'].get('path') or '').rsplit('::', 1)[-1]
    if b is not None and f != 'from_utf8_lossy':
        return one(st, eng.mkseq(eng.u8(), (('e', tuple(b.upper() if 'upper' in f else b.lower())),)))
    return one(st, eng.mkop(ctx.dt, ('strfn', ctx.t['f'].get('path'), eng.seq_of(st, a[0]) or a[0])))


@path('slice::copy_from_slice', 'slice::clone_from_slice')
def _cfs(eng, st, ctx, a):
    def f(s0):
        d, s = ptr_to_seq(eng, s0, a[0]), ptr_to_seq(eng, s0, a[1])
        if d is None or s is None:
            return None
        src = eng.deref(s0, s)
        c = mk_eq(d.a[3], s.a[3])
        r = s0.decide(c)
        if r != 1:
            s2 = s0.copy()
            if s2.assume(c, 0):
                eng.panic(s2, ctx.fr, ctx.inst, 'copy_from_slice length', r == 0, show(c)[:150])
            if r == 0 or not s0.assume(c, 1):
                return []
        dv = eng.read(s0, d.a[0], d.a[1])
        if not isV(dv, 'seq') or not isV(src, 'seq'):
            return None
        eng.write(s0, d.a[0], d.a[1], eng.seq_replace(s0, dv, d.a[2], d.a[3], src.a[1]))
        return [(s0, UNIT)]
    st0 = st.copy()
    try:
        return forks(eng, f, st)
    except TypeError:
        return eng.external(st0, 'copy_from_slice', None, a, ctx)


@path('slice::fill')
def _fill(eng, st, ctx, a):
    def f(s0):
        d = ptr_to_seq(eng, s0, a[0])
        dv = eng.read(s0, d.a[0], d.a[1])
        eng.write(s0, d.a[0], d.a[1], eng.seq_replace(s0, dv, d.a[2], d.a[3], (('f', a[1], d.a[3]),)))
        return [(s0, UNIT)]
    return forks(eng, f, st)


@path('slice::swap')
def _sswap(eng, st, ctx, a):
    def f(s0):
        d = ptr_to_seq(eng, s0, a[0])
        i, j = lin_add(d.a[2], a[1]), lin_add(d.a[2], a[2])
        x, y = eng.read(s0, d.a[0], d.a[1] + (('x', i),)), eng.read(s0, d.a[0], d.a[1] + (('x', j),))
        eng.write(s0, d.a[0], d.a[1] + (('x', i),), y)
        eng.write(s0, d.a[0], d.a[1] + (('x', j),), x)
        return [(s0, UNIT)]
    return forks(eng, f, st)


@path('slice::iter', 'slice::iter_mut', 'std::vec::Vec::iter', 'std::collections::VecDeque::iter', 'std::collections::VecDeque::iter_mut')
def _iter(eng, st, ctx, a):
    r = ref_iter(eng, st, a[0])
    return None if r is None else one(st, r)


@path('slice::chunks', 'slice::chunks_mut', 'slice::chunks_exact', 'slice::chunks_exact_mut', 'slice::windows')
def _chunks(eng, st, ctx, a):
    s = ptr_to_seq(eng, st, a[0])
    if s is None:
        return None
    o, p, off, n = s.a
    nm = ctx.t['f'].get('path') or ''
    k = 'chunks_exact' if 'exact' in nm else ('windows' if 'windows' in nm else 'chunks')
    return one(st, it(k, o, p, off, lin_add(off, n), a[1]))


@path('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def _last(eng, st, ctx, a):
    def f(s0):
        s = ptr_to_seq(eng, s0, a[0])
        o, p, off, n = s.a
        if eng.cond(s0, mk_eq(n, 0)):
            return [(s0, NONE)]
        i = off if 'first' in (ctx.t['f'].get('path') or '') else lin_add(lin_add(off, n), -1)
        return [(s0, some(mk('ptr', o, p + (('x', i),), None)))]
    return forks(eng, f, st)


@path('slice::contains')
def _scontains(eng, st, ctx, a):
    def f(s0):
        s = eng.seq_of(s0, a[0])
        x = eng.deref(s0, a[1])
        ex = eng.explode(s) if s is not None else None
        if ex is None:
            return [(s0, term('sym', 1, ('contains', s, x)))]
        for y in ex:
            c = val_eq(eng, s0, x, y)
            if eng.cond(s0, c):
                return [(s0, 1)]
        return [(s0, 0)]
    return forks(eng, f, st)


@path('slice::starts_with', 'slice::ends_with')
def _starts(eng, st, ctx, a):
    def f(s0):
        s, x = eng.seq_of(s0, a[0]), eng.seq_of(s0, a[1])
        n, m = eng.seq_len(s), eng.seq_len(x)
        if eng.lt(s0, n, m):
            return [(s0, 0)]
        off = 0 if 'starts' in ctx.t['f']['path'] else lin_add(n, m, -1)
        return [(s0, seq_eq(eng, s0, mk('seq', s.a[0], eng.seq_slice(s0, s, off, m)), x))]
    return forks(eng, f, st)


@path('slice::split_at', 'slice::split_at_mut')
def _splitat(eng, st, ctx, a):
    s = ptr_to_seq(eng, st, a[0])
    o, p, off, n = s.a
    check(eng, st, ctx, mk_lt(n, a[1]), 'split_at')
    return one(st, mk('agg', 0, (mk('sl', o, p, off, a[1]), mk('sl', o, p, lin_add(off, a[1]), lin_add(n, a[1], -1)))))


def check(eng, st, ctx, bad, kind):
    """Record a possible panic under `bad` and assume it away. -> False when it must panic."""
    d = st.decide(bad)
    if d == 0:
        return True
    s2 = st.copy()
    if s2.assume(bad, 1):
        eng.panic(s2, ctx.fr, ctx.inst, kind, d == 1, show(bad)[:150])
    if d == 1:
        return False
    return st.assume(bad, 0)


def range_of(eng, st, v, ti, n):
    """(start, end) of a range-typed index value, or None."""
    d = base_def(eng, ti)
    f = lambda i: eng.field(st, v, i, None)
    if isV(v, 'it') and v.a[0] == 'range':
        return v.a[1], v.a[2]
    if d == 'std::ops::Range':
        return f(0), f(1)
    if d == 'std::ops::RangeFrom':
        return f(0), n
    if d == 'std::ops::RangeTo':
        return 0, f(0)
    if d == 'std::ops::RangeFull':
        return 0, n
    if d == 'std::ops::RangeInclusive':
        return f(0), lin_add(f(1), 1)
    if d == 'std::ops::RangeToInclusive':
        return 0, lin_add(f(0), 1)
    return None


@trait('std::ops::Index', 'index')
@trait('std::ops::IndexMut', 'index_mut')
def _index(eng, st, ctx, a):
    s = ptr_to_seq(eng, st, a[0])
    if s is None:
        return None
    o, p, off, n = s.a
    if eng.scalar(a[1]):
        if not check(eng, st, ctx, bnot(mk_lt(a[1], n)), 'index'):
            return []
        return one(st, mk('ptr', o, p + (('x', lin_add(off, a[1])),), None))
    r = range_of(eng, st, a[1], ctx.at[1], n)
    if r is None:
        return None
    x, y = r
    if not check(eng, st, ctx, mk_lt(y, x), 'slice order'):
        return []
    if not check(eng, st, ctx, mk_lt(n, y), 'slice range'):
        return []
    return one(st, mk('sl', o, p, lin_add(off, x), lin_add(y, x, -1)))


@path('slice::get', 'slice::get_mut', 'std::vec::Vec::get', 'str::get', 'std::collections::VecDeque::get')
def _get(eng, st, ctx, a):
    def f(s0):
        s = ptr_to_seq(eng, s0, a[0])
        if s is None:
            return None
        o, p, off, n = s.a
        if eng.scalar(a[1]):
            if eng.lt(s0, a[1], n):
                return [(s0, some(mk('ptr', o, p + (('x', lin_add(off, a[1])),), None)))]
            return [(s0, NONE)]
        x, y = range_of(eng, s0, a[1], ctx.at[1], n)
        if eng.lt(s0, y, x) or eng.lt(s0, n, y):
            return [(s0, NONE)]
        return [(s0, some(mk('sl', o, p, lin_add(off, x), lin_add(y, x, -1))))]
    return forks(eng, f, st)


@path('std::vec::Vec::drain')
def _drain(eng, st, ctx, a):
    s = eng.deref(st, a[0])
    n = eng.seq_len(s)
    x, y = range_of(eng, st, a[1], ctx.at[1], n)
    if not check(eng, st, ctx, mk_lt(n, y), 'drain range'):
        return []

    def f(s0):
        part = mk('seq', s.a[0], eng.seq_slice(s0, s, x, lin_add(y, x, -1)))
        eng.store(s0, a[0], eng.seq_replace(s0, s, x, lin_add(y, x, -1), ()))
        return [(s0, it('vec', part, 0, lin_add(y, x, -1)))]
    return forks(eng, f, st)


def _conc(x):
    if isinstance(x, int):
        return x
    if isV(x, 'agg') and all(_conc(y) is not None for y in x.a[1]):
        return (x.a[0],) + tuple(_conc(y) for y in x.a[1])
    return None


@path('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key', 'slice::sort_by', 'slice::sort_unstable_by',
      'std::vec::Vec::dedup_by_key', 'std::vec::Vec::dedup_by', 'std::vec::Vec::retain')
def _keyed(eng, st, ctx, a):
    from functools import cmp_to_key
    nm = (ctx.t['f'].get('path') or '').split('::')[-1]
    s = ptr_to_seq(eng, st, a[0]) if nm.startswith('sort') else a[0]
    v = eng.deref(st, s)
    ex = eng.explode(v) if isV(v, 'seq') else None
    cur = [st, a[1]]

    class Unknown(Exception):
        pass

    def ask(*xs):
        st0, f = cur
        st0 = st0.copy()
        ps = []
        for i, x in enumerate(xs):
            h = eng.heap(st0, ('keyed', i, ctx.fr, ctx.bb), x)
            st0.mem[('PIN', h)] = mk('ptr', h, (), None)
            ps.append(mk('ptr', h, (), None))
        rs = call_fn(eng, st0, f, ps, ctx)
        if len(rs) != 1:
            raise Unknown
        s1, f1, v1 = rs[0]
        c = _conc(v1)
        if c is None:
            raise Unknown
        for p in ps:
            s1.mem.pop(p.a[0], None)
            s1.mem.pop(('PIN', p.a[0]), None)
        cur[0], cur[1] = s1, f1
        return c
    try:
        if ex is None or len(ex) > 4096:
            raise Unknown
        if nm.endswith('key') and nm.startswith('sort'):
            ks = [ask(x) for x in ex]
            out = [x for _, x in sorted(zip(ks, ex), key=lambda p: p[0])]
        elif nm.startswith('sort'):
            out = sorted(ex, key=cmp_to_key(lambda x, y: order(ask(x, y))))
        elif nm == 'dedup_by_key':
            ks = [ask(x) for x in ex]
            out = [x for i, x in enumerate(ex) if i == 0 or ks[i] != ks[i - 1]]
        elif nm == 'dedup_by':
            out = []
            for x in ex:
                if not out or not ask(x, out[-1]):
                    out.append(x)
        else:
            out = [x for x in ex if ask(x)]
    except Unknown:
        if nm == 'retain':
            return eng.external(st, 'retain', None, a, ctx)
        return _sort(eng, st, ctx, a)
    st = cur[0]
    eng.store(st, s, eng.mkseq(v.a[0], (('e', tuple(out)),)))
    return one(st, UNIT)


def order(c):
    c = c[0] if isinstance(c, tuple) else c
    return {0: -1, 1: 0, 2: 1}.get(c, c if c in (-1, 0, 1) else (-1 if c > 2 else 1))


@path('slice::sort', 'slice::sort_unstable', 'std::vec::Vec::dedup', 'slice::reverse')
def _sort(eng, st, ctx, a):
    s = ptr_to_seq(eng, st, a[0])
    v = eng.deref(st, s)
    nm = (ctx.t['f'].get('path') or '').split('::')[-1]
    ex = eng.explode(v) if isV(v, "seq") else None
    if nm == 'reverse' and ex is not None:
        eng.store(st, s, eng.mkseq(v.a[0], (('e', tuple(reversed(ex))),)))
        return one(st, UNIT)

    def conc(x):
        if isinstance(x, int):
            return x
        if isV(x, 'agg') and all(conc(y) is not None for y in x.a[1]):
            return (x.a[0],) + tuple(conc(y) for y in x.a[1])
        return None
    if ex is not None and all(conc(x) is not None for x in ex):
        if nm == 'dedup':
            out = [x for i, x in enumerate(ex) if i == 0 or ex[i - 1] != x]
            eng.store(st, a[0], eng.mkseq(v.a[0], (('e', tuple(out)),)))
            return one(st, UNIT)
        if nm in ('sort', 'sort_unstable'):
            eng.store(st, s, eng.mkseq(v.a[0], (('e', tuple(sorted(ex, key=conc))),)))
            return one(st, UNIT)
    n = eng.seq_len(v)
    if nm.startswith('dedup'):
        nn = eng.fresh(st, ('deduplen',), eng.tyid('usize'))
        st.assume(mk_lt(n, nn), 0)
        eng.store(st, a[0], eng.mkseq(v.a[0], (('b', ('dedup', v), 0, nn),)))
    else:
        if ex is not None and len(ex) < 2:
            return one(st, UNIT)
        eng.store(st, s, eng.mkseq(v.a[0], (('b', ('sorted', v), 0, n),)))
    return one(st, UNIT)


@path('slice::repeat', 'str::repeat')
def _slrepeat(eng, st, ctx, a):
    q = eng.seq_of(st, a[0])
    es = eng.explode(q) if q is not None else None
    n = a[1] if isinstance(a[1], int) else st.concrete(a[1]) if hasattr(st, 'concrete') else None
    if es is not None and isinstance(n, int) and n * len(es) <= 4096:
        return one(st, eng.mkseq(q.a[0], (('e', tuple(es) * n),) if n and es else ()))
    return one(st, eng.mkop(ctx.dt, ('join', eng.seq_of(st, a[0]) or 0)))


@path('slice::join', 'slice::concat')
def _join(eng, st, ctx, a):
    q = eng.seq_of(st, a[0])
    if eng.text is not None and q is not None:
        from .texts import chars as texts_chars
        es = eng.explode(q)
        sep = texts_chars(eng, st, a[1]) if len(a) > 1 else []
        if es is not None and sep is not None:
            out, okk = [], True
            for i, x in enumerate(es):
                c = texts_chars(eng, st, x)
                if c is None:
                    okk = False
                    break
                out += (list(sep) if i else []) + list(c)
            if okk:
                return one(st, eng.mkseq(eng.u8(), (('e', tuple(out)),) if out else ()))
    return one(st, eng.mkop(ctx.dt, ('join', q or 0)))


@path('str::chars')
def _chars(eng, st, ctx, a):
    if eng.text is not None:
        from .texts import chars, seq
        es = chars(eng, st, a[0])
        return None if es is None else one(st, it('chars', seq(eng, es), 0))
    return one(st, it('chars', eng.seq_of(st, a[0]), 0))


@path('str::lines', 'str::split_whitespace', 'str::split', 'str::char_indices', 'str::bytes')
def _lines(eng, st, ctx, a):
    s = eng.seq_of(st, a[0])
    if (ctx.t['f'].get('path') or '').endswith('bytes'):
        return one(st, it('vec', s, 0, eng.seq_len(s)))
    if (ctx.t['f'].get('path') or '').endswith('lines') and eng.text is not None and s is not None and isV(a[0], 'sl'):
        es = eng.explode(s)
        if es is not None and all(isinstance(x, int) for x in es):
            ls, b = [], 0
            base = a[0].a[2]
            for i, x in enumerate(es):
                if x == 10:
                    ls.append((b, i - b - (i > b and es[i - 1] == 13)))
                    b = i + 1
            if b < len(es):
                ls.append((b, len(es) - b))
            if isinstance(a[0].a[2], int):
                q = tuple(mk('sl', a[0].a[0], a[0].a[1], base + o, n) for o, n in ls)
                return one(st, it('vec', eng.mkseq(eng.tyid('&str'), (('e', q),) if q else ()), 0, len(q)))
    return one(st, it('opaque', ('lines', s), eng.tyid('&str')))


# ------------------------------------------------------------------ numbers

def tyint(eng, ctx, i=0):
    return ctx.at[i]


@path('num::wrapping_add', 'num::wrapping_sub', 'num::wrapping_mul')
def _wrapping(eng, st, ctx, a):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[ctx.t['f']['path'].rsplit('_', 1)[1]]
    return one(st, eng.binop(st, op, a[0], a[1], ctx.at[0]))


@path('num::checked_add', 'num::checked_sub', 'num::checked_mul', 'num::saturating_add', 'num::saturating_sub', 'num::overflowing_add',
      'num::overflowing_sub')
def _checked(eng, st, ctx, a):
    nm = ctx.t['f']['path'].rsplit('::', 1)[1]
    kind, o = nm.split('_')
    op = {'add': 'AddWithOverflow', 'sub': 'SubWithOverflow', 'mul': 'MulWithOverflow'}[o]

    def f(s0):
        r = eng.binop(s0, op, a[0], a[1], ctx.at[0])
        v, c = r.a[1]
        if eng.cond(s0, c):
            if kind == 'checked':
                return [(s0, NONE)]
            t = eng.F.types[ctx.at[0]]
            if kind == 'saturating':
                return [(s0, 0 if o == 'sub' else (1 << t['bits']) - 1)]
            return [(s0, mk('agg', 0, (eng.wrap(s0, v, ctx.at[0]), 1)))]
        return [(s0, some(v) if kind == 'checked' else (v if kind == 'saturating' else mk('agg', 0, (v, 0))))]
    return forks(eng, f, st)


@path('num::count_ones')
def _popcnt(eng, st, ctx, a):
    t = eng.F.types[ctx.at[0]]
    if isinstance(a[0], int):
        return one(st, bin(a[0]).count('1'))
    tb = as_tab(a[0])
    if tb is not None:
        return one(st, mk_tab(tb[0], [None if x is None else bin(x).count('1') for x in tb[1]]))
    b = as_bits(a[0], t['bits'])
    if b is None:
        return one(st, term('popcount', 32, a[0]))
    r = 0
    for x in b:
        r = lin_add(r, x if isinstance(x, int) else bits_value((x,), 1))
    return one(st, r)


@path('num::trailing_zeros', 'num::leading_zeros', 'num::pow', 'num::count_zeros')
def _numop(eng, st, ctx, a):
    nm = ctx.t['f']['path'].rsplit('::', 1)[1]
    t = eng.F.types[ctx.at[0]]
    if all(isinstance(x, int) for x in a):
        w = t['bits']
        if nm == 'pow':
            return one(st, a[0] ** a[1])
        b = format(a[0] & ((1 << w) - 1), '0%db' % w)
        if nm == 'trailing_zeros':
            return one(st, w - len(b.rstrip('0')) if '1' in b else w)
        if nm == 'leading_zeros':
            return one(st, w - len(b.lstrip('0')))
        return one(st, b.count('0'))
    return one(st, term(nm, 32, *a))


@path('num::from_le_bytes', 'num::from_be_bytes')
def _fromle(eng, st, ctx, a):
    ex = eng.explode(a[0])
    if 'from_be' in ctx.t['f']['path']:
        ex = ex[::-1]
    bits = ()
    for x in ex:
        bits += as_bits(x, 8)
    return one(st, bits_value(bits, len(bits)))


@path('num::to_le_bytes', 'num::to_be_bytes')
def _tole(eng, st, ctx, a):
    w = eng.F.types[ctx.at[0]]['bits']
    b = as_bits(a[0], w)
    if b is None:
        vs = tuple(term('byte', 8, a[0], i) for i in range(w // 8))
    else:
        vs = tuple(bits_value(b[i:i + 8], 8) for i in range(0, w, 8))
    if 'to_be' in ctx.t['f']['path']:
        vs = vs[::-1]
    return one(st, eng.mkseq(eng.u8(), (('e', vs),)))


@path('num::is_ascii_digit', 'num::is_ascii', 'num::is_ascii_uppercase', 'num::is_ascii_lowercase', 'num::is_ascii_alphabetic',
      'num::is_ascii_graphic', 'num::is_ascii_control', 'num::to_ascii_uppercase')
def _ascii(eng, st, ctx, a):
    v = eng.deref(st, a[0]) if isV(a[0], 'ptr') else a[0]
    nm = ctx.t['f']['path'].rsplit('::', 1)[1]
    fn = {'is_ascii_digit': lambda x: 48 <= x <= 57, 'is_ascii': lambda x: x < 128, 'is_ascii_uppercase': lambda x: 65 <= x <= 90,
          'is_ascii_lowercase': lambda x: 97 <= x <= 122, 'is_ascii_alphabetic': lambda x: 65 <= x <= 90 or 97 <= x <= 122,
          'is_ascii_graphic': lambda x: 33 <= x <= 126, 'is_ascii_control': lambda x: x < 32 or x == 127,
          'to_ascii_uppercase': lambda x: x - 32 if 97 <= x <= 122 else x}[nm]
    if isinstance(v, int):
        return one(st, int(fn(v)))
    tb = as_tab(v)
    if tb is not None:
        return one(st, mk_tab(tb[0], [None if x is None else int(fn(x)) for x in tb[1]]))
    return one(st, eng.mkop(ctx.dt, (nm, v)))


@path('std::cmp::max', 'std::cmp::min')
def _maxmin(eng, st, ctx, a):
    mx = ctx.t['f']['path'].endswith('max')

    def f(s0):
        if not (eng.scalar(a[0]) and eng.scalar(a[1])):
            return None
        if eng.cond(s0, mk_lt(a[0], a[1])):
            return [(s0, a[1] if mx else a[0])]
        return [(s0, a[0] if mx else a[1])]
    if not (eng.scalar(a[0]) and eng.scalar(a[1])):
        return None
    return forks(eng, f, st)


@trait('std::cmp::Ord', 'min', 'max')
def _ordmm(eng, st, ctx, a):
    if not (eng.scalar(a[0]) and eng.scalar(a[1])):
        return None
    mx = ctx.t['f'].get('m') == 'max'

    def f(s0):
        if eng.cond(s0, mk_lt(a[0], a[1])):
            return [(s0, a[1] if mx else a[0])]
        return [(s0, a[0] if mx else a[1])]
    return forks(eng, f, st)


@trait('std::cmp::Ord', 'cmp')
@trait('std::cmp::PartialOrd', 'partial_cmp', 'lt', 'le', 'gt', 'ge')
def _ord(eng, st, ctx, a):
    m = ctx.t['f'].get('m')

    def f(s0):
        x, y = a
        for _ in range(3):
            if isV(x, 'ptr'):
                x = eng.deref(s0, x)
            if isV(y, 'ptr'):
                y = eng.deref(s0, y)
        if not (eng.scalar(x) and eng.scalar(y)):
            return [(s0, None)]
        if m in ('lt', 'ge'):
            c = mk_lt(x, y)
            return [(s0, c if m == 'lt' else bnot(c))]
        if m in ('gt', 'le'):
            c = mk_lt(y, x)
            return [(s0, c if m == 'gt' else bnot(c))]
        o = mk('agg', 0 if eng.cond(s0, mk_lt(x, y)) else (1 if eng.cond(s0, mk_eq(x, y)) else 2), ())
        return [(s0, o if m == 'cmp' else some(o))]
    r = forks(eng, f, st)
    if any(v is None for _, v in r):
        return None
    return r


# ------------------------------------------------------------------ sets and maps

def set_lookup(eng, st, s, x):
    """Boolean: x in s."""
    base, elems = s.a
    for e in elems:
        k = e.a[0] if isV(e, 'kv') else e
        if k is x or k == x:
            return 1
    if not elems and base is None:
        return 0
    if base is None:
        cx = concrete(x)
        for e in elems:
            k = e.a[0] if isV(e, 'kv') else e
            if cx and concrete(k):
                continue
            c = val_eq(eng, st, k, x)
            if eng.cond(st, c):
                return 1
        return 0
    return term('sym', 1, ('in', s, x))


@path('std::collections::HashSet::new', 'std::collections::HashMap::new', 'std::collections::BTreeSet::new', 'std::collections::BTreeMap::new',
      'std::collections::HashSet::with_capacity', 'std::collections::HashMap::with_capacity')
def _setnew(eng, st, ctx, a):
    return one(st, mk('set', None, ()))


def as_set(eng, st, v):
    if isV(v, 'set'):
        return v
    return mk('set', v, ())


def key_val(eng, st, x):
    return eng.deref(st, x) if isV(x, 'ptr') else (eng.deref(st, x) if isV(x, 'sl') else x)


@path('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def _setins(eng, st, ctx, a):
    def f(s0):
        s = as_set(eng, s0, eng.deref(s0, a[0]))
        x = key_val(eng, s0, a[1])
        c = set_lookup(eng, s0, s, x)
        if eng.cond(s0, c):
            return [(s0, 0)]
        eng.store(s0, a[0], mk('set', s.a[0], s.a[1] + (x,)))
        return [(s0, 1)]
    return forks(eng, f, st)


@path('std::collections::HashSet::contains', 'std::collections::HashMap::contains_key', 'std::collections::BTreeSet::contains')
def _setcontains(eng, st, ctx, a):
    def f(s0):
        s = as_set(eng, s0, eng.deref(s0, a[0]))
        return [(s0, set_lookup(eng, s0, s, key_val(eng, s0, a[1])))]
    return forks(eng, f, st)


@path('std::collections::HashSet::clear', 'std::collections::HashMap::clear')
def _setclear(eng, st, ctx, a):
    eng.store(st, a[0], mk('set', None, ()))
    return one(st, UNIT)


@path('std::collections::HashSet::len', 'std::collections::HashMap::len', 'std::collections::BTreeSet::len', 'std::collections::BTreeMap::len')
def _setlen(eng, st, ctx, a):
    s = as_set(eng, st, eng.deref(st, a[0]))
    return one(st, len(s.a[1]) if s.a[0] is None else term('len', 63, ('set', s)))


@path('std::collections::HashSet::is_empty', 'std::collections::HashMap::is_empty', 'std::collections::BTreeSet::is_empty', 'std::collections::BTreeMap::is_empty')
def _setempty(eng, st, ctx, a):
    s = as_set(eng, st, eng.deref(st, a[0]))
    return one(st, 0 if s.a[1] else 1 if s.a[0] is None else mk_eq(term('len', 63, ('set', s)), 0))


def const_ptr(eng, v):
    key = ('K', 'c', v)
    eng.const[key] = v
    return mk('ptr', key, (), None)


def elem_iter(eng, ety, vals):
    """An iterator over references to the given values (enumerated in insertion order; callers may not depend on the order)."""
    q = eng.mkseq(ety, (('e', tuple(vals)),))
    key = ('K', 'els', q)
    eng.const[key] = q
    return it('ref', key, (), 0, len(vals))


def set_elems(s):
    return [e.a[0] if isV(e, 'kv') else e for e in s.a[1]] if s.a[0] is None else None


@path('std::collections::HashSet::iter', 'std::collections::HashMap::keys', 'std::collections::HashMap::values', 'std::collections::BTreeSet::iter',
      'std::collections::BTreeMap::keys', 'std::collections::BTreeMap::values',
      'std::collections::HashSet::intersection', 'std::collections::HashSet::difference', 'std::collections::HashSet::union',
      'std::collections::BTreeSet::intersection', 'std::collections::BTreeSet::difference')
def _setiter(eng, st, ctx, a):
    s = [as_set(eng, st, eng.deref(st, x)) for x in a]
    nm = ctx.t['f']['path'].rsplit('::', 1)[1]
    t = eng.F.types[strip_ref(eng, ctx.at[0])]
    xs = set_elems(s[0])
    if xs is None or not t.get('args'):
        return one(st, it('setit', nm, tuple(s)))
    ety = t['args'][0]
    if nm == 'values':
        xs, ety = [e.a[1] for e in s[0].a[1]], t['args'][1]
    elif nm in ('intersection', 'difference', 'union'):
        ys = set_elems(s[1])
        if ys is None:
            return one(st, it('setit', nm, tuple(s)))

        def has(zs, x):
            return True if x in zs else any(eng.cond(st, val_eq(eng, st, z, x)) for z in zs if not concrete(z) or not concrete(x))
        hy = set(ys)
        if nm == 'union':
            xs = xs + [y for y in ys if not has(set(xs), y)]
        else:
            xs = [x for x in xs if has(hy, x) == (nm == 'intersection')]
    return one(st, elem_iter(eng, ety, xs))


_concrete = {}


def concrete(x):
    if isinstance(x, int):
        return True
    r = _concrete.get(x)
    if r is None:
        r = _concrete[x] = isV(x, 'agg') and all(concrete(y) for y in x.a[1])
    return r


def map_find(eng, st, m, k):
    for i, e in enumerate(m.a[1]):
        if e.a[0] == k:
            return i
    for i, e in enumerate(m.a[1]):
        if not (concrete(e.a[0]) and concrete(k)) and eng.cond(st, val_eq(eng, st, e.a[0], k)):
            return i
    return None


def as_map(eng, st, p):
    m = eng.deref(st, p)
    return m if isV(m, 'set') and m.a[0] is None and all(isV(e, 'kv') for e in m.a[1]) else None


def map_put(eng, st, p, m, k, v):
    i = map_find(eng, st, m, k)
    es = list(m.a[1])
    if i is None:
        es.append(mk('kv', k, v))
    else:
        es[i] = mk('kv', k, v)
    eng.store(st, p, mk('set', None, tuple(es)))
    return NONE if i is None else some(m.a[1][i].a[1])


@path('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert')
def _mapins(eng, st, ctx, a):
    def f(s0):
        m = as_map(eng, s0, a[0])
        return [(s0, None if m is None else map_put(eng, s0, a[0], m, a[1], a[2]))]
    r = forks(eng, f, st)
    return None if any(v is None for _, v in r) else r


@path('std::collections::HashMap::get', 'std::collections::BTreeMap::get')
def _mapget(eng, st, ctx, a):
    def f(s0):
        m = as_map(eng, s0, a[0])
        if m is None:
            return [(s0, None)]
        i = map_find(eng, s0, m, key_val(eng, s0, a[1]))
        return [(s0, NONE if i is None else some(const_ptr(eng, m.a[1][i].a[1])))]
    r = forks(eng, f, st)
    return None if any(v is None for _, v in r) else r


@path('std::collections::HashMap::entry')
def _mapentry(eng, st, ctx, a):
    def f(s0):
        m = as_map(eng, s0, a[0])
        if m is None:
            return [(s0, None)]
        i = map_find(eng, s0, m, a[1])
        return [(s0, mk('agg', 1 if i is None else 0, (mk('mapent', a[0], a[1]),)))]
    r = forks(eng, f, st)
    return None if any(v is None for _, v in r) else r


@path('std::collections::hash_map::OccupiedEntry::get', 'std::collections::hash_map::OccupiedEntry::insert', 'std::collections::hash_map::VacantEntry::insert',
      'std::collections::hash_map::OccupiedEntry::key', 'std::collections::hash_map::VacantEntry::key',
      'std::collections::hash_map::Entry::or_insert', 'std::collections::hash_map::Entry::key')
def _mapent(eng, st, ctx, a):
    nm = ctx.t['f']['path'].split('::')
    e = a[0] if not isV(a[0], 'ptr') else eng.deref(st, a[0])
    if isV(e, 'agg') and e.a[1]:
        e = e.a[1][0]
    if not isV(e, 'mapent'):
        return None
    p, k = e.a
    m = as_map(eng, st, p)
    i = None if m is None else map_find(eng, st, m, k)
    if m is None:
        return None
    if nm[-1] == 'key':
        return one(st, const_ptr(eng, k))
    if nm[-1] == 'get':
        return None if i is None else one(st, const_ptr(eng, m.a[1][i].a[1]))
    if nm[-1] == 'or_insert':
        if i is None:
            map_put(eng, st, p, m, k, a[1])
            return one(st, const_ptr(eng, a[1]))
        return one(st, const_ptr(eng, m.a[1][i].a[1]))
    old = map_put(eng, st, p, m, k, a[1])
    return one(st, const_ptr(eng, a[1]) if i is None else old.a[1][0])


# ------------------------------------------------------------------ io::Error

@path('std::io::Error::new')
def _ioenew(eng, st, ctx, a):
    return one(st, mk('ioerr', a[0], a[1], ctx.at[1]))


@path('std::io::Error::other')
def _ioeother(eng, st, ctx, a):
    return one(st, mk('ioerr', mk('op', ('other',), None), a[0], ctx.at[0]))


@path('std::io::Error::kind')
def _ioekind(eng, st, ctx, a):
    v = eng.deref(st, a[0])
    if isV(v, 'ioerr'):
        return one(st, v.a[0])
    return one(st, eng.mkop(ctx.dt, ('kind', v)))


@path('std::io::Error::raw_os_error')
def _ioeraw(eng, st, ctx, a):
    v = eng.deref(st, a[0])
    if isV(v, 'ioerr') and v.a[1] is not None:
        return one(st, NONE)
    if isV(v, 'ioerr'):
        return [(st.copy(), NONE), (st, some(mk('op', ('os code', v), None)))]
    return one(st, eng.mkop(ctx.dt, ('raw', v)))


@path('std::io::Error::get_ref', 'std::io::Error::get_mut')
def _ioeget(eng, st, ctx, a):
    v = eng.deref(st, a[0])
    if isV(v, 'ioerr') and v.a[1] is None:
        return one(st, NONE)
    if isV(v, 'ioerr'):
        o = eng.heap(st, ctx.site, v.a[1])
        return one(st, some(mk('ptr', o, (), v.a[2])))
    return one(st, eng.mkop(ctx.dt, ('get_ref', v)))


@path('std::io::Error::into_inner')
def _ioeinner(eng, st, ctx, a):
    v = a[0]
    if isV(v, 'ioerr') and v.a[1] is None:
        return one(st, NONE)
    if isV(v, 'ioerr'):
        o = eng.heap(st, ctx.site, v.a[1])
        return one(st, some(mk('ptr', o, (), v.a[2])))
    return one(st, eng.mkop(ctx.dt, ('into_inner', v)))


def _downcast(eng, st, ctx, a):
    p = a[0]
    t = eng.F.types[ctx.dt]
    res = t['ldef'] == 'std::result::Result'
    tgt = eng.F.types[t['args'][0]]
    want = tgt['t'] if tgt['k'] == 'ref' else (tgt['args'][0] if tgt['k'] == 'adt' and tgt['ldef'] == 'std::boxed::Box' else None)
    if isV(p, 'ptr') and p.a[2] is not None and want is not None:
        if p.a[2] == want:
            q = mk('ptr', p.a[0], p.a[1], None)
            return one(st, ok(q) if res else some(q))
        return one(st, err(p) if res else NONE)
    return one(st, eng.mkop(ctx.dt, ('downcast', p)))


# ------------------------------------------------------------------ iterators

ITER = 'std::iter::Iterator'


def self_ext(eng, ctx, i=0):
    """Is the receiver's iterator type a library type?"""
    if not ctx.at:
        return True
    ti = ctx.at[i]
    t = eng.F.types[ti]
    return not (t['k'] == 'adt' and t.get('ldef', '').startswith(('disk::', 'petscii', 'util', 'sprite')))


@trait('std::iter::IntoIterator', 'into_iter')
def _intoiter(eng, st, ctx, a):
    def f(s0):
        r = into_iter(eng, s0, a[0], ctx.at[0]) if not isV(a[0], 'it') else a[0]
        return [(s0, a[0] if r is None else r)]
    return forks(eng, f, st)


@trait(ITER, 'next')
def _itnext(eng, st, ctx, a):
    p = a[0]
    if not isV(p, 'ptr'):
        return None
    ti = eng.F.types[ctx.at[0]]['t']
    v = eng.deref(st, p)
    if isV(p, 'ptr') and p.a[2] is not None and eng.F.types[ti]['k'] == 'dyn':
        ti = p.a[2]
    i = to_it(eng, st, v, ti)
    out = []
    for s, i2, o in it_next(eng, st, i, ctx):
        eng.store(s, p, from_it(eng, i2, ti))
        out.append((s, o))
    return out


@trait('std::iter::DoubleEndedIterator', 'next_back')
def _itnextb(eng, st, ctx, a):
    p = a[0]
    ti = eng.F.types[ctx.at[0]]['t']
    i = to_it(eng, st, eng.deref(st, p), ti)
    from .iters import _next_back
    out = []
    for s, i2, o in forks(eng, lambda s: _next_back(eng, s, i, ctx), st):
        eng.store(s, p, from_it(eng, i2, ti))
        out.append((s, o))
    return out


def adapter(name, build):
    @trait(ITER, name)
    def f(eng, st, ctx, a):
        i = to_it(eng, st, a[0], ctx.at[0])
        return one(st, build(eng, st, i, a, ctx))
    return f


def _second(eng, st, a, ctx):
    r = into_iter(eng, st, a[1], ctx.at[1]) if not isV(a[1], 'it') else a[1]
    return to_it(eng, st, a[1] if r is None else r, ctx.at[1])


adapter('map', lambda e, s, i, a, c: it('map', i, a[1]))
adapter('inspect', lambda e, s, i, a, c: it('inspect', i, a[1]))
adapter('filter', lambda e, s, i, a, c: it('filter', i, a[1]))
adapter('filter_map', lambda e, s, i, a, c: it('filter_map', i, a[1]))
adapter('skip_while', lambda e, s, i, a, c: it('skip_while', i, a[1], 0))
adapter('take', lambda e, s, i, a, c: it('take', i, a[1]))
adapter('skip', lambda e, s, i, a, c: it('skip', i, a[1]))
adapter('step_by', lambda e, s, i, a, c: it('step', i, a[1], 1))
adapter('take_while', lambda e, s, i, a, c: it('tw', i, a[1], 0))
adapter('map_while', lambda e, s, i, a, c: it('map_while', i, a[1]))
adapter('enumerate', lambda e, s, i, a, c: it('enum', i, 0))
adapter('rev', lambda e, s, i, a, c: it('rev', i))
adapter('chain', lambda e, s, i, a, c: it('chain', i, _second(e, s, a, c)))
adapter('zip', lambda e, s, i, a, c: it('zip', i, _second(e, s, a, c)))
adapter('cloned', lambda e, s, i, a, c: it('cloned', i))
adapter('copied', lambda e, s, i, a, c: it('copied', i))


def flat_kind(eng, ti):
    """What the flattened items are: the def of the inner iterator type."""
    try:
        t = eng.F.types[ti]
        if t['ldef'].endswith('FlatMap'):
            u = t['args'][1]
            return {'std::option::Option': 'std::option::IntoIter', 'std::result::Result': 'std::result::IntoIter'}.get(eng.F.types[u].get('ldef'), eng.F.types[u].get('ldef'))
        c = eng.F.types[t['variants'][0]['f'][0]['t']]
        return eng.F.types[c['args'][1]].get('ldef')
    except (KeyError, IndexError, TypeError):
        return None


adapter('flatten', lambda e, s, i, a, c: it('flat', i, None, UNIT, flat_kind(e, c.dt)))
adapter('flat_map', lambda e, s, i, a, c: it('flat_map', i, None, a[1], flat_kind(e, c.dt)))
adapter('peekable', lambda e, s, i, a, c: it('peek', i, None))
adapter('fuse', lambda e, s, i, a, c: i)
adapter('by_ref', lambda e, s, i, a, c: i)
del T[(ITER, 'by_ref')]


@path('std::iter::Peekable::peek')
def _peek(eng, st, ctx, a):
    i = eng.deref(st, a[0])
    if i.a[2] is None:
        rs = it_next(eng, st, i.a[1], ctx)
    else:
        rs = [(st, i.a[1], i.a[2])]
    out = []
    for s, x, o in rs:
        eng.store(s, a[0], it('peek', x, o))
        if o.a[0] == 0:
            out.append((s, NONE))
        else:
            h = eng.heap(s, ctx.site, o.a[1][0])
            out.append((s, some(mk('ptr', h, (), None))))
    return out


@path('std::option::Option::iter', 'std::option::Option::iter_mut')
def _optiter(eng, st, ctx, a):
    def f(s0):
        k = eng.variant(s0, eng.deref(s0, a[0]))
        return [(s0, it('once', some(mk('ptr', a[0].a[0], a[0].a[1] + (('d', 1), ('f', 0)), None)) if k == 1 else NONE))]
    return forks(eng, f, st) if isV(a[0], 'ptr') else None


@path('std::iter::once')
def _once(eng, st, ctx, a):
    return one(st, it('once', some(a[0])))


@path('std::iter::empty')
def _empty(eng, st, ctx, a):
    return one(st, it('empty'))


@path('std::iter::repeat')
def _repeat(eng, st, ctx, a):
    return one(st, it('repeat', a[0]))


@path('std::iter::repeat_n')
def _repeatn(eng, st, ctx, a):
    return one(st, it('take', it('repeat', a[0]), a[1]))


@path('std::ops::RangeInclusive::new')
def _rinew(eng, st, ctx, a):
    return one(st, mk('agg', 0, (a[0], a[1], 0)))


@path('std::ops::Range::contains', 'std::ops::RangeInclusive::contains')
def _rcontains(eng, st, ctx, a):
    def f(s0):
        r, x = eng.deref(s0, a[0]), eng.deref(s0, a[1])
        lo, hi = eng.field(s0, r, 0, None), eng.field(s0, r, 1, None)
        if 'Inclusive' in ctx.t['f']['path']:
            return [(s0, 0 if not eng.cond(s0, bnot(mk_lt(x, lo))) else bnot(mk_lt(hi, x)))]
        return [(s0, 0 if not eng.cond(s0, bnot(mk_lt(x, lo))) else mk_lt(x, hi))]
    return forks(eng, f, st)


@path('std::ops::Range::is_empty')
def _rempty(eng, st, ctx, a):
    r = eng.deref(st, a[0])
    return one(st, bnot(mk_lt(eng.field(st, r, 0, None), eng.field(st, r, 1, None))))


def consumer_input(eng, st, ctx, v, ti):
    """The iterator, and how to write it back when consumed by reference."""
    return to_it(eng, st, v, ti)


def collect_into(eng, st, ctx, i, dt):
    t = eng.F.types[dt]
    d = t.get('ldef') if t['k'] == 'adt' else t['k']
    if d in ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String'):
        ety = eng.u8() if d == 'std::string::String' else t['args'][0]
        init = eng.mkseq(ety, ())
        direct = bulk(eng, st, i)
        if direct is not None and d != 'std::string::String':
            return [(st, eng.mkseq(ety, direct))]

        def step(eng, s, c, acc, env, x):
            if d == 'std::string::String':
                if isinstance(x, int) and x < 128 or eng.text is not None:
                    seg = ('e', (x,))
                else:
                    seg = ('b', ('utf8', x), 0, term('len', 63, ('utf8', x)))
            else:
                seg = ('e', (x,))
            return [(s, eng.mkseq(ety, acc.a[1] + (seg,)), env, 1)]
        return [(s, acc) for s, acc, _, _ in drive(eng, st, ctx, 'collect', i, init, UNIT, step)]
    if d in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        def step(eng, s, c, acc, env, x):
            if x in acc.a[1]:
                return [(s, acc, env, 1)]
            return [(s, mk('set', acc.a[0], acc.a[1] + (x,)), env, 1)]
        if getattr(eng, 'opaque_sets', False):
            pass
        return [(s, acc) for s, acc, _, _ in drive(eng, st, ctx, 'collectset', i, mk('set', None, ()), UNIT, step)]
    if d == 'std::boxed::Box':
        inner = eng.F.types[t['args'][0]]
        if inner['k'] == 'slice':
            out = []
            vt = None
            for s, acc, _, _ in drive(eng, st, ctx, 'collectbox', i, eng.mkseq(inner['t'], ()), UNIT,
                                      lambda eng, s, c, acc, env, x: [(s, eng.mkseq(inner['t'], acc.a[1] + (('e', (x,)),)), env, 1)]):
                out.append((s, mk('sl', eng.heap(s, ctx.site, acc), (), 0, eng.seq_len(acc))))
            return out
    if d in ('std::result::Result', 'std::option::Option'):
        inner = t['args'][0]
        ti = eng.F.types[inner]
        good = 0 if d == 'std::result::Result' else 1
        ti_d = ti.get('ldef') if ti['k'] == 'adt' else ti['k']
        if ti_d in ('std::vec::Vec', 'tuple', 'std::string::String', 'std::collections::HashSet') and not (ti_d == 'tuple' and ti['ts']):
            ety = ti['args'][0] if ti_d == 'std::vec::Vec' else eng.u8()
            init = UNIT if ti_d == 'tuple' else (mk('set', None, ()) if ti_d.endswith('HashSet') else eng.mkseq(ety, ()))

            def step(eng, s, c, acc, env, x):
                k = eng.variant(s, x)
                v = acc.a[1][0]
                if k == good:
                    y = eng.field(s, x, 0, good)
                    if ti_d == 'tuple':
                        nv = v
                    elif ti_d.endswith('HashSet'):
                        nv = mk('set', v.a[0], v.a[1] + ((y,) if y not in v.a[1] else ()))
                    else:
                        nv = eng.mkseq(ety, v.a[1] + (('e', (y,)),))
                    return [(s, mk('agg', good, (nv,)), env, 1)]
                bad = err(eng.field(s, x, 0, 1)) if good == 0 else NONE
                return [(s, bad, env, 0)]
            return [(s, acc) for s, acc, _, _ in drive(eng, st, ctx, 'collectres', i, mk('agg', good, (init,)), UNIT, step)]
    return None


def bulk(eng, st, i):
    """Segments produced by simple whole-sequence iterators, or None."""
    k = i.a[0]
    if k == 'vec':
        s, p, e = i.a[1:]
        if p == 0 and e == eng.seq_len(s):
            return s.a[1]
        try:
            return eng.seq_slice(st, s, p, lin_add(e, p, -1))
        except Fork:
            return None
    if k in ('cloned', 'copied') and i.a[1].a[0] == 'ref':
        o, pa, p, e = i.a[1].a[1:]
        v = eng.read(st, o, pa)
        if isV(v, 'seq'):
            try:
                return eng.seq_slice(st, v, p, lin_add(e, p, -1))
            except Fork:
                return None
    return None


@trait(ITER, 'collect')
def _collect(eng, st, ctx, a):
    i = to_it(eng, st, a[0], ctx.at[0])
    return collect_into(eng, st, ctx, i, ctx.dt)


@trait('std::iter::FromIterator', 'from_iter')
def _fromiter(eng, st, ctx, a):
    r = into_iter(eng, st, a[0], ctx.at[0]) if not isV(a[0], 'it') else a[0]
    i = to_it(eng, st, a[0] if r is None else r, ctx.at[0])
    return collect_into(eng, st, ctx, i, ctx.dt)


@trait('std::iter::Extend', 'extend')
def _extend(eng, st, ctx, a):
    p = a[0]
    s = eng.deref(st, p)
    ti = eng.F.types[ctx.at[0]]['t']
    d = base_def(eng, ti)
    src = into_iter(eng, st, a[1], ctx.at[1]) if not isV(a[1], 'it') else a[1]
    i = to_it(eng, st, a[1] if src is None else src, ctx.at[1])
    if not isV(s, 'seq') or d == 'std::string::String':
        return None
    ety = s.a[0]
    byref = eng.F.types[ctx.at[1]]['k'] == 'ref'
    rt = eng.F.types[ety]['k']

    def step(eng, s0, c, acc, env, x):
        if (isV(x, 'ptr')) and rt not in ('ref', 'ptr') and not (rt == 'adt' and eng.F.types[ety]['ldef'] in ('std::boxed::Box', 'std::rc::Rc')):
            x = eng.deref(s0, x)
        return [(s0, eng.mkseq(ety, acc.a[1] + (('e', (x,)),)), env, 1)]
    if i.a[0] == 'vec':
        b = bulk(eng, st, i)
        if b is not None:
            eng.store(st, p, eng.mkseq(ety, s.a[1] + b))
            return one(st, UNIT)
    if i.a[0] == 'ref':
        b = bulk(eng, st, it('copied', i))
        if b is not None:
            eng.store(st, p, eng.mkseq(ety, s.a[1] + b))
            return one(st, UNIT)
    out = []
    for s2, acc, _, _ in drive(eng, st, ctx, 'extend', i, s, UNIT, step):
        eng.store(s2, p, acc)
        out.append((s2, UNIT))
    return out


def consumer(name, init, step, finish, byref=False):
    @trait(ITER, name)
    def f(eng, st, ctx, a):
        p = None
        if byref and isV(a[0], 'ptr') and eng.F.types[ctx.at[0]]['k'] == 'ref':
            p = a[0]
            ti = eng.F.types[ctx.at[0]]['t']
            v = eng.deref(st, p)
            if eng.F.types[ti]['k'] == 'dyn':
                ti = p.a[2]
                if ti is None:
                    return None
            i = to_it(eng, st, v, ti)
        else:
            i = to_it(eng, st, a[0], ctx.at[0])
        acc, env = init(eng, a)
        out = []
        for s, r, i2, e in drive(eng, st, ctx, name, i, acc, env, step):
            if p is not None:
                eng.store(s, p, from_it(eng, i2, ti))
            out.append((s, finish(r)))
        return out
    return f


def _st_fold(eng, s, c, acc, env, x):
    return [(s2, r, f2, 1) for s2, f2, r in call_fn(eng, s, env, [acc, x], c)]


def _deep(eng, s, x):
    return eng.deref(s, x) if isV(x, 'ptr') else x


def _pred_step(hit):
    def stp(eng, s, c, acc, env, x):
        out = []
        for s2, f2, r in call_fn(eng, s, env, [x], c):
            out.extend(forks(eng, lambda s3, r=r, f2=f2: [hit(eng, s3, acc, f2, x, eng.cond(s3, r))], s2))
        return out
    return stp


def _find_step(eng, s, c, acc, env, x):
    h = eng.heap(s, ('find', c.fr, c.bb), x)
    s.mem[('PIN', h)] = mk('ptr', h, (), None)
    out = []
    for s2, f2, r in call_fn(eng, s, env, [mk('ptr', h, (), None)], c):
        s2.mem.pop(h, None)
        s2.mem.pop(('PIN', h), None)
        out.extend(forks(eng, lambda s3, r=r, f2=f2: [(s3, some(x), f2, 0)] if eng.cond(s3, r) else [(s3, NONE, f2, 1)], s2))
    return out


consumer('fold', lambda e, a: (a[1], a[2]), _st_fold, lambda r: r)
consumer('for_each', lambda e, a: (UNIT, a[1]), lambda eng, s, c, acc, env, x: [(s2, UNIT, f2, 1) for s2, f2, r in call_fn(eng, s, env, [x], c)], lambda r: r)
_count = consumer('count', lambda e, a: (0, UNIT), lambda eng, s, c, acc, env, x: [(s, lin_add(acc, 1), env, 1)], lambda r: r)


def _truth(r):
    """0 or 1 as a number: a test of one bit is the bit itself."""
    if isV(r, 'not'):
        x = _truth(r.a[0])
        return None if x is None else lin_add(1, x, -1)
    if isV(r, 'eq') and r.a[1] in (0, 1):
        b = as_bits(r.a[0], 64) if not isinstance(r.a[0], int) else None
        if b is not None and all(x == 0 for x in b[1:]):
            v = b[0] if isinstance(b[0], int) else bits_value((b[0],), 1)
            return v if r.a[1] else lin_add(1, v, -1)
    return None


@trait(ITER, 'count')
def _count_filter(eng, st, ctx, a):
    i = to_it(eng, st, a[0], ctx.at[0])
    if isV(i, 'it') and i.a[0] == 'filter':
        def step(eng, s, c, acc, env, x):
            h = eng.heap(s, ('flt', c.fr, c.bb), x)
            s.mem[('PIN', h)] = mk('ptr', h, (), None)
            out = []
            for s2, f2, r in call_fn(eng, s, env, [mk('ptr', h, (), None)], c):
                s2.mem.pop(h, None)
                s2.mem.pop(('PIN', h), None)
                v = r if isinstance(r, int) else _truth(r)
                if v is None:
                    out.extend(forks(eng, lambda s3, r=r, f2=f2: [(s3, lin_add(acc, 1 if eng.cond(s3, r) else 0), f2, 1)], s2))
                else:
                    out.append((s2, lin_add(acc, v), f2, 1))
            return out
        return [(s, acc) for s, acc, _, _ in drive(eng, st, ctx, 'countf', i.a[1], 0, i.a[2], step)]
    return _count(eng, st, ctx, a)
consumer('sum', lambda e, a: (0, UNIT), lambda eng, s, c, acc, env, x: [(s, lin_add(acc, _deep(eng, s, x)), env, 1)], lambda r: r)
consumer('last', lambda e, a: (NONE, UNIT), lambda eng, s, c, acc, env, x: [(s, some(x), env, 1)], lambda r: r)
consumer('any', lambda e, a: (0, a[1]), _pred_step(lambda eng, s, acc, f, x, r: (s, 1, f, 0) if r else (s, 0, f, 1)), lambda r: r, True)
consumer('all', lambda e, a: (1, a[1]), _pred_step(lambda eng, s, acc, f, x, r: (s, 1, f, 1) if r else (s, 0, f, 0)), lambda r: r, True)
consumer('position', lambda e, a: (mk('agg', 0, (0, NONE)), a[1]),
         _pred_step(lambda eng, s, acc, f, x, r: (s, mk('agg', 0, (acc.a[1][0], some(acc.a[1][0]))), f, 0) if r else
                    (s, mk('agg', 0, (lin_add(acc.a[1][0], 1), NONE)), f, 1)), lambda r: r.a[1][1], True)
consumer('find', lambda e, a: (NONE, a[1]), _find_step, lambda r: r, True)


@trait(ITER, 'rposition')
def _rposition(eng, st, ctx, a):
    p = a[0]
    ti = eng.F.types[ctx.at[0]]['t'] if eng.F.types[ctx.at[0]]['k'] == 'ref' else None
    if not isV(p, 'ptr') or ti is None:
        return None
    i = to_it(eng, st, eng.deref(st, p), ti)
    n = it_len(i)
    if n is None:
        return None
    stp = _pred_step(lambda eng, s, acc, f, x, r: (s, mk('agg', 0, (lin_add(acc.a[1][0], -1), some(lin_add(acc.a[1][0], -1)))), f, 0) if r else
                     (s, mk('agg', 0, (lin_add(acc.a[1][0], -1), NONE)), f, 1))
    out = []
    for s, r, i2, e in drive(eng, st, ctx, 'rposition', it('rev', i), mk('agg', 0, (n, NONE)), a[1], stp):
        eng.store(s, p, from_it(eng, i2.a[1], ti))
        out.append((s, r.a[1][1]))
    return out


@trait('std::iter::DoubleEndedIterator', 'rfind')
def _rfind(eng, st, ctx, a):
    p = a[0]
    ti = eng.F.types[ctx.at[0]]['t'] if eng.F.types[ctx.at[0]]['k'] == 'ref' else None
    if not isV(p, 'ptr') or ti is None:
        return None
    i = to_it(eng, st, eng.deref(st, p), ti)
    out = []
    for s, r, i2, e in drive(eng, st, ctx, 'rfind', it('rev', i), NONE, a[1], _find_step):
        eng.store(s, p, from_it(eng, i2.a[1], ti))
        out.append((s, r))
    return out


def _findmap_step(eng, s, c, acc, env, x):
    out = []
    for s2, f2, r in call_fn(eng, s, env, [x], c):
        def g(s3, r=r, f2=f2):
            o = as_opt(eng, s3, r)
            return [(s3, o, f2, 0 if o.a[0] else 1)]
        out.extend(forks(eng, g, s2))
    return out


consumer('find_map', lambda e, a: (NONE, a[1]), _findmap_step, lambda r: r, True)


def _try_step(eng, s, c, acc, env, x):
    """try_for_each / try_fold with Result"""
    out = []
    for s2, f2, r in call_fn(eng, s, env, [x], c):
        def g(s3, r=r, f2=f2):
            k = eng.variant(s3, r)
            return [(s3, r if k == 0 else err(eng.field(s3, r, 0, 1)), f2, 1 if k == 0 else 0)]
        out.extend(forks(eng, g, s2))
    return out


consumer('try_for_each', lambda e, a: (OK_UNIT, a[1]), _try_step, lambda r: r, True)


def _tryfold_step(eng, s, c, acc, env, x):
    out = []
    for s2, f2, r in call_fn(eng, s, env, [acc.a[1][0], x], c):
        def g(s3, r=r, f2=f2):
            k = eng.variant(s3, r)
            if k == 0:
                return [(s3, ok(eng.field(s3, r, 0, 0)), f2, 1)]
            return [(s3, err(eng.field(s3, r, 0, 1)), f2, 0)]
        out.extend(forks(eng, g, s2))
    return out


consumer('try_fold', lambda e, a: (ok(a[1]), a[2]), _tryfold_step, lambda r: r, True)


def _minmax(name, less):
    def stp(eng, s, c, acc, env, x):
        if acc is NONE:
            return [(s, some(x), env, 1)]
        a, b = _deep(eng, s, acc.a[1][0]), _deep(eng, s, x)
        if not (eng.scalar(a) and eng.scalar(b)):
            return [(s, some(mk('op', ('minmax', acc, x), None)), env, 1)]
        if less(eng, s, a, b):
            return [(s, some(x), env, 1)]
        return [(s, acc, env, 1)]
    consumer(name, lambda e, a: (NONE, UNIT), stp, lambda r: r)


_minmax('max', lambda eng, s, a, b: not eng.cond(s, mk_lt(b, a)))
_minmax('min', lambda eng, s, a, b: eng.cond(s, mk_lt(b, a)))


@trait(ITER, 'nth')
def _nth(eng, st, ctx, a):
    p = a[0]
    ti = eng.F.types[ctx.at[0]]['t']
    i = to_it(eng, st, eng.deref(st, p), ti)
    out = []
    for s, i2, o in it_next(eng, st, it('skip', i, a[1]), ctx):
        eng.store(s, p, from_it(eng, i2.a[1], ti))
        out.append((s, o))
    return out


@trait(ITER, 'unzip')
def _unzip(eng, st, ctx, a):
    i = to_it(eng, st, a[0], ctx.at[0])
    t = eng.F.types[ctx.dt]
    es = []
    for x in t['ts']:
        e = eng.elemty(x)
        if e is None:
            return None
        es.append(e)

    def step(eng, s, c, acc, env, x):
        l, r = acc.a[1]
        return [(s, mk('agg', 0, (eng.mkseq(es[0], l.a[1] + (('e', (eng.field(s, x, 0, None),)),)),
                                  eng.mkseq(es[1], r.a[1] + (('e', (eng.field(s, x, 1, None),)),)))), env, 1)]
    return [(s, acc) for s, acc, _, _ in drive(eng, st, ctx, 'unzip', i,
                                               mk('agg', 0, (eng.mkseq(es[0], ()), eng.mkseq(es[1], ()))), UNIT, step)]


@trait(ITER, 'size_hint')
def _sizehint(eng, st, ctx, a):
    return one(st, mk('op', ('hint',), ctx.dt))


@trait('std::iter::ExactSizeIterator', 'len')
def _itlen(eng, st, ctx, a):
    i = eng.deref(st, a[0])
    n = it_len(i) if isV(i, 'it') else None
    if isV(i, 'it') and i.a[0] == 'chunks':
        return one(st, eng.mkop(ctx.dt, ('itlen', i)))
    return None if n is None else one(st, n)


@path('std::ascii::escape_default')
def _esc(eng, st, ctx, a):
    return one(st, it('opaque', ('esc', a[0]), eng.u8()))


@path('std::io::stdout', 'std::io::stdin', 'std::io::stderr', 'std::io::_print', 'std::io::_eprint', 'std::env::args')
def _io(eng, st, ctx, a):
    return one(st, eng.mkop(ctx.dt, ('io', ctx.t['f'].get('path'))) if ctx.dt is not None else UNIT)


# Option/Result combinators run through their own bodies.

def _dyn_downcast_patch():
    P["::downcast_ref"] = _downcast


_old_norm = norm


def norm(p):      # noqa: F811
    if 'downcast' in p and 'dyn std::error::Error' in p:
        return '::downcast_ref'
    return _old_norm(p)


_dyn_downcast_patch()


READALL = 1 << 20


@trait('std::io::Read', 'by_ref')
def _by_ref(eng, st, ctx, a):
    return one(st, a[0])


@trait('std::io::Read', 'take')
def _io_take(eng, st, ctx, a):
    t = eng.F.types[ctx.dt]
    if t['k'] != 'adt' or t['ldef'] != 'std::io::Take':
        return None
    v = {'inner': a[0], 'limit': a[1], 'len': a[1]}
    ns = [f['n'] for f in t['variants'][0]['f']]
    if not set(ns) <= set(v):
        return None
    return one(st, mk('agg', 0, tuple(v[n] for n in ns)))


@trait('std::io::Read', 'read_to_end')
def _read_to_end(eng, st, ctx, a):
    """Read until a read returns 0, appending; the buffer offered is larger than anything on a disk."""
    p, ty = a[0], None
    limit = None
    if ctx.at:
        ty = ctx.at[0]
    for _ in range(8):
        t = eng.F.types[ty] if ty is not None else None
        if t is not None and t['k'] == 'ref':
            ty = t['t']
            if limit is not None:      # a reference inside an adapter; the first one is the receiver's
                p = eng.deref(st, p)
                if not isV(p, 'ptr'):
                    return None
        elif t is not None and t['k'] == 'adt' and t['ldef'] == 'std::boxed::Box':
            p = eng.deref(st, p)
            if not isV(p, 'ptr'):
                return None
            ty = t['args'][0]
        elif t is not None and t['k'] == 'adt' and t['ldef'] == 'std::io::Take':
            v = eng.deref(st, p)
            ns = [f['n'] for f in t['variants'][0]['f']]
            if not isV(v, 'agg') or 'inner' not in ns or 'limit' not in ns or not isinstance(v.a[1][ns.index('limit')], int):
                return None
            n = v.a[1][ns.index('limit')]
            limit = n if limit is None else min(n, limit)
            p = mk('ptr', p.a[0], p.a[1] + (('f', ns.index('inner')),), None)
            ty = t['args'][0]
        elif t is not None and t['k'] == 'dyn' or ty is None:
            ty = p.a[2] if isV(p, 'ptr') else None
            if ty is None and isV(p, 'ptr') and not p.a[1] and p.a[0][0] == 'O':
                ty = p.a[0][2]
            break
        else:
            break
    iid = eng.F.traits.get(('std::io::Read', ty, 'read'))
    if iid is None:
        return None
    inst = eng.F.insts[iid]
    p = mk('ptr', p.a[0], p.a[1], None)
    u8 = eng.tyid('u8')
    out, todo = [], [(st, 0, 0)]
    while todo:
        nxt = []
        for s, got, k in todo:
            if k > 40:
                raise Limit('read_to_end: more than 40 reads')
            o = ('O', ('rte', ctx.site, k), u8)
            base = ('b', ('rte', ctx.site, k), 0, READALL)
            s.mem[o] = eng.mkseq(u8, (base,))
            room = READALL
            if limit is not None:
                left = lin_add(limit, got, -1)
                if left == 0:
                    out.append((s, mk('agg', 0, (got,))))
                    continue
                if not isinstance(left, int):
                    raise Limit('read_to_end: an unknown rest')
                room = min(left, READALL)
            for s2, r in eng.call_inst(s, inst, [p, mk('sl', o, (), 0, room)], ctx):
                v = eng.variant(s2, r)
                if v is None:
                    raise Limit('read_to_end: result of read')
                if v == 1:
                    s2.mem.pop(o, None)
                    out.append((s2, r))
                    continue
                n = r.a[1][0]

                def g(s3, n=n, o=o):
                    if eng.cond(s3, mk_eq(n, 0)):
                        return [(s3, 0)]
                    v0 = eng.deref(s3, a[1])
                    new = eng.seq_slice(s3, s3.mem[o], 0, n)
                    eng.store(s3, a[1], eng.mkseq(v0.a[0], v0.a[1] + tuple(new)))
                    return [(s3, 1)]
                for s3, more in forks(eng, g, s2):
                    s3.mem.pop(o, None)
                    if more:
                        nxt.append((s3, lin_add(got, n), k + 1))
                    else:
                        out.append((s3, mk('agg', 0, (got,))))
        todo = nxt
    return out


@path('std::ascii::escape_default', 'core::ascii::escape_default')
def _escape(eng, st, ctx, a):
    b = a[0]
    if not isinstance(b, int):
        return None
    s = {9: '\\t', 10: '\\n', 13: '\\r', 34: '\\"', 39: "\\'", 92: '\\\\'}.get(b) or (chr(b) if 0x20 <= b < 0x7F else '\\x%02x' % b)
    q = eng.mkseq(eng.u8(), (('e', tuple(map(ord, s))),))
    return one(st, it('chars', q, 0))


@path('str::trim', 'str::trim_start', 'str::trim_end')
def _trim(eng, st, ctx, a):
    q = eng.seq_of(st, a[0])
    es = eng.explode(q) if q is not None and isV(a[0], 'sl') else None
    if es is None or not all(isinstance(x, int) and (x < 128 or eng.text is not None) for x in es):
        return None
    m = (ctx.t['f'].get('path') or '').rsplit('::', 1)[-1]
    lo, hi = 0, len(es)
    while m != 'trim_end' and lo < hi and chr(es[lo]).isspace():
        lo += 1
    while m != 'trim_start' and lo < hi and chr(es[hi - 1]).isspace():
        hi -= 1
    v = a[0]
    return one(st, mk('sl', v.a[0], v.a[1], lin_add(v.a[2], lo), hi - lo))
