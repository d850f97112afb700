"""Iterators of the standard library as abstract values, and loops over them."""
from .vals import *
from .state import *
from .seqs import total

NONE = mk('agg', 0, ())


def some(v):
    return mk('agg', 1, (v,))


def ok(v):
    return mk('agg', 0, (v,))


def err(e):
    return mk('agg', 1, (e,))


OK_UNIT = ok(UNIT)


def it(kind, *a):
    return mk('it', kind, *a)


def tystr(eng, ti):
    return eng.F.types[ti]


def base_def(eng, ti):
    t = eng.F.types[ti]
    return t.get('ldef', '') if t['k'] == 'adt' else t['k']


def strip_ref(eng, ti):
    t = eng.F.types[ti]
    while t['k'] == 'ref':
        ti = t['t']
        t = eng.F.types[ti]
    return ti


def to_it(eng, st, v, ti):
    """An abstract iterator for a value used as an Iterator (type ti)."""
    if isV(v, 'it'):
        return v
    d = base_def(eng, ti)
    if d == 'std::ops::Range':
        a, b = eng.field(st, v, 0, None), eng.field(st, v, 1, None)
        return it('range', a, b)
    if d == 'std::ops::RangeFrom':
        return it('rangefrom', eng.field(st, v, 0, None))
    if d == 'std::ops::RangeInclusive':
        return it('rangei', eng.field(st, v, 0, None), eng.field(st, v, 1, None), eng.field(st, v, 2, None))
    if d in ('ref', 'std::boxed::Box'):
        return it('ptr', v, ti)
    return it('user', ti, v)


def from_it(eng, i, ti):
    """Back to the memory representation."""
    if i.a[0] == 'range':
        return mk('agg', 0, (i.a[1], i.a[2]))
    if i.a[0] == 'rangefrom':
        return mk('agg', 0, (i.a[1],))
    if i.a[0] == 'rangei':
        return mk('agg', 0, (i.a[1], i.a[2], i.a[3]))
    if i.a[0] == 'user':
        return i.a[2]
    if i.a[0] == 'ptr':
        return i.a[1]
    return i


def into_iter(eng, st, v, ti):
    """IntoIterator::into_iter on a value of type ti, or None when it is an iterator already."""
    t = eng.F.types[ti]
    d = base_def(eng, ti)
    if d in ('std::vec::Vec', 'std::collections::VecDeque') and isV(v, 'seq'):
        return it('vec', v, 0, eng.seq_len(v))
    if t['k'] == 'array' and isV(v, 'seq'):
        return it('vec', v, 0, eng.seq_len(v))
    if d in ('std::collections::HashSet', 'std::collections::BTreeSet') and isV(v, 'set') and v.a[0] is None:
        return it('vec', eng.mkseq(t['args'][0], (('e', tuple(v.a[1])),)), 0, len(v.a[1]))
    if d == 'std::option::Option':
        k = eng.variant(st, v)
        return it('once', some(eng.field(st, v, 0, 1)) if k == 1 else NONE)
    if t['k'] == 'ref':
        inner = eng.peel(t['t'])
        di = base_def(eng, inner)
        if di in ('array', 'slice', 'std::vec::Vec', 'std::collections::VecDeque'):
            return ref_iter(eng, st, v)
        if di == 'std::collections::HashSet':
            m = eng.deref(st, v)
            if isV(m, 'set') and m.a[0] is None and inner is not None:
                q = eng.mkseq(eng.F.types[inner]['args'][0], (('e', tuple(m.a[1])),))
                eng.const[('K', 'els', q)] = q
                return it('ref', ('K', 'els', q), (), 0, len(m.a[1]))
            return it('set', m, 0)
        if di == 'std::option::Option':
            k = eng.variant(st, eng.deref(st, v))
            return it('once', some(mk('ptr', v.a[0], v.a[1] + (('d', 1), ('f', 0)), None)) if k == 1 else NONE)
    return None


def ref_iter(eng, st, v):
    if isV(v, 'sl'):
        o, p, off, n = v.a
        return it('ref', o, p, off, lin_add(off, n))
    if isV(v, 'ptr'):
        s = eng.deref(st, v)
        if isV(s, 'seq'):
            return it('ref', v.a[0], v.a[1], 0, eng.seq_len(s))
        if isV(s, 'ptr') or isV(s, 'sl'):
            return ref_iter(eng, st, s)
    return None


def call_fn(eng, st, f, args, ctx):
    """Call a closure/fn value; -> [(st, f', ret)] with the closure's own state updated."""
    if isV(f, 'clo'):
        t = eng.F.types[f.a[0]]
        inst = eng.F.insts[t['inst']]
        lt = eng.F.types[inst['body']['locals'][1]]
        if lt['k'] == 'ref':
            st = st.copy()
            o = eng.heap(st, ('clo', ctx.fr, ctx.bb), f)
            st.mem[('PIN', o)] = mk('ptr', o, (), None)
            out = []
            for s, r in eng.run(inst, [mk('ptr', o, (), None)] + list(args), st, ctx.fr, ctx.bb, ctx.depth + 1):
                f2 = s.mem.pop(o)
                s.mem.pop(('PIN', o), None)
                out.append((s, f2, r))
            return out
    return [(s, f, r) for s, r in eng.call_value(st, f, args, ctx)]


def forks(eng, fn, st):
    """Run fn(state) -> list, forking as needed."""
    out = []
    stack = [st]
    while stack:
        s = stack.pop()
        s0 = s.copy()
        try:
            out.extend(fn(s))
        except Fork as f:
            for alt in reversed(f.alts):
                s2 = s0.copy()
                if s2.apply(alt):
                    stack.append(s2)
    return out


def it_next(eng, st, i, ctx):
    """-> [(st, it', option)]; never raises Fork."""
    return forks(eng, lambda s: _next(eng, s, i, ctx), st)


def bind(eng, rs, fn):
    out = []
    for r in rs:
        s = r[0]

        def g(s2, r=r):
            return fn(s2, *r[1:])
        out.extend(forks(eng, g, s))
    return out


def _next(eng, st, i, ctx):
    k = i.a[0]
    if k == 'range':
        a, b = i.a[1], i.a[2]
        if eng.lt(st, a, b):
            return [(st, it('range', lin_add(a, 1), b), some(a))]
        return [(st, i, NONE)]
    if k == 'rangefrom':
        return [(st, it('rangefrom', lin_add(i.a[1], 1)), some(i.a[1]))]
    if k == 'rangei':
        a, b, done = i.a[1], i.a[2], i.a[3]
        if eng.cond(st, done) if not isinstance(done, int) else done:
            return [(st, i, NONE)]
        if eng.lt(st, b, a):
            return [(st, i, NONE)]
        if eng.lt(st, a, b):
            return [(st, it('rangei', lin_add(a, 1), b, 0), some(a))]
        return [(st, it('rangei', a, b, 1), some(a))]
    if k == 'vec':
        s, p, e = i.a[1], i.a[2], i.a[3]
        if eng.lt(st, p, e):
            return [(st, it('vec', s, lin_add(p, 1), e), some(eng.seq_get(st, s, p)))]
        return [(st, i, NONE)]
    if k == 'ref':
        o, pa, p, e = i.a[1:]
        if eng.lt(st, p, e):
            return [(st, it('ref', o, pa, lin_add(p, 1), e), some(mk('ptr', o, pa + (('x', p),), None)))]
        return [(st, i, NONE)]
    if k in ('chunks', 'chunks_exact'):
        o, pa, p, e, n = i.a[1:]
        if not eng.lt(st, p, e):
            return [(st, i, NONE)]
        rest = lin_add(e, p, -1)
        if eng.lt(st, rest, n):
            if k == 'chunks_exact':
                return [(st, i, NONE)]
            return [(st, it(k, o, pa, e, e, n), some(mk('sl', o, pa, p, rest)))]
        return [(st, it(k, o, pa, lin_add(p, n), e, n), some(mk('sl', o, pa, p, n)))]
    if k == 'windows':
        o, pa, p, e, n = i.a[1:]
        if eng.lt(st, e, lin_add(p, n)):
            return [(st, i, NONE)]
        return [(st, it(k, o, pa, lin_add(p, 1), e, n), some(mk('sl', o, pa, p, n)))]
    if k == 'once':
        return [(st, it('once', NONE), i.a[1])]
    if k == 'empty':
        return [(st, i, NONE)]
    if k == 'repeat':
        return [(st, i, some(i.a[1]))]
    if k == 'map':
        def m(s, src, o):
            if o.a[0] == 0:
                return [(s, it('map', src, i.a[2]), NONE)]
            return [(s2, it('map', src, f2), some(r)) for s2, f2, r in call_fn(eng, s, i.a[2], [o.a[1][0]], ctx)]
        return bind(eng, it_next(eng, st, i.a[1], ctx), m)
    if k == 'inspect':
        def m(s, src, o):
            if o.a[0] == 0:
                return [(s, it('inspect', src, i.a[2]), NONE)]
            h = eng.heap(s, ('insp', ctx.fr, ctx.bb), o.a[1][0])
            return [(s2, it('inspect', src, f2), o) for s2, f2, r in call_fn(eng, s, i.a[2], [mk('ptr', h, (), None)], ctx)]
        return bind(eng, it_next(eng, st, i.a[1], ctx), m)
    if k in ('cloned', 'copied'):
        def c(s, src, o):
            if o.a[0] == 0:
                return [(s, it(k, src), NONE)]
            return [(s, it(k, src), some(eng.deref(s, o.a[1][0])))]
        return bind(eng, it_next(eng, st, i.a[1], ctx), c)
    if k == 'enum':
        def e(s, src, o):
            if o.a[0] == 0:
                return [(s, it('enum', src, i.a[2]), NONE)]
            return [(s, it('enum', src, lin_add(i.a[2], 1)), some(mk('agg', 0, (i.a[2], o.a[1][0]))))]
        return bind(eng, it_next(eng, st, i.a[1], ctx), e)
    if k == 'take':
        if st.decide(mk_eq(i.a[2], 0)) is None:
            eng.cond(st, mk_eq(i.a[2], 0))
        if st.decide(mk_eq(i.a[2], 0)) == 1:
            return [(st, i, NONE)]
        return [(s, it('take', src, lin_add(i.a[2], -1)), o) for s, src, o in it_next(eng, st, i.a[1], ctx)]
    if k == 'skip':
        src, n = i.a[1], i.a[2]
        if n == 0:
            return [(s, it('skip', x, 0), o) for s, x, o in it_next(eng, st, src, ctx)]
        if src.a[0] in ('vec', 'ref', 'range'):
            pi = 2 if src.a[0] == 'vec' else (3 if src.a[0] == 'ref' else 1)
            a = list(src.a)
            e = a[pi + 1]
            np = lin_add(a[pi], n)
            if eng.lt(st, e, np):
                np = e
            a[pi] = np
            return _next(eng, st, it('skip', mk('it', *a), 0), ctx)
        if src.a[0] == 'take':
            if eng.lt(st, src.a[2], n):
                return _next(eng, st, it('take', src.a[1], 0), ctx)
            return _next(eng, st, it('take', it('skip', src.a[1], n), lin_add(src.a[2], n, -1)), ctx)
        if not isinstance(n, int):
            for c in range(0, 64):
                if eng.cond(st, mk_eq(n, c)):
                    n = c
                    break
            else:
                raise Limit('skip by an unknown amount')
        rs = [(st, src)]
        for _ in range(n):
            nx = []
            for s, x in rs:
                nx.extend((s2, x2) for s2, x2, o in it_next(eng, s, x, ctx))
            rs = nx
        out = []
        for s, x in rs:
            out.extend((s2, it('skip', x2, 0), o) for s2, x2, o in it_next(eng, s, x, ctx))
        return out
    if k == 'step':
        src, n, first = i.a[1:]
        if src.a[0] == 'range' and isinstance(n, int):
            a, b = src.a[1], src.a[2]
            if eng.lt(st, a, b):
                return [(st, it('step', it('range', lin_add(a, n), b), n, 0), some(a))]
            return [(st, i, NONE)]
        if isinstance(n, int) and n > 0:
            return [(s, it('step', x, n, 0), o) for s, x, o in it_next(eng, st, src if first else it('skip', src, n - 1), ctx)]
        return opaque_next(eng, st, i, ctx)
    if k == 'tw':
        src, f, done = i.a[1:]
        if done:
            return [(st, i, NONE)]

        def tw(s, x, o):
            if o.a[0] == 0:
                return [(s, it('tw', x, f, 0), NONE)]
            h = eng.heap(s, ('tw', ctx.fr, ctx.bb), o.a[1][0])
            s.mem[('PIN', h)] = mk('ptr', h, (), None)
            out = []
            for s2, f2, r in call_fn(eng, s, f, [mk('ptr', h, (), None)], ctx):
                s2.mem.pop(h, None)
                s2.mem.pop(('PIN', h), None)
                out.extend(forks(eng, lambda s3, f2=f2, r=r: [(s3, it('tw', x, f2, 0), o) if eng.cond(s3, r) else (s3, it('tw', x, f2, 1), NONE)], s2))
            return out
        return bind(eng, it_next(eng, st, src, ctx), tw)
    if k == 'map_while':
        src, f = i.a[1:]

        def mw(s, x, o):
            if o.a[0] == 0:
                return [(s, it('map_while', x, f), NONE)]
            out = []
            for s2, f2, r in call_fn(eng, s, f, [o.a[1][0]], ctx):
                out.extend(forks(eng, lambda s3, r=r: [(s3, it('map_while', x, f2), as_opt(eng, s3, r))], s2))
            return out
        return bind(eng, it_next(eng, st, src, ctx), mw)
    if k == 'chain':
        a, b = i.a[1], i.a[2]
        if a is not None:
            def ch(s, x, o):
                if o.a[0] == 1:
                    return [(s, it('chain', x, b), o)]
                return [(s2, it('chain', None, y), o2) for s2, y, o2 in it_next(eng, s, b, ctx)]
            return bind(eng, it_next(eng, st, a, ctx), ch)
        return [(s, it('chain', None, y), o) for s, y, o in it_next(eng, st, b, ctx)]
    if k == 'zip':
        def z(s, x, o):
            if o.a[0] == 0:
                return [(s, it('zip', x, i.a[2]), NONE)]
            return [(s2, it('zip', x, y), some(mk('agg', 0, (o.a[1][0], o2.a[1][0]))) if o2.a[0] else NONE)
                    for s2, y, o2 in it_next(eng, s, i.a[2], ctx)]
        return bind(eng, it_next(eng, st, i.a[1], ctx), z)
    if k == 'rev':
        src = i.a[1]
        return [(s, it('rev', x), o) for s, x, o in forks(eng, lambda s: _next_back(eng, s, src, ctx), st)]
    if k in ('filter', 'filter_map', 'skip_while'):
        f = i.a[2]

        def step(eng, s, c, acc, env, x):
            out = []
            if k == 'filter_map':
                for s2, f2, r in call_fn(eng, s, env, [x], c):
                    out.extend(forks(eng, lambda s3, r=r, f2=f2: [(s3, as_opt(eng, s3, r), f2, 1 if as_opt(eng, s3, r) is NONE else 0)], s2))
                return out
            h = eng.heap(s, ('flt', c.fr, c.bb), x)
            s.mem[('PIN', h)] = mk('ptr', h, (), None)
            for s2, f2, r in call_fn(eng, s, env, [mk('ptr', h, (), None)], c):
                s2.mem.pop(h, None)
                s2.mem.pop(('PIN', h), None)

                def fin(s3, r=r, f2=f2):
                    keep = eng.cond(s3, r)
                    if k == 'skip_while':
                        keep = not keep
                    return [(s3, some(x), f2, 0)] if keep else [(s3, NONE, f2, 1)]
                out.extend(forks(eng, fin, s2))
            return out
        if k == 'skip_while' and i.a[3]:
            return [(s, it(k, x, f, 1), o) for s, x, o in it_next(eng, st, i.a[1], ctx)]
        if k == 'skip_while':
            return [(s, it(k, x, env, 1), acc) for s, acc, x, env in drive(eng, st, ctx, k, i.a[1], NONE, f, step)]
        return [(s, it(k, x, env), acc) for s, acc, x, env in drive(eng, st, ctx, k, i.a[1], NONE, f, step)]
    if k in ('flat', 'flat_map'):
        return flat_next(eng, st, i, ctx)
    if k == 'peek':
        src, pk = i.a[1:]
        if pk is not None:
            return [(st, it('peek', src, None), pk)]
        return [(s, it('peek', x, None), o) for s, x, o in it_next(eng, st, src, ctx)]
    if k == 'user':
        ti, v = i.a[1], i.a[2]
        iid = None
        for key in (('std::iter::Iterator', ti, 'next'),):
            iid = eng.F.traits.get(key)
        if iid is None:
            return opaque_next(eng, st, i, ctx)
        h = eng.heap(st, ('uit', ctx.fr, ctx.bb), v)
        st.mem[('PIN', h)] = mk('ptr', h, (), None)
        out = []
        for s, r in eng.call_inst(st, eng.F.insts[iid], [mk('ptr', h, (), None)], ctx, 'std::iter::Iterator', 'next'):
            v2 = s.mem.pop(h)
            s.mem.pop(('PIN', h), None)
            out.extend(forks(eng, lambda s3, r=r: [(s3, it('user', ti, v2), as_opt(eng, s3, r))], s))
        return out
    if k == 'ptr':
        # Box<dyn Iterator> / &mut I
        p, ti = i.a[1], i.a[2]
        t = eng.F.types[ti]
        inner = eng.peel(t['t'] if t['k'] == 'ref' else t['args'][0])
        if eng.F.types[inner]['k'] == 'dyn':
            inner = p.a[2] if isV(p, 'ptr') else None
        if inner is None or not isV(p, 'ptr'):
            return opaque_next(eng, st, i, ctx)
        v = eng.deref(st, p)
        out = []
        for s, x, o in it_next(eng, st, to_it(eng, st, v, inner), ctx):
            eng.store(s, p, from_it(eng, x, inner))
            out.append((s, i, o))
        return out
    if k == 'chars':
        s, p = i.a[1], i.a[2]
        n = eng.seq_len(s)
        if isinstance(n, int) and (eng.text is not None or all(isinstance(x, int) and x < 128 for x in (eng.explode(s) or [None]))):
            if p < n:
                return [(st, it('chars', s, p + 1), some(eng.seq_get(st, s, p)))]
            return [(st, i, NONE)]
        return opaque_next(eng, st, i, ctx)
    if k == 'drain':
        return [(s, it('drain', x), o) for s, x, o in it_next(eng, st, i.a[1], ctx)]
    if k == 'opaque':
        return opaque_next(eng, st, i, ctx)
    if k == 'set':
        return opaque_next(eng, st, i, ctx)
    return opaque_next(eng, st, i, ctx)


def opaque_next(eng, st, i, ctx):
    """Unknown iterator: may end or yield an arbitrary item."""
    dt = getattr(ctx, 'dt', None)
    if i.a[0] not in ('opaque', 'set', 'chars'):
        st.taint = tuple(sorted(set(st.taint) | {'iterator ' + str(i.a[0])}))
        eng.unmodelled['iterator ' + str(i.a[0])] += 1
    n = eng.fresh(st, ('oit', i.a[0]), eng.tyid('u64'))
    c = term('sym', 1, ('more', n))
    s2 = st.copy()
    st.assume(c, 0)
    s2.assume(c, 1)
    ety = i.a[2] if i.a[0] == 'opaque' else None
    v = eng.mkop(ety, ('item', i.a[1] if len(i.a) > 1 else 0, n)) if ety is not None else mk('op', ('item', i.a[0], n), None)
    return [(st, i, NONE), (s2, i, some(v))]


def as_opt(eng, st, r):
    """Force an Option value to a known variant (may fork)."""
    k = eng.variant(st, r)
    if k == 0:
        return NONE
    return some(eng.field(st, r, 0, 1))


def flat_next(eng, st, i, ctx):
    src, cur, f = i.a[1], i.a[2], i.a[3]
    kind = i.a[4] if len(i.a) > 4 else None

    def inner(s, env):
        """Next item of the current inner iterator, if any -> [(st, env', opt)]"""
        c = env.a[1][0]
        if not isV(c, 'it'):
            return [(s, env, NONE)]
        return [(s2, mk('agg', 0, (c2 if o.a[0] else UNIT, env.a[1][1])), o) for s2, c2, o in it_next(eng, s, c, ctx)]

    def step(eng, s, c, acc, env, x):
        # x: a new element of the outer iterator
        out = []
        rs = [(s, env.a[1][1], x)]
        if env.a[1][1] is not UNIT:
            rs = call_fn(eng, s, env.a[1][1], [x], c)
        for s2, f2, y in rs:
            def g(s3, y=y, f2=f2):
                z = flat_iter(eng, s3, y, kind)
                return [(s4, o, e2, 0 if o.a[0] else 1) for s4, e2, o in inner(s3, mk('agg', 0, (z, f2)))]
            out.extend(forks(eng, g, s2))
        return out
    out = []
    for s, env, o in inner(st, mk('agg', 0, (cur if cur is not None else UNIT, f))):
        if o.a[0]:
            out.append((s, it(i.a[0], src, env.a[1][0], env.a[1][1], kind), o))
        else:
            for s2, acc, x, e2 in drive(eng, s, ctx, 'flat', src, NONE, mk('agg', 0, (UNIT, f)), step):
                out.append((s2, it(i.a[0], x, e2.a[1][0] if isV(e2.a[1][0], 'it') else None, e2.a[1][1], kind), acc))
    return out


def flat_iter(eng, st, y, kind=None):
    """Iterate the items of a flattened element: iterators, Option/Result, sequences."""
    if kind in ('std::option::IntoIter', 'std::result::IntoIter'):
        w = 1 if 'option' in kind else 0
        return it('once', some(eng.field(st, y, 0, w)) if eng.variant(st, y) == w else NONE)
    if kind in ('std::option::Iter', 'std::result::Iter') and isV(y, 'ptr'):
        w = 1 if 'option' in kind else 0
        return it('once', some(mk('ptr', y.a[0], y.a[1] + (('d', w), ('f', 0)), None)) if eng.variant(st, eng.deref(st, y)) == w else NONE)
    if isV(y, 'it'):
        return y
    if isV(y, 'seq'):
        return it('vec', y, 0, eng.seq_len(y))
    if isV(y, 'sl'):
        return ref_iter(eng, st, y)
    if isV(y, 'ptr'):
        r = ref_iter(eng, st, y)
        if r is not None:
            return r
    if isV(y, 'agg') or isV(y, 'op'):
        ti = y.a[1] if isV(y, 'op') else None
        k = eng.variant(st, y)
        nm = eng.F.types[ti]['ldef'] if ti is not None and eng.F.types[ti]['k'] == 'adt' else None
        isres = nm == 'std::result::Result'
        if isV(y, 'agg'):
            # Option::None has no fields; Result variants always have one
            isres = k == 0 and len(y.a[1]) == 1 or (k == 1 and getattr(eng, '_flat_res', False))
        if isres:
            return it('once', some(eng.field(st, y, 0, 0)) if k == 0 else NONE)
        return it('once', some(eng.field(st, y, 0, 1)) if k == 1 else NONE)
    return it('opaque', y, None)


def _next_back(eng, st, i, ctx):
    k = i.a[0]
    if k == 'range':
        a, b = i.a[1], i.a[2]
        if eng.lt(st, a, b):
            return [(st, it('range', a, lin_add(b, -1)), some(lin_add(b, -1)))]
        return [(st, i, NONE)]
    if k == 'rangei':
        a, b, done = i.a[1:]
        if done or eng.lt(st, b, a):
            return [(st, i, NONE)]
        if eng.lt(st, a, b):
            return [(st, it('rangei', a, lin_add(b, -1), 0), some(b))]
        return [(st, it('rangei', a, b, 1), some(b))]
    if k == 'vec':
        s, p, e = i.a[1:]
        if eng.lt(st, p, e):
            e2 = lin_add(e, -1)
            return [(st, it('vec', s, p, e2), some(eng.seq_get(st, s, e2)))]
        return [(st, i, NONE)]
    if k == 'ref':
        o, pa, p, e = i.a[1:]
        if eng.lt(st, p, e):
            e2 = lin_add(e, -1)
            return [(st, it('ref', o, pa, p, e2), some(mk('ptr', o, pa + (('x', e2),), None)))]
        return [(st, i, NONE)]
    if k == 'map':
        def m(s, src, o):
            if o.a[0] == 0:
                return [(s, it('map', src, i.a[2]), NONE)]
            return [(s2, it('map', src, f2), some(r)) for s2, f2, r in call_fn(eng, s, i.a[2], [o.a[1][0]], ctx)]
        return bind(eng, forks(eng, lambda s: _next_back(eng, s, i.a[1], ctx), st), m)
    if k in ('cloned', 'copied'):
        return [(s, it(k, x), o if o.a[0] == 0 else some(eng.deref(s, o.a[1][0])))
                for s, x, o in forks(eng, lambda s: _next_back(eng, s, i.a[1], ctx), st)]
    if k == 'enum':
        src = i.a[1]
        n = it_len(src)
        if n is None:
            return opaque_next(eng, st, i, ctx)
        return [(s, it('enum', x, i.a[2]), o if o.a[0] == 0 else some(mk('agg', 0, (lin_add(lin_add(i.a[2], n), -1), o.a[1][0]))))
                for s, x, o in forks(eng, lambda s: _next_back(eng, s, src, ctx), st)]
    if k == 'rev':
        return [(s, it('rev', x), o) for s, x, o in it_next(eng, st, i.a[1], ctx)]
    if k == 'filter':
        f = i.a[2]
        return [(s, it('filter', x.a[1], env), acc) for s, acc, x, env in
                drive(eng, st, ctx, 'filter_back', it('rev', i.a[1]), NONE, f, filter_step)]
    return opaque_next(eng, st, i, ctx)


def filter_step(eng, s, c, acc, env, x):
    h = eng.heap(s, ('flt', c.fr, c.bb), x)
    s.mem[('PIN', h)] = mk('ptr', h, (), None)
    out = []
    for s2, f2, r in call_fn(eng, s, env, [mk('ptr', h, (), None)], c):
        s2.mem.pop(h, None)
        s2.mem.pop(('PIN', h), None)
        out.extend(forks(eng, lambda s3, r=r, f2=f2: [(s3, some(x), f2, 0)] if eng.cond(s3, r) else [(s3, NONE, f2, 1)], s2))
    return out


def it_len(i):
    k = i.a[0]
    if k in ('vec', 'ref'):
        return lin_add(i.a[-1], i.a[-2], -1)
    if k in ('map', 'cloned', 'copied', 'enum', 'rev'):
        return it_len(i.a[1])
    return None


# ---------------------------------------------------------------- loops over iterators

def drive(eng, st, ctx, kind, itv, acc, env, step, finish=None):
    """Analyse  `for x in it { step }`  with the general loop machinery.

    step(eng, st, ctx, acc, env, x) -> [(st, acc', env', cont)];
    result: [(st, acc, it', env')].
    """
    def nxt(eng, s, c, args):
        fr = c.fr
        out = []
        for s2, i2, o in it_next(eng, s, s.mem[(fr, 1)], c):
            s2.mem[(fr, 1)] = i2
            s2.mem[(fr, 4)] = o.a[0]
            out.append((s2, o.a[1][0] if o.a[0] else UNIT))
        return out

    def stp(eng, s, c, args):
        fr = c.fr
        out = []
        x = s.mem.pop((fr, 5))
        for s2, a2, e2, cont in forks(eng, lambda s3: step(eng, s3, c, s3.mem[(fr, 2)], s3.mem[(fr, 3)], x), s):
            s2.mem[(fr, 2)] = a2
            s2.mem[(fr, 3)] = e2
            s2.mem[(fr, 4)] = cont
            out.append((s2, UNIT))
        return out
    iid = 'loop:' + kind
    inst = eng.synth.get(iid)
    u = eng.tyid('usize')
    d5 = {'l': 5, 'p': []}
    callt = lambda fn, to, d=5: {'k': 'call', 'f': {'py': fn}, 'a': [], 'at': [], 'd': {'l': d, 'p': []}, 'dt': None, 'to': to}
    sw = lambda z, e: {'k': 'switch', 'o': {'k': 'copy', 'p': {'l': 4, 'p': []}}, 'v': [[0, z]], 'else': e}
    body = {'argc': 3, 'locals': [u] * 7, 'blocks': [
        {'s': [], 't': {'k': 'goto', 'to': 1}},
        {'s': [], 't': callt(nxt, 2)},
        {'s': [], 't': sw(5, 3)},
        {'s': [], 't': callt(stp, 4, 6)},
        {'s': [], 't': sw(5, 1)},
        {'s': [], 't': {'k': 'return'}},
    ]}
    new = {'id': iid, 'lname': iid, 'lpath': iid, 'body': body, 'kind': 'item', 'local': False}
    if inst is None:
        cfg = eng.F.cfg(new)
        cfg.taken = set(range(6))
        eng.synth[iid] = new
    fr = eng.frame(ctx.fr, ctx.bb, iid)
    if ctx.fr in eng.synth_depth and eng.synth_depth[ctx.fr] > 30:
        from .engine import Limit
        raise Limit('iterator nesting')
    eng.synth_depth[fr] = eng.synth_depth.get(ctx.fr, 0) + 1
    out = []
    rs = run_synth(eng, new, fr, [itv, acc, env], st, ctx)
    for s in rs:
        i2, a2, e2 = s.mem[(fr, 1)], s.mem[(fr, 2)], s.mem[(fr, 3)]
        for j in range(7):
            s.mem.pop((fr, j), None)
        s.mem[('RET',)] = mk('agg', 0, (a2, i2, e2))
        out.append(s)
    out = eng.merge(out)
    res = []
    for s in out:
        a2, i2, e2 = s.mem.pop(('RET',)).a[1]
        res.append((s, a2, i2, e2))
    return res


def run_synth(eng, inst, fr, args, st, ctx):
    """eng.run without popping the locals (so that results can be read back)."""
    body = inst['body']
    st = st.copy()
    for i in range(7):
        st.mem.pop((fr, i), None)
    for i, a in enumerate(args):
        st.mem[(fr, i + 1)] = a
    cfg = eng.F.cfg(inst)
    pend = {0: [st]}
    rec = {}
    exits = 0
    results = []
    while pend:
        b = min(pend, key=cfg.prio.__getitem__)
        states = pend.pop(b)
        if b in cfg.heads:
            out = []
            for s in states:
                for j in (0, 4, 5, 6):
                    s.mem.pop((fr, j), None)
                r = eng.at_head(fr, b, s, rec.setdefault(b, {}), exits)
                if r is not None:
                    out.append(r)
            states = out
        elif len(states) > 1:
            for s in states:
                s.mem.pop((fr, 6), None)
                s.mem.pop((fr, 0), None)
            states = eng.merge(states)
        for s in states:
            eng.nblocks += 1
            if eng.nblocks > eng.maxblocks:
                from .engine import Limit
                raise Limit('block budget exhausted')
            for s2, nb in eng.block(s, fr, inst, body['blocks'][b], b, ctx.depth):
                if nb is None:
                    for j in (0, 4, 5, 6):
                        s2.mem.pop((fr, j), None)
                    results.append(s2)
                else:
                    if b == 2 and nb == 5:
                        exits += 1
                    pend.setdefault(nb, []).append(s2)
    return results
