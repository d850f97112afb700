"""Text mode (eng.text): strings are sequences of characters (not bytes), and formatting writes into a tracked text.

A Formatter is the opaque value ('fmtr', pointer to the text written so far, flags, width).  Numbers that are not known are single
elements ('num', how, value, flags, width) of the text."""
from .rt import *
from .iters import it, forks

ALT, ZERO, HASW, HASP = 1 << 23, 1 << 24, 1 << 27, 1 << 28
PLAIN = 0x20 | 3 << 29 | 1 << 31


def enable(eng):
    eng.text = handler
    eng.exact = max(getattr(eng, 'exact', 0) or 0, 10 ** 6)


def seq(eng, es):
    return eng.mkseq(eng.u8(), (('e', tuple(es)),) if es else ())


def chars(eng, st, v):
    """The characters of a text, or None."""
    q = v if isV(v, 'seq') else eng.seq_of(st, v)
    if q is None:
        return None
    es = eng.explode(q)
    if es is None:
        return None
    return list(es)


def sink(eng, st, p):
    """(pointer to the text, flags, width) of a writer, or None."""
    for _ in range(4):
        v = eng.deref(st, p) if isV(p, 'ptr') else None
        if isV(v, 'ptr'):
            p = v
            continue
        if isV(v, 'op') and isinstance(v.a[0], tuple) and v.a[0][:1] == ('fmtr',):
            return v.a[0][1], v.a[0][2], v.a[0][3]
        if isV(v, 'seq'):
            return p, PLAIN, 0
        return None
    return None


def append(eng, st, sp, es):
    v = eng.deref(st, sp)
    eng.store(st, sp, eng.mkseq(v.a[0], v.a[1] + ((('e', tuple(es)),) if es else ())))


def formatter(eng, st, name, sp, flags=PLAIN, width=0):
    t = next((i for i, x in enumerate(eng.F.types) if x.get('k') == 'adt' and x.get('ldef') == 'std::fmt::Formatter'), None)
    o = ('O', name, t)
    st.mem[o] = eng.mkop(t, ('fmtr', sp, flags, width))
    return mk('ptr', o, (), None)


def buffer(eng, st, name):
    o = ('O', name, eng.tyid('std::string::String'))
    st.mem[o] = eng.mkseq(eng.u8(), ())
    return mk('ptr', o, (), None)


def num(eng, how, v, flags=PLAIN, width=0):
    return mk('op', ('num', how, v, flags & 0x7FFFFFFF, width), eng.u8(), 0)


def isnum(x):
    return isV(x, 'op') and isinstance(x.a[0], tuple) and x.a[0][:1] == ('num',)


def padded(es, flags, width, default='l'):
    if not flags & HASW or not width or len(es) >= width:
        return list(es) if not flags & HASP else None
    if flags & HASP:
        return None
    fill = flags & 0x1FFFFF
    al = (flags >> 29) & 3
    n = width - len(es)
    al = {0: 'l', 1: 'r', 2: 'c', 3: default}[al]
    left = {'l': 0, 'r': n, 'c': n // 2}[al]
    return [fill] * left + list(es) + [fill] * (n - left)


def number(v, how, flags, width):
    if not isinstance(v, int) or how not in ('display', 'debug', 'lower_hex', 'upper_hex', 'octal', 'binary'):
        return None
    s = {'display': '%d' % v, 'debug': '%d' % v, 'lower_hex': '%x' % v, 'upper_hex': '%X' % v, 'octal': '%o' % v, 'binary': bin(v)[2:]}[how]
    pre = {'lower_hex': '0x', 'upper_hex': '0x', 'octal': '0o', 'binary': '0b'}.get(how, '') if flags & ALT else ''
    if flags & (1 << 21):
        pre = '+' + pre
    if flags & ZERO and flags & HASW:
        s = s.rjust(width - len(pre), '0')
        return [ord(c) for c in pre + s]
    return padded([ord(c) for c in pre + s], flags, width, 'r')


def show_value(eng, st, ctx, how, p, t, sp, flags, width):
    """Write the value of type t behind p -> [(state, result)] or None."""
    F = eng.F
    for _ in range(4):
        tt = F.types[t]
        if tt['k'] == 'ref' and not (F.types[tt['t']]['k'] in ('slice',)):
            if F.types[tt['t']]['k'] == 'str':
                if isV(p, 'ptr'):
                    p = eng.deref(st, p)
                t = tt['t']
                break
            p = eng.deref(st, p)
            t = tt['t']
            continue
        if tt['k'] == 'adt' and tt['ldef'] in ('std::boxed::Box', 'std::rc::Rc', 'std::cell::Ref', 'std::cell::RefMut', 'std::sync::Arc'):
            return None
        break
    tt = F.types[t]
    ok_ = mk('agg', 0, (UNIT,))
    if tt['k'] == 'str' or tt['k'] == 'adt' and tt['ldef'] == 'std::string::String':
        es = chars(eng, st, p if isV(p, 'sl') else eng.deref(st, p))
        if es is None or how != 'display':
            return None
        if any(isnum(x) for x in es) and flags & HASW and width > len(es):
            return None
        es = padded(es, flags, width)
        if es is None:
            return None
        st = st.copy()
        append(eng, st, sp, es)
        return [(st, ok_)]
    if tt['k'] == 'char' and how == 'display':
        es = padded([eng.deref(st, p)], flags, width)
        if es is None:
            return None
        st = st.copy()
        append(eng, st, sp, es)
        return [(st, ok_)]
    if tt['k'] in ('int', 'uint'):
        v = eng.deref(st, p)
        es = number(v, how, flags, width)
        if es is None:
            if isinstance(v, int) or isV(v, 'op'):
                return None
            es = [num(eng, 'display' if how == 'debug' else how, v, flags, width)]
        st = st.copy()
        append(eng, st, sp, es)
        return [(st, ok_)]
    if tt['k'] == 'adt':
        tr = {'display': 'std::fmt::Display', 'debug': 'std::fmt::Debug'}.get(how)
        for x in F.insts:
            if 'body' in x and x['local'] and x['lname'] == '<%s as %s>::fmt' % (tt['s'] if 's' in tt else tt['ldef'], tr) or \
                    'body' in x and x['local'] and x.get('m') == 'fmt' and F.strip(x.get('trait') or '') == tr and x.get('self_def') == tt['def']:
                st = st.copy()
                f = formatter(eng, st, ('fm', ctx.fr, ctx.bb, len(st.mem)), sp, flags, width)
                return eng.call_inst(st, x, [p, f], ctx)
    return None


def write_args(eng, st, ctx, sp, args):
    """[(state, result)] of writing format arguments, or None."""
    if not (isV(args, 'op') and isinstance(args.a[0], tuple) and args.a[0][:1] == ('fargs',)):
        return None
    _, tmpl, vals = args.a[0]
    ok_ = mk('agg', 0, (UNIT,))
    if tmpl is None:
        st = st.copy()
        append(eng, st, sp, vals)
        return [(st, ok_)]
    i, n = 0, 0
    cur, done = [st], []
    while tmpl[i] != 0:
        b = tmpl[i]
        i += 1
        if b < 0x80 or b == 0x80:
            if b == 0x80:
                b = tmpl[i] | tmpl[i + 1] << 8
                i += 2
            try:
                es = [ord(c) for c in bytes(tmpl[i:i + b]).decode()]
            except ValueError:
                return None
            i += b
            nx = []
            for s in cur:
                s = s.copy()
                append(eng, s, sp, es)
                nx.append(s)
            cur = nx
            continue
        flags, width = PLAIN, 0
        if b & 1:
            flags = int.from_bytes(bytes(tmpl[i:i + 4]), 'little')
            i += 4
        if b & 2:
            width = tmpl[i] | tmpl[i + 1] << 8
            i += 2
        if b & 4:
            i += 2
        if b & 8:
            n = tmpl[i] | tmpl[i + 1] << 8
            i += 2
        if b & 0x34:
            return None
        a = vals[n]
        n += 1
        if not (isV(a, 'op') and isinstance(a.a[0], tuple) and a.a[0][:1] == ('farg',)):
            return None
        nx = []
        for s in cur:
            rs = show_value(eng, s, ctx, a.a[0][1], a.a[0][2], a.a[0][3], sp, flags, width)
            if rs is None:
                return None
            for s2, v in rs:
                if eng.variant(s2, v) == 0:
                    nx.append(s2)
                else:
                    done.append((s2, v))
        cur = nx
    return done + [(s, ok_) for s in cur]


def handler(eng, st, ctx, a, path):
    """Formatting functions of the standard library; None: not modelled."""
    m = path.rsplit('::', 1)[-1]
    ok_ = mk('agg', 0, (UNIT,))
    F = eng.F
    if m.startswith('new_') and 'Argument' in path and a:
        t = F.types[ctx.at[0]]
        return [(st, eng.mkop(ctx.dt, ('farg', m[4:], a[0], t['t'])))] if t['k'] == 'ref' else None
    if m == 'new' and 'Arguments' in path and len(a) == 2:
        tm = a[0] if isV(a[0], 'sl') else eng.deref(st, a[0])
        tm = eng.explode(tm if isV(tm, 'seq') else eng.seq_of(st, tm))
        vs = eng.deref(st, a[1]) if isV(a[1], 'ptr') else eng.seq_of(st, a[1])
        vs = eng.explode(vs) if isV(vs, 'seq') else None
        if tm is None or vs is None or not all(isinstance(x, int) for x in tm):
            return None
        return [(st, eng.mkop(ctx.dt, ('fargs', tuple(tm), tuple(vs))))]
    if m in ('from_str', 'new_const', 'from_str_nonconst') and 'Arguments' in path:
        es = chars(eng, st, a[0])
        return None if es is None else [(st, eng.mkop(ctx.dt, ('fargs', None, tuple(es))))]
    if m == 'format' and len(a) == 1:
        st = st.copy()
        sp = buffer(eng, st, ('fb', ctx.fr, ctx.bb, len(st.mem)))
        rs = write_args(eng, st, ctx, sp, a[0])
        return None if rs is None else [(s, eng.deref(s, sp)) for s, v in rs]
    if m == 'alternate':
        k = sink(eng, st, a[0])
        return None if k is None else [(st, int(bool(k[1] & ALT)))]
    if m in ('write_str', 'write_char', 'write_fmt', 'pad') and len(a) == 2:
        k = sink(eng, st, a[0])
        if k is None:
            return None
        if m == 'write_fmt':
            return write_args(eng, st, ctx, k[0], a[1])
        es = [a[1]] if m == 'write_char' else chars(eng, st, a[1])
        if es is not None and m == 'pad':
            es = padded(es, k[1], k[2])
        if es is None:
            return None
        st = st.copy()
        append(eng, st, k[0], es)
        return [(st, ok_)]
    if m == 'fmt' and len(a) == 2:
        # a formatting implementation of the standard library
        k = sink(eng, st, a[1])
        t = F.types[ctx.at[0]] if ctx.at else None
        how = {'Display': 'display', 'Debug': 'debug', 'LowerHex': 'lower_hex', 'UpperHex': 'upper_hex'}.get(path.rsplit('::', 2)[-2].split('<')[0].rstrip('>'))
        if k is None or t is None or t['k'] != 'ref' or how is None:
            return None
        return show_value(eng, st, ctx, how, a[0], t['t'], *k)
    return None


def to_string(eng, st, ctx, p, t):
    st = st.copy()
    sp = buffer(eng, st, ('ts', ctx.fr, ctx.bb, len(st.mem)))
    rs = show_value(eng, st, ctx, 'display', p, t, sp, PLAIN, 0)
    return None if rs is None else [(s, eng.deref(s, sp)) for s, v in rs]
