"""Hash-consed abstract values.

Integers, booleans and characters with a known value are plain Python ints.  Everything
else is a V: structurally equal values are the same object, so equality is identity.

  t    term            (op, width, args)         an opaque or derived scalar
  tab  finite table    (src, table)              a function of one <=8-bit source scalar
  bv   bit vector      (width, bits)             bit i is 0, 1 or (source, k, negated)
  agg  aggregate       (variant, fields)         struct / tuple / enum value
  op   opaque          (name, type id)           any value of a type; expanded lazily
  ptr  pointer         (object, path, dyn type)
  sl   slice pointer   (object, path, offset, length)
  seq  sequence        (base, length, content)   arrays, Vec, ...
  str, zst, it (library iterators), guard (RefCell guards), ioerr, set, map
"""


class V:
    __slots__ = ('k', 'a', 'uid')

    def __repr__(self):
        return show(self)


_tab = {}
_uid = [0]


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        _uid[0] += 1
        v.uid = _uid[0]
        _tab[key] = v
    return v


def isV(x, k=None):
    return isinstance(x, V) and (k is None or x.k == k)


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ','.join(show(x, d + 1) for x in v) + ')'
        return repr(v)
    if d > 7:
        return '..'
    if v.k == 't':
        op, w, args = v.a
        if op == 'lin':
            c, ts = args
            return '(' + ' + '.join([str(c)] * (c != 0 or not ts) + [('' if k == 1 else '%d*' % k) + show(x, d + 1) for x, k in ts]) + ')'
        return '%s(%s)' % (op, ', '.join(show(x, d + 1) for x in args))
    if v.k == 'agg':
        return '{%s|%s}' % (v.a[0], ', '.join(show(x, d + 1) for x in v.a[1]))
    if v.k == 'op':
        return '?' + show(v.a[0], d + 1)
    if v.k == 'tab':
        t = v.a[1]
        return 'tab[%s:%s..]' % (show(v.a[0], d + 1), ','.join(str(x) for x in t[:4]))
    if v.k == 'seq':
        return 'seq[%s]' % ' ++ '.join(show(x, d + 1) for x in v.a[1][:8])
    return '%s<%s>' % (v.k, ','.join(show(x, d + 1) for x in v.a))


# ------------------------------------------------------------------ constructors

ZST = mk('zst')
UNIT = mk('agg', 0, ())


def term(op, w, *args):
    return mk('t', op, w, args)


def agg(variant, *fields):
    return mk('agg', variant, tuple(fields))


def width(v):
    if isV(v, 't'):
        return v.a[1]
    if isV(v, 'bv'):
        return v.a[0]
    if isV(v, 'tab'):
        return None
    return None


# ------------------------------------------------------------------ tables

def as_tab(v):
    """(source, table) if v is a function of one small source scalar, else None."""
    if isV(v, 'tab'):
        return v.a
    if isV(v, 't') and v.a[1] is not None and 0 < v.a[1] <= 8 and v.a[0] not in ('lin', 'ite'):
        return (v, _ident(1 << v.a[1]))
    return None


_ids = {}


def _ident(n):
    t = _ids.get(n)
    if t is None:
        t = tuple(range(n))
        _ids[n] = t
    return t


def mk_tab(src, table):
    table = tuple(table)
    if table == _ident(len(table)):
        return src
    first = table[0]
    if all(x == first for x in table) and first is not None:
        return first
    return mk('tab', src, table)


# ------------------------------------------------------------------ bit vectors

def as_bits(v, w):
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    if isV(v, 'bv'):
        b = v.a[1]
        return (b + (0,) * (w - len(b)))[:w]
    if isV(v, 'tab'):
        src, table = v.a
        n = len(table)
        nb = n.bit_length() - 1
        out = []
        for i in range(w):
            col = [None if x is None else (x >> i) & 1 for x in table]
            if all(c in (0, None) for c in col):
                out.append(0)
            elif all(c in (1, None) for c in col):
                out.append(1)
            else:
                for k in range(nb):
                    if all(c is None or c == (x >> k) & 1 for x, c in enumerate(col)):
                        out.append((src, k, 0))
                        break
                    if all(c is None or c == 1 - ((x >> k) & 1) for x, c in enumerate(col)):
                        out.append((src, k, 1))
                        break
                else:
                    return None
        return tuple(out)
    if isV(v, 't'):
        op, vw, args = v.a
        if op == 'bit' and vw == 1:
            t, k = args
            if isinstance(k, int):
                return ((t, k, 0),) + (0,) * (w - 1)
        if op == 'not' and vw == 1:
            b = as_bits(args[0], 1)
            if b and isinstance(b[0], tuple):
                return ((b[0][0], b[0][1], 1 - b[0][2]),) + (0,) * (w - 1)
        if op == 'lin':
            return _lin_bits(v, w)
        if vw is None or vw == 0:
            return None
        return tuple((v, i, 0) if i < vw else 0 for i in range(w))
    return None


def bits_value(bits, w):
    """Canonical value of a bit tuple."""
    bits = tuple(bits)[:w]
    if all(isinstance(b, int) for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    srcs = {b[0] for b in bits if isinstance(b, tuple)}
    if len(srcs) == 1:
        s = next(iter(srcs))
        sw = width(s) or 0
        if sw and sw <= 8:
            tab = []
            for x in range(1 << sw):
                r = 0
                for i, b in enumerate(bits):
                    if isinstance(b, int):
                        r |= b << i
                    else:
                        r |= (((x >> b[1]) & 1) ^ b[2]) << i
                tab.append(r)
            return mk_tab(s, tab)
        if sw and all((b == (s, i, 0)) if i < sw else b == 0 for i, b in enumerate(bits)):
            return s
        if isinstance(bits[0], tuple) and all(b == 0 for b in bits[1:]):
            t = term('bit', 1, bits[0][0], bits[0][1])
            return term('not', 1, t) if bits[0][2] else t
    return mk('bv', w, bits)


def _lin_bits(v, w):
    c, ts = v.a[2]
    if c < 0:
        return None
    out = [None] * max(w, 64)
    for x, k in ts:
        if k <= 0 or k & (k - 1):
            return None
        sh = k.bit_length() - 1
        xw = max([1] + [y.bit_length() for y in x.a[1] if y is not None]) if isV(x, 'tab') else width(x) or 8
        xb = as_bits(x, xw) if not (isV(x, 't') and x.a[0] == 'lin') else None
        if xb is None:
            return None
        for i, b in enumerate(xb):
            if b == 0:
                continue
            if sh + i >= len(out) or out[sh + i] is not None:
                return None
            out[sh + i] = b
    i = 0
    while c:
        if c & 1:
            if i >= len(out) or out[i] is not None:
                return None
            out[i] = 1
        c >>= 1
        i += 1
    return tuple(0 if b is None else b for b in out)[:w]


def _bv_lin(v):
    """A bit vector made of whole sources as a linear form, else None."""
    w, bits = v.a
    c, d = 0, {}
    i = 0
    n = len(bits)
    while i < n:
        b = bits[i]
        if isinstance(b, int):
            c += b << i
            i += 1
            continue
        src, k, neg = b
        sw = width(src)
        if k != 0 or neg or not sw or i + sw > n:
            return None
        for j in range(sw):
            if bits[i + j] != (src, j, 0):
                return None
        if src in d:
            return None
        d[src] = 1 << i
        i += sw
    return c, d


# ------------------------------------------------------------------ linear forms

def as_lin(v):
    if isinstance(v, int):
        return v, {}
    if isV(v, 't') and v.a[0] == 'lin':
        return v.a[2][0], dict(v.a[2][1])
    if isV(v, 'bv'):
        r = _bv_lin(v)
        if r is not None:
            return r
    return 0, {v: 1}


def mk_lin(c, d, w=64):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    # a linear function of a single small source is a table
    if len(d) >= 1:
        tabs = [as_tab(k) for k in d]
        if all(t is not None for t in tabs) and len({t[0] for t in tabs}) == 1:
            n = len(tabs[0][1])
            out = []
            for i in range(n):
                s = c
                for (k, x), t in zip(d.items(), tabs):
                    if t[1][i] is None:
                        s = None
                        break
                    s += x * t[1][i]
                out.append(s)
            return mk_tab(tabs[0][0], out)
    ts = tuple(sorted(d.items(), key=lambda kv: kv[0].uid))
    return mk('t', 'lin', w, (c, ts))


def lin_add(a, b, sign=1, w=64):
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + sign * x
    return mk_lin(ca + sign * cb, d, w)


def lin_scale(a, k, w=64):
    c, d = as_lin(a)
    return mk_lin(c * k, {x: y * k for x, y in d.items()}, w)


def mentions(v, pred, seen=None):
    """Does v contain a sub-value satisfying pred?"""
    if seen is None:
        seen = set()
    if isinstance(v, tuple):
        return any(mentions(x, pred, seen) for x in v)
    if not isinstance(v, V):
        return False
    if v.uid in seen:
        return False
    seen.add(v.uid)
    if pred(v):
        return True
    return any(mentions(x, pred, seen) for x in v.a)


def _soft(v):
    if v.k == 'undef':
        return True
    if v.k == 't':
        return v.a[0] in ('phi', 'undef') or v.a[0] == 'sym' and _softname(v.a[2])
    if v.k == 'op':
        return _softname(v.a[0])
    if v.k == 'seq':
        return _softname(v.a[0])
    return False


def _softname(n):
    if isinstance(n, tuple):
        if n and n[0] in ('phiop', 'phiseq', 'fresh', 'cast', 'float', 'io', 'strfn', 'constv', 'const', 'sorted', 'dedup'):
            return True
        return any(_softname(x) for x in n)
    return False


def imprecise(*vs):
    """Does a value come from a join, a widened loop or an uninterpreted operation?"""
    return any(mentions(v, _soft) for v in vs)


# ------------------------------------------------------------------ substitution

_rebuild = {}      # op -> function(args) used to renormalise boolean terms (set by state.py)


def subst(v, m, memo=None):
    """Replace scalars in v according to the map m (V -> value), renormalising."""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(subst(x, m, memo) for x in v)
    if not isinstance(v, V):
        return v
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    if v.k == 't':
        op, w, args = v.a
        if op == 'lin':
            r = args[0]
            ch = False
            parts = []
            for x, k in args[1]:
                y = subst(x, m, memo)
                ch = ch or (y is not x)
                parts.append((y, k))
            if not ch:
                r = v
            else:
                for y, k in parts:
                    r = lin_add(r, lin_scale(y, k) if isV(y) or isinstance(y, int) else y)
        else:
            na = subst(args, m, memo)
            if na == args:
                r = v
            elif op in _rebuild:
                r = _rebuild[op](w, na)
            else:
                r = term(op, w, *na)
    elif v.k == 'tab':
        s = subst(v.a[0], m, memo)
        if s is v.a[0]:
            r = v
        elif isinstance(s, int):
            r = v.a[1][s] if 0 <= s < len(v.a[1]) else term('bad', 64, s)
            if r is None:
                r = term('bad', 64, v, s)
        else:
            t = as_tab(s)
            if t is not None:
                r = mk_tab(t[0], [v.a[1][x] if x is not None and 0 <= x < len(v.a[1]) else None for x in t[1]])
            else:
                r = term('tabof', 64, s, v.a[1])
    elif v.k == 'bv':
        nb = []
        ok = True
        for b in v.a[1]:
            if isinstance(b, tuple):
                s = subst(b[0], m, memo)
                if s is b[0]:
                    nb.append(b)
                    continue
                sb = as_bits(s, b[1] + 1)
                if sb is None:
                    ok = False
                    break
                x = sb[b[1]]
                if b[2]:
                    x = 1 - x if isinstance(x, int) else (x[0], x[1], 1 - x[2])
                nb.append(x)
            else:
                nb.append(b)
        r = bits_value(nb, v.a[0]) if ok else term('bvof', v.a[0], v, tuple(m.items()))
    else:
        na = subst(v.a, m, memo)
        r = v if na == v.a else mk(v.k, *na)
    memo[v] = r
    return r
