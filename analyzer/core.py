"""Rule registry and the object a rule reports to."""
import time
import traceback

from .rt import *
from .state import Fork
from .witness import witness, witness_of

RULES = {}          # prop -> [(name, fn, param)]


def rule(prop, *params):
    def deco(fn):
        for p in (params or (None,)):
            RULES.setdefault(prop, []).append((fn.__name__ + ('' if p is None else ':' + str(p)), fn, p))
        return fn
    return deco


class Skip(Exception):
    """The rule cannot decide (missing anchor, precision); never an alarm."""


def same(st, a, b):
    """1 equal, 0 different on every concretisation, None otherwise."""
    if a is b or a == b:
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return 0
    if isV(a, 'agg') and isV(b, 'agg'):
        if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
            return 0
        rs = [same(st, x, y) for x, y in zip(a.a[1], b.a[1])]
        return 0 if 0 in rs else 1 if all(r == 1 for r in rs) else None
    if Engine.scalar(None, a) and Engine.scalar(None, b):
        ba, bb = as_bits(a, 64), as_bits(b, 64)
        if ba is not None and ba == bb:
            return 1
        return st.decide(mk_eq(a, b))
    return None


class R:
    """What one rule run found."""

    def __init__(self, F, name, tier):
        self.F, self.name, self.tier = F, name, tier
        self.obs = []            # (text, ok)
        self.bad = []            # (construct, message)
        self.und = []
        self.tried = 0
        self.engs = []
        self.budget = 240 if tier == 'quick' else 1200
        self.apart = False

    # ---- reporting
    def ok(self, text):
        self.obs.append(text)

    def fail(self, construct, message):
        self.bad.append((construct, message))

    def skip(self, why):
        if why not in self.und:
            self.und.append(why)

    def check(self, cond, text, construct, message=None, st=None, got=()):
        """cond: 1/True holds, 0/False violated, None undecided."""
        on, WATCH.on = WATCH.on, False
        try:
            self._check(cond, text, construct, message, st, got)
        finally:
            WATCH.on = on
            del WATCH.pend[:]
            del WATCH.diffs[:]

    def _check(self, cond, text, construct, message, st, got):
        if cond is None and st is not None and not st.taint and not imprecise(got) and \
                any(s is st and witness(st, (a, b)) == 'yes' for s, a, b in WATCH.diffs[:8]):
            cond = 0
            del WATCH.pend[:]
        if st is not None and st.taint and cond not in (1, True):
            self.skip('%s: depends on unmodelled %s' % (text, list(st.taint)[:3]))
        elif cond is None or cond not in (1, True) and imprecise(got):
            self.skip(text + ': not decided (%s)' % (message or '')[:160])
        elif cond:
            self.ok(text)
        elif st is not None and WATCH.pend and not self.open_question(st):
            self.skip('%s: not decided (%s)' % (text, (message or '')[:160]))
        elif st is not None and not self.possible(st):
            self.skip('%s: no concrete state found for the path (%s)' % (text, (message or '')[:160]))
        else:
            self.fail(construct, message or text)

    def open_question(self, st):
        """Is one of the questions the state left open really open, i.e. has it both answers?"""
        if len(self.bad) > 2:
            return True
        for s, c in WATCH.pend[:40]:
            if s is st:
                self.tried += 1
                if self.tried > 200:
                    return False
                if all(witness_of(s, c, v) for v in (0, 1)):
                    return True
        return not any(s is st for s, c in WATCH.pend)

    def possible(self, st, differ=None):
        """May the state describe a real execution (in which the two values differ)?"""
        if len(self.bad) > 2:
            return True          # already reported; further details need no confirmation
        self.tried += 1
        if self.tried > 200:
            return False
        return witness(st, differ) != 'no'

    def truth(self, st, c, val=1):
        """1 if the condition c has the value val whenever the state holds, 0 if it has the other value in some real execution, None otherwise."""
        d = st.decide(c)
        on, WATCH.on = WATCH.on, False
        try:
            del WATCH.pend[:]
            if d is None:
                self.tried += 1
                if st.taint or self.tried > 200 or not witness_of(st, c, 1 - val):
                    return None
                return 0
            return int(d == val)
        finally:
            WATCH.on = on

    def variant(self, eng, st, v, text, construct, message):
        """The variant of v in state st; a violation (and None) when it is left open although the state is that of a real execution."""
        try:
            return eng.variant(st, v)
        except Fork:
            self.check(0 if self.possible(st) else None, text, construct, message, st=st)
            return None

    def want(self, st, got, expected, text, construct, message=None):
        """got must equal expected on every concretisation of st."""
        e = same(st, got, expected)
        del WATCH.pend[:]
        if e is None and not imprecise(got) and self.possible(st, (got, expected)):
            e = 0
        self.check(e, text, construct, message or '%s: got %s, expected %s' % (text, show(got)[:160], show(expected)[:160]), st=st)

    # ---- engine access
    def engine(self, device=True):
        e = engine(self.F, device)
        e.deadline = min(time.monotonic() + self.budget, getattr(self, 'until', 1e18))
        e.apart = self.apart
        self.engs.append(e)
        return e

    def fn(self, *names):
        """The unique local function with this name suffix."""
        for n in names:
            c = [x for x in self.F.insts if 'body' in x and x['local'] and x['kind'] == 'item' and
                 (x['lname'] == n or x['lname'].endswith('::' + n) or x['lpath'] == n)]
            if len(c) == 1:
                return c[0]
            if len(c) > 1:
                c2 = [x for x in c if x['lname'] == n]
                if len(c2) == 1:
                    return c2[0]
                raise Skip('ambiguous anchor ' + n)
        raise Skip('anchor not found: ' + ' / '.join(names))

    def method(self, ty, m, trait=None):
        for x in self.F.insts:
            if 'body' in x and x['local'] and x['kind'] == 'item':
                if trait and x['lname'] == '<%s as %s>::%s' % (ty, trait, m):
                    return x
        raise Skip('anchor not found: <%s as %s>::%s' % (ty, trait, m))

    def ty(self, s):
        i = self.F.by_tystr.get(s)
        if i is None:
            raise Skip('type not found: ' + s)
        return i

    def run(self, eng, inst, args, st=None):
        on, WATCH.on = WATCH.on, False
        try:
            return eng.run(inst, list(args), st or State())
        finally:
            WATCH.on = on
            del WATCH.pend[:]

    def where(self, inst):
        return '%s (%s)' % (inst['lname'], loc_of(inst))

    def panics(self, eng, text, allow=lambda p: False):
        """No reachable panic among those recorded."""
        n = 0
        for k, p in eng.panics.items():
            if allow(p):
                continue
            if p['tainted']:
                self.skip('%s: possible panic in %s depends on unmodelled code' % (text, p['fn']))
            elif p['soft']:
                self.skip('%s: possible panic in %s (%s %s) not excluded' % (text, p['fn'], p['kind'], p['detail'][:120]))
            elif not any(self.possible(s) for s in p['states']):
                self.skip('%s: possible panic in %s (%s %s): no concrete state found' % (text, p['fn'], p['kind'], p['detail'][:120]))
            elif p['definite']:
                n += 1
                self.fail(p['fn'], '%s: %s %s is reachable (via %s)' % (text, p['kind'], p['detail'], ' > '.join(p['stack'][-4:])))
            else:
                n += 1
                self.fail(p['fn'], '%s: %s %s may fire (via %s)' % (text, p['kind'], p['detail'], ' > '.join(p['stack'][-4:])))
        if not n:
            self.ok(text)


def loc_of(inst):
    sp = inst.get('span')
    return str(sp).split(' ')[0] if sp else '?'


def attempt(F, prop, idx, tier, apart=False):
    name, fn, param = RULES[prop][idx]
    r = R(F, name, tier)
    if apart:
        r.apart, r.budget, r.until = True, 150, time.monotonic() + 150

    def go():
        try:
            WATCH.on = True
            del WATCH.pend[:]
            fn(r) if param is None else fn(r, param)
        except Skip as e:
            r.skip('SKIP ' + str(e))
        except Limit as e:
            r.skip('LIMIT ' + str(e))
        except Exception as e:
            r.skip('ERROR ' + repr(e) + ' ' + ' | '.join(traceback.format_exc().splitlines()[-7:]))
    in_thread(go)
    return r


def run_rule(F, prop, idx, tier, listed=()):
    name, fn, param = RULES[prop][idx]
    t0 = time.time()
    r = attempt(F, prop, idx, tier)
    again = None
    if any(not any(('%s | %s | %s' % (name, c, m)).startswith(k) for k in listed) for c, m in r.bad):
        # joining paths forgets what tells them apart: a violation that the analysis excludes when it keeps them apart is none
        q = attempt(F, prop, idx, tier, True)
        again = 'violated' if q.bad else 'undecided' if q.und else 'discharged'
        if not q.bad and not q.und and len(q.obs) >= 1:
            r = q
    fns = set()
    nb = 0
    unm = set()
    for e in r.engs:
        fns |= {F.insts[i]['lname'] for i in e.seen_fns if isinstance(i, int) and F.insts[i].get('local')}
        nb += e.nblocks
        unm |= set(e.unmodelled)
    return {'rule': name, 'doc': (fn.__doc__ or '').strip().split('\n')[0], 'obligations': r.obs, 'violations': r.bad,
            'undecided': r.und, 'functions': sorted(fns), 'blocks': nb, 'unmodelled': sorted(unm), 'seconds': round(time.time() - t0, 2),
            'kept_apart': again}
