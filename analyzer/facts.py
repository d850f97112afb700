"""Load the compiler-exported facts (monomorphic MIR, types, statics) of one crate."""
import json
import re


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.insts = d['insts']
        for i, x in enumerate(self.insts):
            x['id'] = i
            x['lpath'] = strip_crate(x['path'])
            x['lname'] = strip_crate(x['name'])
        self.roots = d['roots']
        self.statics = {}
        for s in d['statics']:
            self.statics[strip_crate(s['path'])] = s
        self.vt = {}
        self.dyn_impls = {}
        for v in d['vtables']:
            tr = strip_crate(v['trait'])
            for m, i in v['m'].items():
                self.vt[(v['t'], tr, m)] = i
            self.dyn_impls.setdefault(tr, set()).add(v['t'])
        self.traits = {}
        for tr, t, m, i in d['traits']:
            self.traits[(strip_crate(tr), t, m)] = i
        self.drops = {t: i for t, i in d['drops']}
        self.by_path = {}
        self.by_name = {}
        for x in self.insts:
            self.by_path.setdefault(x['lpath'], []).append(x)
            self.by_name.setdefault(x['lname'], []).append(x)
        self.by_tystr = {}
        for i, t in enumerate(self.types):
            t['id'] = i
            if 'def' in t:
                t['ldef'] = strip_crate(t['def'])
            if 'trait' in t:
                t['ltrait'] = strip_crate(t['trait'])
            self.by_tystr.setdefault(strip_crate(t['s']), i)
        self._cfg = {}

    @staticmethod
    def strip(p):
        return strip_crate(p)

    def static_key(self, p):
        return strip_crate(p)

    def ty(self, i):
        return self.types[i]

    def find_ty(self, s):
        return self.by_tystr.get(s)

    def find(self, path, **kw):
        """All instances with this def path (crate prefix stripped) that have a body."""
        return [x for x in self.by_path.get(path, []) if 'body' in x]

    def one(self, path, name=None):
        c = self.find(path)
        if name is not None:
            c = [x for x in c if name in x['lname']]
        if not c:
            return None
        return c[0]

    def static(self, p):
        return self.statics.get(p)

    # -------------------------------------------------------- CFG helpers
    def cfg(self, inst):
        c = self._cfg.get(inst['id'])
        if c is None:
            c = Cfg(inst)
            self._cfg[inst['id']] = c
        return c


def strip_crate(p):
    return re.sub(r'\bcbm::', '', p)


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        return [b for _, b in t['v']] + [t['else']]
    if k in ('drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


class Cfg:
    def __init__(self, inst):
        body = inst['body']
        bl = body['blocks']
        n = len(bl)
        self.succ = [succs(b['t']) for b in bl]
        # RPO and back edges from an iterative DFS
        order, state = [], [0] * n
        self.heads = set()
        self.back = set()
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif state[s] == 1:
                    self.heads.add(s)
                    self.back.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # natural loop bodies
        self.loops = {}
        for (b, h) in self.back:
            body_ = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body_:
                    continue
                body_.add(x)
                work.extend(self.pred[x])
        # the controlling exit of a loop: its first switch (from the head) with a way out
        self.ctl = {}
        for h, body_ in self.loops.items():
            for b in sorted(body_, key=self.rpo.__getitem__):
                if bl[b]['t']['k'] == 'switch' and any(x not in body_ and bl[x]['t']['k'] != 'unreachable' for x in self.succ[b]):
                    self.ctl.setdefault(b, []).append(h)
                    break
        # schedule: topological order of the acyclic part in which a loop body comes
        # entirely before the loop's exits (so joins see all incoming states).
        self.prio = self._prio()
        self.live = self._liveness(inst)

    def _prio(self):
        depth = {b: 0 for b in self.order}
        for h, body in self.loops.items():
            for b in body:
                depth[b] += 1
        # weak topological order approximation: sort by (outer loop position, rpo)
        inner = {}
        for b in self.order:
            hs = [h for h, body in self.loops.items() if b in body]
            hs.sort(key=lambda h: (-len(self.loops[h]), self.rpo[h]))
            inner[b] = hs
        # DFS post order variant: visit loop-exiting successors first so that they end later
        seen, out = set(), []

        def visit(root):
            stack = [(root, None)]
            st = [(root, self._ordered(root, inner))]
            seen.add(root)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, self._ordered(s, inner)))
                        break
                else:
                    out.append(b)
                    st.pop()
        visit(self.order[0])
        out.reverse()
        return {b: i for i, b in enumerate(out)}

    def _ordered(self, b, inner):
        # successors leaving more loops are visited first => placed later in reverse post order
        ss = list(dict.fromkeys(self.succ[b]))
        hb = set(inner[b])

        def leaving(s):
            return len(hb - set(inner[s]))
        ss.sort(key=lambda s: -leaving(s))
        return iter(ss)

    def _liveness(self, inst):
        body = inst['body']
        bl = body['blocks']
        # locals whose address is taken stay live until StorageDead (treated as always live)
        taken = set()
        use = {}
        dfn = {}

        def place_uses(p, u):
            u.add(p['l'])
            for e in p['p']:
                if e[0] == 'i':
                    u.add(e[1])

        def op_uses(o, u):
            if o['k'] in ('copy', 'move'):
                place_uses(o['p'], u)
        for b in self.order:
            u, d = set(), set()

            def use_(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for s in bl[b]['s']:
                if s['k'] == '=':
                    r = s['r']
                    x = set()
                    for key in ('o', 'a', 'b'):
                        if key in r and isinstance(r[key], dict):
                            op_uses(r[key], x)
                    if 'f' in r:
                        for o in r['f']:
                            op_uses(o, x)
                    if 'p' in r:
                        place_uses(r['p'], x)
                        if r['k'] == 'ref' and not any(e[0] == '*' for e in r['p']['p']):
                            taken.add(r['p']['l'])
                    if s['p']['p']:
                        place_uses(s['p'], x)
                    use_(x)
                    if not s['p']['p']:
                        d.add(s['p']['l'])
                elif s['k'] == 'setd':
                    x = set()
                    place_uses(s['p'], x)
                    use_(x)
            t = bl[b]['t']
            x = set()
            if t['k'] == 'call':
                for o in t['a']:
                    op_uses(o, x)
                if 'ptr' in t['f']:
                    op_uses(t['f']['ptr'], x)
                if t['d']['p']:
                    place_uses(t['d'], x)
                use_(x)
                if not t['d']['p']:
                    d.add(t['d']['l'])
            elif t['k'] in ('switch', 'assert'):
                op_uses(t['o'], x)
                use_(x)
            elif t['k'] == 'drop':
                place_uses(t['p'], x)
                use_(x)
            elif t['k'] == 'return':
                use_({0})
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live_in[s]
                ni = use[b] | (o - dfn[b])
                if ni != live_in[b]:
                    live_in[b] = ni
                    ch = True
        self.taken = taken
        return live_in
