"""Interprocedural automaton analysis: propagates automaton states along every path of the CFG, through
calls (virtual dispatch, lambdas, std::invoke), exceptional edges and scope-exit destructors."""
from collections import defaultdict

NOTHROW_LIB = ('std::move', 'std::forward', 'std::swap', 'std::exchange', 'std::min', 'std::max', 'std::addressof', 'std::get', 'std::begin', 'std::end', 'std::size')
ONCE = ('std::invoke', 'std::__invoke', 'std::apply', 'std::invoke_r')


class Automaton:
    """Subclass and override event().

    event(f, elem, node, state) -> None (not an event) or iterable of successor states, or ('descend', states).
    elem is the element (int expression id, or dict for implicit elements).
    """
    exceptions = True
    descend_virtual = True
    max_depth = 60

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.stack = []
        self.errors = {}
        self.visited = set()
        self.visited_calls = 0

    # ---- hooks
    def event(self, f, elem, node, state): return None
    def enter(self, f, elem, node, g, state): return True      # descend into g?
    def at_call(self, f, elem, node, g, state): return state   # state translation on entry
    def at_return(self, f, elem, node, g, before, state): return state
    def branch(self, f, block, succ_ix, state): return state   # None: infeasible
    def may_throw(self, f, node):
        if node.get('ne'): return False
        qn = node.get('qn', '')
        if qn in NOTHROW_LIB: return False
        return True

    def error(self, f, eid, msg, state=None, trace=None):
        k = (f.key, eid if isinstance(eid, int) else str(eid), msg)
        if k not in self.errors:
            self.errors[k] = dict(loc=f.loc(eid if isinstance(eid, (int, dict)) else None), func=f.key, msg=msg, chain=[x[1] for x in self.stack])

    # ---- live locals with destructors
    def live(self, f):
        if f._live is None:
            ins = {}
            order = f.order()
            preds = f.preds()
            out = defaultdict(frozenset)
            ins = defaultdict(frozenset)
            changed = True
            def trans(b, s):
                s = list(s)
                for e in f.blocks[b]['e']:
                    if isinstance(e, int):
                        n = f.E[e]
                        if n['k'] == 'decl':
                            for v in n['vars']:
                                if f.V[v['v']]['st'] == 'local' and f.vtype(v['v']).get('ntdtor') and not f.vtype(v['v']).get('ref') and v['v'] not in s: s.append(v['v'])
                    elif e['k'] == 'adtor':
                        if e['v'] in s: s.remove(e['v'])
                return tuple(s)
            ins = {b: () for b in f.blocks}
            outs = {b: None for b in f.blocks}
            it = 0
            while changed and it < 50:
                changed = False; it += 1
                for b in order:
                    s = []
                    for p in preds[b]:
                        if outs[p]:
                            for v in outs[p]:
                                if v not in s: s.append(v)
                    o = trans(b, s)
                    if tuple(s) != ins[b] or o != outs[b]:
                        ins[b] = tuple(s); outs[b] = o; changed = True
            f._live = ins
        return f._live

    # ---- summaries
    def run(self, f, state):
        """-> set of ('n'|'x', state)"""
        k = (f.key, state)
        if k in self.memo: return self.memo[k]
        if len(self.stack) > self.max_depth or any(x[0] == k for x in self.stack):
            return {('n', state)}
        self.stack.append((k, f.key))
        self.visited.add(f.key)
        res = self._run(f, state)
        self.stack.pop()
        self.memo[k] = res
        return res

    def _dtor_fns(self, f, var):
        return None

    def _run(self, f, init):
        if not f.blocks: return {('n', init)}
        res = set()
        IN = defaultdict(set)
        work = [(f.entry, init)]
        IN[f.entry].add(init)
        live = self.live(f) if self.exceptions else None
        while work:
            b, s = work.pop()
            blk = f.blocks[b]
            if b == f.exit:
                res.add(('n', s)); continue
            cur = {s}
            lv = list(live[b]) if live else []
            for e in blk['e']:
                nxt = set()
                for st in cur:
                    for kind, s2 in self.elem(f, e, st):
                        if kind == 'n': nxt.add(s2)
                        else: self._throw(f, e, s2, lv, work, IN, res)
                cur = nxt
                if isinstance(e, int):
                    n = f.E[e]
                    if n['k'] == 'decl':
                        for v in n['vars']:
                            if f.V[v['v']]['st'] == 'local' and f.vtype(v['v']).get('ntdtor') and not f.vtype(v['v']).get('ref') and v['v'] not in lv: lv.append(v['v'])
                elif e['k'] == 'adtor' and e['v'] in lv: lv.remove(e['v'])
                if not cur: break
            if blk.get('nr'):
                # abort / noreturn: no successor state; throw handled at the element
                if not any(isinstance(e, int) and f.E[e]['k'] == 'throw' for e in blk['e']): continue
                continue
            for ix, sc in enumerate(blk['s']):
                if sc < 0: continue
                for st in cur:
                    st2 = self.branch(f, blk, ix, st)
                    if st2 is None: continue
                    if st2 not in IN[sc]:
                        IN[sc].add(st2); work.append((sc, st2))
        if f.get('ne'): res = {r for r in res if r[0] == 'n'}
        return res

    def _throw(self, f, e, state, lv, work, IN, res):
        tr = f.tries().get(e, []) if isinstance(e, int) else []
        states = {state}
        if tr:
            t = f.d['tries'][tr[0]]
            body = set(t['body'])
            inner = [v for v in lv if any(i in body for i in [f.decl_init().get(v, (None, -1))[1]])]
            for v in reversed(inner): states = self._unwind(f, v, states)
            catch_all = False
            for h in t['h']:
                if h['t'] == '...': catch_all = True
                for s in states:
                    if s not in IN[h['b']]:
                        IN[h['b']].add(s); work.append((h['b'], s))
            if catch_all: return
            lv = [v for v in lv if v not in inner]
        for v in reversed(lv): states = self._unwind(f, v, states)
        for s in states: res.add(('x', s))

    def _unwind(self, f, v, states):
        out = set()
        t = f.vtype(v)
        el = {'k': 'adtor', 'v': v, 'l': f.el, 'unwind': True}
        rec = t.get('rec')
        if rec:
            for g in self.P.by_cls.get(rec, []):
                if g.get('dtor'): el['fn'] = g.key
        for s in states:
            for kind, s2 in self.elem(f, el, s):
                out.add(s2)
        return out

    def elem(self, f, e, s):
        """-> list of (kind, state)"""
        if isinstance(e, dict):
            r = self.event(f, e, e, s)
            if r is not None:
                if isinstance(r, tuple) and r and r[0] == 'descend': states = r[1]
                else: return [('n', x) for x in r]
            else: states = [s]
            out = []
            if e.get('fn') in self.P.funcs:
                g = self.P.funcs[e['fn']]
                for st in states:
                    if self.enter(f, e, e, g, st):
                        s1 = self.at_call(f, e, e, g, st)
                        for k, x in self.run(g, s1):
                            out.append((k, self.at_return(f, e, e, g, st, x)))
                    else: out.append(('n', st))
                return out
            return [('n', x) for x in states]
        n = f.E[e]
        if n['k'] == 'defarg' and n.get('e', -1) >= 0:
            # default arguments are evaluated at the call
            states = [('n', s)]
            for sub in sorted(f.subtree(n['e'])):
                nx = []
                for k, st in states:
                    if k == 'x': nx.append((k, st)); continue
                    nx += self.elem(f, sub, st) if f.E[sub]['k'] in ('call', 'ctor') else [('n', st)]
                states = nx
            return states
        r = self.event(f, e, n, s)
        pre = []
        if r is not None:
            if isinstance(r, tuple) and r and r[0] == 'descend': states = list(r[1])
            elif isinstance(r, tuple) and r and r[0] == 'result': return list(r[1])
            else:
                out = [('n', x) for x in r]
                if n['k'] == 'throw': return [('x', s)]
                if self.exceptions and n['k'] in ('call', 'ctor', 'new') and self.may_throw(f, n): out.append(('x', s))
                return out
        else: states = [s]
        if n['k'] == 'throw': return [('x', x) for x in states]
        if n['k'] in ('call', 'ctor', 'new'):
            out = []
            for st in states: out += self.call(f, e, n, st)
            return out
        return [('n', x) for x in states]

    def invoke_targets(self, f, n):
        """functions run by std::invoke(callable, ...) and by library algorithms given callables"""
        out = []
        for a in n.get('args', []):
            for g in self.P.lambda_of(f, a): out.append(g)
        if n.get('qn') in ONCE and n.get('args'):
            a0 = f.E[n['args'][0]]
            t = f.type(a0)
            rec = t.get('rec')
            if rec and not out:
                for c in [rec] + self.P.all_bases(rec):
                    ms = [g for g in self.P.by_cls.get(c, []) if g.name == 'operator()']
                    if ms: out += ms; break
            if a0['k'] == 'un' and a0['op'] == '&': a0 = f.E[a0['a']]
            if a0['k'] in ('fnref', 'mref') and a0.get('fn') in self.P.funcs: out.append(self.P.funcs[a0['fn']])
        return out

    def call(self, f, e, n, s):
        gs = self.P.callees(f, n)
        body = [g for g in gs if g.blocks]
        self.visited_calls += 1
        if body:
            out = []
            done = False
            for g in body:
                if not self.enter(f, e, n, g, s):
                    continue
                done = True
                s1 = self.at_call(f, e, n, g, s)
                for k, x in self.run(g, s1):
                    x = self.at_return(f, e, n, g, s, x)
                    if k == 'x' and not self.exceptions: continue
                    out.append((k, x))
            if done: return out
            out = [('n', s)]
            if self.exceptions and self.may_throw(f, n): out.append(('x', s))
            return out
        # library / unknown callee with callables
        tg = self.invoke_targets(f, n)
        out = []
        if tg:
            once = n.get('qn') in ONCE
            seen = {s} if not once else set()
            work = [s]
            res = set() if once else {s}
            visited = {s}
            while work:
                st = work.pop()
                for g in tg:
                    if not self.enter(f, e, n, g, st): 
                        res.add(st); continue
                    for k, x in self.run(g, self.at_call(f, e, n, g, st)):
                        x = self.at_return(f, e, n, g, st, x)
                        if k == 'x':
                            if self.exceptions: out.append(('x', x))
                        else:
                            res.add(x)
                            if not once and x not in visited: visited.add(x); work.append(x)
            out += [('n', x) for x in res]
            if self.exceptions and self.may_throw(f, n): out += [('x', x) for x in res | {s}]
            return out
        out = [('n', s)]
        if self.exceptions and self.may_throw(f, n): out.append(('x', s))
        return out
