"""Lifetimes of references. Every local reference, pointer, iterator, span or loop variable that points into the storage of a contiguous
container is a handle; a forward dataflow over the CFG invalidates it at every operation (direct, or inside of any function called, by
interprocedural summaries) that may reallocate, shift or replace that storage, and every later use is reported. Parameters that alias a
container restructured by the callee are analysed as handles of the callee. Moved-from objects are tracked the same way. Returned and
stored references must not point to local objects, and a class that stores iterators into one of its own members may not be copied memberwise."""
from collections import defaultdict
from effects import ELEM, ITER, ADDROF, MOVEISH
from killflow import KillFlow

RULE = 'no use of a handle after an operation that may invalidate it, no read of a moved-from object before it is assigned again, no reference to a local object leaves its function'
CONT = ('std::vector<', 'gapp::small_vector<', 'gapp::detail::Matrix<', 'gapp::detail::circular_buffer<', 'gapp::detail::dynamic_bitset', 'std::basic_string<', 'std::__cxx11::basic_string<')
APPEND = {'push_back', 'emplace_back', 'append_row', 'push_front', 'emplace_front', 'append', 'operator+=', 'append_range'}
REPLACE = {'insert', 'emplace', 'resize', 'reserve', 'assign', 'clear', 'shrink_to_fit', 'operator=', 'reset', 'set_capacity', 'assign_range', 'insert_range'}
ERASE = {'erase', 'erase_range'}
POP = {'pop_back', 'pop_front'}
ENDS = {'back', 'end', 'rbegin', 'crbegin', 'cend'}
SMART = ('std::unique_ptr<', 'std::optional<')


def container_type(ts): return KillFlow.clean(ts).startswith(CONT)


def handle_type(t):
    s = t.get('s', '')
    return bool(t.get('ref') == 1 or t.get('ptr') or 'iterator' in s.split('<')[0] or 'span<' in s[:16] or 'span<' in KillFlow.clean(s)[:12] or 'basic_string_view' in s or
                KillFlow.clean(s).startswith(('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator', 'gapp::detail::stable_iterator', 'gapp::detail::iterator')) or '::iterator' in s or 'Iterator' in s)


class Engine:
    def __init__(self, cx):
        self.cx = cx; self.P = cx.P; self.PT = cx.paths; self.KF = KillFlow(cx.P, cx.paths, cx.effects)
        self._ev = {}; self._stack = set(); self._elt = {}
        self.n_handles = self.n_uses = self.n_funcs = 0

    # ---- types of paths
    def root_type(self, f, r):
        P = self.P
        if r[0] == 'v': return f.vtype(r[1]).get('s', '')
        if r[0] == 'p': return f.vtype(f.params[r[1]]).get('s', '') if r[1] < len(f.params) else ''
        if r == ('this',): return f.cls or ''
        if r[0] == 'g':
            for v in f.V:
                if v and v.get('g') == r[1]: return P.T(v.get('t', -1)).get('s', '')
            return ''
        if r[0] in ('o', 'othis'):
            g = P.funcs.get(f.parent) if f.parent else None
            while g is not None:
                if r[0] == 'othis':
                    if not g.get('lambda'): return g.cls or ''
                else:
                    for i, v in enumerate(g.V):
                        if v and v['name'] == r[1] and v['l'] == r[2] and v['c'] == r[3] and v['st'] != 'outer': return g.vtype(i).get('s', '')
                g = P.funcs.get(g.parent) if g.parent else None
        return ''

    def type_at(self, f, p):
        ts = self.root_type(f, p[0])
        for x in p[1]:
            ts = KillFlow.clean(ts)
            if x in ('*', '[]'):
                if ts.endswith('*'): ts = ts[:-1]; continue
                a = KillFlow.first_targ(ts)
                if a is None: return ''
                ts = a; continue
            if x == '&' or x == '#n' or x.startswith('?') or x.startswith('#'): return ''
            for c, fd in self.P.fields(ts, True):
                if fd['name'] == x:
                    t = self.P.T(fd['t']); ts = t.get('rec') or t.get('s', ''); break
            else: return ''
        return KillFlow.clean(ts)

    def containers(self, f, ps):
        """the container objects whose storage the paths point into"""
        out = set()
        for r, s in ps:
            if r[0] == 't': continue
            for i, x in enumerate(s):
                if x == '[]' and container_type(self.type_at(f, (r, s[:i]))): out.add((r, s[:i]))
                if x == '*' and self.type_at(f, (r, s[:i])).startswith(SMART): out.add((r, s[:i]))
        return frozenset(out)

    # ---- structural events of one element: list of (kind, path, how, chain)
    def prim(self, f, n):
        P = self.P; PT = self.PT
        if n['k'] == 'call':
            qn = n.get('qn', ''); nm = qn.rsplit('::', 1)[-1]
            if 'obj' in n:
                ot = KillFlow.clean(f.type(n['obj']).get('s', ''))
                if n.get('arrow') and ot.endswith('*'): ot = KillFlow.clean(ot[:-1])
                if ot.startswith(CONT):
                    kind = 'append' if nm in APPEND else 'replace' if nm in REPLACE else 'erase' if nm in ERASE else 'pop' if nm in POP else None
                    return True, ([(kind, p, nm) for p in PT._objpath(f, n)] if kind else [])
                if ot.startswith(SMART):
                    return True, ([('replace', p, nm) for p in PT._objpath(f, n)] if nm in ('reset', 'operator=', 'emplace') else [])
            if qn in ('std::erase', 'std::erase_if') and n['args'] and container_type(f.type(n['args'][0]).get('s', '')):
                return True, [('erase', p, nm) for p in PT.path(f, n['args'][0])]
        elif n['k'] == 'assign' and n['op'] == '=':
            t = KillFlow.clean(f.type(n['a']).get('s', ''))
            if t.startswith(CONT + SMART): return True, [('replace', p, '=') for p in PT.path(f, n['a'])]
        if n['k'] == 'call' and (n.get('op') == '=' or n.get('qn', '').endswith('::operator=')) and 'obj' in n:
            # assignment of an object that owns containers
            t = KillFlow.clean(f.type(n['obj']).get('s', ''))
            if t in P.records and not t.startswith(CONT) and self.owns(t): return True, [('replace', p, 'assignment') for p in PT._objpath(f, n)]
        return False, []

    def owns(self, rec, depth=0):
        if depth > 3: return False
        for c, fd in self.P.fields(rec, True):
            ts = KillFlow.clean(self.P.T(fd['t']).get('s', ''))
            if self.P.T(fd['t']).get('ref') or ts.endswith('*'): continue
            if ts.startswith(CONT + SMART): return True
            if ts in self.P.records and self.owns(ts, depth + 1): return True
        return False

    def summary(self, f):
        """structural events of f in terms of its own roots: {(kind, path): (how, chain)}"""
        if f.key in self._ev: return self._ev[f.key]
        if f.key in self._stack: return {}
        self._stack.add(f.key)
        out = {}
        for b in f.order():
            for e in f.blocks[b]['e']:
                if not isinstance(e, int): continue
                for kind, p, how, ch in self.events(f, e):
                    if p[0][0] not in ('v', 't') and (kind, p) not in out: out[(kind, p)] = (how, (f.loc(e),) + ch)
        self._stack.discard(f.key)
        self._ev[f.key] = out
        return out

    def is_container(self, cls): return bool(cls) and cls.startswith(CONT)

    def events(self, f, e):
        k = (f.key, e)
        if k in self._elt: return self._elt[k]
        n = f.E[e]; out = []; PT = self.PT
        if n['k'] in ('call', 'ctor', 'assign'):
            done, evs = self.prim(f, n)
            out += [(kd, p, how, ()) for kd, p, how in evs]
            if not done and n['k'] != 'assign':
                m = PT.arg_binding(f, n)
                for g in self.P.callees(f, n):
                    if self.is_container(g.cls): continue
                    for (kd, p), (how, ch) in self.summary(g).items():
                        for q in PT.subst1(f, n, m, p[0], p[1]):
                            if q[0][0] != 't': out.append((kd, q, how, ch[:6]))
        elif n['k'] == 'lambda':
            ps = f.parents().get(e, [])
            x = e
            while ps and f.E[ps[0]]['k'] in ('wrap', 'cast', 'ctor'): x = ps[0]; ps = f.parents().get(x, [])
            if ps and f.E[ps[0]]['k'] == 'call':
                for o in n['ops']:
                    g = self.P.funcs.get(o)
                    if not g: continue
                    for (kd, p), (how, ch) in self.summary(g).items():
                        r = p[0]
                        if r[0] == 'o': r = PT.own(f, r)
                        elif r[0] == 'othis' and r[1] == f.key: r = ('this',) if not f.get('lambda') else ('othis', f.parent or '')
                        elif r[0] not in ('othis', 'g'): continue
                        out.append((kd, (r, p[1]), how, ch[:6]))
        if f.key not in self._stack or not self._stack - {f.key}: self._elt[k] = out
        return out

    # ---- handles
    def value_paths(self, f, vid, init):
        t = f.vtype(vid)
        s = KillFlow.clean(t.get('s', ''))
        if t.get('ref') and not (f.E[init] and not f.E[init].get('lv') and ('iterator' in s.lower() or s.startswith('std::span')) and f.E[init]['k'] in ('call', 'ctor', 'wrap', 'cast')): return self.PT.path(f, init)
        if s.startswith('std::span') or 'basic_string_view' in s: return self.view(f, init)
        return self.PT.pointee(f, init)

    def view(self, f, e, depth=0):
        """what a span made by the expression looks at"""
        n = f.E[e]
        if n is None or depth > 6: return set()
        if n['k'] in ('cast', 'wrap', 'definit') and n.get('e', -1) >= 0: return self.view(f, n['e'], depth + 1)
        t = KillFlow.clean(f.type(e).get('s', ''))
        if n['k'] in ('ctor', 'ilist') and n.get('args'):
            a = n['args'][0]; ts = KillFlow.clean(f.type(a).get('s', ''))
            if ts.startswith('std::span'): return self.view(f, a, depth + 1)
            if container_type(ts): return self.PT.ext(self.PT.path(f, a), '[]')
            return self.PT.pointee(f, a)
        if container_type(t): return self.PT.ext(self.PT.path(f, e), '[]')
        if n['k'] == 'var':
            i = f.decl_init().get(n['v'])
            if i and i[0] is not None and f.V[n['v']]['st'] == 'local': return self.view(f, i[0], depth + 1)
        if n['k'] == 'call' and 'obj' in n and n.get('qn', '').rsplit('::', 1)[-1] in ('subspan', 'first', 'last'): return self.view(f, n['obj'], depth + 1)
        return set()

    def uses_of(self, f, e):
        """variables read by the element itself (not by its sub-expressions)"""
        n = f.E[e]
        if n['k'] == 'var': return [n['v']]
        return []

    def lambda_vars(self, f, e):
        """local variables of f a lambda refers to"""
        n = f.E[e]; out = set()
        for o in n['ops']:
            g = self.P.funcs.get(o)
            if not g: continue
            names = {(v['name'], v['l'], v['c']) for v in g.V if v and v['st'] == 'outer'}
            for i, v in enumerate(f.V):
                if v and (v['name'], v.get('l'), v.get('c')) in names: out.add(i)
        for c in n.get('caps', []):
            if 'v' in c: out.add(c['v'])
        return out

    def analyse(self, f, seeds=None, depth=0):
        """-> list of (use eid, variable id, event) ; seeds: {vid: containers} for parameters that alias"""
        cx = self.cx; P = self.P; PT = self.PT
        self.n_funcs += 1
        inits = f.decl_init()
        infos = {}
        start = {}
        for vid, cs in (seeds or {}).items(): start[vid] = (cs, frozenset(), None)
        for vid, v in enumerate(f.V):
            if not v or v['st'] != 'param' or (seeds and vid in seeds): continue
            t = f.vtype(vid)
            if not handle_type(t): continue
            # a parameter can point into another parameter or into this only at a call site: handled there
        IN = {f.entry: {'h': start, 'res': frozenset(), 'mv': {}}}
        work = [f.entry]; found = {}; rounds = defaultdict(int)
        catches = [b['id'] for b in f.blocks.values() if 'catch' in b]
        while work:
            b = work.pop(0)
            rounds[b] += 1
            if rounds[b] > 40: continue
            st = IN[b]
            H = dict(st['h']); res = st['res']; MV = dict(st['mv'])
            for e in f.blocks[b]['e']:
                if not isinstance(e, int): continue
                n = f.E[e]
                k = n['k']
                # uses
                if k == 'var':
                    h = H.get(n['v'])
                    if h and h[2] is not None and not self.rebinding(f, e, n['v']) and (e, n['v']) not in found: found[(e, n['v'])] = h[2]
                    self.use_moved(f, e, MV, found)
                elif k in ('field',): self.use_moved(f, e, MV, found)
                elif k == 'lambda':
                    for v in self.lambda_vars(f, e):
                        h = H.get(v)
                        if h and h[2] is not None and (e, v) not in found: found[(e, v)] = h[2]
                # events
                for kind, p, how, ch in self.events(f, e):
                    if kind == 'append' and self.in_set(res, p): pass
                    for vid, (cs, rs, bad) in list(H.items()):
                        if bad is not None: continue
                        hit = [c for c in cs if self.hits(p, c)]
                        if not hit: continue
                        exact = p in cs
                        if exact and '[]' in p[1]: continue     # possibly another element's container
                        if kind == 'append' and exact and p in rs: continue
                        if kind == 'pop' and not (exact and self.at_end(f, vid)): continue
                        if kind == 'erase' and self.at_front(f, vid): continue
                        if not exact and kind in ('append', 'erase', 'pop'):
                            # an owner is restructured: its elements move, but the storage they own moves with them
                            if not self.owner_inval(p, cs): continue
                        H[vid] = (cs, rs, (f.loc(e), how, ch))
                    if how == 'reserve': res = res | {p}
                    if kind == 'replace' or how == '=':
                        for q in [q for q in MV if q == p]: MV.pop(q)
                # moves and assignments
                self.move_step(f, e, n, MV)
                # (re)binding
                if k == 'decl':
                    for d in n['vars']:
                        vid = d['v']; H.pop(vid, None)
                        for q in [q for q in MV if q[0] == ('v', vid)]: MV.pop(q)
                        if d.get('init') is None: continue
                        self.bind(f, vid, d['init'], H, res)
                        if f.E[d['init']] and self.strip_lambda(f, d['init']) is not None:
                            cs = set(); badh = None
                            for v in self.lambda_vars(f, self.strip_lambda(f, d['init'])):
                                if v in H: cs |= H[v][0]; badh = badh or H[v][2]
                            if cs: H[vid] = (frozenset(cs), frozenset(), badh)
                elif k == 'assign' and n['op'] == '=' and f.E[n['a']]['k'] == 'var' and not f.vtype(f.E[n['a']]['v']).get('ref'):
                    vid = f.E[n['a']]['v']; H.pop(vid, None); self.bind(f, vid, n['b'], H, res)
                elif k == 'call' and n.get('op') == '=' and 'obj' in n and f.E[n['obj']]['k'] == 'var' and n['args'] and handle_type(f.vtype(f.E[n['obj']]['v'])) and not f.vtype(f.E[n['obj']]['v']).get('ref'):
                    vid = f.E[n['obj']]['v']; H.pop(vid, None); self.bind(f, vid, n['args'][0], H, res)
                # aliasing arguments
                if k in ('call', 'ctor') and depth < 4: self.into_callee(f, e, n, H, found, depth)
            out = {'h': H, 'res': res, 'mv': MV}
            succ = [s for s in f.blocks[b]['s'] if s >= 0]
            for s in succ:
                new = self.join(IN.get(s), out)
                if new is not None: IN[s] = new; work.append(s)
        return found

    def in_set(self, res, p): return p in res

    @staticmethod
    def hits(p, c):
        """restructuring p invalidates handles into container c when p is c or one of its owners"""
        return c == p or (c[0] == p[0] and len(p[1]) <= len(c[1]) and c[1][:len(p[1])] == p[1])

    @staticmethod
    def owner_inval(p, cs):
        # handle into p's own elements is among the containers when an inner one is
        return p in cs

    def at_end(self, f, vid):
        i = f.decl_init().get(vid)
        if not i or i[0] is None: return False
        return any(f.E[x] and f.E[x]['k'] == 'call' and f.E[x].get('qn', '').rsplit('::', 1)[-1] in ENDS for x in f.subtree(i[0]))

    def at_front(self, f, vid):
        i = f.decl_init().get(vid)
        if not i or i[0] is None: return False
        names = {f.E[x].get('qn', '').rsplit('::', 1)[-1] for x in f.subtree(i[0]) if f.E[x] and f.E[x]['k'] == 'call'}
        return not f.V[vid]['name'].startswith('__') and bool(names & {'front', 'begin', 'cbegin'}) and not names & {'operator+', 'next'}

    def strip_lambda(self, f, e):
        n = f.E[e]
        while n and n['k'] in ('wrap', 'cast') and n.get('e', -1) >= 0: e = n['e']; n = f.E[e]
        return e if n and n['k'] == 'lambda' else None

    def bind(self, f, vid, init, H, res):
        t = f.vtype(vid)
        if not handle_type(t): return
        ps = self.value_paths(f, vid, init)
        cs = self.containers(f, ps)
        if not cs: return
        bad = None
        self.n_handles += 1
        H[vid] = (cs, frozenset(c for c in cs if c in res), bad)

    def rebinding(self, f, e, vid):
        if f.vtype(vid).get('ref'): return False
        for p in f.parents().get(e, []):
            pn = f.E[p]
            if pn['k'] == 'assign' and pn['a'] == e and pn['op'] == '=': return True
            if pn['k'] == 'call' and pn.get('op') == '=' and pn.get('obj') == e: return True
        return False

    def join(self, a, b):
        if a is None: return {'h': dict(b['h']), 'res': b['res'], 'mv': dict(b['mv'])}
        ch = False
        H = dict(a['h'])
        for v, (cs, rs, bad) in b['h'].items():
            if v not in H: H[v] = (cs, rs, bad); ch = True
            else:
                c0, r0, b0 = H[v]
                n = (c0 | cs, r0 & rs if c0 == cs else (r0 & rs), b0 if b0 is not None else bad)
                if (n[0], n[1], n[2] is None) != (c0, r0, b0 is None): H[v] = n; ch = True
        res = a['res'] & b['res']
        if res != a['res']: ch = True
        MV = dict(a['mv'])
        for q, x in b['mv'].items():
            if q not in MV: MV[q] = x; ch = True
        return {'h': H, 'res': res, 'mv': MV} if ch else None

    # ---- moved-from objects
    def movable(self, f, e):
        t = f.type(e)
        s = KillFlow.clean(t.get('s', ''))
        if s.startswith(CONT + ('std::unique_ptr<', 'std::shared_ptr<', 'std::function<', 'std::unordered_map<', 'std::deque<', 'std::optional<', 'gapp::detail::move_only_function')): return True
        return s in self.P.records and self.owns(s)

    def exact(self, f, e):
        ps = self.PT.path(f, e)
        if len(ps) != 1: return None
        p = next(iter(ps))
        if p[0][0] in ('t', 'o', 'othis', 'g') or '[]' in p[1] or any(x.startswith(('?', '#')) or x in ('*', '&') for x in p[1]): return None
        return p

    def move_step(self, f, e, n, MV):
        # a move call that is consumed by this element
        ops = []
        if n['k'] == 'ctor' and n.get('args'): ops = n['args']
        elif n['k'] == 'call': ops = [a for i, a in enumerate(n.get('args', [])) if n.get('qn') not in MOVEISH]
        cons = []
        for i, a in enumerate(ops):
            if a is None or a < 0: continue
            x = f.E[a]
            while x and x['k'] in ('wrap', 'cast') and x.get('e', -1) >= 0: a = x['e']; x = f.E[a]
            if not x or x['k'] != 'call' or x.get('qn') not in ('std::move', 'std::forward') or not x['args']: continue
            if x.get('qn') == 'std::forward' and x.get('lv'): continue
            if n['k'] == 'ctor' and not (n.get('move') or not n.get('copy')): continue
            pts = n.get('pt', [])
            t = self.P.T(pts[i]) if i < len(pts) else {}
            if t.get('ref') == 1: continue           # bound to a const reference
            if not self.movable(f, x['args'][0]): continue
            p = self.exact(f, x['args'][0])
            if p is None: continue
            # a parameter that is itself a forwarding reference bound to an lvalue stays
            cons.append((p, f.loc(e)))
        if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
            q = self.exact(f, n['obj'])
            if q is not None:
                for m in [m for m in MV if m[0] == q[0] and m[1][:len(q[1])] == q[1]]: MV.pop(m)
        if n['k'] == 'assign' and n['op'] == '=':
            q = self.exact(f, n['a'])
            if q is not None:
                for m in [m for m in MV if m[0] == q[0] and m[1][:len(q[1])] == q[1]]: MV.pop(m)
        if n['k'] == 'call':
            nm = n.get('qn', '').rsplit('::', 1)[-1]
            if 'obj' in n and nm in ('clear', 'assign', 'reset', 'emplace', 'resize'):
                q = self.exact(f, n['obj'])
                if q is not None: MV.pop(q, None)
            elif n.get('qn') not in MOVEISH:
                # handed out by non-const reference: may be assigned there
                for i, a in enumerate(n.get('args', [])):
                    if a is None or a < 0: continue
                    t = self.P.T(n['pt'][i]) if i < len(n.get('pt', [])) else {}
                    if t.get('ref') == 1 and not t.get('const'):
                        q = self.exact(f, a)
                        if q is not None: MV.pop(q, None)
                if 'obj' in n and not n.get('cm') and self.P.callees(f, n):
                    q = self.exact(f, n['obj'])
                    if q is not None:
                        for m in [m for m in MV if m[0] == q[0] and len(m[1]) > len(q[1])]: MV.pop(m)
        for p, loc in cons: MV[p] = loc

    def use_moved(self, f, e, MV, found):
        if not MV: return
        p = self.exact(f, e)
        if p is None or p not in MV: return
        for q in f.parents().get(e, []):
            pn = f.E[q]
            if pn['k'] == 'assign' and pn['a'] == e and pn['op'] == '=': return
            if pn['k'] == 'call' and pn.get('obj') == e and pn.get('qn', '').rsplit('::', 1)[-1] in ('operator=', 'clear', 'assign', 'reset', 'emplace', 'resize', 'swap', 'joinable'): return
            if pn['k'] == 'call' and pn.get('op') == '=' and pn.get('obj') == e: return
            if pn['k'] == 'call' and pn.get('qn') in ('std::swap', 'std::exchange', 'std::destroy_at', 'std::addressof') : return
            if pn['k'] == 'call' and e in pn.get('args', []) and pn.get('qn') not in MOVEISH:
                i = pn['args'].index(e)
                t = self.P.T(pn['pt'][i]) if i < len(pn.get('pt', [])) else {}
                if t.get('ref') == 1 and not t.get('const') and self.writes_first(pn, f, i): return
            if pn['k'] == 'field' and not pn.get('arrow'):
                # a member of the moved object: judged by the member's own path
                t = f.type(q)
                if not self.movable(f, q): return
        found[(e, ('moved', p))] = (MV[p], 'moved from', ())

    def writes_first(self, n, f, i):
        return True

    # ---- calls that restructure what their own arguments point into
    def into_callee(self, f, e, n, H, found, depth):
        P = self.P; PT = self.PT
        gs = [g for g in P.callees(f, n) if g.blocks and not self.is_container(g.cls)]
        if not gs: return
        args = n.get('args', [])
        m = None
        for g in gs:
            sm = self.summary(g)
            if not sm: continue
            if m is None: m = PT.arg_binding(f, n)
            # caller paths of the callee's events
            ev = [(kd, p, q) for (kd, p) in sm for q in PT.subst1(f, n, m, p[0], p[1]) if q[0][0] != 't']
            if not ev: continue
            seeds = {}
            for i, vid in enumerate(g.params):
                if i >= len(args) or args[i] is None or args[i] < 0: continue
                t = g.vtype(vid)
                if not handle_type(t): continue
                if t.get('ref'): ps = PT.path(f, args[i])
                elif 'span' in t.get('s', ''): ps = self.view(f, args[i])
                else: ps = PT.pointee(f, args[i])
                cs = self.containers(f, ps)
                if f.E[args[i]]['k'] == 'var' and f.E[args[i]]['v'] in H: cs = cs | H[f.E[args[i]]['v']][0]
                al = frozenset(p for kd, p, q in ev for c in cs if self.hits(q, c))
                if al: seeds[vid] = al
            if seeds:
                key = (g.key, tuple(sorted((v, tuple(sorted(map(str, c)))) for v, c in seeds.items())))
                if key in self.done: continue
                self.done.add(key)
                for (e2, v2), why in self.analyse(g, seeds, depth + 1).items():
                    if v2 in seeds: self.report(g, e2, v2, why, via=f.loc(e))
    done = set()

    def report(self, f, e, v, why, via=None):
        cx = self.cx
        loc, how, ch = why
        if isinstance(v, tuple):
            p = v[1]
            name = (f.V[p[0][1]]['name'] if p[0][0] == 'v' else f.V[f.params[p[0][1]]]['name'] if p[0][0] == 'p' else 'this') + ''.join('.' + x for x in p[1])
            cx.violation('%s|moved %s' % (f.key, name), f.loc(e), "'%s' is read after it was moved from at %s" % (name, loc), func=f.qn)
            return
        name = f.V[v]['name']
        cx.violation('%s|%s' % (f.key, name), f.loc(e), "'%s' is used after the storage it points into may have been invalidated by %s at %s" % (name if not name.startswith('__') else 'the loop range', how, loc),
                     trace=tuple(ch) + ((via,) if via else ()), func=f.qn)


def check(cx):
    P = cx.P; E = Engine(cx); E.done = set()
    funcs = [f for f in P.funcs.values() if f.blocks and (P.is_repo(f) or 'verif_selftest' in f.qn) and not E.is_container(f.cls)]
    cont_funcs = [f for f in P.funcs.values() if f.blocks and E.is_container(f.cls)]
    nh = 0
    for f in sorted(funcs, key=lambda f: f.key):
        n0 = E.n_handles
        for (e, v), why in E.analyse(f).items(): E.report(f, e, v, why)
        if E.n_handles > n0: cx.obligation('%s: handles %d' % (f.qn[:90], E.n_handles - n0))
        dangling_return(cx, E, f)
        escaping_lambda(cx, E, f)
        dangling_temporary(cx, E, f)
    memberwise_copies(cx)
    cx.anchor(E.n_handles > 100, 'references into containers')
    cx.coverage.update(functions=len(funcs), container_member_functions_not_descended=len(cont_funcs), handle_bindings=E.n_handles)
    for t in ('grow_while_iterating', 'stale_reference', 'moved_twice', 'stale_argument', 'returns_local_span', 'escaping_capture'): cx.expect_selftest(t)


def local_value(f, p):
    """the path is (part of) an object that dies with the function"""
    r, s = p
    if r[0] == 'v':
        v = f.V[r[1]]
        if v['st'] != 'local' or v.get('range') or v.get('initcap'): return False
        t = f.vtype(r[1])
        if t.get('ref') or t.get('ptr'): return False
    elif r[0] == 'p':
        if r[1] >= len(f.params): return False
        t = f.vtype(f.params[r[1]])
        if t.get('ref') or t.get('ptr') or handle_type(t): return False
    else: return False
    return True


def owned(E, f, p):
    """every step of the path stays inside of the object (no pointer, iterator or view is followed)"""
    for i, x in enumerate(p[1]):
        ts = E.type_at(f, (p[0], p[1][:i]))
        if x == '[]' and not (container_type(ts) or ts.startswith('std::array<')): return False
        if x == '*' and not ts.startswith(SMART): return False
        if x.startswith(('?', '#')) or x == '&': return False
        if x not in ('[]', '*'):
            for c, fd in E.P.fields(KillFlow.clean(ts), True):
                if fd['name'] == x and (E.P.T(fd['t']).get('ref') or E.P.T(fd['t']).get('ptr')): return False
    if E.type_at(f, p) == '' and p[1]: return False
    return True


def dangling_return(cx, E, f):
    rt = cx.P.T(f.d.get('ret')) if f.d.get('ret') is not None else {}
    if not rt or not handle_type(rt): return
    s = KillFlow.clean(rt.get('s', ''))
    for e, n in enumerate(f.E):
        if not n or n['k'] != 'ret' or 'e' not in n: continue
        if rt.get('ref'): ps = E.PT.path(f, n['e'])
        elif s.startswith('std::span') or 'basic_string_view' in s: ps = E.view(f, n['e'])
        else: ps = E.PT.pointee(f, n['e'])
        cx.obligation('%s returns a reference' % f.qn[:80])
        for p in ps:
            if local_value(f, p) and owned(E, f, p):
                nm = f.V[p[0][1]]['name'] if p[0][0] == 'v' else f.V[f.params[p[0][1]]]['name']
                cx.violation('%s|returns %s' % (f.key, nm), f.loc(e), "returns a reference, pointer or view into the local object '%s'" % nm, func=f.qn)


def escaping_lambda(cx, E, f):
    """closures that refer to local objects must not be returned or stored in members"""
    lams = [e for e, n in enumerate(f.E) if n and n['k'] == 'lambda']
    for e in lams:
        byref = [c for c in f.E[e].get('caps', []) if c.get('ref') and 'v' in c]
        byref = [c for c in byref if f.V[c['v']]['st'] in ('local', 'param') and not f.vtype(c['v']).get('ref')]
        if not byref: continue
        for how, loc in flows(cx, E, f, e):
            cx.violation('%s|closure %s' % (f.key, how), loc, "a closure that refers to the local '%s' is %s and outlives it" % (f.V[byref[0]['v']]['name'], how), func=f.qn)


def flows(cx, E, f, e, depth=0):
    """places where the value of the expression leaves the function"""
    if depth > 10: return
    for p in f.parents().get(e, []):
        n = f.E[p]; k = n['k']
        if k in ('wrap', 'cast', 'cond', 'ilist'): yield from flows(cx, E, f, p, depth + 1)
        elif k == 'ctor' and e in n.get('args', []):
            yield from flows(cx, E, f, p, depth + 1)
        elif k == 'ret': yield ('returned', f.loc(p))
        elif k == 'assign' and n['b'] == e or (k == 'call' and n.get('op') == '=' and e in n.get('args', [])):
            tgt = n['a'] if k == 'assign' else n['obj']
            for r, s in E.PT.path(f, tgt):
                if r in (('this',),) or r[0] in ('g', 'othis'): yield ('stored', f.loc(p))
        elif k == 'call' and n.get('qn') in MOVEISH: yield from flows(cx, E, f, p, depth + 1)
        elif k == 'decl':
            for v in n['vars']:
                if v.get('init') == e:
                    for x, m in enumerate(f.E):
                        if m and m['k'] == 'var' and m['v'] == v['v']: yield from flows(cx, E, f, x, depth + 1)


OWNING = CONT + ('std::unique_ptr<', 'std::map<', 'std::unordered_map<', 'std::deque<', 'std::optional<', 'std::array<')


def temp_source(E, f, e, depth=0):
    """the temporary owning object a reference obtained from the expression would point into, if any"""
    n = f.E[e]
    if n is None or depth > 12: return None
    k = n['k']
    if k in ('cast', 'wrap', 'definit') and n.get('e', -1) >= 0: return temp_source(E, f, n['e'], depth + 1)
    if k == 'sub': return temp_obj(E, f, n['a'], depth)
    if k == 'field' and not n.get('arrow'): return temp_obj(E, f, n['b'], depth)
    if k == 'call' and 'obj' in n and not n.get('arrow'):
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if (n.get('lv') and (nm in ELEM or nm in PTR)) or nm in ITER: return temp_obj(E, f, n['obj'], depth)
    if k == 'un' and n['op'] == '*': return temp_source(E, f, n['a'], depth + 1)
    return None


PTR = {'operator*', 'operator->', 'value'}


def temp_obj(E, f, e, depth):
    n = f.E[e]
    while n and n['k'] in ('wrap', 'cast') and n.get('e', -1) >= 0 : e = n['e']; n = f.E[e]
    if n is None: return None
    ts = KillFlow.clean(f.type(e).get('s', ''))
    if n['k'] in ('call', 'ctor') and not n.get('lv') and f.type(e).get('ref') != 1 and (ts.startswith(OWNING)) and not (n['k'] == 'call' and n.get('qn') in MOVEISH): return e
    return temp_source(E, f, e, depth + 1)


def dangling_temporary(cx, E, f):
    for vid, (init, de) in f.decl_init().items():
        if init is None: continue
        v = f.V[vid]; t = f.vtype(vid)
        if v['st'] != 'local' or not handle_type(t): continue
        s = KillFlow.clean(t.get('s', ''))
        if s.startswith('std::span') or 'basic_string_view' in s:
            n = f.E[init]; x = init
            while n and n['k'] in ('wrap', 'cast', 'ctor', 'ilist') and (n.get('e', -1) >= 0 if n['k'] in ('wrap', 'cast') else len(n.get('args', [])) >= 1):
                if KillFlow.clean(f.type(x).get('s', '')).startswith(OWNING): break
                x = n['e'] if n['k'] in ('wrap', 'cast') else n['args'][0]; n = f.E[x]
            ts = KillFlow.clean(f.type(x).get('s', ''))
            src = x if n and n['k'] in ('call', 'ctor') and not n.get('lv') and ts.startswith(OWNING) and n.get('qn') not in MOVEISH and f.type(x).get('ref') != 1 else None
        else: src = temp_source(E, f, init)
        if src is not None:
            cx.violation('%s|temporary %s' % (f.key, v['name']), f.loc(de), "'%s' refers into a temporary that is destroyed at the end of the declaration" % v['name'], func=f.qn)


def memberwise_copies(cx):
    P = cx.P
    for c, r in sorted(P.records.items()):
        if not (c.startswith('gapp::') or 'verif_selftest' in c): continue
        fs = [(fd, KillFlow.clean(P.T(fd['t']).get('s', ''))) for k, fd in P.fields(c, False)]
        maps = [ts for fd, ts in fs if ts.startswith(OWNING + ('std::list<', 'std::set<'))]
        for fd, ts in fs:
            if 'iterator' not in ts.lower() or not ts.startswith(CONT + ('std::',)) : continue
            if len(maps) < 2 and not maps: continue
            cc = [f for f in P.by_cls.get(c, []) if f.get('copy') and f.get('ctor')]
            cx.obligation('%s stores iterators into itself' % c[:80])
            bad = [f for f in cc if (f.get('defaulted') or f.get('implicit')) and not f.get('deleted')]
            for f in bad: cx.violation('%s|memberwise copy' % c, f.loc(), "the copy constructor copies the iterators of '%s' memberwise: the copy refers into the original" % fd['name'], func=f.qn)
