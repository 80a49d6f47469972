"""Index spaces: which solution the elements of per-solution arrays describe.

A next-population function receives the candidates (parents and children) and returns a vector R whose element p is the candidate that becomes
solution p.  An array is in CANDIDATE space if it is indexed by candidate, and it is MAPPED if its element p was derived from the solution that a
term s(p) denotes (an element of the sorted fronts, of R, ...).  Terms are compared structurally; permuting a container invalidates the
terms over it (version numbers).  Path-sensitive over the control-flow graph, loops are entered at least once."""
from collections import deque

ELEM = ('idx', 'rank')
PERMUTE = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'swap', 'iter_swap', 'reverse', 'rotate', 'shuffle', 'partition', 'stable_partition', 'swap_ranges', 'ranges::swap'}
LAMBDA_EACH = None
OLD, CAND = ('old',), ('cand',)


def containers(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ('el', 'iter', 'rng') : out.add(root(t[1]))
        for x in t[1:]: containers(x, out)
    return out


def root(x):
    while x[0] in ('rng', 'sub'): x = x[1]
    return x


def replace(t, a, b):
    if t == a: return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


def positions(t, out):
    """loop positions used as element indices in t"""
    if isinstance(t, tuple) and t:
        if t[0] == 'el' and isinstance(t[2], tuple) and t[2][0] in ('v', 'it'): out.append(t[2])
        for x in t[1:]: positions(x, out)
    return out


class State:
    __slots__ = ('arr', 'ver', 'looped', 'bind')

    def __init__(self, arr=(), ver=(), looped=frozenset(), bind=()):
        self.arr = dict(arr); self.ver = dict(ver); self.looped = looped; self.bind = dict(bind)

    def copy(self): return State(self.arr, self.ver, self.looped, self.bind)

    def key(self):
        return (tuple(sorted((repr(k), repr(sorted(v.items(), key=repr))) for k, v in self.arr.items())), tuple(sorted((repr(k), v) for k, v in self.ver.items())), self.looped)


class Frame:
    def __init__(self, f, fid, env, this, up=None):
        self.f = f; self.fid = fid; self.env = env; self.this = this; self.up = up


class Align:
    max_states = 400

    def __init__(self, P, PT, report):
        self.P = P; self.PT = PT; self.report = report; self.n = 0; self.functions = set(); self.counters = set()

    # -- terms
    def var_owner(self, fr, vid):
        """frame and id of the variable (captured variables belong to an enclosing frame)"""
        v = fr.f.V[vid]
        if v['st'] == 'outer':
            up = fr.up
            while up:
                for i, w in up.f.V.items() if isinstance(up.f.V, dict) else enumerate(up.f.V):
                    if w and w['name'] == v['name'] and w['l'] == v['l'] and w['c'] == v['c'] and w['st'] != 'outer': return up, i
                up = up.up
        return fr, vid

    def assigned(self, f, vid):
        if not hasattr(self, '_asg'): self._asg = {}
        if f.key not in self._asg:
            m = set(self.PT.assigns(f))
            for n in f.E:
                if not n: continue
                x = n['a'] if n['k'] == 'assign' or (n['k'] == 'un' and ('++' in n['op'] or '--' in n['op'])) else n.get('obj') if n['k'] == 'call' and n.get('op') in ('++', '--', '+=', '-=') else None
                if isinstance(x, int) and f.E[x] and f.E[x]['k'] == 'var': m.add(f.E[x]['v'])
            self._asg[f.key] = m
        return vid in self._asg[f.key]

    def term_var(self, fr, S, vid):
        fr, vid = self.var_owner(fr, vid)
        if vid in fr.env: return fr.env[vid]
        f = fr.f; v = f.V[vid]
        t = ('v', fr.fid, vid, v['name'])
        di = f.decl_init().get(vid)
        if not di or di[0] is None: return t
        ty = f.vtype(vid)
        init = self.term(fr, S, di[0])
        if v['name'].startswith('__range'): return init
        if init[0] == 'iter': return ('iter', init[1], ('it', fr.fid, vid))
        if ty.get('ref') or ty.get('lref') or ty.get('s', '').rstrip().endswith('&') or ty.get('s', '').rstrip().endswith('*'): return init
        if init[0] == 'rng': return init
        if init[0] == 'el' and isinstance(init[2], tuple) and init[2][0] == 'it':       # range-for variable
            c = init[1]
            if c[0] == 'call': return t
            return init
        if not self.assigned(f, vid) and init[0] in ('f', 'el') and v['st'] == 'local' and not self.is_array(f, vid): return init
        return t

    def is_array(self, f, vid):
        s = f.vtype(vid).get('rec') or f.vtype(vid).get('s', '')
        return s.startswith(('std::vector', 'gapp::small_vector', 'std::array', 'std::deque'))

    def term(self, fr, S, e, d=0):
        f = fr.f
        if e is None or e < 0 or d > 30: return ('?', fr.fid, e)
        n = f.E[e]
        if n is None: return ('?', fr.fid, e)
        k = n['k']
        T = lambda x: self.term(fr, S, x, d + 1)
        if k == 'var': return self.term_var(fr, S, n['v'])
        if k == 'this': return fr.this
        if k == 'field': return ('f', T(n['b']), n['name'])
        if k in ('cast', 'wrap') and 'e' in n: return T(n['e'])
        if k == 'lit': return ('lit', n.get('v', n.get('s')))
        if k == 'defarg': return ('lit', None)
        if k == 'un':
            if n['op'] == '*': return self.deref(T(n['a']))
            if n['op'] in ('&', '+'): return T(n['a'])
            if n['op'] in ('++', '--', '++pre', 'pre++'): return T(n['a'])
            return ('un', n['op'], T(n['a']))
        if k == 'sub' or k == 'index': return ('el', T(n['a']), T(n['b']))
        if k == 'bin': return ('bin', n['op'], T(n['a']), T(n['b']))
        if k == 'ilist':
            a = n.get('args', [])
            if len(a) == 1: return T(a[0])
            if len(a) == 2: return self.pair(T(a[0]), T(a[1]))
            return ('ilist',) + tuple(T(x) for x in a)
        if k == 'ctor':
            a = [x for x in n.get('args', []) if f.E[x] and f.E[x]['k'] != 'defarg']
            if n.get('copy') or n.get('move'): return T(a[0])
            if len(a) == 1: return T(a[0]) if ('span' in (n.get('cls') or '') or 'Range' in (n.get('cls') or '') or 'iterator' in (n.get('cls') or '')) else ('new', fr.fid, e)
            if len(a) == 2 and any(x[0] == 'iter' for x in (T(a[0]), T(a[1]))): return self.pair(T(a[0]), T(a[1]))
            return ('new', fr.fid, e)
        if k == 'call':
            nm = n.get('qn', '').rsplit('::', 1)[-1]
            obj = n.get('obj')
            a = n.get('args', [])
            if n.get('qn') in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref', 'std::make_move_iterator', 'std::to_address') and a: return T(a[0])
            if obj is not None and isinstance(obj, int):
                if nm in ('operator->', 'get', 'data', 'value') and not a: return T(obj)
                if nm == 'operator*' and not a: return self.deref(T(obj))
                if nm in ('operator[]', 'at') and len(a) == 1:
                    o = T(obj); i = T(a[0])
                    if o[0] == 'iter': o = o[1]
                    return ('el', o, i)
                if nm in ('begin', 'cbegin'): o = T(obj); return ('iter', o, ('lit', 0))
                if nm in ('end', 'cend'): return ('iter', T(obj), ('end',))
                if nm in ('front',): return ('el', T(obj), ('lit', 0))
                if nm in ('back',): return ('el', T(obj), ('last',))
                if nm in ('operator++', 'operator--'): return T(obj)
                if nm in ('partialFront', 'subspan', 'first', 'last'): return ('rng', T(obj), e if nm != 'first' else 0)
            if nm in ('next', 'prev') and a:
                o = T(a[0])
                if o[0] == 'iter': return ('iter', o[1], (nm, o[2]))
            if nm == 'operator+' and len(a) + (obj is not None) == 2:
                x = [T(obj)] + [T(q) for q in a] if obj is not None else [T(q) for q in a]
                if x[0][0] == 'iter': return ('iter', x[0][1], x[1] if x[0][2] == ('lit', 0) else ('bin', '+', x[0][2], x[1]))
            if nm in ('begin', 'cbegin') and len(a) == 1: return ('iter', T(a[0]), ('lit', 0))
            if nm in ('end', 'cend') and len(a) == 1: return ('iter', T(a[0]), ('end',))
            if (fr.fid, e) in S.bind: return S.bind[(fr.fid, e)]
            x = tuple(T(q) for q in a)
            if obj is not None and isinstance(obj, int): x = (T(obj),) + x
            return ('call', n.get('qn') or nm, fr.fid, e) + x
        return ('?', fr.fid, e)

    def deref(self, t):
        if t[0] == 'iter': return ('el', t[1], t[2])
        return t

    def pair(self, a, b):
        if a[0] == 'iter':
            if a[2] == ('lit', 0): return a[1] if b[0] == 'iter' and b[2] == ('end',) and b[1] == a[1] else ('sub', a[1])
            return ('rng', a[1], repr(a[2]))
        return ('pair', a, b)

    # -- subjects
    def arr_of(self, S, t):
        """tracked array of an element term: (array term, index term, field)"""
        fld = '*'
        if t[0] == 'f' and t[1][0] == 'el' and t[1][1] in S.arr: fld = t[2]; t = t[1]
        if t[0] == 'el' and t[1] in S.arr: return t[1], t[2], fld
        return None

    def subj_index(self, S, t):
        """solution that an index term denotes as a candidate"""
        if t[0] == 'f' and t[2] == 'idx': return t[1]
        if t[0] == 'el':
            st = S.arr.get(t[1])
            if st:
                m = st.get('*')
                if m and m[0] == 'map' and m[2] is None: return replace(m[1], '#', t[2])
                return t
        return None

    def subj_value(self, S, t):
        """solution that a value describes"""
        if t[0] == 'f' and t[2] in ELEM: return t[1]
        a = self.arr_of(S, t)
        if a:
            A, k, fld = a
            st = S.arr[A]
            m = st.get(fld, st.get('*'))
            if m == CAND:
                r = self.subj_index(S, k)
                if r is None and self.counter(k): return ('cand', k)
                return r
            if m and m[0] == 'map' and m[2] is None: return replace(m[1], '#', k)
            ty = st.get('*')
            if m is None: return t if self.subj_index(S, t) else None
        return None

    def ver(self, S, s):
        return tuple(sorted((repr(c), S.ver.get(c, 0)) for c in containers(s, set())))

    def mapped(self, S, p, s):
        """state of an array whose element p describes the solution s"""
        if s[0] == 'cand' and (s[1] == p or p is None): return CAND
        if s[0] == 'el' and s[1] in S.arr:
            r = self.subj_index(S, s)
            if r: s = r
        ps = positions(s, [])
        if p is not None and p in ps:
            return ('map', replace(s, p, '#'), None, self.ver(S, s))
        if p is None and ps:
            return ('map', replace(s, ps[0], '#'), None, self.ver(S, s))
        return ('map', s, p, self.ver(S, s))

    # -- events
    def write(self, fr, S, e, t, val, how):
        a = self.arr_of(S, t) or (t[0] == 'f' and t[1][0] == 'el' and (t[1][1], t[1][2], t[2])) or (t[0] == 'el' and (t[1], t[2], '*'))
        if not a: return
        A, k, fld = a
        if not self.trackable(A): return
        self.n += 1
        s = self.subj_index(S, k)
        if A not in S.arr: S.arr[A] = {'*': None}
        st = dict(S.arr[A])
        v = self.subj_value(S, val) if val is not None else None
        if s is not None:
            if v is not None and v != s and not self.same_each(v, s):
                self.report(fr.f, e, 'mismatch', 'data of one solution (%s) is stored under another (%s)' % (self.show(v), self.show(s)))
            # only the solutions of a part of the list that does not start at its beginning: the others keep what they had
            if not (self.part(s) and st.get(fld, st.get('*')) == OLD): st[fld] = CAND
        elif v is not None: st[fld] = self.mapped(S, self.lockstep(fr, e, k, v), v)
        elif fld == '*' and val is not None and self.arr_of(S, val) and self.arr_of(S, val)[2] == '*' and len(S.arr[self.arr_of(S, val)[0]]) > 1: st = self.copy_state(S, val, k)
        elif st.get(fld, st.get('*')) in (OLD, CAND) and self.is_pos(k) and val is not None: st[fld] = None
        S.arr[A] = st

    def part(self, s):
        return s[0] == 'el' and isinstance(s[1], tuple) and s[1][0] == 'rng' and s[1][2] != 0

    def copy_state(self, S, val, p, block=None):
        """state of an array whose element p is the value term val"""
        src = self.arr_of(S, val)
        if src and src[2] == '*' and len(S.arr[src[0]]) > 1:
            A, k, _ = src; st = {}
            for fk, fm in S.arr[A].items():
                if fk == '*': continue
                s = (self.subj_index(S, k) or (('cand', k) if self.counter(k) else None)) if fm == CAND else replace(fm[1], '#', k) if fm and fm[0] == 'map' and fm[2] is None else None
                st[fk] = self.mapped(S, p, s) if s is not None else fm if fm == OLD else None
        else:
            s = self.subj_value(S, val)
            st = {'*': self.mapped(S, p, s) if s is not None else None}
        if block: st = {k: m[:2] + (block,) + m[3:] if m and m[0] == 'map' else m for k, m in st.items()}
        return st

    def counter(self, k):
        """the term counts positions (a loop counter or the current size of a list)"""
        if k[0] == 'it': return True
        if k[0] == 'call': return k[1].rsplit('::', 1)[-1] == 'size'
        if k[0] == 'v': return (k[1], k[2]) in self.counters
        return False

    def lockstep(self, fr, e, k, s):
        """position of the running loop that a counter starting at 0 and advanced once per iteration follows"""
        if k[0] != 'v' or k[1] != fr.fid: return k
        ps = [q for q in positions(s, []) if q[0] == 'it' and q[1] == fr.fid]
        di = fr.f.decl_init().get(k[2])
        if not ps or not di or di[0] is None: return k
        z = fr.f.E[di[0]]
        while z and z['k'] in ('cast', 'wrap') and 'e' in z: z = fr.f.E[z['e']]
        inc = [i for i, n in enumerate(fr.f.E) if n and n['k'] == 'un' and '++' in n['op'] and fr.f.E[n['a']]['k'] == 'var' and fr.f.E[n['a']]['v'] == k[2]]
        if z and z['k'] == 'lit' and z.get('v', '0') in (0, '0') and len(inc) == 1 and self.unconditional(fr.f, inc[0]) and self.unconditional(fr.f, e): return ps[0]
        return k

    def same_each(self, a, b): return replace(a, None, None) == b

    def is_pos(self, k): return k[0] in ('v', 'it')

    def trackable(self, A): return A[0] in ('v', 'f') or A[0] == 'ret'

    def show(self, t):
        if not isinstance(t, tuple): return str(t)
        if t[0] == 'v': return t[3]
        if t[0] == 'it': return 'each'
        if t[0] == 'f': return '%s.%s' % (self.show(t[1]), t[2])
        if t[0] == 'el': return '%s[%s]' % (self.show(t[1]), self.show(t[2]))
        if t[0] in ('rng', 'sub'): return 'part of ' + self.show(t[1])
        if t[0] == 'lit': return str(t[1])
        if t[0] == 'this': return 'this'
        if t[0] == 'call': return t[1].rsplit('::', 1)[-1] + '(...)'
        return t[0]

    def permute(self, S, t):
        cs = set()
        containers(t, cs)
        if t[0] in ('v', 'f'): cs.add(t)
        for c in cs:
            S.ver[c] = S.ver.get(c, 0) + 1
            if c in S.arr: S.arr[c] = {k: ('perm', S.ver[c], c) if m else None for k, m in S.arr[c].items()}

    def assign_whole(self, fr, S, t, src, e):
        """array t takes the contents of the array term src"""
        if not self.trackable(t): return
        if src in S.arr: S.arr[t] = dict(S.arr[src])
        elif t in S.arr: S.arr[t] = {'*': None}
        else: S.arr[t] = {'*': None}

    # -- engine
    def inline(self, fr, n, g):
        if not g.blocks or not self.P.is_repo(g) and 'verif_selftest' not in g.key: return False
        if not (g.qn.startswith('gapp::algorithm') or 'verif_selftest' in g.key): return False
        if g.get('ctor') or g.get('dtor') or g.name.startswith('operator'): return False
        if 'nonDominatedSort' in g.name: return False
        return True

    def run(self, f, S, this=('this',), env=None, fid=(), up=None):
        """[(state, value term)] at the normal exits of f"""
        if len(fid) > 12: return [(S, None)]
        self.functions.add(f.key)
        fr = Frame(f, fid, env or {}, this, up)
        for n in f.E:
            if n and (n['k'] == 'un' and '++' in n['op']) and f.E[n['a']] and f.E[n['a']]['k'] == 'var': self.counters.add((fid, f.E[n['a']]['v']))
        outs = {}
        S0 = S.copy(); S0.looped = frozenset()
        work = deque([(f.entry, S0)]); seen = set()
        while work:
            b, s = work.popleft()
            kk = (b, s.key())
            if kk in seen or len(seen) > self.max_states: continue
            seen.add(kk)
            B = f.blocks[b]
            if B.get('nr'): continue
            states = [(s, None)]
            ret = None
            for e in B['e']:
                if not isinstance(e, int): continue
                nx = []
                for q, rv in states:
                    n = f.E[e]
                    if n['k'] == 'ret':
                        nx.append((q, self.term(fr, q, n['e']) if 'e' in n else None))
                        continue
                    for r in self.elem(fr, q, e, n): nx.append((r, rv))
                states = nx
            succ = [x for x in B.get('s', []) if x is not None and x >= 0]
            if not succ or b == f.exit:
                for q, rv in states: outs[(q.key(), repr(rv))] = (q, rv)
                continue
            term = B.get('term') or ''
            for q, rv in states:
                if rv is not None:
                    outs[(q.key(), repr(rv))] = (q, rv); continue
                if term in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt') and len(B['s']) == 2:
                    body, ex = B['s']
                    if b not in q.looped:
                        q2 = q.copy(); q2.looped = q.looped | {b}
                        if body is not None and body >= 0: work.append((body, q2))
                    else:
                        q2 = q.copy(); q2.looped = q.looped - {b}
                        if ex is not None and ex >= 0: work.append((ex, q2))
                    continue
                for x in succ: work.append((x, q))
        res = []
        for q, rv in outs.values():
            q = q.copy(); q.looped = S.looped
            res.append((q, rv))
        return res or [(S, None)]

    def elem(self, fr, S, e, n):
        f = fr.f; k = n['k']
        if k == 'decl':
            S = S.copy()
            for v in n['vars']:
                if self.is_array(f, v['v']):
                    t = ('v', fr.fid, v['v'], f.V[v['v']]['name'])
                    src = self.term(fr, S, v['init']) if 'init' in v else None
                    if v['v'] in fr.env: continue
                    ty = f.vtype(v['v']).get('s', '')
                    if ty.rstrip().endswith('&'): continue
                    self.assign_whole(fr, S, t, src, e) if src else S.arr.update({t: {'*': None}})
            return [S]
        if k == 'assign':
            S = S.copy()
            t = self.term(fr, S, n['a'])
            self.write(fr, S, e, t, self.term(fr, S, n['b']), 'assign')
            return [S]
        if k == 'un' and '++' in n['op']:
            return [S]
        if k != 'call': return [S]
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        obj = n.get('obj'); a = n.get('args', [])
        if nm == 'operator=' and len(a) >= 1:
            S = S.copy()
            l = self.term(fr, S, obj if obj is not None else a[0]); r = self.term(fr, S, a[-1])
            if l in S.arr or self.isarr_type(f, n): self.assign_whole(fr, S, l, r, e)
            else: self.write(fr, S, e, l, r, 'assign')
            return [S]
        if nm in ('push_back', 'emplace_back') and obj is not None:
            S = S.copy()
            A = self.term(fr, S, obj)
            if A in S.arr or self.trackable(A):
                if len(a) == 1:
                    val = self.term(fr, S, a[0])
                    b = None if self.unconditional(f, e) else ('block', fr.fid, self.block_of(f, e))
                    st = self.copy_state(S, val, None, b)
                    S.arr[A] = st
            return [S]
        if nm in PERMUTE:
            S = S.copy()
            for x in ([obj] if obj is not None else []) + list(a):
                if f.E[x] and f.E[x]['k'] == 'lambda': continue
                self.permute(S, self.term(fr, S, x))
            # comparators only read
            return [S]
        lam = [x for x in a if self.P.lambda_of(f, x)]
        if nm == 'transform' and lam and not (f.type(n).get('s', '') or '').startswith('gapp::FitnessVector'):
            S = S.copy()
            ts = [self.term(fr, S, x) for x in a]
            src = ts[0][1] if ts[0][0] == 'iter' else ts[0]
            dst = None
            for i, x in enumerate(a):
                if x in lam: break
                if ts[i][0] == 'iter' and ts[i][1] != src: dst = ts[i][1]
                if ts[i][0] == 'call' and ts[i][1].endswith('_inserter'): dst = ts[i][4]
            if dst is None: dst = src
            for g in self.P.lambda_of(f, lam[0]):
                env = {g.params[0]: ('el', src, ('it', fr.fid, e))} if g.params else {}
                out = []
                for q, rv in self.run(g, S, this=fr.this, env=env, fid=fr.fid + (e,), up=fr):
                    if self.trackable(dst):
                        q = q.copy()
                        q.arr[dst] = self.copy_state(q, rv, None) if rv else {'*': None}
                    out.append(q)
                return out or [S]
        if lam:
            outs = [S]
            ts = [self.term(fr, S, x) for x in a]
            it = ts[0] if ts else None
            src = it[1] if it and it[0] == 'iter' else it
            for x in lam:
                for g in self.P.lambda_of(f, x):
                    env = {p: ('el', src, ('it', fr.fid, e)) for p in g.params} if src else {}
                    nxt = {}
                    for q in outs:
                        for r, rv in self.run(g, q, this=fr.this, env=env, fid=fr.fid + (e,), up=fr): nxt[r.key()] = r
                    outs = list(nxt.values())
            return outs
        gs = [g for g in self.P.callees(f, n) if self.inline(fr, n, g)]
        if gs:
            res = {}
            for g in gs:
                env = {}
                for p, x in zip(g.params, a): env[p] = self.term(fr, S, x)
                this = self.term(fr, S, obj) if obj is not None and isinstance(obj, int) else fr.this
                for q, rv in self.run(g, S, this=this, env=env, fid=fr.fid + (e,)):
                    q = q.copy()
                    if rv is not None:
                        if rv in q.arr:
                            r = ('ret', fr.fid, e)
                            q.arr[r] = dict(q.arr[rv]); q.bind[(fr.fid, e)] = r
                        elif rv[0] in ('el', 'f', 'rng'): q.bind[(fr.fid, e)] = rv
                    res[q.key()] = q
            return list(res.values())
        return [S]

    def isarr_type(self, f, n):
        c = n.get('cls') or ''
        return c.startswith(('std::vector', 'gapp::small_vector', 'std::deque'))

    def block_of(self, f, e):
        for b, i, x in f.elems():
            if x == e: return b
        return None

    def unconditional(self, f, e):
        """the element runs exactly once per iteration of the innermost loop around it"""
        b = self.block_of(f, e)
        for p in f.preds().get(b, ()):
            t = f.blocks[p].get('term')
            if t in ('IfStmt', 'SwitchStmt'): 
                # the join block of an if has two predecessors
                return len(f.preds().get(b)) > 1
        return True
