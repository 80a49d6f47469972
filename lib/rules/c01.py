"""Typestate analysis of candidates. Every function that changes a candidate's chromosome, fitness or evaluated
mark is interpreted over symbolic chromosome / fitness / mark tokens, path by path, following helper functions.
At every exit and every store into a container the mark may be set only if the stored fitness is the objective
value of the stored chromosome; after the evaluation step the mark must be set."""
from facts import AnalysisBroken
from roles import Roles, method_of, reaching

RULE = 'candidate typestate (chromosome token, fitness token, mark) checked at function exits and container stores'
ASSUMPTIONS = ['candidates handed in by the user that are already marked as evaluated carry the right fitness (documented behaviour)',
               'candidate equality is equality of the encoded solution (for real genes up to the configured tolerances)']
CAND = 'gapp::Candidate'; PAIR = 'gapp::CandidatePair'; FITF = 'gapp::FitnessFunctionBase'; CROSS = 'gapp::crossover::Crossover'; MUT = 'gapp::mutation::Mutation'
CACHE = 'gapp::detail::fifo_cache'
FLD = ('chromosome', 'fitness', 'is_evaluated')
CONTAINER_ADD = ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front')


def tname(t): return t.get('tmpl', '')


def contains(tok, x):
    if tok == x: return True
    return isinstance(tok, tuple) and any(contains(y, x) for y in tok)


def sub(tok, a, b):
    """replace token b by a"""
    if tok == b: return a
    if isinstance(tok, tuple): return tuple(sub(x, a, b) for x in tok)
    return tok


class State:
    __slots__ = ('o', 'v')

    def __init__(self, o=(), v=()):
        self.o = dict(o); self.v = dict(v)

    def copy(self): return State(self.o, self.v)
    def key(self): return (frozenset(self.o.items()), frozenset(self.v.items()))

    def map(self, fn):
        for k in list(self.o): self.o[k] = tuple(fn(x) for x in self.o[k])
        for k in list(self.v): self.v[k] = fn(self.v[k])


class Interp:
    def __init__(self, cx, R):
        self.cx = cx; self.P = cx.P; self.PT = cx.paths; self.R = R
        self.errors = []; self.inlined = set(); self.checked = 0; self.steps = 0
        self.cur_root = None; self.evalroots = set()

    # ---- objects
    def canon(self, frame, path):
        """path in the function's own roots -> caller-independent key"""
        r, s = path
        f, bind, fid = frame
        s = tuple(x for x in s if x != '&')
        if r[0] == 'p':
            b = bind.get(r[1])
            if b is not None: return (b[0], b[1] + s)
            return (('p', fid, r[1]), s)
        if r[0] == 'v': return (('v', fid, r[1]), s)
        if r[0] == 't': return (('t', fid, r[1]), s)
        if r[0] == 'this':
            b = bind.get('this')
            return (b[0], b[1] + s) if b is not None else (('this', fid), s)
        return (r, s)

    def obj(self, S, k):
        """(chromosome, fitness, mark) of the candidate object k, created on demand as a coherent unknown"""
        if k not in S.o:
            c = ('c', k)
            S.o[k] = (c, ('fo', k, c), ('m', k))
            if k[0][0] == 'alias' and all(self.obj(S, b)[2] == 'T' for b in k[0][2]): S.o[k] = (c, ('f', c), 'T')
        return S.o[k]

    def paths(self, fr, eid):
        return self.unify(fr, sorted({self.canon(fr, p) for p in self.PT.path(fr[0], eid)}, key=str), eid)

    def unify(self, fr, ps, eid):
        """a pointer to one of several immutable candidates denotes one (unknown) immutable candidate"""
        if len(ps) < 2: return ps
        f, bind, fid = fr
        raw = self.PT.path(f, eid)
        real = [p for p in raw if p[0][0] != 't']
        if len(real) < 2: return ps
        if not all(p[0][0] in ('p', 'o') for p in real): return ps
        if any(p[0][0] == 'p' and not f.vtype(f.params[p[0][1]]).get('const') for p in real if p[0][1] is not None and p[0][0] == 'p'): return ps
        tail = lambda p: p[1][-1:] if p[1] and p[1][-1] in FLD else ()
        cps = [self.canon(fr, p) for p in real]
        if len({tail(p) for p in cps}) != 1 or any(len(p[1]) > 2 for p in cps): return ps
        base = frozenset((p[0], tuple(x for x in (p[1][:-1] if tail(p) else p[1]) if x not in ('*', '[]'))) for p in cps)
        return [(('alias', fid, base), tail(cps[0]))]

    def ctype(self, f, eid):
        t = f.type(eid)
        n = t.get('tmpl', '')
        if n == CAND: return 'cand'
        if n == PAIR: return 'pair'
        return None

    # ---- values of expressions
    def value(self, fr, S, eid, depth=0):
        """('cand', c, f, m) | ('pair', cand, cand) | chromosome/fitness/bool token | None"""
        f, bind, fid = fr
        n = f.E[eid]
        if n is None or depth > 12: return None
        kv = ('e', fid, eid)
        if kv in S.v: return S.v[kv]
        k = n['k']
        ct = self.ctype(f, eid)
        if k in ('cast', 'wrap', 'defarg', 'definit') and n.get('e', -1) >= 0: return self.value(fr, S, n['e'], depth + 1)
        if k == 'lit' and n['v'] in ('true', 'false'): return 'T' if n['v'] == 'true' else 'F'
        if k == 'call' and n.get('qn') in ('std::move', 'std::forward', 'std::as_const') and n['args']: return self.value(fr, S, n['args'][0], depth + 1)
        if k == 'un' and n['op'] == '!':
            v = self.value(fr, S, n['a'], depth + 1)
            return neg(v)
        if k == 'bin' and n['op'] in ('&&', '||'):
            a, b = self.value(fr, S, n['a'], depth + 1), self.value(fr, S, n['b'], depth + 1)
            return conj(a, b) if n['op'] == '&&' else disj(a, b)
        if k == 'bin' and n['op'] in ('&', '|'):
            a, b = self.value(fr, S, n['a'], depth + 1), self.value(fr, S, n['b'], depth + 1)
            return conj(a, b) if n['op'] == '&' else disj(a, b)
        if k == 'bin' and n['op'] in ('==', '!='):
            a, b = self.value(fr, S, n['a'], depth + 1), self.value(fr, S, n['b'], depth + 1)
            if b in ('T', 'F') and a is not None: return a if (b == 'T') == (n['op'] == '==') else neg(a)
            return None
        if k == 'cond':
            c = self.value(fr, S, n['c'], depth + 1)
            if c == 'T': return self.value(fr, S, n['a'], depth + 1)
            if c == 'F': return self.value(fr, S, n['b'], depth + 1)
            a, b = self.value(fr, S, n['a'], depth + 1), self.value(fr, S, n['b'], depth + 1)
            if a in ('T', 'F', None) or b in ('T', 'F', None):
                if a == 'T' and b == 'F': return c
                if a == 'F' and b == 'T': return neg(c)
                if b == 'F': return conj(c, a)
                if a == 'F': return conj(neg(c), b)
            return a if a == b else None
        if ct == 'cand' and k == 'ctor' and (n.get('copy') or n.get('move')) and n['args']:
            return self.value(fr, S, n['args'][0], depth + 1)
        if ct == 'pair' and k == 'ctor' and (n.get('copy') or n.get('move')) and n['args']:
            return self.value(fr, S, n['args'][0], depth + 1)
        if ct == 'pair' and k == 'ilist' and len(n['args']) == 2:
            return ('pair', self.value(fr, S, n['args'][0], depth + 1), self.value(fr, S, n['args'][1], depth + 1))
        if k == 'un' and n['op'] == '*':
            v = self.value(fr, S, n['a'], depth + 1)
            if isinstance(v, tuple) and v[0] == 'ptr': return v[1]
        if k == 'un' and n['op'] == '&':
            v = self.value(fr, S, n['a'], depth + 1)
            return ('ptr', v) if v is not None else None
        if k == 'call' and n.get('op') == '*' and 'obj' in n:
            v = self.value(fr, S, n['obj'], depth + 1)
            if isinstance(v, tuple) and v[0] == 'ptr': return v[1]
        if k == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in ('value', 'operator bool') and 'obj' in n:
            v = self.value(fr, S, n['obj'], depth + 1)
            if isinstance(v, tuple) and v[0] == 'ptr': return v[1] if n['qn'].endswith('value') else None
        if k == 'ctor' and len(n.get('args', [])) == 1 and ct is None:
            return self.value(fr, S, n['args'][0], depth + 1)
        if k == 'ilist' and len(n.get('args', [])) == 1 and ct is None:
            return self.value(fr, S, n['args'][0], depth + 1)
        if k == 'var':
            kv = ('v', fid, n['v'])
            if kv in S.v: return S.v[kv]
        ps = self.paths(fr, eid)
        if ct == 'cand':
            if len(ps) == 1 and ps[0][0][0] != 't': return ('cand',) + self.obj(S, ps[0])
            return None
        if ct == 'pair':
            if len(ps) == 1 and ps[0][0][0] != 't':
                return ('pair', ('cand',) + self.obj(S, (ps[0][0], ps[0][1] + ('first',))), ('cand',) + self.obj(S, (ps[0][0], ps[0][1] + ('second',))))
            return None
        if len(ps) == 1 and ps[0][1] and ps[0][1][-1] in FLD and self.base_is_cand(f, n):
            o = self.obj(S, (ps[0][0], ps[0][1][:-1]))
            return o[FLD.index(ps[0][1][-1])]
        if k == 'var' and f.V[n['v']]['st'] == 'param':
            b = bind.get(('val', f.V[n['v']]['idx']))
            if b is not None: return b
            t = self.cls(f, eid)
            if t: return ('c' if t == 'chrom' else 'u', ('p', fid, f.V[n['v']]['idx']))
        if k == 'var' and f.vtype(n['v']).get('ref'):
            i = self.PT.inits(f).get(n['v'])
            if i and i[0] is not None: return self.value(fr, S, i[0], depth + 1)
        return None

    def base_is_cand(self, f, n):
        while n['k'] in ('cast', 'wrap'): n = f.E[n['e']]
        if n['k'] == 'field': return tname(f.type(n['b'])) == CAND or n.get('cls', '').startswith(CAND)
        if n['k'] == 'var':
            v = f.V[n['v']]
            return f.vtype(n['v']).get('ref') is not None or v['st'] in ('binding', 'param')
        return n['k'] == 'call'

    def cls(self, f, eid):
        """'chrom' for containers of genes, 'fit' for fitness vectors (by record name)"""
        t = f.type(eid); s = t.get('rec', '') or t.get('s', '')
        if s.startswith('std::vector<') and any(s.startswith('std::vector<%s' % g) for g in ('double', 'long', 'unsigned long', 'unsigned char', 'short')): return 'chrom'
        if s.startswith('gapp::small_vector<double'): return 'fit'
        return None

    # ---- coherence
    def ok(self, o):
        c, ft, m = o
        if m == 'F': return True
        if ft == ('f', c): return True
        if isinstance(m, tuple):
            if m[0] == 'm': return ft == ('fo', m[1], c) or (isinstance(ft, tuple) and ft[0] == 'fo' and ft[1] == m[1] and ft[2] == c)
            if m[0] == 'eq': return self.ok(tuple(sub(x, m[1], m[2]) for x in (c, ft, 'T')))
            if m[0] == 'and':
                if self.ok((c, ft, m[1])) or self.ok((c, ft, m[2])): return True
                x, y = m[1], m[2]
                for a, b in ((x, y), (y, x)):
                    c2, f2, m2 = c, ft, b
                    if isinstance(a, tuple) and a[0] == 'eq': c2, f2, m2 = (sub(z, a[1], a[2]) for z in (c, ft, b))
                    elif isinstance(a, tuple) and a[0] == 'm' and isinstance(ft, tuple) and ft[0] == 'fo' and ft[1] == a[1]: f2 = ('f', ft[2])
                    else: continue
                    if self.ok((c2, f2, m2)): return True
                    if isinstance(m2, tuple) and m2[0] == 'm' and isinstance(f2, tuple) and f2[0] == 'fo' and f2[1] == m2[1] and f2[2] == c2: return True
                return False
            if m[0] == 'or': return self.ok((c, ft, m[1])) and self.ok((c, ft, m[2]))
        return False

    def check(self, fr, S, eid, val, what):
        self.checked += 1
        if val is None: return
        if val[0] == 'pair':
            for x in val[1:]: self.check(fr, S, eid, x, what)
            return
        if val[0] == 'cand' and not self.ok(val[1:]):
            self.err(fr, eid, what + self.why(val[1:]))

    def why(self, o):
        c, ft, m = o
        if isinstance(ft, tuple) and ft[0] in ('fo', 'f'): return ': it can be marked as evaluated while its fitness belongs to a different chromosome'
        return ': it can be marked as evaluated while its fitness was not computed from its chromosome'

    def err(self, fr, eid, msg):
        f = fr[0]
        self.errors.append((f, eid, msg, self.cur_root))

    # ---- statements
    def set_obj(self, S, k, o): S.o[k] = o

    def assign_value(self, fr, S, eid, lhs, val):
        """whole candidate assignment"""
        for p in self.paths(fr, lhs):
            if '[]' in p[1] or '*' in p[1]: self.check(fr, S, eid, val, 'a candidate is stored in a container')
            ct = self.ctype(fr[0], lhs)
            if ct == 'pair':
                for i, nm in ((1, 'first'), (2, 'second')):
                    self.put(S, (p[0], p[1] + (nm,)), val[i] if val and val[0] == 'pair' else None, eid)
            else: self.put(S, p, val, eid)

    def put(self, S, k, val, eid):
        if val is not None and val[0] == 'cand': S.o[k] = tuple(val[1:])
        else: S.o.pop(k, None); self.obj(S, k)

    def havoc_chrom(self, S, k, eid, fid):
        o = self.obj(S, k)
        S.o[k] = (('c', ('w', fid, eid)), o[1], o[2])

    def step(self, fr, S, e):
        """one CFG element -> list of successor states"""
        f, bind, fid = fr
        self.steps += 1
        if isinstance(e, dict): return [S]
        n = f.E[e]; k = n['k']
        if k == 'decl':
            for v in n['vars']:
                if 'init' not in v: continue
                val = self.value(fr, S, v['init'])
                t = f.vtype(v['v'])
                if t.get('ref') and tname(t) in (CAND, PAIR):
                    continue
                key = (('v', fid, v['v']), ())
                if tname(t) == CAND: self.put(S, key, val, e)
                elif tname(t) == PAIR:
                    for i, nm in ((1, 'first'), (2, 'second')): self.put(S, (key[0], (nm,)), val[i] if val and val[0] == 'pair' else None, e)
                elif val is not None and not t.get('ref'): S.v[('v', fid, v['v'])] = val
                elif val is not None and isinstance(val, tuple) and val[0] in ('f', 'fo', 'c', 'u') and f.V[v['v']]['st'] == 'local' and f.E[v['init']]['k'] in ('call', 'wrap', 'un') and ('e', fid, v['init']) in S.v:
                    S.v[('v', fid, v['v'])] = val
            return [S]
        if k == 'assign' and n['op'] == '=':
            return self.do_assign(fr, S, e, n['a'], n['b'])
        if k == 'assign' and n['op'] in ('&=', '|='):
            for p in self.paths(fr, n['a']):
                if p[1] and p[1][-1] == 'is_evaluated':
                    o = self.obj(S, (p[0], p[1][:-1])); v = self.value(fr, S, n['b'])
                    S.o[(p[0], p[1][:-1])] = (o[0], o[1], conj(o[2], v) if n['op'] == '&=' else disj(o[2], v) or ('u', e))
            return [S]
        if k in ('call', 'ctor'): return self.call(fr, S, e, n)
        return [S]

    def do_assign(self, fr, S, e, a, b):
        f, bind, fid = fr
        ct = self.ctype(f, a)
        val = self.value(fr, S, b)
        if ct: self.assign_value(fr, S, e, a, val); return [S]
        done = False
        for p in self.paths(fr, a):
            if p[1] and p[1][-1] in FLD and (self.base_is_cand(f, f.E[a]) ):
                k = (p[0], p[1][:-1]); o = list(self.obj(S, k)); i = FLD.index(p[1][-1])
                if i == 0: o[0] = val if isinstance(val, tuple) and val[0] == 'c' else ('c', ('w', fid, e))
                elif i == 1: o[1] = val if isinstance(val, tuple) and val[0] in ('f', 'fo', 'u') else ('u', ('w', fid, e))
                else: o[2] = val if val is not None else ('u', ('w', fid, e))
                S.o[k] = tuple(o); done = True
            elif 'chromosome' in p[1]:
                i = p[1].index('chromosome'); self.havoc_chrom(S, (p[0], p[1][:i]), e, fid); done = True
            elif 'fitness' in p[1] and not p[1][-1].startswith('?'):
                i = p[1].index('fitness'); k = (p[0], p[1][:i])
                if '[]' in p[1][i:] and k in S.o:
                    o = self.obj(S, k); S.o[k] = (o[0], ('u', ('w', fid, e)), o[2])
        n = f.E[a]
        if n['k'] == 'var' and not done:
            kv = ('v', fid, n['v'])
            if val is not None: S.v[kv] = val
            else: S.v.pop(kv, None)
        return [S]

    def relevant_fn(self, g):
        """inline: takes / returns candidates, chromosomes, fitness vectors or decides about them"""
        if not g.blocks: return False
        ts = [g.vtype(v) for v in g.params] + [self.P.T(g.d.get('ret'))]
        for t in ts:
            s = t.get('s', '')
            if CAND in s or PAIR in s: return True
        return False

    def call(self, fr, S, e, n):
        f, bind, fid = fr; P = self.P
        qn = n.get('qn', ''); nm = qn.rsplit('::', 1)[-1]
        ev = ('e', fid, e)
        args = n.get('args', [])
        ct = self.ctype(f, e)
        # opaque operations
        if n['k'] == 'call':
            if method_of(P, n, FITF, ('operator()', 'invoke')) or qn == 'std::invoke' and args and FITF in f.type(args[0]).get('s', ''):
                # user code that may throw: whatever can be seen afterwards must be coherent now
                for k, o in S.o.items():
                    if k[0][0] in ('p', 'this', 'othis') and o[2] == 'T' and not self.ok(o): self.err(fr, e, 'the fitness function, which may throw, is called while a candidate is not coherent' + self.why(o).replace('can be', 'is'))
            if method_of(P, n, FITF, ('operator()', 'invoke')) and args:
                c = self.value(fr, S, args[0])
                S.v[ev] = ('f', c) if isinstance(c, tuple) and c[0] == 'c' else ('u', ('w', fid, e)); return [S]
            if qn == 'std::invoke' and args and FITF in f.type(args[0]).get('s', '') and len(args) > 1:
                c = self.value(fr, S, args[1])
                S.v[ev] = ('f', c) if isinstance(c, tuple) and c[0] == 'c' else ('u', ('w', fid, e)); return [S]
            if n.get('cls', '').startswith(CACHE) and args:
                v = self.value(fr, S, args[0])
                if v and v[0] == 'cand' and 'obj' in n and nm not in ('insert', 'emplace'):
                    S.v[ev] = ('ptr', ('f', v[1])); return [S]
            if method_of(P, n, CROSS, ('crossover',)):
                d = lambda i: ('cand', ('c', ('x', fid, e, i)), ('u', ('x', fid, e, i)), ('u', ('x', fid, e, i)))
                S.v[ev] = ('pair', d(0), d(1)); return [S]
            if n.get('op') == '=' and 'obj' in n: return self.do_assign(fr, S, e, n['obj'], args[0])
            if n.get('op') in ('==', '!=') or nm == 'floatVecIsEqual' or (qn == 'std::equal'):
                xs = ([n['obj']] if 'obj' in n else []) + list(args)
                if qn == 'std::equal': xs = []
                vs = [self.value(fr, S, x) for x in xs[:2]]
                tk = [v[1] if v and v[0] == 'cand' else (v if v and v[0] == 'c' else None) for v in vs]
                if len(tk) == 2 and tk[0] and tk[1]:
                    S.v[ev] = ('eq', tk[0], tk[1]) if n.get('op') != '!=' else ('not', ('eq', tk[0], tk[1])); return [S]
                if n.get('op') in ('==', '!='): return [S]
            if qn in ('std::swap',) and len(args) == 2 and self.ctype(f, args[0]) == 'cand':
                a, b = self.value(fr, S, args[0]), self.value(fr, S, args[1])
                self.assign_value(fr, S, e, args[0], b); self.assign_value(fr, S, e, args[1], a); return [S]
            if qn == 'std::exchange' and len(args) == 2:
                old = self.value(fr, S, args[0])
                self.do_assign(fr, S, e, args[0], args[1])
                if old is not None: S.v[ev] = old
                return [S]
            if nm in CONTAINER_ADD and 'obj' in n:
                for a in args:
                    if self.ctype(f, a): self.check(fr, S, e, self.value(fr, S, a), 'a candidate is added to a container')
        if n['k'] == 'ctor' and ct == 'cand' and not (n.get('copy') or n.get('move')):
            g = P.funcs.get(n.get('fn'))
            m = 'F'
            if g is not None and not g.get('defaulted'):
                for b in g.order():
                    for x in g.blocks[b]['e']:
                        if isinstance(x, dict) and x['k'] == 'init' and x.get('field') == 'is_evaluated' and isinstance(x.get('e'), int):
                            y = x['e']
                            while g.E[y]['k'] in ('definit', 'cast', 'wrap') and g.E[y].get('e', -1) >= 0: y = g.E[y]['e']
                            m = 'F' if g.E[y].get('v') == 'false' else ('u', ('w', fid, e))
            c = None
            if args:
                c = self.value(fr, S, args[0])
            S.v[ev] = ('cand', c if isinstance(c, tuple) and c[0] == 'c' else ('c', ('w', fid, e)), ('u', ('w', fid, e)), m); return [S]
        if n['k'] == 'ctor':
            return [S]
        # inlining
        gs = [g for g in P.callees(f, n) if P.is_repo(g)]
        lam = []
        if qn in ('std::invoke',) or (n.get('op') == '()' and 'obj' in n and f.type(n['obj']).get('lambda')):
            lam = [g for a in (args[:1] if qn == 'std::invoke' else [n['obj']]) for g in P.lambda_of(f, a)]
        cls_ret = self.cls(f, e)
        cand_args = [a for a in args if self.ctype(f, a) == 'cand' or self.ctype(f, a) == 'pair' ]
        for g in lam + gs:
            if (self.relevant_fn(g) or (g.get('lambda') and lam)) and not n.get('virt') and len(self.stack) < 8 and g.key not in self.stack:
                return self.inline(fr, S, e, n, g, args[1:] if (lam and qn == 'std::invoke') else args)
        # unknown effects on candidate parts handed out by mutable reference / iterator
        pts = n.get('pt', [])
        pairs = [(a, P.T(pts[i]) if i < len(pts) else {}) for i, a in enumerate(args)]
        if 'obj' in n and not n.get('cm'): pairs.append((n['obj'], {'ref': 1}))
        if not (qn in ('std::move', 'std::forward', 'std::as_const')):
            for a, t in pairs:
                mut = (t.get('ref') == 1 and not t.get('const'))
                at = f.type(a)
                it = ('iterator' in at.get('s', '') and 'const_iterator' not in at.get('s', '')) or (at.get('ptr') and not at.get('pconst'))
                fwd = t.get('ref') == 2 and not n.get('cm')
                if a == n.get('obj') and nm in ('begin', 'end', 'rbegin', 'rend', 'size', 'empty', 'operator[]', 'at', 'front', 'back', 'data', 'capacity', 'get', 'operator*', 'operator->', 'reserve', 'cbegin', 'cend'): continue
                ps = self.paths(fr, a) if (mut or fwd) and not it else []
                if it and qn.startswith('std::') and 'obj' not in n:
                    from effects import READ_ALGOS, WRITE_ALGOS
                    if qn in READ_ALGOS: continue
                    if qn in WRITE_ALGOS:
                        idx = [x if x >= 0 else len(args) + x for x in WRITE_ALGOS[qn]]
                        if args.index(a) not in idx: continue
                    ps = sorted({self.canon(fr, p) for p in self.PT.pointee(f, a)}, key=str)
                elif it and not qn.startswith('std::'):
                    ps = sorted({self.canon(fr, p) for p in self.PT.pointee(f, a)}, key=str)
                for p in ps:
                    for i, x in enumerate(FLD):
                        if x in p[1]:
                            j = p[1].index(x); key = (p[0], p[1][:j]); o = list(self.obj(S, key))
                            o[i] = ('c' if i == 0 else 'u', ('w', fid, e)); S.o[key] = tuple(o)
        if cls_ret == 'chrom' and ev not in S.v and qn not in ('std::move', 'std::forward', 'std::as_const'): S.v[ev] = ('c', ('w', fid, e))
        elif cls_ret == 'fit' and ev not in S.v and not n.get('lv') and qn not in ('std::move', 'std::forward', 'std::as_const'): S.v[ev] = ('u', ('w', fid, e))
        return [S]

    stack = ()

    def inline(self, fr, S, e, n, g, args):
        f, bind, fid = fr
        self.inlined.add(g.key)
        nb = {}
        nfid = g.key
        for i, a in enumerate(args):
            if i >= len(g.params): break
            t = g.vtype(g.params[i])
            ps = self.paths(fr, a)
            if t.get('ref') and len(ps) == 1 and ps[0][0][0] != 't': nb[i] = ps[0]
            elif tname(t) == CAND and not t.get('ref'):
                v = self.value(fr, S, a); self.put(S, (('p', nfid, i), ()), v, e)
            elif tname(t) == CAND:
                v = self.value(fr, S, a); self.put(S, (('p', nfid, i), ()), v, e)
            else:
                v = self.value(fr, S, a)
                if v is not None: nb[('val', i)] = v
        if 'obj' in n:
            ps = sorted({self.canon(fr, p) for p in self.PT._objpath(f, n)}, key=str)
            if len(ps) == 1: nb['this'] = ps[0]
        if g.get('lambda'): nb['__outer'] = fr
        st = self.stack
        self.stack = st + (g.key,)
        outs = self.run((g, nb, nfid), S, inlined=True)
        self.stack = st
        res = []
        for S2, rv in outs:
            S2 = S2.copy()
            # forget the callee's locals
            for k in list(S2.v):
                if k[1] == nfid: del S2.v[k]
            for k in list(S2.o):
                if k[0][0] in ('v', 'p', 't') and k[0][1] == nfid: del S2.o[k]
            if rv is not None: S2.v[('e', fid, e)] = rv
            res.append(S2)
        return dedupe(res)

    def refine(self, S, val, pol):
        """-> state or None"""
        if val is None: return S
        if val == 'T': return S if pol else None
        if val == 'F': return None if pol else S
        if isinstance(val, tuple):
            if val[0] == 'not': return self.refine(S, val[1], not pol)
            if val[0] == 'and' and pol:
                S = self.refine(S, val[1], True)
                return self.refine(S, val[2], True) if S else None
            if val[0] == 'or' and not pol:
                S = self.refine(S, val[1], False)
                return self.refine(S, val[2], False) if S else None
            if val[0] == 'm':
                S = S.copy()
                def fn(t):
                    t = sub(t, 'T' if pol else 'F', val)
                    if pol: t = fo2f(t, val[1])
                    return t
                S.map(fn); return S
            if val[0] == 'eq' and pol:
                S = S.copy(); S.map(lambda t: sub(t, val[1], val[2])); return S
        return S

    def run(self, fr, S0, inlined=False):
        """-> list of (exit state, return value)"""
        f, bind, fid = fr
        outs = []; seen = set()
        work = [(f.entry, S0.copy(), None)]
        n = 0
        while work:
            b, S, rv = work.pop()
            n += 1
            if n > 4000: self.cx.undecided.append('too many paths in ' + f.key); break
            key = (b, S.key(), rv)
            if key in seen: continue
            seen.add(key)
            if b == f.exit: outs.append((S, rv)); continue
            blk = f.blocks[b]
            states = [(S.copy(), rv)]
            for e in blk['e']:
                nx = []
                for S1, r1 in states:
                    if isinstance(e, int) and f.E[e]['k'] == 'ret':
                        r = None
                        if 'e' in f.E[e]:
                            r = self.value(fr, S1, f.E[e]['e'])
                            if not inlined and self.ctype(f, f.E[e]['e']): self.check(fr, S1, e, r, 'a candidate is returned')
                        nx.append((S1, r))
                    else:
                        for S2 in self.step(fr, S1, e): nx.append((S2, r1))
                states = nx
            if blk.get('nr'): continue
            for S1, r1 in states:
                c = blk.get('cond')
                succ = blk['s']
                is_assert = any(s >= 0 and f.blocks[s].get('nr') for s in succ)
                for ix, sc in enumerate(succ):
                    if sc < 0: continue
                    S2 = S1
                    if c is not None and c >= 0 and len(succ) == 2 and blk.get('term') not in ('CXXForRangeStmt', 'SwitchStmt'):
                        S2 = self.refine(S1, self.value(fr, S1, c), ix == 0)
                        if S2 is None: continue
                    work.append((sc, S2.copy(), r1))
        return outs

    def root(self, f, after_eval=()):
        self.cur_root = f
        self.stack = (f.key,)
        fr = (f, {}, f.key)
        outs = self.run(fr, State())
        for S, rv in outs:
            for k, o in S.o.items():
                if k[0][0] == 'v' and k[0][1] == f.key and '[]' not in k[1]: continue
                if k[0][0] == 't': continue
                if k[0][0] == 'p' and k[0][1] == f.key:
                    t = f.vtype(f.params[k[0][2]])
                    if not t.get('ref') and not t.get('ptr') and 'iterator' not in t.get('s', '') and '[]' not in k[1]: continue
                if k[0][0] == 'g': continue     # scratch copies; checked where they are copied back
                self.checked += 1
                if not self.ok(o): self.err(fr, None, 'a candidate leaves the function' + self.why(o))
        return outs


def fo2f(t, o):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'fo' and t[1] == o: return ('f', fo2f(t[2], o))
        return tuple(fo2f(x, o) for x in t)
    return t


def neg(v):
    if v == 'T': return 'F'
    if v == 'F': return 'T'
    if v is None: return None
    if isinstance(v, tuple) and v[0] == 'not': return v[1]
    return ('not', v)


def conj(a, b):
    if a == 'F' or b == 'F': return 'F'
    if a == 'T': return b
    if b == 'T': return a
    if a is None and b is None: return None
    if a is None: return ('and', ('u', 0), b)
    if b is None: return ('and', a, ('u', 0))
    return ('and', a, b)


def disj(a, b):
    if a == 'T' or b == 'T': return 'T'
    if a == 'F': return b
    if b == 'F': return a
    if a is None or b is None: return None
    return ('or', a, b)


def dedupe(ss):
    seen = set(); out = []
    for s in ss:
        k = s.key()
        if k not in seen: seen.add(k); out.append(s)
    return out


def touches(cx, I, f):
    """does f (itself) assign candidates or parts of candidates, or create them?"""
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        n = f.E[e]
        if n['k'] == 'assign' or (n['k'] == 'call' and n.get('op') == '=' and 'obj' in n):
            lhs = n['a'] if n['k'] == 'assign' else n['obj']
            if I.ctype(f, lhs): return True
            for r, s in cx.paths.path(f, lhs):
                if any(x in s for x in FLD): return True
        if n['k'] == 'ctor' and n.get('rec', '').startswith(CAND) and not (n.get('elide')): return True
        if n['k'] == 'call':
            for i, a in enumerate(n.get('args', [])):
                t = cx.P.T(n['pt'][i]) if i < len(n.get('pt', [])) else {}
                if t.get('ref') == 1 and not t.get('const'):
                    for r, s in cx.paths.path(f, a):
                        if any(x in s for x in FLD): return True
    return False


def check(cx):
    P = cx.P
    R = Roles(cx)
    I = Interp(cx, R)
    impl = set()
    for f in P.funcs.values():
        if f.cls and ((f.name == 'crossover' and P.is_a(f.cls, CROSS)) or (f.name == 'mutate' and P.is_a(f.cls, MUT))): impl.add(f.key)
    cx.anchor(impl, 'crossover / mutation implementations')
    # functions reached from the operator implementations work on candidates the wrappers reset
    down = set(impl); st = list(impl)
    while st:
        f = P.funcs.get(st.pop())
        if not f: continue
        for n in f.E:
            if not n: continue
            nxt = []
            if n['k'] in ('call', 'ctor') and n.get('fn') in P.funcs: nxt.append(n['fn'])
            if n['k'] == 'lambda': nxt += n['ops']
            for k in nxt:
                if k in P.funcs and k not in down: down.add(k); st.append(k)
    callers = {}
    for f in P.funcs.values():
        for n in f.E:
            if n and n['k'] == 'call' and n.get('fn') in P.funcs: callers.setdefault(n['fn'], set()).add(f.key)
    cand_cls = lambda f: f.cls and f.cls.split('<')[0] in (CAND, PAIR)
    tf = [f for f in P.funcs.values() if f.blocks and not cand_cls(f) and touches(cx, I, f) and (P.is_repo(f) or 'verif_selftest' in f.key)]
    tset = {f.key for f in tf}
    roots = []
    tk = reaching(P, tset)
    # lambdas that are handed to other functions (the others are only called by name, where they are followed)
    passed = {h.type(x).get('rec') for h in P.funcs.values() for n in h.E if n and n['k'] in ('call', 'ctor') for x in n.get('args', []) if x >= 0 and h.type(x).get('lambda')}
    for f in P.funcs.values():
        if not f.blocks or cand_cls(f): continue
        if not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        if f.key in down and f.key not in impl:
            outer = [c for c in callers.get(f.key, ()) if c not in down and P.funcs[c].key in tk]
            if not outer: continue
        if f.key in impl: continue
        inl = I.relevant_fn(f) and any(c in tk and c not in down and not cand_cls(P.funcs[c]) for c in callers.get(f.key, ()))
        public = f.d.get('access') == 'public' and f.cls and not f.get('lambda') or f.get('lambda') and f.cls in passed or f.get('virtual')
        if f.key in tset and (public or not inl): roots.append(f)
        elif f.key not in tset and any(P.funcs[c].key in tset for n in f.E if n and n['k'] == 'call' for c in [n.get('fn')] if c in P.funcs and I.relevant_fn(P.funcs[c])): roots.append(f)
    cx.anchor(len(roots) >= 5, 'functions handling candidates')
    for f in roots:
        ne = len(I.errors)
        I.root(f)
        cx.obligation('candidates stay coherent: ' + f.key, len(I.errors) == ne)
    # evaluation: every exit of the function that computes the fitness of a candidate leaves it evaluated
    evs = []
    for f in P.funcs.values():
        if not P.is_repo(f) or not f.blocks or f.key in impl or not f.cls or f.cls not in R.ga: continue
        if any(n and n['k'] == 'call' and method_of(P, n, FITF, ('operator()',)) for n in f.E):
            for v in f.params:
                t = f.vtype(v)
                if tname(t) == CAND and t.get('ref') == 1 and not t.get('const'): evs.append((f, f.V[v]['idx']))
    if not evs:
        cx.undecided.append('no function evaluates a candidate in place')
    for f, idx in evs:
        outs = I.root(f)
        bad = False
        for S, rv in outs:
            o = I.obj(S, (('p', f.key, idx), ()))
            if o[2] != 'T': bad = True
        cx.obligation('evaluation leaves the candidate evaluated on every path: ' + f.key, not bad)
        if bad: cx.violation('C01:eval:' + f.qn, f.loc(), 'a path through %s leaves the candidate without a valid fitness' % f.qn, (), f.key)
    # equality of candidates must look at both chromosomes
    for f in P.funcs.values():
        if f.name == 'operator==' and len(f.params) == 2 and all(tname(f.vtype(v)) == CAND for v in f.params) and P.is_repo(f):
            acc = {a.path[0] for a in cx.effects.summary(f) if 'chromosome' in a.path[1]}
            got = set()
            for n in f.E:
                if n and n['k'] == 'field' and n['name'] == 'chromosome':
                    for r, s in cx.paths.path(f, n['b']): got.add(r)
            # the result comes from a comparison given both whole chromosomes (or full ranges of both)
            whole = lambda a: {r for src in (cx.paths.path(f, a), cx.paths.pointee(f, a)) for r, s in src if s and 'chromosome' in s and not (set(s) - {'chromosome', '[]', '*', '&'})}
            cmps = set()
            for ei, n in enumerate(f.E):
                if n and n['k'] == 'call' and f.type(n).get('s') == 'bool':
                    xs = ([n['obj']] if 'obj' in n else []) + n.get('args', [])
                    rs = set().union(*[whole(a) for a in xs]) if xs else set()
                    if {('p', 0), ('p', 1)} <= rs: cmps.add(ei)
                    if n.get('op') == '!=' and ei in cmps: cmps.discard(ei) if not any(f.E[q] and f.E[q]['k'] == 'un' for q in f.parents()[ei]) else None
            rets = [n for n in f.E if n and n['k'] == 'ret' and 'e' in n]
            ok = ('p', 0) in got and ('p', 1) in got and bool(cmps) and any(f.subtree(n['e']) & cmps for n in rets)
            cx.obligation('candidate equality compares both chromosomes: ' + f.key, ok)
            if not ok: cx.violation('C01:eq:' + f.qn, f.loc(), 'equality of candidates does not compare both chromosomes', (), f.key)
    from rules import c19
    c19.entries_kept(cx, R)
    seen = set()
    for f, eid, msg, root in I.errors:
        key = 'C01:%s:%s' % (strip(f.key), msg.split(':')[0])
        cx.violation(key, f.loc(eid), '%s (in %s)' % (msg, f.key), [root.key] if root is not f else [], f.key)
    cx.coverage.update(roots=[f.key for f in roots][:80], inlined=sorted(I.inlined)[:60], coherence_checks=I.checked, steps=I.steps)


def strip(k):
    import re
    return re.sub(r'\(.*$', '', re.sub(r'<[^<>]*>', '', k))
