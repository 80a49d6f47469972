"""Abstract interpretation of functions over a finite domain of constants, addresses and symbolic tokens.

Property-simulation style dataflow: each CFG block holds the set of abstract stores that reach it; stores are finite
maps location -> abstract value, branches on values the store knows nothing about go both ways and remember the
outcome (for that value) as a fact.  Values derived at one program point are one token per point, so the number of
stores is finite.  No path condition is ever solved.

values     ('k', const)  ('at', loc) address / reference / iterator  ('i', loc) value at entry  ('w', site) unknown made
           at a program point  ('ap', op, args..) operation  ('rec', base, items) record value  ('lam', fns, envloc)  ('nn', x)
locations  (root, selectors)
"""

MOVE = ('std::move', 'std::forward', 'std::as_const', 'std::forward_like')
NOTHROW_LIB = ('std::move', 'std::forward', 'std::swap', 'std::exchange', 'std::min', 'std::max', 'std::addressof', 'std::get', 'std::begin', 'std::end', 'std::size', 'std::as_const')
SMART = ('std::unique_ptr', 'std::shared_ptr')
LIBFN = ('std::function', 'gapp::detail::move_only_function', 'gapp::detail::function_ref', 'std::move_only_function')


def const(x): return ('k', x)


class Store:
    __slots__ = ('m', '_k')

    def __init__(self, m=None): self.m = m if m is not None else {}; self._k = None
    def copy(self): return Store(dict(self.m))

    def key(self): return frozenset(self.m.items())


class Frame:
    __slots__ = ('f', 'fid', 'this', 'env', 'up', 'depth', 'refs')

    def __init__(self, f, fid, this, env, up):
        self.f = f; self.fid = fid; self.this = this; self.env = env; self.up = up; self.depth = up.depth + 1 if up else 0


class TooBig(Exception): pass


class AbsInt:
    exc = False              # follow exceptional edges?
    max_depth = 12
    max_states = 6000

    def __init__(self, cx):
        self.cx = cx; self.P = cx.P
        self.visited = set(); self.steps = 0; self.incomplete = []
        self._caps = {}; self._plans = {}

    # ------------------------------------------------------------------ hooks
    def hook_call(self, fr, S, e, n):
        """None: default treatment, or list of (kind, store, value)"""
        return None

    def hook_descend(self, fr, S, e, n, g): return True
    def hook_elem(self, fr, S, e, n): return None       # extra: list of stores
    def hook_return(self, fr, S, kind, val): pass
    def hook_branch(self, fr, S, b, ix, cond): return S
    def sticky(self, tok): return False        # facts about this token are never forgotten
    def unknown_result(self, fr, S, e, n, args):
        """value of a call whose callee is not followed"""
        return None

    def may_throw(self, fr, n):
        if n.get('ne') or n.get('qn', '') in NOTHROW_LIB: return False
        return True

    # ------------------------------------------------------------------ store
    def read(self, S, loc):
        m = S.m
        if loc in m: return m[loc]
        r, s = loc
        for i in range(len(s) - 1, -1, -1):
            v = m.get((r, s[:i]))
            if v is not None: return self.field(S, v, s[i:])
        return ('i', loc)

    def field(self, S, v, sels):
        if v[0] == 'i': return ('i', (v[1][0], v[1][1] + sels))
        if v[0] == 'rec':
            best = None
            for k, x in v[2]:
                if k == sels[:len(k)] and (best is None or len(k) > len(best[0])): best = (k, x)
            if best is not None: return best[1] if best[0] == sels else self.field(S, best[1], sels[len(best[0]):])
            return self.field(S, v[1], sels)
        if v[0] == 'fld': return ('fld', v[1], v[2] + sels)
        return ('fld', v, sels)

    def snapshot(self, S, loc):
        """value of the whole object at loc"""
        r, s = loc; n = len(s)
        items = []
        for k, x in S.m.items():
            if k[0] == r and isinstance(k[1], tuple) and len(k[1]) > n and k[1][:n] == s and k[0] != '?': items.append((k[1][n:], x))
        base = self.read(S, loc)
        if not items: return base
        if base[0] == 'rec':
            d = dict(base[2])
            for k, x in items:
                for q in list(d):
                    if q[:len(k)] == k: del d[q]
                d[k] = x
            return ('rec', base[1], frozenset(d.items()))
        return ('rec', base, frozenset(items))

    def write(self, S, loc, v):
        r, s = loc; n = len(s); m = S.m
        dead = [k for k in m if k[0] == r and isinstance(k[1], tuple) and len(k[1]) >= n and k[1][:n] == s]
        for k in dead: del m[k]
        if v[0] == 'rec':
            m[loc] = v[1]
            for k, x in v[2]: m[(r, s + k)] = x
        else: m[loc] = v

    def fresh(self, S, site):
        """the unknown made at a program point; facts about an earlier one made there are forgotten"""
        v = ('w', site)
        for k in [k for k in S.m if k[0] == '?' and mentions(k[1], v)]: del S.m[k]
        return v

    # ------------------------------------------------------------------ truth
    def truth(self, S, v):
        if v is None: return None
        t = v[0]
        if t == 'k': return bool(v[1]) if not isinstance(v[1], str) else (True if v[1][:1] == '"' else None)
        if t in ('at', 'nn', 'lam'): return True
        f = S.m.get(('?', v))
        if f is not None: return f
        if t == 'ap':
            op = v[1]
            if op == '!':
                x = self.truth(S, v[2]); return None if x is None else not x
            if op in ('&&', '||'):
                a, b = self.truth(S, v[2]), self.truth(S, v[3])
                if op == '&&': return False if a is False or b is False else True if a and b else None
                return True if a or b else False if a is False and b is False else None
            if op == '==': return self.equal(S, v[2], v[3])
            if op == '!=':
                x = self.equal(S, v[2], v[3]); return None if x is None else not x
            if op in ('<', '>', '<=', '>='):
                a, b = v[2], v[3]
                if a[0] == 'k' and b[0] == 'k' and isnum(a[1]) and isnum(b[1]):
                    return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
                if a == b: return op in ('<=', '>=')
                for o, sw, ng in (('<', '>', '>='), ('>', '<', '<='), ('<=', '>=', '>'), ('>=', '<=', '<')):
                    if op == o:
                        x = S.m.get(('?', ('ap', sw, b, a)))
                        if x is not None: return x
                        x = S.m.get(('?', ('ap', ng, a, b)))
                        if x is not None: return not x
                        x = S.m.get(('?', ('ap', {'>=': '<=', '<=': '>=', '>': '<', '<': '>'}[ng], b, a)))
                        if x is not None: return not x
                if b == const(0) and op == '>' : return self.truth_raw(S, a)
                if b == const(0) and op == '<=':
                    x = self.truth_raw(S, a); return None if x is None else not x
        return None

    def truth_raw(self, S, v): return S.m.get(('?', v))

    def equal(self, S, a, b):
        if a[0] == 'k' and isinstance(a[1], float) and a[1] != a[1] and b[0] == 'k': return False
        if a == b: return True
        if a[0] == 'k' and b[0] == 'k': return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if y[0] == 'k':
                if y[1] is None or y[1] is False or y[1] == 0:
                    t = self.truth(S, x)
                    if t is not None: return not t
                if y[1] is True:
                    t = self.truth(S, x)
                    if t is not None: return t
        for x, y in ((a, b), (b, a)):
            f = S.m.get(('?', ('ap', '==', x, y)))
            if f is not None: return f
            f = S.m.get(('?', ('ap', '!=', x, y)))
            if f is not None: return not f
        # known to equal another constant
        for x, y in ((a, b), (b, a)):
            if y[0] == 'k':
                for k, f in S.m.items():
                    if k[0] == '?' and f is True and k[1][0] == 'ap' and k[1][1] == '==' and k[1][2] == x and k[1][3][0] == 'k' and k[1][3] != y: return False
        return None

    def assume(self, S, v, pol):
        """store in which v is true/false, or None when that is impossible"""
        t = self.truth(S, v)
        if t is not None: return S if t == pol else None
        if v[0] == 'ap' and v[1] == '!': return self.assume(S, v[2], not pol)
        if v[0] == 'ap' and v[1] == '!=': return self.assume(S, ('ap', '==') + v[2:], not pol)
        if v[0] == 'ap' and v[1] == '==':
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if y[0] == 'k' and (y[1] is None or y[1] is False or (y[1] == 0 and y[1] is not True)):
                    return self.assume(S, x, not pol)
                if y == const(True): return self.assume(S, x, pol)
        if v[0] == 'ap' and v[1] == '&&' and pol:
            S = self.assume(S, v[2], True)
            return self.assume(S, v[3], True) if S else None
        if v[0] == 'ap' and v[1] == '||' and not pol:
            S = self.assume(S, v[2], False)
            return self.assume(S, v[3], False) if S else None
        S = S.copy(); S.m[('?', v)] = pol
        return S

    # ------------------------------------------------------------------ expressions
    def strip(self, f, e):
        while True:
            n = f.E[e]
            if n is None: return e
            if n['k'] in ('wrap', 'definit', 'defarg') and n.get('e', -1) >= 0: e = n['e']
            elif n['k'] == 'cast' and n.get('e', -1) >= 0: e = n['e']
            elif n['k'] == 'call' and n.get('qn') in MOVE and n['args']: e = n['args'][0]
            else: return e

    def isref(self, f, vid):
        return bool(f.vtype(vid).get('ref'))

    def varloc(self, fr, S, vid):
        f = fr.f; v = f.V[vid]; st = v['st']
        if st == 'param':
            loc = (('P', fr.fid, v['idx']), ())
            if f.vtype(vid).get('ref'):
                x = S.m.get((('P', fr.fid, v['idx']), ('&',)))
                return x[1] if x is not None and x[0] == 'at' else loc
            return loc
        if st in ('global', 'static', 'tls'): return (('G', v['g']), ())
        if st == 'outer':
            env = fr.env
            if env is not None:
                x = S.m.get((env, ('&' + v['name'],)))
                if x is not None and x[0] == 'at': return x[1]
                if (env, (v['name'],)) in S.m or any(k[0] == env and k[1][:1] == (v['name'],) for k in S.m): return (env, (v['name'],))
            # creator frame still on the stack?
            up = fr.up
            while up is not None:
                for i, w in enumerate(up.f.V):
                    if w and w['name'] == v['name'] and w['l'] == v['l'] and w['c'] == v['c'] and w['st'] != 'outer': return self.varloc(up, S, i)
                up = up.up
            return (('O', v['name'], v['l'], v['c']), ())
        if st == 'binding':
            if v.get('bind') is not None and v.get('bind', -1) >= 0:
                b = f.E[v['bind']]
                if b['k'] in ('field', 'sub', 'call'): return self.lval(fr, S, v['bind'])
            if 'of' in v:
                l = self.varloc(fr, S, v['of']); return (l[0], l[1] + ('#%d' % v.get('bidx', 0),))
        loc = (('V', fr.fid, vid), ())
        if f.vtype(vid).get('ref'):
            x = S.m.get((('V', fr.fid, vid), ('&',)))
            if x is not None and x[0] == 'at': return x[1]
        return loc

    def deref(self, S, v):
        if v is None: return (('S', ('?',)), ())
        if v[0] == 'at': return v[1]
        return (('S', v), ())

    def temp(self, fr, e): return (('T', fr.fid, e), ())

    def lval(self, fr, S, e):
        """location an expression designates (temporaries get one of their own)"""
        f = fr.f; n = f.E[e]
        if n is None: return self.temp(fr, e)
        k = n['k']
        if k == 'var': return self.varloc(fr, S, n['v'])
        if k == 'field':
            if n.get('arrow'): b = self.deref(S, self.value(fr, S, n['b']))
            else: b = self.lval(fr, S, n['b'])
            if not n['name']: return b
            loc = (b[0], b[1] + (n['name'],))
            ft = f.type(n)
            # reference members
            x = S.m.get((loc[0], loc[1] + ('&',)))
            if x is not None and x[0] == 'at': return x[1]
            return loc
        if k in ('cast', 'wrap', 'definit', 'defarg') and n.get('e', -1) >= 0: return self.lval(fr, S, n['e'])
        if k == 'un' and n['op'] == '*': return self.deref(S, self.value(fr, S, n['a']))
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'): return self.lval(fr, S, n['a'])
        if k == 'assign': return self.lval(fr, S, n['a'])
        if k == 'sub':
            b = self.value(fr, S, n['a'])
            l = b[1] if b[0] == 'at' else self.lval(fr, S, n['a'])
            if l[1] and l[1][-1] == '[]': return l
            return (l[0], l[1] + ('[]',))
        if k == 'this': return self.temp(fr, e)
        if k == 'cond':
            t = self.truth(S, self.value(fr, S, n['c']))
            if t is True: return self.lval(fr, S, n['a'])
            if t is False: return self.lval(fr, S, n['b'])
            return self.temp(fr, e)
        if k == 'call':
            x = S.m.get(('e', (fr.fid, e)))
            if x is not None:
                if n.get('lv') and x[0] == 'at': return x[1]
                if n.get('lv'): return (('S', x), ())
            if n.get('qn') in MOVE and n['args']: return self.lval(fr, S, n['args'][0])
        if k in ('ctor', 'ilist', 'call', 'lambda', 'bin', 'lit', 'zero', 'new'):
            loc = self.temp(fr, e)
            return loc
        return self.temp(fr, e)

    def value(self, fr, S, e):
        f = fr.f
        if e is None or e < 0: return ('?v',)
        n = f.E[e]
        if n is None: return ('?v',)
        x = S.m.get(('e', (fr.fid, e)))
        if x is not None:
            if n['k'] == 'call' and n.get('lv') and x[0] == 'at': return self.snapshot(S, x[1])
            return x
        k = n['k']
        if k == 'lit': return self.literal(f, n)
        if k == 'str': return const('"' + n['v'])
        if k == 'enum': return const(n.get('name', '?'))
        if k == 'this': return ('at', fr.this) if fr.this is not None else self.outer_this(fr, S)
        if k in ('wrap', 'definit', 'defarg'): return self.value(fr, S, n['e']) if n.get('e', -1) >= 0 else ('?v',)
        if k == 'cast':
            v = self.value(fr, S, n['e'])
            t = f.type(n).get('s', '')
            if v[0] == 'k' and t == 'bool' and not isinstance(v[1], str): return const(bool(v[1]))
            return v
        if k == 'un':
            op = n['op']
            if op == '&': return ('at', self.lval(fr, S, n['a']))
            if op == '*': return self.snapshot(S, self.lval(fr, S, e))
            if op == '!':
                v = self.value(fr, S, n['a']); t = self.truth(S, v)
                return const(not t) if t is not None else ('ap', '!', v)
            if op in ('-', '+', '~'):
                v = self.value(fr, S, n['a'])
                if v[0] == 'k' and isnum(v[1]) and op == '-': return const(-v[1])
                return v if op == '+' else ('ap', 'u' + op, v)
            if op in ('++', '--') and not n.get('post'): return self.snapshot(S, self.lval(fr, S, n['a']))
        if k == 'bin':
            op = n['op']
            if op == ',': return self.value(fr, S, n['b'])
            a = self.value(fr, S, n['a'])
            if op == '&&':
                t = self.truth(S, a)
                if t is False: return const(False)
                b = self.value(fr, S, n['b'])
                if t is True: return b
                return self.mk('&&', a, b)
            if op == '||':
                t = self.truth(S, a)
                if t is True: return const(True)
                b = self.value(fr, S, n['b'])
                if t is False: return b
                return self.mk('||', a, b)
            b = self.value(fr, S, n['b'])
            return self.binop(S, op, a, b)
        if k == 'cond':
            t = self.truth(S, self.value(fr, S, n['c']))
            if t is True: return self.value(fr, S, n['a'])
            if t is False: return self.value(fr, S, n['b'])
            return ('w', (fr.fid, e))
        if k in ('var', 'field', 'sub'):
            if k == 'var' and f.V[n['v']]['st'] in ('local', 'param', 'outer', 'global', 'static', 'tls', 'binding') or k != 'var':
                loc = self.lval(fr, S, e)
                return self.snapshot(S, loc)
        if k == 'assign': return self.snapshot(S, self.lval(fr, S, n['a']))
        if k == 'ilist': return self.ilist(fr, S, e, n)
        if k == 'lambda': return self.mklambda(fr, S, e, n)
        if k == 'zero': return const(0)
        if k == 'call' and n.get('qn') in MOVE and n['args']: return self.value(fr, S, n['args'][0])
        if k in ('fnref', 'mref'): return ('fn', n.get('fn') or n.get('qn'))
        return ('w', (fr.fid, e))

    def mk(self, op, *a):
        if sum(size(x) for x in a) > 40: return ('w', ('big', op))
        if op not in ('!', '&&', '||', '==', '!=') and any(nested(x, op) for x in a): return ('w', ('loop', op))
        return ('ap', op) + a

    def binop(self, S, op, a, b):
        if a[0] == 'k' and b[0] == 'k' and isnum(a[1]) and isnum(b[1]):
            try:
                r = {'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '==': lambda: a[1] == b[1], '!=': lambda: a[1] != b[1], '<': lambda: a[1] < b[1],
                     '>': lambda: a[1] > b[1], '<=': lambda: a[1] <= b[1], '>=': lambda: a[1] >= b[1], '&': lambda: a[1] & b[1], '|': lambda: a[1] | b[1], '^': lambda: a[1] ^ b[1]}[op]()
                if not isinstance(r, bool) and abs(r) > 8: return self.mk(op, a, b)
                return const(r)
            except (KeyError, TypeError): pass
        if op in ('==', '!='):
            t = self.equal(S, a, b)
            if t is not None: return const(t if op == '==' else not t)
        if op == '&' and (a == const(False) or b == const(False)): return const(False)
        if op == '|' and (a == const(True) or b == const(True)): return const(True)
        if op in ('&', '|') and (a[0] == 'k' and isinstance(a[1], bool)): return b
        if op in ('&', '|') and (b[0] == 'k' and isinstance(b[1], bool)): return a
        return self.mk(op, a, b)

    def outer_this(self, fr, S):
        if fr.env is not None:
            x = S.m.get((fr.env, ('&this',)))
            if x is not None: return x
        up = fr.up
        while up is not None:
            if up.this is not None and fr.f.parent and (up.f.key == fr.f.parent): return ('at', up.this)
            up = up.up
        return ('at', (('othis', fr.f.key), ()))

    def literal(self, f, n):
        v = n['v']
        if v == 'true': return const(True)
        if v == 'false': return const(False)
        if v == 'nullptr': return const(None)
        if v in ('sizeof', 'const', 'chr'): return ('lit', f.key, v, n.get('l'), n.get('c'))
        try: return const(int(str(v).rstrip('uUlLzZ'), 0))
        except ValueError: pass
        try: return const(float(str(v).rstrip('fFlL')))
        except ValueError: return const(str(v))

    def ilist(self, fr, S, e, n):
        f = fr.f; rec = n.get('rec')
        if rec and rec in self.P.records:
            fs = [fd['name'] for c, fd in self.P.fields(rec)]
            if len(n['args']) <= len(fs):
                return ('rec', ('w', (fr.fid, e)), frozenset(((fs[i],), self.value(fr, S, a)) for i, a in enumerate(n['args'])))
        if len(n['args']) == 1 and not f.type(n).get('rec'): return self.value(fr, S, n['args'][0])
        if not n['args'] and not f.type(n).get('rec'): return const(0)
        if not n['args']: return ('empty',)
        return ('ap', 'list') + tuple(self.value(fr, S, a) for a in n['args'][:6])

    def mklambda(self, fr, S, e, n):
        env = ('L', fr.fid, e)
        return ('lam', tuple(n['ops']), env)

    def do_lambda(self, fr, S, e, n):
        env = ('L', fr.fid, e)
        for k in [k for k in S.m if k[0] == env]: del S.m[k]
        for c in n['caps']:
            if c.get('this'):
                S.m[(env, ('&this',))] = self.value_this(fr, S); continue
            nm = c.get('name')
            if c.get('initcap'):
                if 'init' in c:
                    if c.get('ref'): S.m[(env, ('&' + nm,))] = ('at', self.lval(fr, S, c['init']))
                    else: self.write(S, (env, (nm,)), self.value(fr, S, c['init']))
            elif c.get('ref'): S.m[(env, ('&' + nm,))] = ('at', self.varloc(fr, S, c['v']))
            else: self.write(S, (env, (nm,)), self.snapshot(S, self.varloc(fr, S, c['v'])))
        return ('lam', tuple(n['ops']), env)

    def value_this(self, fr, S): return ('at', fr.this) if fr.this is not None else self.outer_this(fr, S)

    # ------------------------------------------------------------------ execution
    def call_fn(self, g, S, this=None, args=(), fid=('root',), env=None, up=None):
        """interpret g; args: list of ('ref', loc) | ('val', v) | None -> list of (kind, store, value)"""
        fr = Frame(g, fid, this, env, up)
        S = S.copy()
        for i, a in enumerate(args):
            if a is None or i >= len(g.params): continue
            if g.vtype(g.params[i]).get('ref'):
                if a[0] == 'ref': S.m[(('P', fid, i), ('&',))] = ('at', a[1])
                else: self.write(S, (('P', fid, i), ()), a[1])
            else:
                self.write(S, (('P', fid, i), ()), self.snapshot(S, a[1]) if a[0] == 'ref' else a[1])
        outs = self.run(fr, S)
        return outs

    def run(self, fr, S0):
        f = fr.f
        self.visited.add(f.key)
        if not f.blocks: return [('n', S0, None)]
        outs = {}
        seen = set()
        work = [(f.entry, S0)]
        n = 0
        live = self.live(f) if self.exc else None
        ne = f.get('ne')
        while work:
            b, S = work.pop()
            k = (b, S.key())
            if k in seen: continue
            seen.add(k); n += 1; self.steps += 1
            if n > self.max_states:
                self.incomplete.append(f.key); raise TooBig(f.key)
            if b == f.exit:
                rv = S.m.pop(('rv', fr.fid), None) if ('rv', fr.fid) in S.m else None
                self.finish(fr, S, outs, 'n', rv); continue
            blk = f.blocks[b]
            cur = [S.copy()]
            lv = list(live[b]) if live else []
            for e in blk['e']:
                nx = []
                for s in cur:
                    for kind, s2 in self.elem(fr, s, e):
                        if kind == 'n': nx.append(s2)
                        elif not ne or self.in_try(f, e): self.throw(fr, e, s2, lv, work, outs)
                        else: self.hook_terminate(fr, e, s2)
                cur = dedupe(nx)
                if self.exc: self.update_live(f, e, lv)
                if not cur: break
            if blk.get('nr'): continue
            c = blk.get('cond'); succ = blk['s']
            for s in cur: self.gc(fr, s, b, c)
            cur = dedupe(cur)
            two = c is not None and c >= 0 and len([s for s in succ if s is not None and s >= 0]) == 2 and blk.get('term') not in ('CXXForRangeStmt', 'SwitchStmt', 'CXXTryStmt')
            for s in cur:
                if two:
                    v = self.value(fr, s, c)
                    for ix, sc in enumerate(succ):
                        if sc < 0: continue
                        s2 = self.assume(s, v, ix == 0)
                        if s2 is not None: s2 = self.hook_branch(fr, s2, b, ix, c)
                        if s2 is not None: work.append((sc, s2))
                else:
                    for ix, sc in enumerate(succ):
                        if sc is None or sc < 0: continue
                        s2 = self.hook_branch(fr, s, b, ix, c)
                        if s2 is not None: work.append((sc, s2))
        return list(outs.values())

    # ---- what a store has to remember at the end of a block
    def plan(self, f):
        """block -> (variables live at its end, expressions whose value is used in another block)"""
        if f.key in self._plans: return self._plans[f.key]
        order = {b: i for i, b in enumerate(f.blocks)}
        deps = {}
        def mentioned(e):
            out = set()
            for x in f.subtree(e):
                q = f.E[x]
                if not q: continue
                if q['k'] == 'var': out.add(q['v'])
                if q['k'] == 'lambda':
                    for c in q['caps']:
                        if c.get('v') is not None: out.add(c['v'])
                        if isinstance(c.get('init'), int): out |= mentioned(c['init'])
            return out
        for n in f.E:
            if not n: continue
            if n['k'] == 'decl':
                for v in n['vars']:
                    if 'init' in v: deps.setdefault(v['v'], set()).update(mentioned(v['init']))
            if n['k'] == 'assign':
                a = f.E[n['a']]
                if a and a['k'] == 'var': deps.setdefault(a['v'], set()).update(mentioned(n['b']))
            if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n:
                for x in mentioned(n['obj']):
                    for y in n['args']: deps.setdefault(x, set()).update(mentioned(y))
        for i, v in enumerate(f.V):
            if v and 'of' in v: deps.setdefault(i, set()).add(v['of'])
            if v and isinstance(v.get('bind'), int) and v['bind'] >= 0: deps.setdefault(i, set()).update(mentioned(v['bind']))
        def close(vs):
            out = set(vs); w = list(vs)
            while w:
                for d in deps.get(w.pop(), ()):
                    if d not in out: out.add(d); w.append(d)
            return out
        use = {}; kill = {}; where = {}
        for b in f.blocks:
            u = set(); k = set()
            for e in f.blocks[b]['e']:
                if isinstance(e, dict):
                    if e.get('k') == 'adtor' and e['v'] not in k: u.add(e['v'])
                    if isinstance(e.get('e'), int) and e['e'] >= 0: u |= mentioned(e['e']) - k
                    continue
                where[e] = b
                n = f.E[e]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if 'init' in v: u |= close(mentioned(v['init'])) - k
                        k.add(v['v'])
                else: u |= close(mentioned(e)) - k
            c = f.blocks[b].get('cond')
            if c is not None and c >= 0: u |= close(mentioned(c)) - k
            use[b] = u; kill[b] = k
        livein = {b: set(use[b]) for b in f.blocks}; liveout = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                o = set()
                for s in f.blocks[b]['s']:
                    if s is not None and s >= 0: o |= livein.get(s, set())
                i = use[b] | (o - kill[b])
                if o != liveout[b] or i != livein[b]: liveout[b] = o; livein[b] = i; ch = True
        # exceptional edges may leave from anywhere: what handlers need stays
        hs = set()
        for t in f.d.get('tries', []):
            for h in t['h']: hs |= livein.get(h['b'], set())
        cross = set(); par = f.parents()
        for e, b in where.items():
            x = e; seen = 0; w = [e]
            while w and seen < 60:
                y = w.pop(); seen += 1
                for p in (par.get(y, ()) if isinstance(par, dict) else par[y]) or ():
                    if p in where and where[p] != b: cross.add(e); w = []; break
                    w.append(p)
            # values of conditions
        for b in f.blocks:
            c = f.blocks[b].get('cond')
            if c is not None and c >= 0:
                for x in f.subtree(c):
                    if x in where and where[x] != b: cross.add(x)
        r = ({b: liveout[b] | hs for b in f.blocks}, cross)
        self._plans[f.key] = r
        return r

    def gc(self, fr, S, b, cond):
        live, cross = self.plan(fr.f)
        fid = fr.fid; lv = live[b]
        keep = set(); dead = set()
        if cond is not None and cond >= 0: keep = fr.f.subtree(cond)
        for k in list(S.m):
            if k[0] == 'e':
                if k[1][0] == fid and k[1][1] not in cross and k[1][1] not in keep: del S.m[k]
            elif isinstance(k[0], tuple) and k[0][0] == 'V' and k[0][1] == fid and k[0][2] not in lv:
                if cond is None or cond < 0 or not any(fr.f.E[x] and fr.f.E[x]['k'] == 'var' and fr.f.E[x]['v'] == k[0][2] for x in keep): dead.add(k[0])
        self.collect(S, (), dead)

    def collect(self, S, extra=(), dead=()):
        """drop temporaries, closures and facts nothing refers to any more"""
        cand = {}
        for k in S.m:
            r = k[0]
            if isinstance(r, tuple) and (r[0] in ('T', 'L') or r in dead): cand.setdefault(r, []).append(k)
        if cand:
            reach = set(); w = []
            used = set()
            for k, v in S.m.items():
                if k[0] not in cand and k[0] != '?': roots_in(v, used)
                if k[0] == 'e': pass
            for v in extra: roots_in(v, used)
            w = [r for r in used if r in cand]
            while w:
                r = w.pop()
                if r in reach: continue
                reach.add(r)
                u = set()
                for k in cand[r]: roots_in(S.m[k], u)
                w += [x for x in u if x in cand and x not in reach]
            for r, ks in cand.items():
                if r not in reach:
                    for k in ks: del S.m[k]
        facts = [k for k in S.m if k[0] == '?']
        if facts:
            toks = set()
            for k, v in S.m.items():
                if k[0] != '?': tokens_in(v, toks); tokens_in(k[0], toks)
            for v in extra: tokens_in(v, toks)
            for k in facts:
                t = set(); tokens_in(k[1], t)
                if not all(x in toks or self.sticky(x) for x in t): del S.m[k]

    def finish(self, fr, S, outs, kind, rv):
        S = S.copy()
        fid = fr.fid
        for k in list(S.m):
            if k[0] == 'e' and k[1][0] == fid: del S.m[k]
            elif isinstance(k[0], tuple) and k[0][0] in ('V', 'P', 'T', 'L') and k[0][1] == fid and fr.up is not None and not keeps(rv, k[0]) and not (k[0][0] == 'L' and self.kept(S, k[0])): del S.m[k]
        self.collect(S, (rv,))
        kk = (kind, S.key(), rv)
        if kk not in outs:
            outs[kk] = (kind, S, rv)
            self.hook_return(fr, S, kind, rv)

    def hook_terminate(self, fr, e, S): pass
    def kept(self, S, root): return any(mentions(v, root) for k, v in S.m.items() if k[0] != root)

    def in_try(self, f, e):
        tr = f.tries().get(e, []) if isinstance(e, int) else []
        return any(h['t'] == '...' for t in tr for h in f.d['tries'][t]['h'])

    def live(self, f):
        from automaton import Automaton
        return Automaton.live(self, f)

    def update_live(self, f, e, lv):
        if isinstance(e, int):
            n = f.E[e]
            if n['k'] == 'decl':
                for v in n['vars']:
                    if f.V[v['v']]['st'] == 'local' and f.vtype(v['v']).get('ntdtor') and not f.vtype(v['v']).get('ref') and v['v'] not in lv: lv.append(v['v'])
        elif e['k'] == 'adtor' and e['v'] in lv: lv.remove(e['v'])

    def throw(self, fr, e, S, lv, work, outs):
        f = fr.f
        tr = f.tries().get(e, []) if isinstance(e, int) else []
        states = [S]
        for ti in tr:
            t = f.d['tries'][ti]; body = set(t['body'])
            inner = [v for v in lv if f.decl_init().get(v, (None, -1))[1] in body]
            for v in reversed(inner): states = self.unwind(fr, v, states)
            call = False
            for h in t['h']:
                if h['t'] == '...': call = True
                for s in states: work.append((h['b'], s.copy()))
            if call: return
            lv = [v for v in lv if v not in inner]
        for v in reversed(lv): states = self.unwind(fr, v, states)
        for s in states: self.finish(fr, s, outs, 'x', None)

    def unwind(self, fr, v, states):
        el = {'k': 'adtor', 'v': v, 'l': fr.f.el}
        rec = fr.f.vtype(v).get('rec')
        for g in self.P.by_cls.get(rec, []) if rec else []:
            if g.get('dtor'): el['fn'] = g.key
        out = []
        for s in states:
            for k, s2 in self.elem(fr, s, el):
                out.append(s2)
        return dedupe(out)

    def elem(self, fr, S, e):
        """one CFG element -> [(kind, store)]"""
        f = fr.f
        if isinstance(e, dict):
            r = self.hook_elem(fr, S, e, e)
            if r is not None: return [('n', s) for s in r]
            if e['k'] == 'init':
                v = self.value(fr, S, e['e']) if isinstance(e.get('e'), int) and e['e'] >= 0 else ('?v',)
                if fr.this is None: return [('n', S)]
                if 'field' in e:
                    loc = (fr.this[0], fr.this[1] + (e['field'],))
                    t = self.field_type(f.cls, e['field'])
                    if t.get('ref') and isinstance(e.get('e'), int): S.m[(loc[0], loc[1] + ('&',))] = ('at', self.lval(fr, S, e['e']))
                    else: self.write(S, loc, self.take(fr, S, e.get('e')))
                elif isinstance(e.get('e'), int) and e['e'] >= 0 and ('e', (fr.fid, self.strip(f, e['e']))) in S.m:
                    # base or delegated construction
                    t = self.temp(fr, self.strip(f, e['e']))
                    for k, x in list(S.m.items()):
                        if k[0] == t[0] and isinstance(k[1], tuple) and k[1]: S.m[(fr.this[0], fr.this[1] + k[1])] = x
                    vv = self.value(fr, S, e['e'])
                    if vv[0] == 'rec':
                        for k, x in vv[2]: S.m[(fr.this[0], fr.this[1] + k)] = x
                return [('n', S)]
            if e['k'] in ('adtor', 'tdtor') and e.get('fn') in self.P.funcs and e['k'] == 'adtor':
                g = self.P.funcs[e['fn']]
                if g.blocks and self.hook_descend(fr, S, e, e, g) and fr.depth < self.max_depth and not self.recursive(fr, g):
                    outs = self.call_fn(g, S, this=(('V', fr.fid, e['v']), ()), fid=(fr.fid, ('d', e['v'])), up=fr)
                    return [(k, s) for k, s, v in outs]
            return [('n', S)]
        n = f.E[e]; k = n['k']
        r = self.hook_elem(fr, S, e, n)
        if r is not None: return [('n', s) for s in r]
        if k == 'decl':
            for v in n['vars']:
                vid = v['v']; loc = (('V', fr.fid, vid), ())
                if f.V[vid]['st'] in ('static', 'tls'): continue
                if 'init' not in v:
                    self.write(S, loc, self.uninit(fr, f.vtype(vid), e)); continue
                if f.vtype(vid).get('ref'):
                    S.m[(loc[0], ('&',))] = ('at', self.lval_or_temp(fr, S, v['init']))
                else: self.write(S, loc, self.take(fr, S, v['init']))
            return [('n', S)]
        if k == 'assign':
            l = self.lval(fr, S, n['a'])
            if n['op'] == '=': v = self.take(fr, S, n['b'])
            else: v = self.binop(S, n['op'][:-1], self.read(S, l), self.value(fr, S, n['b']))
            if '[]' in l[1] and n['op'] != '=': v = self.fresh(S, (fr.fid, e))
            self.write(S, l, v)
            return [('n', S)]
        if k == 'un' and n['op'] in ('++', '--'):
            l = self.lval(fr, S, n['a']); old = self.read(S, l)
            if old[0] == 'k' and isnum(old[1]) and -2 < old[1] < 2: new = const(int(old[1]) + (1 if n['op'] == '++' else -1))
            elif old[0] == 'at': new = old
            else: new = self.step_value(fr, S, e, old, n['op'])
            self.write(S, l, new)
            if n.get('post'): S.m[('e', (fr.fid, e))] = old
            return [('n', S)]
        if k == 'lambda':
            S.m[('e', (fr.fid, e))] = self.do_lambda(fr, S, e, n)
            return [('n', S)]
        if k == 'ret':
            if 'e' in n:
                if self.P.T(f.d.get('ret')).get('ref'): S.m[('rv', fr.fid)] = ('at', self.lval(fr, S, n['e']))
                else: S.m[('rv', fr.fid)] = self.take(fr, S, n['e'])
            return [('n', S)]
        if k == 'throw': return [('x', S)]
        if k in ('call', 'ctor', 'new'): return self.do_call(fr, S, e, n)
        return [('n', S)]

    def step_value(self, fr, S, e, old, op):
        t = fr.f.type(fr.f.E[e]['a'])
        if t.get('ptr'):            # still points into the same sequence
            base = old
            if old[0] == 'w' and isinstance(old[1], tuple) and old[1][:1] == ('it',): base = old[1][1]
            return self.fresh(S, ('it', base, (fr.fid, e)))
        return self.fresh(S, (fr.fid, e))
    def uninit(self, fr, t, e): return ('empty',) if t.get('rec') else ('un', (fr.fid, e))

    def lval_or_temp(self, fr, S, e):
        x = self.strip(fr.f, e); n = fr.f.E[x]
        l = self.lval(fr, S, x)
        if l[0][0] == 'T' and l[0][1] == fr.fid and l not in S.m:
            v = self.value(fr, S, x)
            if not (v[0] == 'i' and v[1] == l): self.write(S, l, v)
        return l

    def field_type(self, cls, name):
        for c, fd in self.P.fields(cls or '', True):
            if fd['name'] == name: return self.P.T(fd['t'])
        return {}

    def take(self, fr, S, e):
        """value of an initialiser; moving from an object leaves it empty"""
        return self.value(fr, S, e)

    def moved_from(self, S, loc, rec):
        if rec.startswith(SMART): self.write(S, loc, const(None))

    # ------------------------------------------------------------------ calls
    def recursive(self, fr, g):
        x = fr
        while x is not None:
            if x.f.key == g.key: return True
            x = x.up
        return False

    def set_val(self, fr, S, e, v):
        if v is not None: S.m[('e', (fr.fid, e))] = v
        return S

    def args_of(self, fr, S, n, g=None, skip=0):
        """argument bindings for g"""
        out = []
        if n.get('inherited'):
            # an inherited constructor passes its own parameters on
            for i in range(len(fr.f.params)):
                loc = (('P', fr.fid, i), ()); r = S.m.get((loc[0], ('&',)))
                if r is not None: loc = r[1]
                out.append(('ref', loc) if g is not None and i < len(g.params) and g.vtype(g.params[i]).get('ref') else ('val', self.snapshot(S, loc)))
            return out
        for i, a in enumerate(n.get('args', [])[skip:]):
            if a is None or a < 0: out.append(None); continue
            if g is not None and i < len(g.params) and g.vtype(g.params[i]).get('ref'):
                out.append(('ref', self.lval_or_temp(fr, S, a)))
            else: out.append(('val', self.take(fr, S, a)))
        return out

    def do_call(self, fr, S, e, n):
        f = fr.f; P = self.P
        r = self.hook_call(fr, S, e, n)
        if r is not None: return [(k, self.set_val(fr, s, e, v)) for k, s, v in r]
        qn = n.get('qn', '')
        if n['k'] == 'new':
            loc = (('N', fr.fid, e), ())
            if n.get('init') is not None and n.get('init', -1) >= 0: self.write(S, loc, self.value(fr, S, n['init']))
            self.set_val(fr, S, e, ('at', loc)); return [('n', S)]
        if n['k'] == 'ctor': return self.do_ctor(fr, S, e, n)
        if qn in MOVE: return [('n', S)]
        # callable objects
        tgt = self.callable(fr, S, n)
        if tgt is not None:
            fns, env, skip, this = tgt
            gs = [P.funcs[k] for k in fns if k in P.funcs and P.funcs[k].blocks]
            gs = [g for g in gs if len(g.params) == len(n.get('args', [])) - skip] or gs[:1]
            if len(gs) > 1:
                want = n.get('fn'); ex = [g for g in gs if g.key == want]
                gs = ex or gs[:1]
            if gs and fr.depth < self.max_depth and not self.recursive(fr, gs[0]):
                return self.inline(fr, S, e, n, gs[0], this, self.args_of(fr, S, n, gs[0], skip), env)
        gs = [g for g in P.callees(f, n) if g.blocks]
        if gs and not (n.get('virt') and len(gs) > 1):
            g = gs[0]
            if self.hook_descend(fr, S, e, n, g) and fr.depth < self.max_depth and not self.recursive(fr, g):
                this = None
                if 'obj' in n:
                    this = self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval_or_temp(fr, S, n['obj'])
                return self.inline(fr, S, e, n, g, this, self.args_of(fr, S, n, g), None)
        return self.opaque(fr, S, e, n)

    def callable(self, fr, S, n):
        """(function keys, env, number of leading arguments to skip, this) of an indirect call"""
        f = fr.f; qn = n.get('qn', ''); args = n.get('args', [])
        if qn in ('std::invoke', 'std::__invoke', 'std::invoke_r') and args:
            v = self.value(fr, S, args[0])
            if v[0] == 'lam': return v[1], v[2], 1, None
            if v[0] == 'fn' and v[1] in self.P.funcs:
                g = self.P.funcs[v[1]]
                if g.cls and not g.get('static') and len(args) > 1:
                    x = self.value(fr, S, args[1])
                    this = x[1] if x[0] == 'at' else self.lval(fr, S, args[1])
                    return (v[1],), None, 2, this
                return (v[1],), None, 1, None
            t = f.type(args[0]).get('rec')
            if t and t in self.P.records:
                for c in [t] + self.P.all_bases(t):
                    ms = [g for g in self.P.by_cls.get(c, []) if g.name == 'operator()' and len(g.params) == len(args) - 1 and g.blocks]
                    if ms: return (ms[0].key,), None, 1, self.lval(fr, S, args[0])
        if n.get('op') == '()' and 'obj' in n:
            v = self.value(fr, S, n['obj'])
            if v[0] == 'lam': return v[1], v[2], 0, None
            if v[0] == 'fn' and v[1] in self.P.funcs: return (v[1],), None, 0, None
        if 'ind' in n:
            v = self.value(fr, S, n['ind'])
            if v[0] == 'lam': return v[1], v[2], 0, None
            if v[0] == 'fn' and v[1] in self.P.funcs: return (v[1],), None, 0, None
            if v[0] == 'at':
                w = self.read(S, v[1])
                if w[0] == 'lam': return w[1], w[2], 0, None
        return None

    def inline(self, fr, S, e, n, g, this, args, env):
        fid = (fr.fid, e)
        if depth_of(fid) > self.max_depth + 2: return self.opaque(fr, S, e, n)
        try: outs = self.call_fn(g, S, this=this, args=args, fid=fid, env=env, up=fr)
        except TooBig:
            return self.opaque(fr, S, e, n)
        res = []
        for k, s, v in outs:
            if k == 'x' and not self.exc: continue
            if k == 'n':
                if v is None and n.get('lv'): v = ('w', (fr.fid, e))
                if v is not None: s.m[('e', (fr.fid, e))] = v
                else: s.m.pop(('e', (fr.fid, e)), None)
            res.append((k, s))
        return res

    def do_ctor(self, fr, S, e, n):
        f = fr.f; P = self.P; args = n.get('args', []); rec = n.get('rec', '')
        loc = self.temp(fr, e)
        sub = fr.this is not None and e in self.subobjects(f)       # base class or delegated construction
        g = P.funcs.get(n.get('fn'))
        if sub and not n.get('copy') and not n.get('move') and g is not None and g.blocks and not g.get('defaulted') and self.hook_descend(fr, S, e, n, g) and fr.depth < self.max_depth and not self.recursive(fr, g):
            outs = self.call_fn(g, S, this=fr.this, args=self.args_of(fr, S, n, g), fid=(fr.fid, e), up=fr)
            return [(k, s) for k, s, v in outs if k == 'n' or self.exc]
        if (n.get('copy') or n.get('move')) and len(args) >= 1 and not (g is not None and g.blocks and not g.get('defaulted') and self.hook_descend(fr, S, e, n, g)):
            src = self.strip(f, args[0])
            v = self.value(fr, S, src)
            if n.get('move') and f.E[src]['k'] in ('var', 'field', 'un', 'sub', 'call') :
                l = self.lval(fr, S, src)
                if l[0][0] != 'T': self.moved_from(S, l, rec)
            self.set_val(fr, S, e, v)
            return [('n', S)] + ([('x', S.copy())] if self.exc and self.may_throw(fr, n) and not n.get('elide') else [])
        if g is not None and g.blocks and not g.get('defaulted') and self.hook_descend(fr, S, e, n, g) and fr.depth < self.max_depth and not self.recursive(fr, g):
            for k in [k for k in S.m if k[0] == loc[0]]: del S.m[k]
            S.m[loc] = ('empty',)
            self.default_fields(fr, S, loc, rec)
            outs = self.call_fn(g, S, this=loc, args=self.args_of(fr, S, n, g), fid=(fr.fid, e), up=fr)
            res = []
            for k, s, v in outs:
                if k == 'x' and not self.exc: continue
                if k == 'n': s.m[('e', (fr.fid, e))] = self.snapshot(s, loc)
                res.append((k, s))
            return res
        v = self.lib_ctor(fr, S, e, n, rec, args)
        self.set_val(fr, S, e, v)
        return [('n', S)] + ([('x', S.copy())] if self.exc and self.may_throw(fr, n) else [])

    def subobjects(self, f):
        if not hasattr(self, '_subs'): self._subs = {}
        if f.key not in self._subs:
            self._subs[f.key] = {self.strip(f, x['e']) for b in f.blocks.values() for x in b['e'] if isinstance(x, dict) and x['k'] == 'init' and 'field' not in x and isinstance(x.get('e'), int) and x['e'] >= 0} if f.get('ctor') else set()
        return self._subs[f.key]

    def default_fields(self, fr, S, loc, rec): pass

    def lib_ctor(self, fr, S, e, n, rec, args):
        real = [a for a in args if a >= 0 and fr.f.E[a] and fr.f.E[a]['k'] != 'defarg']
        if rec.startswith(SMART + LIBFN + ('std::optional', 'std::basic_string_view', 'std::reference_wrapper', 'std::span')) or rec.startswith('std::atomic'):
            if not real: return const(None) if rec.startswith(SMART + LIBFN + ('std::optional',)) else const(0)
            if len(real) == 1:
                if rec.startswith('std::optional') and not fr.f.type(real[0]).get('s', '').startswith(('std::optional', 'std::nullopt')):
                    v = self.value(fr, S, real[0]); return ('rec', ('nn', 'opt'), frozenset({(('*',), v)}))
                if rec.startswith(('std::reference_wrapper',)) or rec.startswith('std::atomic_ref'): return ('at', self.lval(fr, S, real[0]))
                if 'nullopt' in fr.f.type(real[0]).get('s', '') or 'nullptr_t' in fr.f.type(real[0]).get('s', ''): return const(None)
                return self.value(fr, S, real[0])
        if not real: return ('empty',)
        if len(real) == 1 and rec.startswith('gapp::detail::BoundedValue'): return self.value(fr, S, real[0])
        if rec.startswith(('std::scoped_lock', 'std::unique_lock', 'std::lock_guard', 'std::shared_lock')): return ('lock', tuple(self.lval(fr, S, a) for a in real))
        vals = tuple(self.value(fr, S, a) for a in real)
        if any(x[0] == 'lam' for x in vals): return self.fresh(S, (fr.fid, e))
        return self.mk('new:' + rec.split('<')[0], *vals)

    def havoc(self, fr, S, e, loc, v=None):
        self.write(S, loc, v if v is not None else self.fresh(S, (fr.fid, e)))

    def opaque(self, fr, S, e, n):
        """library function or a call that is not followed"""
        f = fr.f; P = self.P
        qn = n.get('qn', ''); nm = qn.rsplit('::', 1)[-1]; args = n.get('args', [])
        site = (fr.fid, e)
        r = self.library(fr, S, e, n, qn, nm, args)
        if r is not None:
            out = []
            for x in r:
                out.append(('n', self.set_val(fr, x[0], e, x[1])))
                if self.exc and self.may_throw(fr, n): out.append(('x', x[0].copy()))
            return out
        X = [('x', S.copy())] if self.exc and self.may_throw(fr, n) else []
        # default: result is a function of object and arguments when nothing is modified, else unknown
        mut = []
        if 'obj' in n and not n.get('cm') and not n.get('static'):
            mut.append(self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj']))
        pts = n.get('pt', [])
        for i, a in enumerate(args):
            t = P.T(pts[i]) if i < len(pts) else {}
            if t.get('ref') == 1 and not t.get('const'): mut.append(self.lval(fr, S, a))
            elif t.get('ptr') and not t.get('pconst'):
                v = self.value(fr, S, a)
                if v[0] == 'at': mut.append(v[1])
        # callables handed to an unknown function: run zero or more times
        states = [S]
        for a in args:
            v = self.value(fr, S, a)
            if v[0] == 'lam':
                gs = [P.funcs[k] for k in v[1] if k in P.funcs and P.funcs[k].blocks]
                if gs and fr.depth < self.max_depth and not self.recursive(fr, gs[0]):
                    nx = list(states); todo = list(states); rounds = 0
                    while todo and rounds < 3:
                        rounds += 1; new = []
                        for s in todo:
                            for k, s2, rv in self.call_fn(gs[0], s, args=[None] * len(gs[0].params), fid=(fr.fid, ('cb', e)), env=v[2], up=fr):
                                if k == 'n': new.append(s2)
                                else: X.append(('x', s2))
                        new = [s for s in dedupe(new) if s.key() not in {y.key() for y in nx}]
                        nx += new; todo = new
                    states = nx
        out = []
        for s in states:
            vals = tuple(self.value(fr, s, a) for a in args)
            ov = (self.value(fr, s, n['obj']),) if 'obj' in n else ()
            u = self.unknown_result(fr, s, e, n, args)
            if u is not None: v = u
            elif mut or n.get('lv') or f.type(n).get('ptr') or qn.startswith('gapp::rng') or not (qn.startswith('std::') or n.get('cm')): v = self.fresh(s, site)
            elif ov and ov[0][0] in ('w', 'i', 'k', 'fld', 'ap', 'empty', 'rec', 'at', 'nn') or not ov: v = self.mk('f:' + nm, *(ov + vals))
            else: v = self.fresh(s, site)
            if n.get('lv'):
                if 'obj' in n and nm in ('operator[]', 'at', 'front', 'back', 'value', 'operator*', 'get'):
                    o = self.lval(fr, s, n['obj']); v = ('at', (o[0], o[1] + ('[]',)))
                elif nm == 'get' and args: 
                    o = self.lval(fr, s, args[0]); v = ('at', (o[0], o[1] + ('<' + (n.get('ta', ['?'])[0] if n.get('ta') else '?') + '>',)))
                else: v = ('at', (('S', v), ()))
                mut2 = []
            else: mut2 = mut
            if not n.get('lv'):
                for l in mut2: self.havoc(fr, s, (e, 'm'), l)
            s.m[('e', site)] = v
            out.append(('n', s))
        return out + X

    def library(self, fr, S, e, n, qn, nm, args):
        """models of common library operations -> [(store, value)] or None"""
        f = fr.f
        site = (fr.fid, e)
        if qn == 'std::exchange' and len(args) == 2:
            l = self.lval(fr, S, args[0]); old = self.snapshot(S, l)
            self.write(S, l, self.value(fr, S, args[1])); return [(S, old)]
        if qn == 'std::swap' and len(args) == 2:
            a, b = self.lval(fr, S, args[0]), self.lval(fr, S, args[1])
            x, y = self.snapshot(S, a), self.snapshot(S, b)
            self.write(S, a, y); self.write(S, b, x); return [(S, None)]
        if qn == 'std::addressof' and args: return [(S, ('at', self.lval(fr, S, args[0])))]
        if qn in ('std::make_unique', 'std::make_shared'):
            loc = (('N', fr.fid, e), ())
            vals = [self.value(fr, S, a) for a in args]
            t = f.type(n).get('s', '')
            self.write(S, loc, vals[0] if len(vals) == 1 and f.type(args[0]).get('rec') and '<' + f.type(args[0]).get('rec') in t.replace('const ', '') else self.mk('made:' + t, *vals))
            return [(S, ('at', loc))]
        if 'obj' in n:
            ot = f.type(n['obj']); os = ot.get('s', '') + ' ' + ot.get('rec', '')
            if n.get('arrow'): l = self.deref(S, self.value(fr, S, n['obj']))
            else: l = self.lval_or_temp(fr, S, n['obj'])
            v = self.read(S, l)
            if 'std::atomic_ref' in os and v[0] == 'at': l = v[1]; v = self.read(S, l)
            if 'std::atomic' in os or qn.startswith('std::__atomic') or 'atomic' in qn:
                if nm == 'load' or nm.startswith('operator ') or (nm.startswith('operator') and nm[8:].strip() in ('bool', 'unsigned long', 'int')): return [(S, v)]
                if nm == 'store' or nm == 'operator=': self.write(S, l, self.value(fr, S, args[0])); return [(S, None if nm == 'store' else self.value(fr, S, args[0]))]
                if nm == 'exchange': self.write(S, l, self.value(fr, S, args[0])); return [(S, v)]
                if nm == 'test_and_set': self.write(S, l, const(True)); return [(S, v)]
                if nm == 'test': return [(S, v)]
                if nm == 'clear': self.write(S, l, const(False)); return [(S, None)]
                if nm in ('compare_exchange_strong', 'compare_exchange_weak'):
                    S2 = S.copy(); x = self.lval(fr, S, args[0]); exp = self.read(S, x); out = []
                    eq = self.equal(S, v, exp)
                    if eq is not False: self.write(S, l, self.value(fr, S, args[1])); out.append((S, const(True)))
                    if eq is not True or nm.endswith('weak'): self.write(S2, x, v); out.append((S2, const(False)))
                    return out
                if nm.startswith('fetch_') or nm in ('operator++', 'operator--', 'operator+=', 'operator-='):
                    self.write(S, l, self.fresh(S, (site, 'at'))); return [(S, v)]
            if any(x in os for x in SMART) or any(x in os for x in LIBFN) or 'std::optional' in os:
                if nm == 'get' and not args: return [(S, v)]
                if nm == 'operator bool' or nm == 'has_value' or nm.startswith('operator bool'):
                    t = self.truth(S, v)
                    return [(S, const(t))] if t is not None else [(S, self.mk('!', self.mk('!', v)))]
                if nm in ('operator*', 'operator->', 'value') and not args:
                    if 'std::optional' in os: return [(S, ('at', (l[0], l[1] + ('*',))))]
                    return [(S, ('at', self.deref(S, v)))]
                if nm == 'operator=' and args:
                    src = self.strip(f, args[0]); w = self.value(fr, S, src)
                    if 'nullptr_t' in f.type(args[0]).get('s', '') or 'nullopt' in f.type(args[0]).get('s', ''): w = const(None)
                    if any(x in os for x in SMART) and self.strip(f, args[0]) != args[0] and f.E[src]['k'] in ('var', 'field'):
                        self.moved_from(S, self.lval(fr, S, src), ot.get('rec', ''))
                    self.write(S, l, w); return [(S, ('at', l))]
                if nm == 'reset':
                    self.write(S, l, self.value(fr, S, args[0]) if args and f.E[args[0]]['k'] != 'defarg' else const(None)); return [(S, None)]
                if nm == 'release': self.write(S, l, const(None)); return [(S, v)]
                if nm == 'swap' and len(args) == 1:
                    o = self.lval(fr, S, args[0]); x, y = self.snapshot(S, l), self.snapshot(S, o)
                    self.write(S, l, y); self.write(S, o, x); return [(S, None)]
                if nm == 'emplace' and 'std::optional' in os:
                    self.write(S, l, ('rec', ('nn', 'opt'), frozenset({(('*',), self.value(fr, S, args[0]))} if args else ()))); return [(S, None)]
            if nm == 'swap' and len(args) == 1 and qn.startswith('std::'):
                o = self.lval(fr, S, args[0]); x, y = self.snapshot(S, l), self.snapshot(S, o)
                self.write(S, l, y); self.write(S, o, x); return [(S, None)]
            if nm == 'operator=' and len(args) == 1:
                src = self.strip(f, args[0]); w = self.value(fr, S, src)
                self.write(S, l, w); return [(S, ('at', l))]
            if nm in ('begin', 'end', 'cbegin', 'cend', 'data', 'rbegin', 'rend') and not args and not f.type(n).get('rec', '').startswith('gapp::detail::iota'):
                return [(S, ('at', (l[0], l[1] + ('[]',))))]
            if nm in ('operator*', 'operator->') and not args and ('iterator' in os):
                if v[0] == 'at': return [(S, v)]
            if nm in ('operator++', 'operator--', 'operator+=', 'operator-=') and v[0] == 'at' and 'iterator' in os:
                return [(S, v if nm in ('operator++', 'operator--') and args else ('at', l))]
            if 'std::reference_wrapper' in os and v[0] == 'at' and nm in ('get',) or nm.startswith('operator ') and v[0] == 'at' and 'reference_wrapper' in os: return [(S, v)]
        if n.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            xs = ([n['obj']] if 'obj' in n else []) + list(args)
            if len(xs) == 2:
                if 'nullptr_t' in f.type(xs[1]).get('s', ''): return [(S, self.binop(S, n['op'], self.value(fr, S, xs[0]), const(None)))]
                a, b = self.value(fr, S, xs[0]), self.value(fr, S, xs[1])
                if a[0] == 'at' or b[0] == 'at':
                    if 'iterator' in f.type(xs[0]).get('s', ''): return [(S, self.fresh(S, site))]
                return [(S, self.binop(S, n['op'], a, b))]
        return None


def nested(t, op):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'ap' and t[1] == op and any(has_op(x, op) for x in t[2:]): return True
        return any(nested(x, op) for x in t if isinstance(x, (tuple, frozenset)))
    if isinstance(t, frozenset): return any(nested(x, op) for x in t)
    return False


def has_op(t, op):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'ap' and t[1] == op: return True
        return any(has_op(x, op) for x in t if isinstance(x, (tuple, frozenset)))
    if isinstance(t, frozenset): return any(has_op(x, op) for x in t)
    return False


def roots_in(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ('T', 'L', 'N', 'V'): out.add(t)
        for x in t:
            if isinstance(x, (tuple, frozenset)): roots_in(x, out)
    elif isinstance(t, frozenset):
        for x in t: roots_in(x, out)


def tokens_in(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('w', 'un'): out.add(t); return
        for x in t:
            if isinstance(x, (tuple, frozenset)): tokens_in(x, out)
    elif isinstance(t, frozenset):
        for x in t: tokens_in(x, out)


def isnum(x): return isinstance(x, (int, float)) and not isinstance(x, str)


def mentions(t, v):
    if t == v: return True
    if isinstance(t, (tuple, frozenset)): return any(mentions(x, v) for x in t)
    return False


def size(t):
    if isinstance(t, (tuple, frozenset)): return sum(size(x) for x in t) or 1
    return 1


def keeps(v, root):
    return v is not None and mentions(v, root)


def depth_of(fid):
    d = 0
    while isinstance(fid, tuple) and len(fid) == 2: fid = fid[0]; d += 1
    return d


def dedupe(ss):
    if len(ss) < 2: return ss
    seen = set(); out = []
    for s in ss:
        k = s.key()
        if k not in seen: seen.add(k); out.append(s)
    return out
