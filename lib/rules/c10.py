"""Orderings are strict: every comparator handed to a sorting, searching or extremum algorithm is evaluated symbolically, from its control flow graph, on
three abstract elements, for every possible way their keys can be ordered; it has to be a strict weak ordering in all of these worlds."""
import re

RULE = 'in every ordering of the keys of three elements the comparator is irreflexive and transitive, and so is its equivalence'
ASSUMPTIONS = ['keys are numbers or values with an ordering of their own that is strict (no NaN among them)', 'the sequences a comparator walks through have equal lengths; two positions are evaluated']

# algorithm -> position of the comparator among the arguments
ALGS = {'sort': 2, 'stable_sort': 2, 'partial_sort': 3, 'nth_element': 3, 'max_element': 2, 'min_element': 2, 'minmax_element': 2, 'is_sorted': 2, 'is_sorted_until': 2,
        'push_heap': 2, 'pop_heap': 2, 'make_heap': 2, 'sort_heap': 2, 'inplace_merge': 3, 'merge': 5, 'partial_sort_copy': 4, 'max': 2, 'min': 2, 'minmax': 2, 'clamp': 3,
        'set_union': 5, 'set_intersection': 5, 'set_difference': 5, 'includes': 4, 'lower_bound': 3, 'upper_bound': 3, 'equal_range': 3, 'binary_search': 3,
        'lexicographical_compare': 4, 'next_permutation': 2}
RANGES = {k: v - 1 for k, v in ALGS.items()}
EQUIV = {'unique': 2, 'unique_copy': 3}          # these need an equivalence
NEG = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Undecided(Exception): pass
class Tolerance(Exception):
    chain = ()
class More(Exception):
    def __init__(self, options): self.options = options


def params_of(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'P': return {t[1]}
        return set().union(*[params_of(x) for x in t]) if t else set()
    return set()


def difference(t):
    """the distance of two elements"""
    if t[0] == 'abs': return difference(t[1])
    return t[0] == 'op' and t[1] == '-' and params_of(t[2]) and params_of(t[3]) and params_of(t[2]) != params_of(t[3])


class World:
    """one way to order the keys; undecided relations are taken from a list of choices"""

    def __init__(self, choices): self.choices = list(choices); self.used = 0; self.rel = []

    def closure(self, terms):
        par = {t: t for t in terms}
        def find(x):
            while par[x] != x: x = par[x]
            return x
        for a, r, b in self.rel:
            for x in (a, b): par.setdefault(x, x)
            if r == '=': par[find(a)] = find(b)
        nodes = set(par)
        lt = {}
        for a, r, b in self.rel:
            if r == '<': lt.setdefault(find(a), set()).add(find(b))
        nums = sorted((x for x in nodes if x[0] == 'n'), key=lambda x: x[1])
        for a, b in zip(nums, nums[1:]): lt.setdefault(find(a), set()).add(find(b))
        def reach(x, y):
            st = [x]; seen = set()
            while st:
                z = st.pop()
                for w in lt.get(z, ()):
                    if w == y: return True
                    if w not in seen: seen.add(w); st.append(w)
            return False
        return find, reach

    def compare(self, a, b):
        """'<', '=' or '>'"""
        if a == b: return '='
        if a[0] == 'n' and b[0] == 'n': return '<' if a[1] < b[1] else '>' if a[1] > b[1] else '='
        for x, y, s in ((a, b, 1), (b, a, -1)):          # the sign of a difference is an order
            if y == ('n', 0) and x[0] == 'op' and x[1] == '-':
                r = self.compare(x[2], x[3]); return r if s == 1 else {'<': '>', '>': '<', '=': '='}[r]
        for x in (a, b):
            if len(params_of(x)) > 1:
                if difference(x): raise Tolerance()
                raise Undecided('a key that depends on both elements')
        find, reach = self.closure([a, b])
        fa, fb = find(a), find(b)
        if fa == fb: return '='
        if reach(fa, fb): return '<'
        if reach(fb, fa): return '>'
        if self.used < len(self.choices): r = self.choices[self.used]; self.used += 1
        else: raise More(('<', '=', '>'))
        self.rel.append((a, '<', b) if r == '<' else (b, '<', a) if r == '>' else (a, '=', b))
        return r


class Eval:
    def __init__(self, P, lambdas, W): self.P = P; self.L = lambdas; self.W = W; self.steps = 0; self.chain = []

    def tick(self):
        self.steps += 1
        if self.steps > 20000: raise Undecided('too many steps')

    def truth(self, v):
        if v[0] == 'b': return v[1]
        if v[0] == 'n': return v[1] != 0
        if v[0] == 'ord': raise Undecided('an ordering used as a condition')
        return self.W.compare(v, ('n', 0)) != '='

    def rel(self, op, a, b):
        for x, y, o in ((a, b, op), (b, a, NEG.get(op))):
            if x[0] == 'ord' and y == ('n', 0):
                c = x[1]; return ('b', {'<': c == '<', '>': c == '>', '<=': c != '>', '>=': c != '<', '==': c == '=', '!=': c != '='}[o])
        if a[0] == 'b': a = ('n', int(a[1]))
        if b[0] == 'b': b = ('n', int(b[1]))
        if a[0] == 'ord' or b[0] == 'ord': raise Undecided('orderings are compared')
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                c = self.W.compare(x, y)
                if c != '=': break
            else: c = '='
        else: c = self.W.compare(a, b)
        if op == '<=>': return ('ord', c)
        return ('b', {'<': c == '<', '>': c == '>', '<=': c != '>', '>=': c != '<', '==': c == '=', '!=': c != '='}[op])

    # -------------------------------------------------- functions
    def call(self, f, args, depth=0, env=None):
        if depth > 8: raise Undecided('deep calls')
        if f.loc() not in self.chain: self.chain.append(f.loc())
        loc = dict(env or {})
        for i, p in enumerate(f.params):
            if i < len(args): loc[p] = args[i]
        b = f.entry; steps = 0
        while True:
            self.tick()
            if b == f.exit: return loc.get('ret', ('b', False))
            blk = f.blocks[b]
            for e in blk['e']:
                if isinstance(e, int): self.elem(f, e, loc, depth)
            if blk.get('nr'): raise Undecided('an assertion fails')
            ss = [s for s in blk['s'] if s is not None and s >= 0]
            c = blk.get('cond')
            if len(blk['s']) >= 2 and c is not None and c >= 0 and blk.get('term') not in ('SwitchStmt', 'CXXTryStmt'):
                b = blk['s'][0] if self.truth(self.ev(f, c, loc, depth)) else blk['s'][1]
                if b is None or b < 0: raise Undecided('control flow')
            elif ss: b = ss[0]
            else: raise Undecided('control flow')

    def elem(self, f, e, loc, depth):
        n = f.E[e]; k = n['k']
        if k == 'decl':
            for v in n['vars']:
                if 'init' in v: loc[v['v']] = self.ev(f, v['init'], loc, depth)
        elif k == 'ret': loc['ret'] = self.ev(f, n['e'], loc, depth) if 'e' in n else ('b', False)
        elif k == 'un' and n['op'] in ('++', '--'):
            a = f.E[n['a']]
            if a['k'] != 'var': raise Undecided('a comparator that writes')
            v = loc.get(a['v'])
            if v is None or v[0] != 'n': raise Undecided('a counter')
            loc[('old', e)] = v
            loc[a['v']] = ('n', v[1] + (1 if n['op'] == '++' else -1)); loc[('new', e)] = loc[a['v']]
        elif k == 'assign' or (k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')):
            a = f.E[n['a']]
            if a['k'] != 'var': raise Undecided('a comparator that writes')
            x = self.ev(f, n['b'], loc, depth)
            if n['op'] != '=': x = self.arith(n['op'][:-1], loc.get(a['v'], ('?',)), x)
            loc[a['v']] = x

    def arith(self, op, a, b):
        if a[0] == 'n' and b[0] == 'n' and op in '+-*': return ('n', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1]}[op])
        if a[0] == 'b': a = ('n', int(a[1]))
        if b[0] == 'b': b = ('n', int(b[1]))
        return ('op', op, a, b)

    def ev(self, f, e, loc, depth):
        self.tick()
        n = f.E[e]
        if n is None: raise Undecided('an unknown expression')
        k = n['k']
        if k in ('cast', 'wrap'): return self.ev(f, n['e'], loc, depth)
        if k == 'var':
            if n['v'] in loc: return loc[n['v']]
            return ('cap', f.V[n['v']].get('name', ''), f.V[n['v']].get('c', 0) if not n.get('cap') else 0)
        if k == 'this': return loc.get('this', ('this',))
        if k == 'int': return ('n', int(n['v']))
        if k == 'bool': return ('b', bool(n['v']))
        if k == 'lit' or k in ('float', 'num'):
            if n['v'] in ('true', 'false'): return ('b', n['v'] == 'true')
            try: return ('n', float(n['v']))
            except Exception: return ('cap', 'lit', str(n['v']))
        if k == 'field': return ('fld', self.ev(f, n['b'], loc, depth) if isinstance(n.get('b'), int) else ('this',), n['name'])
        if k == 'un':
            if n['op'] in ('++', '--'): return loc.get(('old' if n.get('post') else 'new', e)) or self.bad('a counter')
            x = self.ev(f, n['a'], loc, depth)
            if n['op'] == '!': return ('b', not self.truth(x))
            if n['op'] in ('*', '&', '+'): return x
            if n['op'] == '-': return ('n', -x[1]) if x[0] == 'n' else ('op', '-', ('n', 0), x)
            return ('op', n['op'], x, ('n', 0))
        if k == 'bin':
            op = n['op']
            if op == '&&': return ('b', self.truth(self.ev(f, n['a'], loc, depth)) and self.truth(self.ev(f, n['b'], loc, depth)))
            if op == '||': return ('b', self.truth(self.ev(f, n['a'], loc, depth)) or self.truth(self.ev(f, n['b'], loc, depth)))
            a, b = self.ev(f, n['a'], loc, depth), self.ev(f, n['b'], loc, depth)
            if op in NEG or op == '<=>': return self.rel(op, a, b)
            if op in ('&', '|', '^') and a[0] == 'b' and b[0] == 'b': return ('b', {'&': a[1] and b[1], '|': a[1] or b[1], '^': a[1] != b[1]}[op])
            return self.arith(op, a, b)
        if k == 'cond':
            return self.ev(f, n['a'] if self.truth(self.ev(f, n['c'], loc, depth)) else n['b'], loc, depth)
        if k in ('index', 'sub'):
            return ('idx', self.ev(f, n['a'] if 'a' in n else n['b'], loc, depth), self.ev(f, n['b'] if 'a' in n else n['i'], loc, depth))
        if k == 'call': return self.ev_call(f, e, n, loc, depth)
        if k == 'ctor':
            a = [x for x in n.get('args', []) if x is not None and x >= 0 and f.E[x] and f.E[x]['k'] != 'defarg']
            s = f.type(n).get('s', '')
            if 'std::tuple<' in s or 'std::pair<' in s:
                if len(a) == 1 and (n.get('copy') or n.get('move')): return self.ev(f, a[0], loc, depth)
                return ('tup', tuple(self.ev(f, x, loc, depth) for x in a))
            if len(a) == 1: return self.ev(f, a[0], loc, depth)
            return ('call', 'ctor', tuple(self.ev(f, x, loc, depth) for x in a))
        if k == 'fnref': return ('fn', n.get('fn'))
        if k == 'lambda': return ('lam', tuple(n['ops']), f.key)
        if k in ('enum', 'const', 'str', 'null', 'default', 'nullptr'): return ('cap', k, str(n.get('v', n.get('name', ''))))
        raise Undecided('expression kind ' + k)

    def bad(self, why): raise Undecided(why)

    def ev_call(self, f, e, n, loc, depth):
        P = self.P; qn = n.get('qn') or ''; nm = qn.rsplit('::', 1)[-1]; op = n.get('op')
        A = [x for x in n.get('args', []) if x is not None and x >= 0 and f.E[x] and f.E[x]['k'] != 'defarg']
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref') and A: return self.ev(f, A[0], loc, depth)
        if qn in ('std::invoke', 'std::__invoke') and A:
            tg = self.L.callable(f, A[0], len(A) - 1)
            if tg == 'less' or tg == 'greater': return self.rel('<' if tg == 'less' else '>', *[self.ev(f, x, loc, depth) for x in A[1:3]])
            if tg: return self.call(tg, [self.ev(f, x, loc, depth) for x in A[1:]], depth + 1)
            raise Undecided('an unknown callable')
        if nm.startswith('operator') and op is None: op = nm[8:]
        full = (([n['obj']] if isinstance(n.get('obj'), int) and n['obj'] >= 0 else []) + A)
        if op == '()' and full:
            tg = self.L.callable(f, full[0], len(full) - 1)
            if tg == 'less' or tg == 'greater': return self.rel('<' if tg == 'less' else '>', *[self.ev(f, x, loc, depth) for x in full[1:3]])
            if tg: return self.call(tg, [self.ev(f, x, loc, depth) for x in full[1:]], depth + 1)
        if op in NEG or op == '<=>':
            if len(full) == 2: return self.rel(op, self.ev(f, full[0], loc, depth), self.ev(f, full[1], loc, depth))
        if op in ('*', '->') and len(full) == 1: return self.ev(f, full[0], loc, depth)
        if op == '[]' and len(full) == 2: return ('idx', self.ev(f, full[0], loc, depth), self.ev(f, full[1], loc, depth))
        if op in ('+', '-', '*', '/') and len(full) == 2: return self.arith(op, *[self.ev(f, x, loc, depth) for x in full])
        if nm in ('size', 'ssize', 'length') and len(full) == 1: return ('n', 2)
        if nm == 'empty' and len(full) == 1: return ('b', False)
        if qn in ('std::abs', 'std::fabs', 'fabs', 'abs') and len(A) == 1: return ('abs', self.ev(f, A[0], loc, depth))
        if qn in ('std::tie', 'std::make_tuple', 'std::make_pair', 'std::forward_as_tuple'): return ('tup', tuple(self.ev(f, x, loc, depth) for x in A))
        if qn in ('std::isless', 'std::isgreater', 'std::islessequal', 'std::isgreaterequal') and len(A) == 2:
            return self.rel({'isless': '<', 'isgreater': '>', 'islessequal': '<=', 'isgreaterequal': '>='}[nm], *[self.ev(f, x, loc, depth) for x in A])
        if qn in ('std::lexicographical_compare', 'std::equal') and len(A) >= 3:
            v = [self.ev(f, x, loc, depth) for x in A[:4]]
            base = [x[2][0] for x in v if x[0] == 'call' and x[1] in ('begin', 'cbegin')]
            fn = [x for x in A if f.E[x]['k'] in ('lambda', 'fnref') or 'std::less' in f.type(f.E[x]).get('s', '') or 'std::greater' in f.type(f.E[x]).get('s', '')]
            if len(base) != 2: raise Undecided('ranges of a comparator')
            tg = self.L.callable(f, fn[0], 2) if fn else None
            if fn and not tg: raise Undecided('an unknown callable')
            for i in range(2):
                x, y = [('idx', b, ('n', i)) for b in base]
                if nm == 'equal':
                    if not (self.truth(self.call(tg, [x, y], depth + 1)) if tg else self.rel('==', x, y)[1]): return ('b', False)
                    continue
                lt = lambda a, b: self.rel('<' if tg in (None, 'less') else '>', a, b)[1] if tg in (None, 'less', 'greater') else self.truth(self.call(tg, [a, b], depth + 1))
                if lt(x, y): return ('b', True)
                if lt(y, x): return ('b', False)
            return ('b', nm == 'equal')
        if nm in ('at', 'front', 'back', 'data', 'get', 'begin', 'cbegin', 'value', 'column', 'row'): return ('call', nm, tuple(self.ev(f, x, loc, depth) for x in full))
        vals = [self.ev(f, x, loc, depth) for x in full]
        if qn in ('std::max', 'std::min') and len(vals) == 2 and all(v[0] not in ('b', 'ord', 'tup') for v in vals):
            c = self.W.compare(vals[0], vals[1])
            return (vals[1] if c == '<' else vals[0]) if nm == 'max' else (vals[1] if c == '>' else vals[0])
        g = P.funcs.get(n.get('fn'))
        if g is not None and g.blocks and P.is_repo(g) and not n.get('virt') and (len(params_of(tuple(vals))) > 1 or len(g.E) < 40):
            o = isinstance(n.get('obj'), int) and n['obj'] >= 0
            try:
                return self.call(g, vals[1:] if o else vals, depth + 1, {'this': vals[0]} if o else None)
            except Undecided:
                if len(params_of(tuple(vals))) > 1: raise
        if len(params_of(tuple(vals))) > 1: raise Undecided('%s of both elements' % qn)
        return ('call', n.get('fn') or qn, tuple(vals))


class Lambdas:
    """callables by type"""

    def __init__(self, P):
        self.P = P; self.by = {}
        for f in P.funcs.values():
            if f.name == 'operator()' and f.blocks:
                m = re.match(r'\(lambda:(\d+):(\d+):([^)]*)\)::', f.key)
                if m: self.by.setdefault((m.group(3).rsplit('/', 1)[-1], int(m.group(1)), int(m.group(2))), []).append(f)

    def of_type(self, s, nargs):
        m = re.search(r'\(lambda at ([^()]*?):(\d+):(\d+)\)', s or '')
        if not m: return None
        c = [g for g in self.by.get((m.group(1).rsplit('/', 1)[-1], int(m.group(2)), int(m.group(3))), []) if len(g.params) == nargs]
        return c[0] if c else None

    def callable(self, f, e, nargs):
        n = f.E[e]; t = f.type(n)
        s = re.sub(r'^const ', '', t.get('s', ''))
        if s.startswith(('std::less<', 'std::ranges::less')): return 'less'
        if s.startswith(('std::greater<', 'std::ranges::greater')): return 'greater'
        c = self.P.lambda_of(f, e)
        c = [g for g in c if g.blocks and len(g.params) == nargs]
        if c: return c[0]
        g = self.of_type(s, nargs)
        if g: return g
        x = n
        while x and x['k'] in ('cast', 'wrap', 'un') and ('e' in x or 'a' in x): x = f.E[x.get('e', x.get('a'))]
        if x and x['k'] == 'fnref' and x.get('fn') in self.P.funcs: return self.P.funcs[x['fn']]
        cls = s.rstrip(' &*')
        c = [g for g in self.P.by_cls.get(cls, []) if g.name == 'operator()' and g.blocks and len(g.params) == nargs]
        return c[0] if c else None


def evaluate(P, L, g):
    """-> None if the ordering is strict, or what is wrong"""
    work = [()]; worlds = 0
    while work:
        ch = work.pop()
        W = World(ch); ev = Eval(P, L, W)
        try:
            r = {(i, j): ev.truth(ev.call(g, [('P', i), ('P', j)])) for i in range(3) for j in range(3)}
        except Tolerance as t: t.chain = tuple(ev.chain); raise
        except More as m:
            if len(ch) > 30: raise Undecided('too many keys')
            work += [ch + (o,) for o in m.options]
            continue
        worlds += 1
        if worlds > 20000: raise Undecided('too many orderings')
        for i in range(3):
            if r[i, i]: return 'an element is ordered before itself', worlds, ev.chain
        for i in range(3):
            for j in range(3):
                if r[i, j] and r[j, i]: return 'two elements are each ordered before the other', worlds, ev.chain
                for k in range(3):
                    if r[i, j] and r[j, k] and not r[i, k]: return 'the ordering is not transitive', worlds, ev.chain
                    eq = lambda a, b: not r[a, b] and not r[b, a]
                    if eq(i, j) and eq(j, k) and not eq(i, k): return 'elements that count as equal to a third one are ordered', worlds, ev.chain
    return None, worlds, ()


def equivalence(P, L, g):
    work = [()]; worlds = 0
    while work:
        ch = work.pop()
        W = World(ch); ev = Eval(P, L, W)
        try: r = {(i, j): ev.truth(ev.call(g, [('P', i), ('P', j)])) for i in range(3) for j in range(3)}
        except Tolerance as t: t.chain = tuple(ev.chain); raise
        except More as m:
            if len(ch) > 30: raise Undecided('too many keys')
            work += [ch + (o,) for o in m.options]
            continue
        worlds += 1
        if worlds > 20000: raise Undecided('too many orderings')
        for i in range(3):
            if not r[i, i]: return 'an element is not equal to itself', worlds, ev.chain
            for j in range(3):
                if r[i, j] != r[j, i]: return 'it depends on the order of its arguments', worlds, ev.chain
                for k in range(3):
                    if r[i, j] and r[j, k] and not r[i, k]: return 'it is not transitive', worlds, ev.chain
    return None, worlds, ()


def same_params(g):
    a, b = g.vtype(g.params[0]).get('s', ''), g.vtype(g.params[1]).get('s', '')
    strip = lambda s: re.sub(r'^const |\s*[&]+$', '', s).strip()
    return strip(a) == strip(b)


def check(cx):
    P = cx.P; L = Lambdas(P)
    memo = {}; sites = 0; worlds = 0; named = 0
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'call': continue
            qn = n.get('qn') or ''
            m = re.match(r'std::ranges::(?:__cust::)?_*(\w+?)_fn::operator\(\)$', qn)
            if m and m.group(1) in RANGES: pos = RANGES[m.group(1)]; nm = m.group(1)
            elif qn.startswith('std::') and qn.count('::') == 1 and (qn[5:] in ALGS or qn[5:] in EQUIV): nm = qn[5:]; pos = ALGS.get(nm, EQUIV.get(nm))
            else: continue
            args = n['args']
            if pos >= len(args) or f.E[args[pos]] is None or f.E[args[pos]]['k'] == 'defarg': continue
            if nm in ('max', 'min', 'minmax', 'clamp') and len(args) <= pos: continue
            named += 1
            g = L.callable(f, args[pos], 2)
            where = f.loc(e)
            if g in ('less', 'greater'): cx.obligation('the ordering of std::%s at %s is strict' % (nm, where), True); continue
            if g is None: cx.undecided.append('%s: the comparator of std::%s could not be resolved' % (where, nm)); continue
            if not same_params(g): cx.undecided.append('%s: the comparator of std::%s compares different types' % (where, nm)); continue
            mk = (g.key, nm in EQUIV)
            if mk not in memo:
                try: memo[mk] = (equivalence if nm in EQUIV else evaluate)(P, L, g)
                except Tolerance as t: memo[mk] = ('elements count as equal within a tolerance, which is not transitive', 1, t.chain)
                except Undecided as ex: memo[mk] = ex
            r = memo[mk]
            if isinstance(r, Undecided):
                cx.undecided.append('%s: %s' % (where, r)); continue
            worlds += r[1]
            if 'verif_selftest' not in f.key: sites += 1; cx.obligation('the ordering of std::%s at %s is strict' % (nm, where), r[0] is None)
            if r[0]:
                src = [x for x in r[2] if 'utility/' not in x] or [where]
                cx.violation('order|%s|%s' % (f.qn, nm) + ('' if src[0] == where or len(r[2]) < 2 else '|' + src[0].split(':')[0]), src[0], 'the comparator of std::%s at %s is not %s: %s' % (nm, where, 'an equivalence' if nm in EQUIV else 'a strict weak ordering', r[0]), trace=['comparator at %s' % x for x in r[2]], func=f.key)
    cx.expect_selftest('sort_not_strict')
    cx.anchor(named >= 5, 'sorting and searching with comparators')
    cx.coverage.update(sites=sites, orderings=worlds, comparators=len(memo))
