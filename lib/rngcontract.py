"""The contracts numint assumes for the library's own random number functions, shown for their bodies: the values they return are in the range that was
asked for.  A function is interpreted with its arguments as unknowns that satisfy the precondition it states; what it calls below it (the generator,
the distributions of the standard library, other random functions) is taken by contract."""
import lin
from numint import NumInt, St, Frame, X, XI, K, isnum, TooMany
from numops import Ops, Timeout
from lin import sym, sub, add, num, plus, ZERO

REALS = ('randomReal',)
NAMES = ("randomInt", "randomReal", "randomIndex", "randomElement")
TOP = 2 ** 64 - 1


def functions(P):
    return [f for k, f in sorted(P.funcs.items()) if f.qn.startswith('gapp::rng::') and f.qn.count('::') == 2 and not f.cls and f.blocks and f.name in NAMES]


class Contract(Ops):
    def arg(self, S, i):
        f = self.f0
        v = self.read(S, (('P', ('root',), i), ()), self.ts(f.V[f.params[i]]['t']))
        return v[1] if isnum(v) else None

    def go(self):
        f = self.f0; S = St(); nm = f.name
        self.a = None
        root = ('root',)
        if nm == 'randomElement':
            c = (('G', 'elements'), ()); sz = self.size(S, c)
            a, b = self.fresh(S, 'uint', ('first', 0)), self.fresh(S, 'uint', ('last', 0))
            S.learn(a).learn(plus(sub(b, a), -1)).learn(sub(sz, b))
            S.env[(('P', root, 0), ())] = ('it', c, a); S.env[(('P', root, 1), ())] = ('it', c, b)
            self.a = (a, b, c)
        elif nm in ('randomIndex', 'sampleCdf'):
            c = (('P', root, 0), ()); sz = self.size(S, c); S.learn(plus(sz, -1)); self.a = (sz,)
        else:
            self.a = tuple(self.arg(S, i) for i in range(len(f.params)))
            if nm in ('randomInt', 'randomReal') and len(self.a) == 2: S.learn(sub(self.a[1], self.a[0]))
            if nm in ('sampleUnique', 'sampleUniqueSet'): S.learn(sub(self.a[1], self.a[0])).learn(self.a[2]).learn(sub(sub(self.a[1], self.a[0]), self.a[2]))
            if nm == 'randomBinomial': S.learn(self.a[0]).learn(self.a[1]).learn(sub(num(1), self.a[1]))
        for x in self.a:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple): pass
        fr = Frame(f, root, (('THIS',), ()), None, None)
        self.outs = self.run(fr, S)
        return self.outs

    def post(self):
        """[(what, holds)]"""
        nm = self.f0.name; out = []
        for S, v in self.outs:
            self.flush(S)
            if nm in ('randomInt', 'randomReal'):
                if not isnum(v): out.append(('the result is a number', False)); continue
                lo, hi = self.a if len(self.a) == 2 else (num(0), num(1))
                out += [('the result is not below the range', S.has(sub(v[1], lo))), ('the result is not above the range', S.has(sub(hi, v[1])))]
            elif nm == 'randomBinomial':
                if not isnum(v): out.append(('the result is a number', False)); continue
                out += [('the result is not negative', S.has(v[1])), ('the result is not above the number of trials', S.has(sub(self.a[0], v[1])))]
            elif nm in ('randomIndex', 'sampleCdf'):
                out.append(('the index exists', isnum(v) and S.has(plus(sub(self.a[0], v[1]), -1)) and S.has(v[1])))
            elif nm == 'randomElement':
                ok = v is not None and v[0] == 'it' and self.canon(S, v[1]) == self.canon(S, self.a[2])
                out.append(('the element is in the range', ok and S.has(sub(v[2], self.a[0])) and S.has(plus(sub(self.a[1], v[2]), -1))))
            else:
                if v is None or v[0] != 'at': out.append(('the numbers are known', False)); continue
                c = self.canon(S, v[1]); self.settle(S, c)
                x = sym(XI)
                sz = self.size(S, c)
                out.append(('there are as many numbers as asked for', S.eq(sz, self.a[2])))
                out.append(('the numbers are in the range', bool(self.implied(S, c, frozenset({sub(x, self.a[0]), plus(sub(self.a[1], x), -1)})))))
        return out

    def gene_template(self, S, c): return None

    def random(self, fr, S, e, n, nm, A, t):
        if nm == 'sampleUniqueSet' and len(A) == 3: nm = 'sampleUnique'
        return NumInt.random(self, fr, S, e, n, nm, A, t)

    def special(self, fr, S, e, n, qn, nm, args):
        if nm == 'operator()' and 'gapp::rng::' in qn and 'Xoroshiro' in qn:
            r = self.fresh(S, 'uint', ('prng', fr.fid, e)); S.learn(sub(num(TOP), r))
            return self.set(fr, S, e, ('n', r))
        if qn.startswith('std::numeric_limits<double>::epsilon'): return self.set(fr, S, e, ('n', num(lin.Fr(1, 2 ** 52))))
        if qn.startswith('std::numeric_limits<float>::epsilon'): return self.set(fr, S, e, ('n', num(lin.Fr(1, 2 ** 23))))
        if qn.startswith('std::generate_canonical<'):
            r = self.fresh(S, 'real', ('canon', fr.fid, e)); S.learn(r).learn(sub(num(1), r))
            return self.set(fr, S, e, ('n', r))
        if qn in ('round', 'std::round', 'lround', 'std::lround') and args:
            x = self.num_of(fr, S, args[0])
            r = self.fresh(S, 'int', ('rnd', fr.fid, e))
            if x is not None:
                h = num(lin.Fr(1, 2)); S.learn(add(sub(r, x), h)).learn(add(sub(x, r), h))
            return self.set(fr, S, e, ('n', r))
        if nm == 'operator()' and ('std::uniform_int_distribution<' in qn or 'std::uniform_real_distribution<' in qn) and 'obj' in n:
            d = self.made(fr, n['obj'])
            r = self.fresh(S, 'real' if '_real_' in qn else 'int', ('dist', fr.fid, e))
            if d is not None:
                lo, hi = (self.num_of(fr, S, a) for a in d)
                if lo is not None and hi is not None:
                    self.oblige(S, fr, e, [sub(hi, lo)], 'the bounds of the distribution are ordered')
                    S.learn(sub(r, lo)).learn(sub(hi, r))
            return self.set(fr, S, e, ('n', r))
        return None

    def val(self, fr, S, e):
        m = fr.f.E[e]
        if m and m['k'] == 'var' and fr.f.V[m['v']].get('g') is not None:
            c = self.P.globals[fr.f.V[m['v']]['g']].get('cv')
            if c is not None: return ('n', num(int(c)))
        return NumInt.val(self, fr, S, e)

    def made(self, fr, e):
        """the arguments the distribution was made with"""
        f = fr.f
        for _ in range(8):
            if e is None or e < 0 or not f.E[e]: return None
            m = f.E[e]
            if m['k'] == 'ctor' and 'std::uniform_' in (m.get('rec') or m.get('cls') or ''):
                a = [x for x in m.get('args', []) if x is not None and x >= 0 and f.E[x] and f.E[x]['k'] != 'defarg']
                return a if len(a) == 2 else self.made(fr, a[0]) if len(a) == 1 and (m.get('copy') or m.get('move')) else None
            if m['k'] == 'var':
                d = next((x for n in f.E if n and n['k'] == 'decl' for x in n['vars'] if x['v'] == m['v']), None)
                e = d['init'] if d else None; continue
            if m['k'] == 'ilist' and len(m.get('args', [])) == 1: e = m['args'][0]; continue
            e = m.get('e')
        return None

    def binop(self, fr, S, e, op, a, b, t, n=None):
        if op == '>>' and isnum(a) and isnum(b) and lin.is_const(b[1]) and S.has(a[1]) and S.has(sub(num(TOP), a[1])):
            r = self.fresh(S, 'uint', ('b', fr.fid, e)); S.learn(sub(a[1], r)).learn(sub(num(TOP >> int(b[1][1])), r))
            return ('n', r)
        return NumInt.binop(self, fr, S, e, op, a, b, t, n)


def decide(P, f, limit=120):
    import signal, sys, time
    sys.setrecursionlimit(20000)
    N = Contract(P, f)
    def stop(*a): raise Timeout()
    signal.signal(signal.SIGALRM, stop); signal.alarm(limit)
    try:
        N.go(); res = N.post(); err = None
    except TooMany as ex: res, err = [], 'no fixpoint: %s' % str(ex)[:100]
    except Timeout: res, err = [], 'not finished within %d s' % limit
    finally: signal.alarm(0)
    obl = [(k[0], k[1], k[2], ok) for k, ok in sorted(N.obl.items())]
    return N, res, err, obl


def report(cx, names, limit=60):
    """the obligations and violations of the random functions with these names; how many functions were decided"""
    P = cx.P; done = 0; seen = set()
    for f in functions(P):
        if f.name not in names: continue
        if f.name == 'randomIndex' and 'std::vector<' not in f.vtype(f.params[0]).get('s', ''): continue     # the size of other ranges is not modelled
        N, res, err, obl = decide(P, f, limit)
        if err or not res: cx.undecided.append('%s: %s' % (f.qn, err or 'no path returns')); continue
        done += 1; seen.add(f.name)
        for w in sorted({x for x, ok in res}):
            ok = all(o for x, o in res if x == w)
            cx.obligation('%s (%s): %s' % (f.qn, f.loc(), w), ok)
            if not ok: cx.violation('rng|%s|%s' % (f.name, w), f.loc(), '%s: it does not follow that %s, for every range it can be asked for' % (f.qn, w), func=f.key)
        for k, l, w, ok in obl:
            cx.obligation('%s: %s at %s' % (f.qn, w, l), ok)
            if not ok: cx.violation('rng|%s|%s' % (f.name, w), l, '%s: it does not follow that %s' % (f.qn, w), func=f.key)
    cx.undecided += ['rng::%s: no instance that can be decided' % nm for nm in names if nm not in seen]
    cx.anchor(seen, 'the random functions')
    return done
