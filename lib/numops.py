"""The library's operators (creation of candidates, crossovers, mutations, selections, replacements) under the abstract interpretation of numint."""
import time
import lin, numint
from numint import NumInt, St, Frame, X, XI, K, isnum, TooMany
from lin import sym, sub, num, plus, ZERO

CL = ('i', 'CL')
INTERFACE = ('mutate', 'crossover', 'generateCandidate', 'selectImpl', 'prepareSelectionsImpl', 'nextPopulationImpl')
GENES = {'double': 'bounded', 'float': 'bounded', 'long': 'bounded', 'int': 'bounded', 'unsigned char': 'bit', 'unsigned long': 'perm'}


def gene_type(P, f):
    """gene type of an operator, from the candidates or the chromosome it handles"""
    ts = [P.T(f.V[p]['t']).get('s', '') for p in f.params] + [P.T(f.d.get('ret', -1)).get('s', '')]
    for s in ts:
        for pre in ('gapp::Candidate<', 'gapp::GA<'):
            if pre in s:
                t = s.split(pre, 1)[1]
                for g in GENES:
                    if t.startswith(g + '>') or t.startswith(g + ','): return g
    return None


def entries(P, names):
    """implementations the library provides of the operator interface"""
    out = []
    for k, f in sorted(P.funcs.items()):
        if f.name not in names or not f.blocks or not P.is_repo(f) or not f.get('cls'): continue
        if not overrides(P, f): continue
        out.append(f)
    return out


def overrides(P, f):
    if f.get('virt') or f.get('override') or f.get('virtual'): return True
    return any(g.name == f.name for b in P.all_bases(f.get('cls')) for g in P.by_cls.get(b, [])) or f.d.get('ov') or False


class Ops(NumInt):
    def __init__(self, P, f, descend=None):
        self.fails = []; self.genes = {}; self.obl = {}
        NumInt.__init__(self, P, self.rep)
        self.f0 = f; self.gt = gene_type(P, f); self.kind0 = GENES.get(self.gt)
        self.chrom = set()
        if f.name == 'mutate' and len(f.params) >= 3: self.chrom.add((('P', ('root',), 2), ()))

    def rep(self, fr, e, what, S, conds): self.fails.append((fr.f, e, what))

    def verdict(self, S, fr, e, ok, what, conds=()):
        k = (fr.f.key, fr.f.loc(e), what)
        self.obl[k] = self.obl.get(k, True) and ok
        self.checks[k] = self.obl[k]
        if not ok: self.rep(fr, e, what, S, conds)

    def is_chrom(self, S, c):
        if c in self.chrom: return True
        return bool(c[1]) and c[1][-1] == 'chromosome' and self.kind0 is not None and c[0][0] == 'P' and c[0][1] == ('root',)

    def gene_template(self, S, c):
        """the invariant of the genes of the candidates the operator is given"""
        if not self.is_chrom(S, c): return None
        return self.template(S, c)

    def template(self, S, c):
        if self.kind0 == 'bounded':
            r = self.gt in ('double', 'float')
            x = sym(X if r else XI); k = 'r' if r else 'i'
            return frozenset({sub(x, sym((k, 'LO', sym(K)))), sub(sym((k, 'HI', sym(K))), x)})
        x = sym(XI)
        if self.kind0 == 'bit': return frozenset({x, sub(num(1), x)})
        if self.kind0 == 'perm': return frozenset({x, sub(plus(self.size(S, c), -1), x)})
        return None

    def gene(self, S, c, ok, at, v):
        if at is None: return
        fr, e = at
        k = (fr.f.key, fr.f.loc(e))
        self.genes[k] = self.genes.get(k, True) and ok

    def special(self, fr, S, e, n, qn, nm, args):
        """the public queries of the solver: its chromosome length, and bounds for every gene"""
        cls = qn.rsplit('::', 1)[0]
        if nm in ('chrom_len', 'gene_bounds') and not args and cls.startswith(('gapp::GA<', 'gapp::GaInfo')):
            S.learn(sym(CL))
            if nm == 'chrom_len': return self.set(fr, S, e, ('n', sym(CL)))
            p = (('BOUNDS',), ())
            S.size[p] = sym(CL)
            return self.set(fr, S, e, ('lref', p))
        return None

    def go(self):
        f = self.f0
        S = St()
        if f.name == 'crossover' and len(f.params) >= 3:
            # the fitness vectors of all candidates of a solver have the same length
            a, b = (self.size(S, (('P', ('root',), i), ('fitness',))) for i in (1, 2))
            S.learn(sub(a, b)).learn(sub(b, a))
        fr = Frame(f, ('root',), (('THIS',), ()), None, None)
        t = time.time()
        self.outs = self.run(fr, S)
        self.time = time.time() - t
        return self.outs

    def results(self):
        """[(state, path of a chromosome that leaves the operator)]"""
        f = self.f0; out = []
        for S, v in self.outs:
            self.flush(S)
            cs = set(self.chrom)
            if v is not None and v[0] == 'at':
                for c in set(S.size) | set(S.cont) | set(S.el):
                    if numint.prefix(v[1], c) and c[1] and c[1][-1] == 'chromosome': cs.add(c)
            for c in cs: self.settle(S, c)
            out.append((S, cs, v))
        return out


# -------------------------------------------------------------------- all operators, in parallel
_P = None
LIMIT = 240


class Timeout(Exception): pass


def show(c): return ' + '.join('%s*%s' % (k, name(s)) for s, k in c[0]) + ' + %s >= 0' % (c[1],)


def name(s):
    if len(s) > 2 and s[1] in ('LO', 'HI'): return '%s[..]' % {'LO': 'lower', 'HI': 'upper'}[s[1]]
    return '/'.join(str(x) for x in s[1:])[-40:]


def one(args):
    import signal, sys
    key, limit = args
    sys.setrecursionlimit(20000)
    f = _P.funcs[key]
    N = Ops(_P, f)
    r = dict(key=key, qn=f.qn, loc=f.loc(), gene=N.gt, err=None, fails=[], genes=[], obl=[], res=[], functions=[])
    def stop(*a): raise Timeout()
    signal.signal(signal.SIGALRM, stop); signal.alarm(limit)
    t = time.time()
    try:
        N.go()
        for S, cs, v in N.results():
            for c in sorted(cs, key=repr):
                t0 = N.template(S, c)
                if t0 is None: continue
                ok = N.implied(S, c, t0) if c in S.cont else N.is_chrom(S, c)
                r['res'].append(('/'.join(str(x) for x in c[1]) or 'the chromosome', bool(ok)))
        if f.name in ('selectImpl', 'nextPopulationImpl'): r['sel'] = N.selected()
    except TooMany as ex: r['err'] = 'no fixpoint: %s' % str(ex)[:150]
    except Timeout: r['err'] = 'not finished within %d s' % limit
    finally: signal.alarm(0)
    r['time'] = round(time.time() - t, 1)
    r['paths'] = len(getattr(N, 'outs', ()))
    seen = set()
    for g, e, w in N.fails:
        k = (g.key, g.loc(e), w)
        if k in seen: continue
        seen.add(k); r['fails'].append((g.key, g.qn, g.loc(e), w))
    r['obl'] = [(k[0], k[1], k[2], ok) for k, ok in sorted(N.obl.items())]
    r['genes'] = [(k[0], k[1], ok) for k, ok in sorted(N.genes.items())]
    r['functions'] = sorted(N.functions)
    return r


def run_all(P, fs, limit=LIMIT, jobs=None):
    import multiprocessing as mp, os
    global _P
    _P = P
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs or min(8, os.cpu_count() or 1)) as pool:
        order = sorted(fs, key=lambda f: -len(f.blocks) - (100 if 'cross' in f.qn else 0))
        return pool.map(one, [(f.key, limit) for f in order], chunksize=1)
