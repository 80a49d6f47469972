"""Resolves the library's anchors by public API (getters, setters, virtual interfaces), not by private names."""
from facts import AnalysisBroken


class Roles:
    def __init__(self, cx):
        P = cx.P; self.P = P; self.cx = cx
        self.ga = sorted(r for r in P.records if r.startswith('gapp::GA<'))
        if not self.ga: raise AnalysisBroken('no GA<T> instantiation')
        self.info = 'gapp::GaInfo'
        if self.info not in P.records: raise AnalysisBroken('class GaInfo')
        g = lambda cls, nm: self.getter_field(cls, nm)
        self.gen = g(self.info, 'generation_cntr'); self.evals = g(self.info, 'num_fitness_evals'); self.fm = g(self.info, 'fitness_matrix')
        self.maxgen = g(self.info, 'max_gen'); self.popsize = g(self.info, 'population_size')
        self.keep = g(self.info, 'keep_all_optimal_solutions'); self.alg = g(self.info, 'algorithm'); self.stop = g(self.info, 'stop_condition')
        self.nobj = g(self.info, 'num_objectives')
        ga = self.ga[0]
        self.pop = g(ga, 'population'); self.sols = g(ga, 'solutions'); self.fitfn = g(ga, 'fitness_function')
        self.cross = g(ga, 'crossover_method'); self.mut = g(ga, 'mutation_method')
        self.cb = self.field_by_type(self.info, lambda t: t.get('tmpl') == 'std::function')
        self.metrics = self.field_by_type(self.info, lambda t: 'MetricSet' in t.get('s', ''))
        self.cache = self.field_by_type(ga, lambda t: 'fifo_cache' in t.get('s', ''))

    def getter_field(self, cls, name):
        """name of the field a public getter returns"""
        P = self.P
        for c in [cls] + P.all_bases(cls):
            for f in P.by_cls.get(c, []):
                if f.name == name and not f.params and f.get('const'):
                    for b, i, e in f.elems():
                        if isinstance(e, int) and f.E[e]['k'] == 'ret' and 'e' in f.E[e]:
                            for src in (self.cx.paths.path(f, f.E[e]['e']), self.cx.paths.pointee(f, f.E[e]['e'])):
                                for r, s in src:
                                    if r == ('this',):
                                        for x in s:
                                            if x not in ('*', '[]', '&'): return x
                    # any field mentioned in the body (e.g. converted or atomically loaded)
                    for n in f.E:
                        if n and n['k'] == 'field' and f.E[n['b']]['k'] == 'this': return n['name']
        raise AnalysisBroken('getter %s::%s' % (cls, name))

    def field_by_type(self, cls, pred):
        for c, fd in self.P.fields(cls, True):
            if pred(self.P.T(fd['t'])): return fd['name']
        raise AnalysisBroken('field of %s by type' % cls)

    def solves(self):
        """public solve overloads of all GA instantiations"""
        out = []
        for c in self.ga:
            out += [f for f in self.P.by_cls.get(c, []) if f.name == 'solve']
        if not out: raise AnalysisBroken('GA::solve')
        return out

    def setters(self, name):
        return [f for c in self.ga + [self.info] for f in self.P.by_cls.get(c, []) if f.name == name and f.params]


def this_field(path):
    """first field name of a path rooted at the GA object"""
    r, s = path
    if r[0] in ('this', 'othis') and s:
        return s[0]
    return None


def method_of(P, n, base, names):
    """call node n calls a method called names declared in (a subclass of) base"""
    if n['k'] != 'call' or 'obj' not in n: return False
    nm = n.get('qn', '').rsplit('::', 1)[-1]
    if nm not in names: return False
    cls = n.get('cls', '')
    return cls.split('<')[0] == base or P.is_a(cls, base)


ONCE = ('std::invoke', 'std::__invoke', 'std::apply', 'std::invoke_r')


def reaching(P, seeds):
    """functions from which a function of seeds is reachable (calls, lambdas, virtual dispatch, destructors)"""
    from collections import defaultdict
    rev = defaultdict(set)
    for f in P.funcs.values():
        for n in f.E:
            if not n: continue
            if n['k'] in ('call', 'ctor'):
                for g in P.callees(f, n): rev[g.key].add(f.key)
                if n.get('qn') in ONCE and n.get('args'):   # a callable that was passed in
                    for g in P.lambda_of(f, n['args'][0]): rev[g.key].add(f.key)
            if n['k'] == 'lambda':
                for o in n['ops']: rev[o].add(f.key)
            if n['k'] in ('fnref', 'mref') and n.get('fn'): rev[n['fn']].add(f.key)
        for b in f.blocks.values():
            for e in b['e']:
                if isinstance(e, dict) and e.get('fn'): rev[e['fn']].add(f.key)
    seen = set(seeds); st = list(seeds)
    while st:
        k = st.pop()
        for q in rev[k]:
            if q not in seen: seen.add(q); st.append(q)
    return seen
