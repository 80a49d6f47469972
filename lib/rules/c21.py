"""Combinations: every component of the library (found in the current sources by its base class) is paired with every solver and every place that takes
components; the compiler's constraint checker decides for each pair whether it is accepted.  Compile-time witnesses: nothing is run."""
import re
import witness

RULE = 'a component is accepted exactly where its kind and its gene type belong; bounds are taken exactly by solvers with bounded genes; solvers and guards cannot be duplicated or changed through const access'
ASSUMPTIONS = ['the gene type a built-in operator or problem belongs to is that of its namespace or documentation', 'constraints are checked on declarations; bodies are covered by instantiation in the analysis of the other properties']

GENES = {'binary': 'BinaryGene', 'real': 'RealGene', 'perm': 'PermutationGene', 'integer': 'IntegerGene'}
SOLVERS = {'binary': 'BinaryGA', 'real': 'RCGA', 'perm': 'PermutationGA', 'integer': 'IntegerGA'}
BOUNDED = {'real', 'integer'}
CANON = {'unsigned char': 'binary', 'double': 'real', 'unsigned long': 'perm', 'long': 'integer'}

PRE = '''
namespace verif_w {
using namespace gapp;
template<class G, class X> concept cross = requires(G& g, X x) { g.crossover_method(std::move(x)); };
template<class G, class X> concept mut = requires(G& g, X x) { g.mutation_method(std::move(x)); };
template<class G, class X> concept alg = requires(G& g, X x) { g.algorithm(std::move(x)); };
template<class G, class X> concept stop = requires(G& g, X x) { g.stop_condition(std::move(x)); };
template<class G, class X> concept track = requires(G& g, X x) { g.track(std::move(x)); };
template<class G, class X> concept track2 = requires(G& g, X x, metrics::FitnessMin m) { g.track(m, std::move(x)); };
template<class G, class X> concept get = requires(const G& g) { g.template get_metric<X>(); };
template<class G, class X> concept getif = requires(const G& g) { g.template get_metric_if<X>(); };
template<class X> concept sel = requires(algorithm::SingleObjective& a, X x) { a.selection_method(std::move(x)); };
template<class X> concept rep = requires(algorithm::SingleObjective& a, X x) { a.replacement_method(std::move(x)); };
template<class S, class R> concept soga = requires(S s, R r) { algorithm::SingleObjective(std::move(s), std::move(r)); };
template<class A, class B> concept conj = requires(A a, B b) { std::move(a) && std::move(b); };
template<class A, class B> concept disj = requires(A a, B b) { std::move(a) || std::move(b); };
template<class A> concept neg = requires(A a) { !std::move(a); };
template<class G, class F> concept solves = requires(G& g, F f) { g.solve(std::move(f)); };
template<class G, class F> concept solves_gen = requires(G& g, F f) { g.solve(std::move(f), std::size_t(10)); };
template<class G, class F, class B> concept solves_b = requires(G& g, F f, B b) { g.solve(std::move(f), b); };
template<class G, class F, class B> concept solves_b_gen = requires(G& g, F f, B b) { g.solve(std::move(f), b, std::size_t(10)); };
template<class G, class F, class P> concept solves_init = requires(G& g, F f, P p) { g.solve(std::move(f), std::size_t(10), std::move(p)); };
template<class G, class F, class B, class P> concept solves_b_init = requires(G& g, F f, B b, P p) { g.solve(std::move(f), b, std::size_t(10), std::move(p)); };
template<class G> concept has_bounds = requires(const G& g) { g.gene_bounds(); };
template<class G, class C, class M> concept built = requires(C c, M m) { G(std::size_t(10), std::move(c), std::move(m)); };
template<class G, class A, class C, class M> concept built4 = requires(A a, C c, M m) { G(std::size_t(10), std::move(a), std::move(c), std::move(m)); };
template<class G, class A> concept built_a = requires(A a) { G(std::size_t(10), std::move(a)); };
template<class T, int N> struct Fit : FitnessFunction<T, N> { FitnessVector invoke(const Chromosome<T>&) const override; };
struct Other {};
using GB = GA<BinaryGene>; using GR = GA<RealGene>; using GP = GA<PermutationGene>; using GI = GA<IntegerGene>;
template<class G, class V> concept set_pop = requires(G& g, V v) { g.population_size(v); };
template<class G> concept set_gen = requires(G& g) { g.max_gen(std::size_t(5)); };
template<class G> concept set_pc = requires(G& g) { g.crossover_rate(0.5); };
template<class G> concept set_pm = requires(G& g) { g.mutation_rate(0.5); };
template<class G> concept set_keep = requires(G& g) { g.keep_all_optimal_solutions(true); };
template<class G> concept set_cb = requires(G& g) { g.on_generation_end(nullptr); };
template<class G> concept set_cache = requires(G& g) { g.cache_size(std::size_t(1)); };
template<class G> concept set_repair = requires(G& g) { g.repair_function(nullptr); };
template<class T> inline constexpr bool no_copy = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T>;
template<class T> inline constexpr bool no_copy_move = no_copy<T> && !std::is_move_constructible_v<T> && !std::is_move_assignable_v<T>;
template<class T> inline constexpr bool ref_to_const = std::is_const_v<std::remove_reference_t<T>> || !std::is_reference_v<T>;
}
'''


def check(cx):
    P = cx.P
    ws = []; what = {}
    def w(key, expr, expected, text):
        if key in what: return
        what[key] = text
        ws.append((key, 'namespace verif_w { static_assert(%s(%s)); }' % ('' if expected else '!', expr)))

    def of(base, ns):
        """concrete classes of the library below a base class, by namespace"""
        out = []
        for c in sorted(P.records):
            if '<' in c or 'verif' in c or not c.startswith('gapp::' + ns) or c == base: continue
            if any(b.split('<')[0] == base for b in P.all_bases(c)): out.append(c)
        return out
    def genes_of(c, base):
        return {CANON.get(b[b.index('<') + 1:b.rindex('>')]) for b in P.all_bases(c) if b.split('<')[0] == base and '<' in b}
    kinds = {'crossover': of('gapp::crossover::Crossover', 'crossover'), 'mutation': of('gapp::mutation::Mutation', 'mutation'), 'problem': of('gapp::FitnessFunctionBase', 'problems'),
             'algorithm': of('gapp::algorithm::Algorithm', 'algorithm'), 'stop condition': of('gapp::stopping::StopCondition', 'stopping'), 'metric': of('gapp::metrics::MonitorBase', 'metrics'),
             'selection': [c for c in of('gapp::selection::Selection', 'selection')], 'replacement': [c for c in of('gapp::replacement::Replacement', 'replacement')]}
    for k, n in (('crossover', 10), ('mutation', 6), ('problem', 10), ('algorithm', 2), ('stop condition', 4), ('metric', 5), ('selection', 3), ('replacement', 2)):
        cx.anchor(len(kinds[k]) >= n, 'built-in components: ' + k)
    ns_gene = lambda c: next((g for g in GENES if '::%s::' % g in c), None)
    one = {k: v[0] for k, v in kinds.items() if v}
    groups = {'crossover': ('cross', kinds['crossover']), 'mutation': ('mut', kinds['mutation'])}

    for s, solver in SOLVERS.items():
        G = solver; T = GENES[s]
        for kind, (con, cs) in groups.items():
            for c in cs:
                g = ns_gene(c)
                if not g: continue
                w('%s/%s' % (c, G), '%s<%s, ::%s>' % (con, G, c), g == s, '%s %s %s' % (G, 'accepts' if g == s else 'refuses', c))
            base = 'crossover::Crossover' if kind == 'crossover' else 'mutation::Mutation'
            for g in GENES:
                w('%s ptr/%s/%s' % (kind, g, G), '%s<%s, std::unique_ptr<%s<%s>>>' % (con, G, base, GENES[g]), g == s, '%s %s a pointer to a %s of %s genes' % (G, 'accepts' if g == s else 'refuses', kind, g))
                sig = 'CandidatePair<{0}>(const GA<{0}>&, const Candidate<{0}>&, const Candidate<{0}>&)' if kind == 'crossover' else 'void(const GA<{0}>&, const Candidate<{0}>&, Chromosome<{0}>&)'
                w('%s fn/%s/%s' % (kind, g, G), '%s<%s, std::function<%s>>' % (con, G, sig.format(GENES[g])), g == s, '%s %s a callable %s of %s genes' % (G, 'accepts' if g == s else 'refuses', kind, g))
        # one kind of component is not another one
        places = {'crossover': 'cross', 'mutation': 'mut', 'algorithm': 'alg', 'stop condition': 'stop', 'metric': 'track'}
        sample = {k: [c for c in v if k not in ('crossover', 'mutation') or ns_gene(c) == s] for k, v in kinds.items()}
        for pk, con in places.items():
            for ck, cs in sample.items():
                for c in cs[:1] if ck != pk else cs:
                    if ck == 'problem': continue
                    w('%s as %s/%s' % (c, pk, G), '%s<%s, ::%s>' % (con, G, c), ck == pk, '%s %s %s as its %s' % (G, 'accepts' if ck == pk else 'refuses', c, pk))
            w('other as %s/%s' % (pk, G), '%s<%s, Other>' % (con, G), False, '%s refuses an unrelated class as its %s' % (G, pk))
            w('int as %s/%s' % (pk, G), '%s<%s, int>' % (con, G), False, '%s refuses a number as its %s' % (G, pk))
        for c in sample['metric'][:2]:
            w('get %s/%s' % (c, G), 'get<%s, ::%s> && getif<%s, ::%s>' % (G, c, G, c), True, '%s can be asked for %s' % (G, c))
        w('get other/%s' % G, 'get<%s, Other> || getif<%s, Other> || get<%s, ::%s>' % (G, G, G, one['stop condition']), False, '%s cannot be asked for something that is no metric' % G)
        w('track other too/%s' % G, 'track2<%s, Other> || track2<%s, ::%s>' % (G, G, one['stop condition']), False, '%s refuses a list of metrics with something else in it' % G)
        for k in ('algorithm', 'stop condition'):
            con = places[k]; base = {'algorithm': 'algorithm::Algorithm', 'stop condition': 'stopping::StopCondition'}[k]
            w('%s ptr/%s' % (k, G), '%s<%s, std::unique_ptr<%s>>' % (con, G, base), True, '%s accepts a pointer to a %s' % (G, k))
            w('%s null/%s' % (k, G), '%s<%s, std::nullptr_t>' % (con, G), True, '%s accepts nullptr as its %s' % (G, k))
        # construction
        for a, c in ((a, c) for a in GENES for c in GENES):
            x = next((q for q in kinds['crossover'] if ns_gene(q) == a), None); m = next((q for q in kinds['mutation'] if ns_gene(q) == c), None)
            if not x or not m: continue
            ok = a == s and c == s
            w('ctor %s %s/%s' % (a, c, G), 'built<%s, ::%s, ::%s>' % (G, x, m), ok, '%s %s a %s crossover and a %s mutation in its constructor' % (G, 'accepts' if ok else 'refuses', a, c))
            w('ctor4 %s %s/%s' % (a, c, G), 'built4<%s, ::%s, ::%s, ::%s>' % (G, one['algorithm'], x, m), ok, '%s %s an algorithm, a %s crossover and a %s mutation in its constructor' % (G, 'accepts' if ok else 'refuses', a, c))
            if ok:
                w('ctor swapped/%s' % G, 'built<%s, ::%s, ::%s>' % (G, m, x), False, '%s refuses mutation and crossover in the wrong order' % G)
                w('ctor4 no algorithm/%s' % G, 'built4<%s, ::%s, ::%s, ::%s>' % (G, one['selection'], x, m), False, '%s refuses a selection method as its algorithm' % G)
        for c in kinds['algorithm']: w('ctor %s/%s' % (c, G), 'built_a<%s, ::%s>' % (G, c), True, '%s can be constructed from %s' % (G, c))
        w('ctor selection/%s' % G, 'built_a<%s, ::%s> || built_a<%s, Other>' % (G, one['selection'], G), False, '%s cannot be constructed from something that is no algorithm' % G)
        # fitness functions and bounds
        B = s in BOUNDED
        for g in GENES:
            for kind, F in (('object', 'Fit<%s, 4>' % GENES[g]), ('pointer', 'std::unique_ptr<FitnessFunctionBase<%s>>' % GENES[g])):
                ok = g == s
                d = 'a fitness function (%s) of %s genes' % (kind, g)
                w('solve %s %s/%s' % (kind, g, G), 'solves<%s, %s>' % (G, F), ok and not B, '%s %s %s without bounds' % (G, 'takes' if ok and not B else 'refuses', d))
                w('solve gen %s %s/%s' % (kind, g, G), 'solves_gen<%s, %s>' % (G, F), ok and not B, '%s %s %s without bounds for a number of generations' % (G, 'takes' if ok and not B else 'refuses', d))
                w('solve init %s %s/%s' % (kind, g, G), 'solves_init<%s, %s, Population<%s>>' % (G, F, T), ok and not B, '%s %s %s without bounds and an initial population' % (G, 'takes' if ok and not B else 'refuses', d))
                if not B:
                    for b in ('Bounds<double>', 'BoundsVector<double>', 'Bounds<IntegerGene>'):
                        w('solve %s %s %s/%s' % (b, kind, g, G), 'solves_b<%s, %s, %s> || solves_b_gen<%s, %s, %s>' % (G, F, b, G, F, b), False, '%s takes no %s' % (G, b))
                else:
                    for b in ('Bounds', 'BoundsVector'):
                        w('solve %s %s %s/%s' % (b, kind, g, G), 'solves_b<%s, %s, %s<%s>>' % (G, F, b, T), ok, '%s %s %s with %s' % (G, 'takes' if ok else 'refuses', d, b))
                        w('solve gen %s %s %s/%s' % (b, kind, g, G), 'solves_b_gen<%s, %s, %s<%s>>' % (G, F, b, T), ok, '%s %s %s with %s and a number of generations' % (G, 'takes' if ok else 'refuses', d, b))
                        w('solve init %s %s %s/%s' % (b, kind, g, G), 'solves_b_init<%s, %s, %s<%s>, Population<%s>>' % (G, F, b, T, T), ok, '%s %s %s with %s and an initial population' % (G, 'takes' if ok else 'refuses', d, b))
                        for g2 in BOUNDED - {s}:
                            w('solve foreign %s %s %s %s/%s' % (b, kind, g, g2, G), 'solves_b<%s, %s, %s<%s>> || solves_b_gen<%s, %s, %s<%s>>' % (G, F, b, GENES[g2], G, F, b, GENES[g2]), False, '%s refuses %s of %s genes' % (G, b, g2))
                    for g2 in GENES:
                        if g2 != s: w('solve population %s %s %s/%s' % (kind, g, g2, G), 'solves_b_init<%s, %s, Bounds<%s>, Population<%s>>' % (G, F, T, GENES[g2]), False, '%s refuses an initial population of %s genes' % (G, g2))
                if not B:
                    for g2 in GENES:
                        if g2 != s: w('solve population %s %s %s/%s' % (kind, g, g2, G), 'solves_init<%s, %s, Population<%s>>' % (G, F, GENES[g2]), False, '%s refuses an initial population of %s genes' % (G, g2))
        for c in kinds['problem']:
            g = genes_of(c, 'gapp::FitnessFunctionBase')
            if not g or None in g: continue
            e = 'solves_b<%s, ::%s, Bounds<%s>>' % (G, c, T) if B else 'solves<%s, ::%s>' % (G, c)
            w('problem %s/%s' % (c, G), e, s in g, '%s %s %s' % (G, 'solves' if s in g else 'refuses', c))
        w('no fitness/%s' % G, 'solves<%s, Other> || solves_gen<%s, Other>' % (G, G) + (' || solves_b<%s, Other, Bounds<%s>> || solves_b_gen<%s, Other, Bounds<%s>>' % (G, T, G, T) if B else ''), False, '%s refuses a fitness function that is none' % G)
        w('bounds/%s' % G, 'has_bounds<%s>' % G, B, '%s %s gene bounds' % (G, 'has' if B else 'has no'))
        # access
        w('copy/%s' % G, 'no_copy<%s>' % G, True, '%s cannot be copied' % G)
        w('move/%s' % G, 'std::is_move_constructible_v<%s> && std::is_move_assignable_v<%s>' % (G, G), True, '%s can be moved' % G)
        for con in ('set_gen', 'set_pc', 'set_pm', 'set_keep', 'set_cb', 'set_cache', 'set_repair'):
            w('%s/%s' % (con, G), '%s<%s>' % (con, G), True, '%s: setting %s' % (G, con[4:]))
            w('const %s/%s' % (con, G), '%s<const %s>' % (con, G), False, 'a const %s cannot be changed (%s)' % (G, con[4:]))
            if con not in ('set_cache', 'set_repair'): w('const %s/info' % con, '%s<const GaInfo>' % con, False, 'a const view of the solver cannot be changed (%s)' % con[4:])
        w('const pop/%s' % G, 'set_pop<const %s, std::size_t> || cross<const %s, std::nullptr_t> || alg<const %s, std::nullptr_t> || stop<const %s, std::nullptr_t>' % (G, G, G, G), False, 'a const %s cannot be changed (population size, methods)' % G)
        for con, c in (('cross', next(q for q in kinds['crossover'] if ns_gene(q) == s)), ('mut', next(q for q in kinds['mutation'] if ns_gene(q) == s)), ('alg', one['algorithm']), ('stop', one['stop condition']), ('track', one['metric'])):
            w('const %s/%s' % (con, G), '%s<const %s, ::%s>' % (con, G, c), False, 'a const %s cannot be given another %s' % (G, c))
        for getter in ('population', 'solutions', 'fitness_matrix', 'crossover_method', 'mutation_method', 'algorithm', 'stop_condition'):
            w('%s/%s' % (getter, G), 'ref_to_const<decltype(std::declval<%s&>().%s())>' % (G, getter), True, '%s gives no write access to its %s' % (G, getter.replace('_', ' ')))
        w('fitness/%s' % G, 'std::is_const_v<std::remove_pointer_t<decltype(std::declval<%s&>().fitness_function())>>' % G, True, '%s gives no write access to its fitness function' % G)
    # the algorithm of single-objective problems
    for ck, cs in kinds.items():
        for c in cs:
            if ck in ('selection', 'replacement') or c == cs[0]:
                w('sel %s' % c, 'sel<::%s>' % c, ck == 'selection', 'the single-objective algorithm %s %s as its selection' % ('accepts' if ck == 'selection' else 'refuses', c))
                w('rep %s' % c, 'rep<::%s>' % c, ck == 'replacement', 'the single-objective algorithm %s %s as its replacement' % ('accepts' if ck == 'replacement' else 'refuses', c))
    for a in ('selection', 'replacement', 'algorithm'):
        for b in ('selection', 'replacement', 'stop condition'):
            ok = a == 'selection' and b == 'replacement'
            w('soga %s %s' % (a, b), 'soga<::%s, ::%s>' % (one[a], one[b]), ok, 'a single-objective algorithm %s be made of a %s and a %s' % ('can' if ok else 'cannot', a, b))
    w('soga other', 'sel<Other> || rep<Other> || sel<int> || rep<int>', False, 'the single-objective algorithm refuses unrelated classes')
    # composition of stop conditions
    sc = kinds['stop condition']
    for c in sc:
        w('not %s' % c, 'neg<::%s>' % c, True, '%s can be negated' % c)
        w('and %s' % c, 'conj<::%s, ::%s> && disj<::%s, ::%s>' % (c, sc[0], sc[0], c), True, '%s can be combined' % c)
        w('stays %s' % c, 'std::derived_from<decltype(!std::declval<::%s>()), stopping::StopCondition> && std::derived_from<decltype(std::declval<::%s>() && std::declval<::%s>()), stopping::StopCondition> && std::derived_from<decltype(std::declval<::%s>() || std::declval<::%s>()), stopping::StopCondition>' % (c, c, sc[0], sc[0], c), True, 'a combination with %s is a stop condition' % c)
        w('composite %s' % c, 'stop<BinaryGA, decltype(!(std::declval<::%s>() && !std::declval<::%s>()) || std::declval<::%s>())>' % (c, sc[0], c), True, 'a nested combination with %s is accepted by a solver' % c)
    w('stop mix', 'conj<::%s, Other> || disj<Other, ::%s> || conj<::%s, ::%s> || disj<::%s, ::%s>' % (sc[0], sc[0], sc[0], one['metric'], one['selection'], sc[0]), False, 'stop conditions cannot be combined with other components')
    # guards
    for t in ('math::ScopedTolerances', 'detail::restore_on_exit<int>', 'detail::scope_exit<std::function<void()>>'):
        w('guard ' + t, 'no_copy_move<%s>' % t, True, '%s cannot be duplicated' % t)
    w('guard pool', 'no_copy_move<detail::thread_pool>', True, 'the thread pool cannot be duplicated')
    for c in ('crossover::Crossover<RealGene>', 'mutation::Mutation<RealGene>', 'algorithm::Algorithm', 'selection::Selection', 'replacement::Replacement', 'stopping::StopCondition', 'FitnessFunctionBase<RealGene>', 'metrics::MonitorBase'):
        w('abstract ' + c, 'std::is_abstract_v<%s>' % c, True, '%s is an interface' % c)
        if c != 'metrics::MonitorBase': w('destructor ' + c, 'std::has_virtual_destructor_v<%s>' % c, True, '%s can be destroyed through a pointer to its base' % c)
    # self-test: a witness that has to fail
    ws.append(('selftest', 'namespace verif_w { static_assert(cross<Other, crossover::real::Wright>); }'))
    res = witness.compile_witnesses(ws, witness.HEAD + '#include "utility/thread_pool.hpp"\n#include "utility/scope_exit.hpp"\n' + PRE)
    ok, msg, kind = res.pop('selftest')
    if ok or kind != 'assert': cx.undecided.append('the witnesses of a refused combination are accepted (%s)' % msg[:80])
    cx.anchor(not ok, 'self-test of the witnesses')
    form = 0
    for k, (ok, msg, kind) in res.items():
        if kind == 'error':
            form += 1; cx.undecided.append('%s: %s' % (k, msg[:80])); continue
        cx.obligation(what[k], ok)
        if not ok: cx.violation('witness|' + k, 'gapp.hpp', 'the compiler decides otherwise: %s' % what[k], func=k)
    cx.anchor(form < len(res) // 10, 'witnesses that could be formed')
    cx.coverage.update(witnesses=len(res), solvers=len(SOLVERS), components={k: len(v) for k, v in kinds.items()})
