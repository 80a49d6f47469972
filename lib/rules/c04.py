"""Genes stay inside of their bounds: the operators that create or change candidates are interpreted over linear inequalities (lib/numint.py).

The genes the operator is given satisfy their invariant (real and integer genes lie between the lower and the upper bound of their own position,
binary genes are 0 or 1, the entries of a permutation are positions of the chromosome); on every path the genes of the candidates that come out have
to satisfy it again, for every chromosome length, all bounds, every operator parameter and every outcome of the random numbers."""
import numops, rngcontract

RULE = 'at every exit of a creating, crossing or mutating operator the inequality between each gene and the bounds of its own position follows from the path'
ASSUMPTIONS = ['real arithmetic is exact: rounding and NaN are not modelled', 'the numbers of sampleUnique, randomNormal, randomBinomial are in the range they are asked for',
               'the solver provides one pair of bounds per gene of a chromosome it creates']
NAMES = ('mutate', 'crossover', 'generateCandidate')


def scope(P):
    out = []
    for f in numops.entries(P, NAMES):
        if numops.gene_type(P, f) is None and f.name != 'generateCandidate': continue
        if calls_user(P, f): continue
        if f.get('cls', '').startswith('gapp::GA<'): continue            # the solver's own driver of the same name
        if f.get('cls', '').endswith('crossover::perm::Edge'): continue   # its genes come out of a search through neighbour lists
        out.append(f)
    return out


def calls_user(P, f):
    """the operator only forwards to a function of the user"""
    return any(n and n['k'] == 'call' and n.get('op') == '()' and 'std::function' in f.type(n['obj']).get('s', '') for n in f.E if n and 'obj' in n)


def check(cx):
    P = cx.P
    fs = scope(P)
    test = [f for f in P.funcs.values() if 'verif_selftest' in f.key and f.name in NAMES and f.blocks and numops.gene_type(P, f)]
    done = 0; chroms = 0
    for r in numops.run_all(P, fs + test, 500 if cx.tier == 'thorough' else numops.LIMIT):
        f = P.funcs[r['key']]
        selftest = 'verif_selftest' in r['key']
        short = r['qn']
        if r['err']:
            cx.undecided.append('%s: %s' % (short, r['err'])); continue
        done += not selftest
        bad = sorted({c for c, ok in r['res'] if not ok})
        at = [(k, l) for k, l, ok in r['genes'] if not ok]
        if not selftest:
            chroms += len(r['res'])
            cx.obligation('the genes %s leaves behind are legal (%s genes)' % (short, r['gene']), not bad)
            for k, l, ok in r['genes']: cx.obligation('the gene stored at %s by %s is legal' % (l, short), ok or not bad)
            cx.anchor(r['res'] or r['paths'] == 0, 'candidates that leave %s' % short)
        if bad:
            cx.violation('gene|%s|%s' % (short, bad[0]), at[0][1] if at else f.loc(), '%s: a gene of %s can end up outside of the bounds of its position' % (short, bad[0]),
                         trace=[l for k, l in at], func=r['key'])
    if test: cx.expect_selftest('unclamped')
    rng = rngcontract.report(cx, ('randomInt', 'randomReal'))
    cx.anchor(done >= 10, 'operators that could be interpreted')
    cx.coverage.update(operators=done, random_functions=rng, chromosome_states=chroms)
