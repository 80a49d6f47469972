"""The operators never reach outside of their containers: element accesses, iterators, ranges of algorithms, requests to the random number functions
and the preconditions stated in helper functions, decided by abstract interpretation over linear inequalities (lib/numint.py)."""
import numops, rngcontract
from rules import c04

RULE = 'the inequalities that make an access, a range or a request legal follow from what holds on every path to it'
ASSUMPTIONS = ['real arithmetic is exact: rounding and NaN are not modelled', 'the precondition an operator states about its own arguments holds',
               'the numbers of sampleUnique, randomNormal, randomBinomial are in the range they are asked for', 'the solver provides one pair of bounds per gene']


def positional(P, f):
    """operators that find positions by looking genes up: element accesses are legal only because the chromosome is a permutation"""
    return f.name == 'crossover' and numops.GENES.get(numops.gene_type(P, f)) == 'perm'


ACCESS = ('the element accessed exists', 'the iterator dereferenced points to an element', 'the iterator stays within its range')


def check(cx):
    P = cx.P
    fs = c04.scope(P)
    test = [f for f in P.funcs.values() if 'verif_selftest' in f.key and f.name in c04.NAMES and f.blocks and numops.gene_type(P, f)]
    done = 0; sites = set(); skipped = 0
    for r in numops.run_all(P, fs + test, 500 if cx.tier == 'thorough' else numops.LIMIT):
        f = P.funcs[r['key']]; short = r['qn']
        selftest = 'verif_selftest' in r['key']
        if r['err'] and not r['obl']: cx.undecided.append('%s: %s' % (short, r['err'])); continue
        if r['err']: cx.undecided.append('%s: %s' % (short, r['err']))
        done += not selftest
        pos = positional(P, f)
        for k, l, w, ok in r['obl']:
            if pos and w in ACCESS: skipped += 1; continue
            g = P.funcs.get(k)
            if not selftest: sites.add((k, l, w)); cx.obligation('%s: %s at %s' % (short, w, l), ok)
            if not ok and not r['err']:
                cx.violation('reach|%s|%s|%s' % (short, g.name if g else '', w), l, '%s: it does not follow that %s' % (short, w), func=r['key'])
    if test: cx.expect_selftest('one_too_far')
    rng = rngcontract.report(cx, ('randomInt', 'randomReal', 'randomIndex', 'randomElement'))
    cx.anchor(done >= 10, 'operators that could be interpreted')
    cx.coverage.update(operators=done, random_functions=rng, sites=len(sites), accesses_left_out=skipped)
