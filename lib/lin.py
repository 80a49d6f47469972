"""Linear inequalities over symbols: entailment (Farkas, exact rational simplex), and weak joins.

A linear expression is (terms, const) with terms a sorted tuple of (symbol, coefficient).  A symbol is a tuple whose first entry is 'i' (an
integer quantity) or 'r' (a real one).  A constraint is an expression that is >= 0."""
from fractions import Fraction as Fr
from math import gcd, floor

ZERO = ((), 0)


def num(c): return ((), c)
def sym(s): return (((s, 1),), 0)


def mk(d, c):
    return (tuple(sorted(((s, k) for s, k in d.items() if k != 0), key=lambda x: repr(x[0]))), c)


def add(a, b, k=1):
    if not b[0]: return (a[0], a[1] + k * b[1])
    d = dict(a[0])
    for s, c in b[0]: d[s] = d.get(s, 0) + k * c
    return mk(d, a[1] + k * b[1])


def sub(a, b): return add(a, b, -1)
def neg(a): return add(ZERO, a, -1)
def scale(a, k): return mk({s: c * k for s, c in a[0]}, a[1] * k)
def plus(a, c): return (a[0], a[1] + c)
def is_const(a): return not a[0]
def is_int(a): return all(s[0] == 'i' and Fr(c).denominator == 1 for s, c in a[0]) and Fr(a[1]).denominator == 1


def syms(a, out=None):
    out = set() if out is None else out
    for s, c in a[0]: out.add(s)
    return out


def deep(a, out):
    """symbols, including those inside of indexed symbols"""
    for s, c in a[0]:
        out.add(s)
        for x in s:
            if isL(x): deep(x, out)
    return out


def isL(x): return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], (int, float, Fr)) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and y[0] and y[0][0] in ('i', 'r') and isinstance(y[1], (int, Fr)) for y in x[0])


def subst_sym(s, m):
    if s in m: return None
    r = tuple(subst(x, m) if isL(x) else x for x in s)
    return r


def subst(a, m):
    """replace symbols (also inside of indexed symbols) by expressions"""
    if not m: return a
    r = ((), a[1]); ch = False
    out = {}
    c0 = a[1]
    for s, c in a[0]:
        if s in m:
            e = m[s]; ch = True
            for t, k in e[0]: out[t] = out.get(t, 0) + k * c
            c0 = c0 + e[1] * c
        else:
            t = s
            if any(isL(x) for x in s):
                t = subst_sym(s, m)
                if t != s: ch = True
            out[t] = out.get(t, 0) + c
    return mk(out, c0) if ch else a


def norm(a):
    """divide by the gcd; tighten integer constraints"""
    if not a[0]: return a
    if is_int(a):
        g = 0
        for s, c in a[0]: g = gcd(g, int(c))
        if g > 1: return (tuple((s, int(c) // g) for s, c in a[0]), floor(Fr(a[1]) / g))
        return (tuple((s, int(c)) for s, c in a[0]), int(a[1]))
    return a


_cache = {}


def component(cons, e):
    want = syms(e); left = list(cons); out = []
    ch = True
    while ch and left:
        ch = False; rest = []
        for c in left:
            ss = [s for s, k in c[0]]
            if any(s in want for s in ss):
                out.append(c); want.update(ss); ch = True
            else: rest.append(c)
        left = rest
    return out


def entails(cons, e):
    """do the constraints imply e >= 0"""
    e = norm(e)
    if not e[0]: return e[1] >= 0
    if e in cons: return True
    comp = component(cons, e)
    if not comp: return False
    for c in comp:
        if c[0] == e[0] and c[1] <= e[1]: return True
    have = set()
    for c in comp:
        for s, k in c[0]: have.add((s, k > 0))
    if any((s, k > 0) not in have for s, k in e[0]): return False
    comp = frozenset(comp)
    key = (comp, e)
    r = _cache.get(key)
    if r is not None: return r
    isint = is_int(e)
    for pt, ray in _models.get(comp, ()):
        # a point (or direction) that all constraints allow and e does not
        v = sum(k * pt.get(s, 0) for s, k in e[0])
        if not ray: v += e[1]
        if (v < 0) if ray or not isint else (v <= -1):
            _cache[key] = False
            return False
    b, pt, ray = best(comp, e)
    if b is None: r = False
    else: r = (b < e[1] + 1) if isint else (b <= e[1])
    if not r and pt is not None:
        ms = _models.setdefault(comp, [])
        if len(ms) < 40: ms.append((pt, ray))
    if len(_cache) > 400000: _cache.clear()
    if len(_models) > 20000: _models.clear()
    _cache[key] = r
    return r


_models = {}


def ints(row):
    """the row times the smallest positive number that makes it integral"""
    m = 1
    for x in row:
        if isinstance(x, Fr): m = m * x.denominator // gcd(m, x.denominator)
    return [int(x * m) for x in row] if m > 1 else [int(x) for x in row]


def reduced(row):
    g = gcd(*row)
    return [x // g for x in row] if g > 1 else row


def best(comp, e):
    """min of sum(l_i d_i) subject to sum(l_i c_i) = c_e, l >= 0 -> (value or None if infeasible, a point or direction that shows it, is direction)

    Simplex method with rows of integers; rows may be scaled by positive numbers."""
    comp = list(comp)
    rows = sorted({s for c in comp for s, k in c[0]} | {s for s, k in e[0]}, key=_repr)
    ix = {s: i for i, s in enumerate(rows)}
    m, n = len(rows), len(comp)
    N = n + m
    A = [[0] * (N + 1) for _ in range(m)]
    for s, k in e[0]: A[ix[s]][N] = k
    for j, c in enumerate(comp):
        for s, k in c[0]: A[ix[s]][j] = k
    sgn = [1] * m
    T = []; basis = []
    for i in range(m):
        row = A[i]
        if row[N] < 0: row = [-x for x in row]; sgn[i] = -1
        row[n + i] = 1
        row = ints(row); T.append(row); basis.append(n + i)
    # objective rows end with the negated value and the factor they were scaled by
    def objective(cost):
        z = [Fr(x) for x in cost] + [Fr(0), Fr(1)]
        for i in range(m):
            cb = z[basis[i]]
            if cb:
                d = T[i][basis[i]]; f = cb / d
                row = T[i]
                for q in range(N + 1):
                    if row[q]: z[q] -= f * row[q]
        return reduced(ints(z))

    def pivot(r, j, z):
        R = T[r]; p = R[j]
        if p < 0: R = T[r] = [-x for x in R]; p = -p
        for i in range(m):
            if i != r:
                k = T[i][j]
                if k:
                    T[i] = reduced([x * p - k * y for x, y in zip(T[i], R)])
        if z is not None:
            k = z[j]
            if k: z[:] = reduced([x * p - k * y for x, y in zip(z, R + [0])])
        basis[r] = j

    def run(z, limit):
        it = 0
        while True:
            it += 1
            if it > 3000: return False
            # steepest entry first, the first one when it takes long (no cycles)
            if it < 60:
                j = min(range(limit), key=z.__getitem__)
                if z[j] >= 0: return True
            else:
                j = next((j for j in range(limit) if z[j] < 0), None)
                if j is None: return True
            r = None
            for i in range(m):
                t = T[i][j]
                if t > 0:
                    if r is None: r = i
                    else:
                        x = T[i][N] * T[r][j] - T[r][N] * t
                        if x < 0 or (x == 0 and basis[i] < basis[r]): r = i
            if r is None: return None
            pivot(r, j, z)
    z = objective([0] * n + [1] * m)
    if run(z, N) is not True: return None, None, False
    if z[N] < 0:        # the artificial variables do not vanish
        f = z[N + 1]
        y = [(f - z[n + i]) * sgn[i] for i in range(m)]
        return None, {rows[i]: -y[i] for i in range(m) if y[i]}, True
    for i in range(m):
        if basis[i] >= n:
            j = next((j for j in range(n) if T[i][j] != 0), None)
            if j is not None: pivot(i, j, None)
    z = objective([c[1] for c in comp] + [0] * m)
    r = run(z, n)
    if r is None: return float('-inf'), None, False
    if r is False: return None, None, False
    f = z[N + 1]
    return Fr(-z[N], f), {rows[i]: Fr(z[n + i] * sgn[i], f) for i in range(m) if z[n + i]}, False


_reprs = {}


def _repr(s):
    r = _reprs.get(s)
    if r is None: r = _reprs[s] = repr(s)
    return r
