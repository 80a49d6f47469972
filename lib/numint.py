"""Abstract interpretation over linear inequalities: sizes of containers, indices, iterators, counters, and the values stored in containers.

Calls of the library's own functions are interpreted in line, random number generators and standard algorithms by their contracts.  Every
element access, iterator step, algorithm range and random request is an obligation: the inequality that makes it legal must follow from what holds
on every path to it."""
import sys
import lin
from lin import ZERO, num, sym, add, sub, neg, scale, plus, entails, subst, syms, is_const, is_int

X = ('r', 'X'); XI = ('i', 'X'); K = ('i', 'K')
CONT = ('std::vector<', 'gapp::small_vector<', 'std::array<', 'std::span<', 'gapp::detail::dynamic_bitset', 'std::deque<', 'std::basic_string<')
MAXST = 10
SIGNED = ('int', 'long', 'long long', 'short', 'signed char', 'char')
UNSIGNED = ('unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char', 'size_t', 'bool')


def bare(s):
    s = s.strip()
    while True:
        t = s
        for p in ('const ', 'volatile '):
            if t.startswith(p): t = t[len(p):]
        t = t.rstrip('&').strip()
        if t.endswith(' const'): t = t[:-6]
        if t == s: return t
        s = t


class TooMany(Exception): pass


class St:
    __slots__ = ('env', 'size', 'cont', 'el', 'cons', 'vals')

    def __init__(self): self.env = {}; self.size = {}; self.cont = {}; self.el = {}; self.cons = set(); self.vals = {}

    def copy(self):
        s = St(); s.env = dict(self.env); s.size = dict(self.size); s.cont = dict(self.cont)
        s.el = {k: dict(v) for k, v in self.el.items()}; s.cons = set(self.cons); s.vals = dict(self.vals)
        return s

    def has(self, e): return entails(self.cons, e)
    def eq(self, a, b): return a == b or (self.has(sub(a, b)) and self.has(sub(b, a)))

    def learn(self, e):
        e = lin.norm(e)
        if e[0]: self.cons.add(e)
        return self


class Frame:
    def __init__(self, f, fid, this, params, up, env=None):
        self.f = f; self.fid = fid; self.this = this; self.params = params; self.up = up; self.env = env; self.depth = up.depth + 1 if up else 0


def isnum(v): return v is not None and v[0] == 'n'


def prefix(p, q): return p[0] == q[0] and q[1][:len(p[1])] == p[1]


def rebase(p, src, dst): return (dst[0], dst[1] + p[1][len(src[1]):])


class NumInt:
    max_depth = 9

    def __init__(self, P, report, rec_gene=None):
        self.P = P; self.report = report; self.n = 0; self.seen_calls = set(); self.functions = set(); self.heads = {}
        self.entry = None; self.checks = {}; self.evaluated = set()

    # ---------------------------------------------------------------- symbols and types
    def ts(self, t): return bare(self.P.T(t).get('s', '')) if isinstance(t, int) else bare(t or '')

    def kind(self, s):
        s = bare(s)
        if s == 'bool': return 'bool'
        if s in SIGNED: return 'int'
        if s in UNSIGNED: return 'uint'
        if s in ('double', 'float', 'long double'): return 'real'
        if s.startswith(CONT): return 'cont'
        if s.startswith('gapp::Bounds<'): return 'bnd'
        if s.startswith('gapp::detail::BoundedValue<'): return 'bval'
        return 'other'

    def rename_out(self, S, s):
        """the symbol is about to denote something new: whatever still uses the old meaning gets another name"""
        used = False
        for c in S.cons:
            if any(s in lin.deep(c, set()) for _ in (0,)): used = True; break
        if not used: used = any(self.mentions(v, s) for m in (S.env, S.vals) for v in m.values()) or any(s in lin.deep(v, set()) for v in S.size.values()) or \
            any(self.mentions(v, s) or s in lin.deep(k, set()) for d in S.el.values() for k, v in d.items()) or any(self.cmentions(v, s) for v in S.cont.values())
        if not used: return
        live = any(self.mentions(v, s) for m in (S.env, S.vals) for v in m.values()) or any(s in lin.deep(v, set()) for v in S.size.values()) or \
            any(self.mentions(v, s) or s in lin.deep(k, set()) for d in S.el.values() for k, v in d.items()) or any(self.cmentions(v, s) for v in S.cont.values())
        self.n += 1
        new = (s[0], 'old', self.n)
        self.rename(S, {s: sym(new)})

    def cmentions(self, c, s): return c is not None and any(x is not None and any(s in lin.deep(t, set()) for t in x) for x in c[:2]) or (c is not None and s in lin.deep(c[2], set()))

    def mentions(self, v, s):
        if v is None: return False
        if v[0] == 'n': return s in lin.deep(v[1], set())
        if v[0] == 'it': return s in lin.deep(v[2], set()) or self.pmentions(v[1], s)
        if v[0] == 'bnd': return s in lin.deep(v[1], set())
        if v[0] in ('tup', 'rng'): return any(self.mentions(x, s) for x in v[1])
        if v[0] == 'b': return self.bmentions(v[1], s)
        if v[0] in ('at', 'obj'): return self.pmentions(v[1], s)
        return False

    def pmentions(self, p, s): return any(isinstance(x, tuple) and x[0] == '[]' and s in lin.deep(x[1], set()) for x in p[1])

    def bmentions(self, c, s):
        if c[0] == 'cmp': return s in lin.deep(c[2], set()) or s in lin.deep(c[3], set())
        return any(self.bmentions(x, s) for x in c[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('cmp', 'not', 'and', 'or'))

    def map_path(self, p, m):
        if not any(isinstance(x, tuple) and x[0] == '[]' for x in p[1]): return p
        return (p[0], tuple(('[]', subst(x[1], m)) if isinstance(x, tuple) and x[0] == '[]' else x for x in p[1]))

    def map_b(self, c, m):
        if c[0] == 'cmp': return ('cmp', c[1], subst(c[2], m), subst(c[3], m))
        return tuple(self.map_b(x, m) if isinstance(x, tuple) and x and x[0] in ('cmp', 'not', 'and', 'or') else x for x in c)

    def map_v(self, v, m):
        if v is None: return None
        if v[0] == 'n': return ('n', subst(v[1], m))
        if v[0] == 'it': return ('it', self.map_path(v[1], m), subst(v[2], m))
        if v[0] == 'bnd': return ('bnd', subst(v[1], m))
        if v[0] in ('tup', 'rng'): return (v[0], tuple(self.map_v(x, m) for x in v[1]))
        if v[0] == 'b': return ('b', self.map_b(v[1], m))
        if v[0] in ('at', 'obj'): return (v[0], self.map_path(v[1], m))
        return v

    def map_c(self, c, m):
        if c is None: return None
        return (None if c[0] is None else frozenset(subst(t, m) for t in c[0]), None if c[1] is None else frozenset(subst(t, m) for t in c[1]), subst(c[2], m))

    def rename(self, S, m):
        S.cons = {lin.norm(subst(c, m)) for c in S.cons}
        S.env = {self.map_path(k, m): self.map_v(v, m) for k, v in S.env.items()}
        S.vals = {k: self.map_v(v, m) for k, v in S.vals.items()}
        S.size = {self.map_path(k, m): subst(v, m) for k, v in S.size.items()}
        S.cont = {self.map_path(k, m): self.map_c(v, m) for k, v in S.cont.items()}
        S.el = {self.map_path(k, m): {subst(i, m): (self.map_v(v[0], m), v[1]) for i, v in d.items()} for k, d in S.el.items()}

    def retire(self, S, fr, e):
        """the expression is evaluated again: what its symbols stood for keeps another name"""
        if (fr.fid, e) not in self.evaluated: return
        old = set()
        hit = lambda s: len(s) > 3 and s[2] == fr.fid and (s[3] == e or isinstance(s[3], tuple) and s[3] and s[3][0] == e)
        for c in S.cons: old |= {s for s in lin.deep(c, set()) if hit(s)}
        for m in (S.env, S.vals):
            for v in m.values(): old |= {s for s in self.vsyms(v) if hit(s)}
        for v in S.size.values(): old |= {s for s in lin.deep(v, set()) if hit(s)}
        for s in sorted(old, key=repr): self.rename_out(S, s)

    def fresh(self, S, kind, tag):
        if isinstance(tag, tuple) and len(tag) > 2: self.evaluated.add((tag[1], tag[2][0] if isinstance(tag[2], tuple) and tag[2] else tag[2]))
        s = ('r' if kind == 'real' else 'i',) + (tag if isinstance(tag, tuple) else (tag,))
        self.rename_out(S, s)
        e = sym(s)
        if kind in ('uint', 'bool'): S.learn(e)
        if kind == 'bool': S.learn(sub(num(1), e))
        return e

    def fresh_val(self, S, s, tag):
        """unknown value of type s"""
        k = self.kind(s)
        if k in ('int', 'uint', 'real', 'bool'): return ('n', self.fresh(S, k, tag))
        if k == 'bval': return self.bounded(S, s, tag)
        return ('?', tag)

    def bounded(self, S, s, tag):
        inner = s.split('Interval<', 1)[1].split('>', 1)
        ty = inner[0]; a = inner[1].split('{', 1)[1].split('}', 1)[0].split(',')
        k = 'real' if ty in ('double', 'float') else 'uint' if ty.startswith('unsigned') else 'int'
        e = self.fresh(S, k, tag)
        def pf(x):
            x = x.strip().rstrip('uUlLfF')
            try: return int(x)
            except ValueError: return float(x)
        lo, hi = pf(a[0]), pf(a[1])
        if abs(lo) < 1e300:
            S.learn(plus(e, -int(lo) if lo == int(lo) else -lo))
            if 'false' in a[2] and k != 'real': S.learn(plus(e, -int(lo) - 1))
        if abs(hi) < 2 ** 31:
            S.learn(sub(num(int(hi) if hi == int(hi) else hi), e))
        return ('n', e)

    # ---------------------------------------------------------------- memory
    def kill(self, S, p):
        for m in (S.env, S.size, S.cont, S.el):
            for k in [k for k in m if prefix(p, k)]: del m[k]

    def size(self, S, c):
        c = self.canon(S, c)
        e = S.size.get(c)
        if e is None:
            e = self.fresh(S, 'uint', ('sz', self.pkey(c))); S.size[c] = e
        return e

    def pkey(self, c): return repr(c)

    def canon(self, S, c):
        """follow span objects"""
        v = S.env.get(c)
        while v is not None and v[0] in ('at',) and v[1] != c: c = v[1]; v = S.env.get(c)
        return c

    def gene_template(self, S, c):
        """invariant of the genes of a candidate's chromosome (constraints over X and K)"""
        return None

    def content(self, S, c):
        if c in S.cont:
            t0, t1, lf = S.cont[c]
            return (t0, None, ZERO) if t0 is not None and t0 == t1 else S.cont[c]
        t = self.gene_template(S, c)
        return (frozenset(t), None, ZERO) if t is not None else (frozenset(), None, ZERO)

    def const_templates(self, c):
        """what holds for all elements"""
        t0, t1, lf = c
        if t0 is None: return t1 or frozenset()
        if t1 is None: return t0
        return t0 if t0 == t1 else frozenset(t0 & t1)

    def elem_read(self, S, c, i, s):
        k = self.kind(s)
        if k == 'bnd': return ('bnd', i)
        if k == 'cont' or k == 'other': return ('at', (c[0], c[1] + (('[]', i),)))
        d = S.el.get(c, {})
        if i in d: return d[i][0]
        for j in d:
            if S.eq(i, j): return d[j][0]
        cc = self.content(S, c)
        t0, t1, lf = cc
        if t1 is not None and t0 != t1 and S.has(plus(sub(lf, i), -1)): ts = t1
        elif t0 is not None and t0 != t1 and S.has(sub(i, lf)): ts = t0
        else: ts = self.const_templates(cc)
        if d and any(not S.has(plus(sub(i, j), -1)) and not S.has(plus(sub(j, i), -1)) for j in d):
            # may be one of the recently written elements
            for j, (v, at) in list(d.items()):
                if not S.has(plus(sub(i, j), -1)) and not S.has(plus(sub(j, i), -1)):
                    ts = frozenset(t for t in ts if isnum(v) and S.has(self.inst(t, v[1], j)))
        tag = ('el', self.pkey(c), i)
        kk = 'real' if k == 'real' else k
        s_ = ('r' if kk == 'real' else 'i',) + tag
        e = sym(s_)
        if any(s_ in syms(x) for x in S.cons) and not getattr(self, 'nomemo', False): return ('n', e)
        e = self.fresh(S, kk, tag)
        for t in ts: S.learn(self.inst(t, e, i))
        return ('n', e)

    def inst(self, t, x, i): return subst(t, {X: x, XI: x, K: i})

    def forget_elems(self, S, c):
        """the element symbols of c no longer denote the current elements"""
        pk = self.pkey(c)
        ss = {s for e in S.cons for s in syms(e) if len(s) > 2 and s[1] == 'el' and s[2] == pk}
        for v in list(S.env.values()) + list(S.vals.values()): 
            if isnum(v): ss |= {s for s in syms(v[1]) if len(s) > 2 and s[1] == 'el' and s[2] == pk}
        for s in ss: self.rename_out(S, s)

    def elem_write(self, S, c, i, v, at):
        c = self.canon(S, c)
        S.vals[('#v',)] = v; S.vals[('#i',)] = ('n', i)
        self.forget_elems(S, c)
        v = S.vals.pop(('#v',)); i = S.vals.pop(('#i',))[1]
        d = S.el.setdefault(c, {})
        for j in list(d):
            if j == i: continue
            if S.eq(i, j): del d[j]; continue
            if S.has(plus(sub(i, j), -1)) or S.has(plus(sub(j, i), -1)): continue
            self.flush1(S, c, j)
        S.el.setdefault(c, {})[i] = (v, at)

    def flush1(self, S, c, j):
        v, at = S.el[c].pop(j)
        self.absorb(S, c, j, v, at)

    def flush(self, S, c=None):
        for p in list(S.el):
            if c is not None and not prefix(c, p): continue
            for j in list(S.el[p]): self.flush1(S, p, j)
            if not S.el[p]: del S.el[p]

    def templates_of(self, S, v, i):
        """what is known about the value v stored at index i, as constraints over X and K"""
        if not isnum(v): return frozenset()
        e = v[1]; out = set()
        isint = is_int(e)
        x = sym(XI if isint else X)
        if is_const(e):
            return frozenset({plus(x, -e[1]), add(num(e[1]), neg(x))})
        out.add(sub(x, self.to_k(e, i)) if self.kmention(e, i) else sub(x, e)); out.add(sub(self.to_k(e, i), x) if self.kmention(e, i) else sub(e, x))
        comp = lin.component(S.cons, e)
        if len(e[0]) == 1 and abs(e[0][0][1]) == 1:
            s, k = e[0][0]
            inv = scale(plus(x, -e[1]), k)        # s = k*(x - c)
            for c in comp:
                if s in syms(c): out.add(self.to_k(subst(c, {s: inv}), i))
        for lo in (0, 1): out.add(plus(x, -lo))
        out.add(sub(num(1), x))
        for s in self.bound_syms(S, i): 
            out.add(sub(x, sym(s))); out.add(sub(sym(s), x))
        r = set()
        for t in out:
            t = self.to_k(t, i)
            if S.has(self.inst(t, e, i)): r.add(t)
        return frozenset(r)

    def bound_syms(self, S, i):
        out = set()
        for c in S.cons:
            for s in syms(c):
                if len(s) > 2 and s[1] in ('LO', 'HI') and S.eq(s[2], i): out.add(s)
        return out

    def kmention(self, e, i): return any(len(s) > 2 and s[1] in ('LO', 'HI') for s in syms(e)) or (not is_const(i) and len(i[0]) == 1 and i[0][0][0] in lin.deep(e, set()))

    def to_k(self, t, i):
        if is_const(i): 
            return subst(t, {s: sym((s[0], s[1], sym(K))) for s in syms(t) if len(s) > 2 and s[1] in ('LO', 'HI') and s[2] == i})
        if len(i[0]) == 1 and i[0][0][1] == 1:
            return subst(t, {i[0][0][0]: plus(sym(K), -i[1])})
        return t

    def absorb(self, S, c, j, v, at):
        """weak update of the description of c's elements with element j = v"""
        cc = self.content(S, c)
        t0, t1, lf = cc
        own = self.gene_template(S, c)
        if own is not None and c not in S.cont:
            ok = isnum(v) and all(S.has(self.inst(t, v[1], j)) for t in own)
            self.gene(S, c, ok, at, v)
            if ok: return
        def meet(t):
            if t is None: return self.templates_of(S, v, j)
            r = {x for x in t if isnum(v) and S.has(self.inst(x, v[1], j))}
            if len(r) < len(t) and isnum(v): r |= {x for x in self.templates_of(S, v, j) if x not in r and self.t_implied(S, c, t, x)}
            return frozenset(r)
        if t0 is not None and S.eq(j, lf):
            S.cont[c] = (t0, meet(t1), plus(lf, 1))
        elif t1 is not None and t0 != t1 and S.has(plus(sub(lf, j), -1)):
            S.cont[c] = (t0, meet(t1), lf)
        else:
            S.cont[c] = (meet(t0), meet(t1) if t1 is not None else None, lf)

    def gene(self, S, c, ok, at, v): pass

    def settle(self, S, c):
        """describe all elements of c at once"""
        for j in list(S.el.get(c, {})): self.flush1(S, c, j)
        S.el.pop(c, None)
        if c not in S.cont: return self.content(S, c)
        t0, t1, lf = S.cont[c]
        if t1 is not None and t0 != t1 and S.has(sub(lf, self.size(S, c))): S.cont[c] = (t1, t1, ZERO)
        elif t1 is None and t0 is not None and False: pass
        return S.cont[c]

    def read(self, S, p, s):
        """value stored at path p (of type s)"""
        p = self.deref_path(S, p)
        if p[1] and isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]':
            return self.elem_read(S, (p[0], p[1][:-1]), p[1][-1][1], s)
        v = S.env.get(p)
        if v is not None: return v
        k = self.kind(s)
        if k in ('cont',): return ('at', p)
        if k in ('int', 'uint', 'real', 'bool', 'bval'):
            v = self.fresh_val(S, s, ('m', self.pkey(p)))
            S.env[p] = v
            return v
        return ('at', p)

    def deref_path(self, S, p):
        """replace leading parts that are references or spans by what they stand for"""
        for i in range(len(p[1]) + 1):
            q = (p[0], p[1][:i])
            v = S.env.get(q)
            if v is not None and v[0] == 'at' and v[1] != q: return self.deref_path(S, (v[1][0], v[1][1] + p[1][i:]))
        return p

    def write(self, S, p, v, at=None, s=''):
        p = self.deref_path(S, p)
        if p[1] and isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]' and v is not None and v[0] != 'at' and v[0] != 'obj':
            return self.elem_write(S, (p[0], p[1][:-1]), p[1][-1][1], v, at)
        if v is not None and v[0] in ('at', 'obj'):
            if self.kind(s) == 'other' and False: pass
            return self.copy_obj(S, v[1], p)
        self.kill(S, p)
        if v is not None: S.env[p] = v

    def copy_obj(self, S, src, dst):
        src = self.deref_path(S, src)
        if src == dst: return
        # fix the unknown parts first, so that both sides agree on them
        self.materialise(S, src)
        for c in [c for c in S.el if prefix(src, c)]: self.settle(S, c)
        got = []
        for m in (S.env, S.size, S.cont):
            got.append([(rebase(k, src, dst), v) for k, v in m.items() if prefix(src, k)])
        # the genes of a copy are those of the candidate it was copied from
        known = {k for k in S.size if prefix(src, k)} | {k for k in S.env if prefix(src, k)}
        for k in known:
            if k in S.cont: continue
            own = self.gene_template(S, k)
            if own is not None: got[2].append((rebase(k, src, dst), (own, None, ZERO)))
            elif self.gene_template(S, rebase(k, src, dst)) is not None: got[2].append((rebase(k, src, dst), (frozenset(), None, ZERO)))
        self.kill(S, dst)
        for m, l in zip((S.env, S.size, S.cont), got):
            for k, v in l: m[k] = v
        # the chromosome of a candidate needs no description: its genes are legal
        for k, v in got[2]:
            self.adopt(S, k)

    def adopt(self, S, c):
        own = self.gene_template(S, c)
        if own is None or c not in S.cont: return
        t0, t1, lf = S.cont[c]
        if self.implied(S, c, own): del S.cont[c]

    def implied(self, S, c, own):
        ts = self.const_templates(S.cont[c])
        if all(t in ts for t in own): return True
        n = self.size(S, c)
        T = S.copy()
        x = sym(('i' if any(XI in syms(t) for t in own) or any(XI in syms(t) for t in ts) else 'r', 'anyx')); k = sym(('i', 'anyk'))
        T.cons = set(T.cons) | {lin.norm(self.inst(t, x, k)) for t in ts} | {k, plus(sub(n, k), -1)}
        T.cons = {c for c in T.cons if c[0]}
        return all(T.has(self.inst(t, x, k)) for t in own)

    def materialise(self, S, p, s=None, d=0):
        pass

    # ---------------------------------------------------------------- obligations
    def oblige(self, S, fr, e, conds, what):
        """every inequality of conds has to follow"""
        ok = all(S.has(c) for c in conds)
        self.verdict(S, fr, e, ok, what, conds)
        for c in conds: S.learn(c)
        return ok

    def verdict(self, S, fr, e, ok, what, conds=()):
        key = (fr.f.key, fr.f.loc(e), what)
        self.checks[key] = self.checks.get(key, True) and ok
        if not ok: self.report(fr, e, what, S, conds)

    # ---------------------------------------------------------------- joins
    def join(self, A, B, tag, widen=False):
        A = A.copy(); B = B.copy()
        self.flush(A); self.flush(B)
        J = St(); ma = {}; mb = {}; phis = []
        pre = lambda s: len(s) > 2 and s[1] == 'phi' and s[2] == tag
        # the join symbols of this place that the second state still uses denote old values
        old = set()
        for S in (B,):
            for c in S.cons: old |= {s for s in lin.deep(c, set()) if pre(s)}
            for v in list(S.env.values()) + list(S.vals.values()): old |= {s for s in self.vsyms(v) if pre(s)}
            for v in S.size.values(): old |= {s for s in lin.deep(v, set()) if pre(s)}
            for v in S.cont.values():
                if v: old |= {s for x in v[:2] if x for t in x for s in lin.deep(t, set()) if pre(s)} | {s for s in lin.deep(v[2], set()) if pre(s)}
        if old:
            m = {}
            for s in old: self.n += 1; m[s] = sym((s[0], 'old', self.n))
            self.rename(B, m)

        def num2(a, b, key):
            if a == b: return a
            isint = is_int(a) and is_int(b)
            s = ('i' if isint else 'r', 'phi', tag, key)
            if s in ma:
                if ma[s] == a and mb[s] == b: return sym(s)
                return None
            for t in ma:
                if ma[t] == a and mb[t] == b: return sym(t)
            ma[s] = a; mb[s] = b; phis.append(s)
            return sym(s)

        def val2(a, b, key):
            if a is None or b is None: return None
            if a == b: return a
            if a[0] == 'b' and b[0] == 'n': a = ('n', self.fresh(A, 'bool', ('jb', tag, key)))
            if b[0] == 'b' and a[0] == 'n': b = ('n', self.fresh(B, 'bool', ('jb', tag, key)))
            if a[0] != b[0]: return None
            if a[0] == 'n':
                e = num2(a[1], b[1], key); return ('n', e) if e is not None else None
            if a[0] == 'it' and a[1] == b[1]:
                e = num2(a[2], b[2], key); return ('it', a[1], e) if e is not None else None
            if a[0] in ('tup', 'rng') and len(a[1]) == len(b[1]):
                r = tuple(val2(x, y, (key, i)) for i, (x, y) in enumerate(zip(a[1], b[1])))
                return (a[0], tuple(x if x is not None else ('?', 'j') for x in r))
            if a[0] == 'bnd':
                e = num2(a[1], b[1], key); return ('bnd', e) if e is not None else None
            return None
        # A's own symbols of this place keep their names if A's value is that symbol
        ren = {}
        for k in list(A.env): 
            v = A.env[k]
            if isnum(v) and k in B.env and B.env[k] != v:
                s0 = ('i', 'phi', tag, self.pkey(k)); s1 = ('r', 'phi', tag, self.pkey(k))
        for S in (A, B):
            for m in (S.env, S.size, S.cont):
                for k in [k for k in m if any(isinstance(x, tuple) and x[0] == '[]' and not is_const(x[1]) for x in k[1])]: del m[k]
        for k, v in A.env.items():
            if k in B.env:
                r = val2(v, B.env[k], self.pkey(k))
                if r is not None: J.env[k] = r
        for k, v in A.size.items():
            w = B.size.get(k)
            if w is not None:
                r = num2(v, w, 'sz' + self.pkey(k))
                if r is not None: J.size[k] = r
        for k, v in A.vals.items():
            if k in B.vals:
                r = val2(v, B.vals[k], repr(k))
                if r is not None: J.vals[k] = r
        lfs = {}
        for k in set(A.cont) & set(B.cont):
            lfs[k] = num2(A.cont[k][2], B.cont[k][2], 'lf' + self.pkey(k))
        # conflicts: a phi symbol of this place used by A for something else
        amb = {s for c in A.cons for s in lin.deep(c, set()) if s in ma and ma[s] != sym(s)} | {s for s in ma if any(s in lin.deep(e, set()) and ma[t] != sym(t) for t, e in ma.items())}
        if amb:
            m = {}
            for s in amb: self.n += 1; m[s] = sym((s[0], 'old', self.n))
            keep = {k: v for k, v in ma.items()}
            self.rename(A, m)
            for t in list(ma): ma[t] = subst(ma[t], m)
            # A's unchanged values that mention the renamed symbols are lost in J
            for d in (J.env, J.vals):
                for k in list(d):
                    if any(self.mentions(d[k], s) for s in amb) and not isnum(d[k]): pass
        # constraints
        cand = set()
        for c in A.cons: cand.add(c)
        if not widen:
            for S, m in ((A, ma), (B, mb)):
                inv = {}
                for s in phis:
                    e = m[s]
                    if len(e[0]) == 1 and abs(e[0][0][1]) == 1 and e[0][0][0] not in inv and e != sym(s):
                        inv[e[0][0][0]] = scale(plus(sym(s), -e[1]), e[0][0][1])
                for c in S.cons:
                    cand.add(c)
                    if inv and any(x in inv for x in lin.deep(c, set())): cand.add(lin.norm(subst(c, inv)))
            base = [v[1] for v in list(J.env.values()) if isnum(v)] + [v[2] for v in J.env.values() if v and v[0] == 'it'] + list(J.size.values())
            base = list(dict.fromkeys(base))[:60]
            for s in phis:
                x = sym(s)
                cand.add(x)
                for c in (ma[s], mb[s]):
                    if True: cand.add(sub(x, c)); cand.add(sub(c, x))
                for y in base:
                    if y != x: cand.add(sub(x, y)); cand.add(sub(y, x))
                for t in phis:
                    if t != s:
                        d = sub(ma[s], ma[t]); y = sub(x, sym(t))
                        cand.add(sub(y, d)); cand.add(sub(d, y))
                        d = sub(mb[s], mb[t]); cand.add(sub(y, d)); cand.add(sub(d, y))
        for c in cand:
            c = lin.norm(c)
            if not c[0]: continue
            if not ma:
                if A.has(c) and B.has(c): J.cons.add(c)
                continue
            if A.has(subst(c, ma)) and B.has(subst(c, mb)): J.cons.add(c)
        J.cons = self.reduce(J.cons)
        for k in set(A.cont) | set(B.cont):
            ca, cb = self.content(A, k), self.content(B, k)
            if k in lfs and lfs[k] is None: continue
            if ca == cb: J.cont[k] = ca; continue
            lf = lfs.get(k, ca[2] if ca[2] == cb[2] else ZERO)
            def meet(ta, tb, which):
                if ta is None and tb is None: return None
                if ta is None: ts = tb
                elif tb is None: ts = ta
                else: ts = ta | tb
                out = set()
                for t in ts:
                    if (ta is None or self.t_implied(A, k, ta, subst(t, ma))) and (tb is None or self.t_implied(B, k, tb, subst(t, mb))): out.add(t)
                return frozenset(out)
            J.cont[k] = (meet(ca[0], cb[0], 0), meet(ca[1], cb[1], 1), lf)
            own = self.gene_template(J, k)
            if own is not None and (k not in A.cont or k not in B.cont):
                # in one of the states all genes are legal
                self.adopt(J, k)
        return J

    def reduce(self, cons):
        best = {}
        for c in cons:
            if c[0] not in best or c[1] < best[c[0]]: best[c[0]] = c[1]
        return {(t, k) for t, k in best.items()}

    def t_implied(self, S, c, ts, t):
        if t in ts: return True
        isint = any(XI in syms(x) for x in ts) or XI in syms(t)
        x = sym(('i' if isint else 'r', 'anyx')); k = sym(('i', 'anyk'))
        cs = set(S.cons) | {lin.norm(self.inst(u, x, k)) for u in ts} | {k}
        n = S.size.get(c)
        if n is not None: cs.add(lin.norm(plus(sub(n, k), -1)))
        return entails({y for y in cs if y[0]}, self.inst(t, x, k))

    def vsyms(self, v):
        if v is None: return set()
        if v[0] == 'n': return lin.deep(v[1], set())
        if v[0] == 'it': return lin.deep(v[2], set())
        if v[0] == 'bnd': return lin.deep(v[1], set())
        if v[0] in ('tup', 'rng'): return set().union(*[self.vsyms(x) for x in v[1]]) if v[1] else set()
        return set()

    def same(self, A, B):
        return A.env == B.env and A.size == B.size and A.cont == B.cont and A.cons == B.cons

    # ---------------------------------------------------------------- control flow
    def loops(self, f):
        """block -> loop blocks for every loop head; block order with loop bodies before loop exits"""
        if not hasattr(self, '_loops'): self._loops = {}
        if f.key in self._loops: return self._loops[f.key]
        succ = {b: [s for s in f.blocks[b]['s'] if s is not None and s >= 0] for b in f.blocks}
        idx = {b: i for i, b in enumerate(f.order())}
        heads = {}
        pred = f.preds()
        # back edges by a depth first search
        state = {}; st = [(f.entry, iter(succ[f.entry]))]; state[f.entry] = 1; backs = []
        while st:
            b, it = st[-1]
            for s in it:
                if state.get(s, 0) == 0: state[s] = 1; st.append((s, iter(succ[s]))); break
                if state[s] == 1: backs.append((b, s))
            else: state[b] = 2; st.pop()
        for b, h in backs:
            body = heads.setdefault(h, {h}); w = [b]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += [p for p in pred[x] if p in state]
        seen = set(); out = []
        def succ_order(b):
            ss = list(succ[b])
            inn = [h for h in heads if b in heads[h]]
            def depth(s): return sum(1 for h in inn if s in heads[h])
            return sorted(ss, key=depth)        # leaving edges first: they end up later in the order
        st = [(f.entry, iter(succ_order(f.entry)))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(succ_order(s)))); break
            else: out.append(b); st.pop()
        order = {b: i for i, b in enumerate(reversed(out))}
        r = (heads, order)
        self._loops[f.key] = r
        return r

    def run(self, fr, S0):
        f = fr.f
        self.functions.add(f.key)
        heads, order = self.loops(f)
        pend = {f.entry: [(None, S0, {})]}
        H = {}; gen = {}
        outs = []
        steps = 0
        while pend:
            b = min(pend, key=lambda x: order.get(x, 1 << 30))
            batch = pend.pop(b)
            steps += 1
            if steps > 3000: raise TooMany(f.key)
            if b in heads:
                todo = []; tag = (fr.fid, b)
                def ctx(o): return tuple(sorted((h, o[h][1]) for h in o if h != b and b in heads[h]))
                groups = {}
                for x in batch:
                    if x[0] in heads[b] and b in x[2]: groups.setdefault((1, x[2][b][1]), []).append(x)
                    else: groups.setdefault((0, ctx(x[2])), []).append(x)
                for (back, key), xs in sorted(groups.items(), key=lambda z: repr(z[0])):
                    if not back:
                        # what follows from an earlier entry in the same context is superseded
                        H[b] = {k: v for k, v in H.get(b, {}).items() if k[0] != key}
                        self.supersede(pend, b, lambda p, key=key: p[0] == key)
                        outs = [x for x in outs if not (b in x[2] and x[2][b][1][0] == key)]
                        for x in xs: self.flush(x[1])
                        for part, ys in self.partition(xs).items():
                            J = ys[0][1]; org = {}
                            for y in ys: org.update(y[2])
                            org = {h: g0 for h, g0 in org.items() if h not in heads[b]}
                            for y in ys[1:]: J = self.join(J, y[1], ('e', part) + tag)
                            H[b][(key, part)] = [J, 0, org]; todo.append((key, part))
                    else:
                        h = H[b].get(key)
                        if h is None: continue
                        J = h[0]; h[1] += 1
                        for x in xs: J = self.join(J, x[1], tag + (key[1],), h[1] > 3)
                        if self.same(J, h[0]): continue
                        if h[1] > 12: raise TooMany('no fixpoint in ' + f.key)
                        h[0] = J; todo.append(key)
                        self.supersede(pend, b, lambda p, key=key: p == key)
                        outs = [x for x in outs if not (b in x[2] and x[2][b][1] == key)]
                batch = []
                for key in todo:
                    self.gen = getattr(self, 'gen', 0) + 1
                    org = dict(H[b][key][2]); org[b] = (self.gen, key)
                    batch.append((None, H[b][key][0].copy(), org))
            elif len(batch) > MAXST:
                org = {}
                for x in batch: org.update(x[2])
                batch = [(batch[0][0], J, org) for J in self.merge([x[1] for x in batch], ('m', fr.fid, b))]
            for pb, S, org in batch:
                if b == f.exit:
                    outs.append((S, S.vals.pop(('rv', fr.fid), None), org)); continue
                blk = f.blocks[b]
                cur = [S]
                for e in blk['e']:
                    nx = []
                    for s in cur: nx += self.elem(fr, s, e)
                    cur = nx
                    if len(cur) > 24: cur = self.squash(cur, ('q', fr.fid, e if isinstance(e, int) else b))
                    if not cur: break
                if blk.get('nr'): continue
                c = blk.get('cond'); ss = blk['s']
                two = c is not None and c >= 0 and len([x for x in ss if x is not None and x >= 0]) == 2 and blk.get('term') not in ('SwitchStmt', 'CXXTryStmt')
                for s in cur:
                    o2 = {h: g for h, g in org.items()}
                    if two:
                        v = self.val(fr, s, c)
                        if fr.up is not None: self.asserted(fr, s, c, v, ss)
                        for ix, sc in enumerate(ss):
                            t = self.assume(s, v, ix == 0)
                            if t is not None: pend.setdefault(sc, []).append((b, t, o2))
                    else:
                        for ix, sc in enumerate(ss):
                            if sc is None or sc < 0: continue
                            pend.setdefault(sc, []).append((b, s.copy() if len(ss) > 1 else s, o2))
        return [(S, v) for S, v, o in outs]

    def supersede(self, pend, b, dead):
        for q in list(pend):
            pend[q] = [x for x in pend[q] if not (b in x[2] and dead(x[2][b][1]))]
            if not pend[q]: del pend[q]

    def partition(self, xs):
        """states in which references stand for different objects are kept apart"""
        if len(xs) == 1: return {(): xs}
        keys = set()
        for x in xs:
            for k, v in x[1].env.items():
                if v is not None and v[0] in ('at', 'lam') and any(y[1].env.get(k) != v for y in xs): keys.add(k)
        if not keys: return {(): xs}
        r = {}
        for x in xs: r.setdefault(tuple(sorted(repr((k, x[1].env.get(k))) for k in keys)), []).append(x)
        return r if len(r) <= 6 else {(): xs}

    def asserted(self, fr, S, c, v, ss):
        """a precondition the library states about its own helper functions"""
        f = fr.f
        if v is None or v[0] != 'b': return
        for ix, sc in enumerate(ss):
            blk = f.blocks.get(sc)
            if blk is None or not blk.get('nr'): continue
            if not any(isinstance(x, int) and f.E[x]['k'] == 'call' and f.E[x].get('qn') == '__assert_fail' for x in blk['e']): continue
            cs = self.conjuncts(v[1], ix == 1)
            if cs: self.oblige(S, fr, c, cs, 'the precondition stated in the code holds')

    def conjuncts(self, c, pol):
        """the inequalities that make condition c have value pol; None if they are not a conjunction"""
        if c[0] == 'not': return self.conjuncts(c[1], not pol)
        if c[0] == ('and' if pol else 'or'):
            a, b = self.conjuncts(c[1], pol), self.conjuncts(c[2], pol)
            return a + b if a is not None and b is not None else None
        if c[0] != 'cmp': return None
        op = c[1] if pol else self.NEG[c[1]]; a, b = c[2], c[3]
        if op in ('>', '>='): a, b = b, a; op = {'>': '<', '>=': '<='}[op]
        if op == '<=': return [sub(b, a)]
        if op == '<': return [plus(sub(b, a), -1)] if is_int(sub(b, a)) else None
        if op == '==': return [sub(a, b), sub(b, a)]
        return None

    def squash(self, ss, tag):
        return self.merge(ss, tag)

    def merge(self, ss, tag):
        """join states, except those in which references stand for different objects"""
        out = []
        for part, xs in self.partition([(None, s) for s in ss]).items():
            J = xs[0][1]
            for x in xs[1:]: J = self.join(J, x[1], (tag, part))
            out.append(J)
        return out

    def assume(self, S, v, pol):
        if v is None: return S.copy()
        if v[0] == 'n':
            e = v[1]
            if is_const(e): return S.copy() if (e[1] != 0) == pol else None
            v = ('b', ('cmp', '!=', e, ZERO))
        if v[0] != 'b': return S.copy()
        return self.assume_b(S.copy(), v[1], pol)

    NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}

    def assume_b(self, S, c, pol):
        if c[0] == 'not': return self.assume_b(S, c[1], not pol)
        if c[0] == 'and':
            if pol:
                S = self.assume_b(S, c[1], True)
                return self.assume_b(S, c[2], True) if S is not None else None
            return S
        if c[0] == 'or':
            if not pol:
                S = self.assume_b(S, c[1], False)
                return self.assume_b(S, c[2], False) if S is not None else None
            return S
        if c[0] == 'const': return S if c[1] == pol else None
        if c[0] != 'cmp': return S
        op = c[1] if pol else self.NEG[c[1]]
        a, b = c[2], c[3]
        if op in ('>', '>='): a, b = b, a; op = {'>': '<', '>=': '<='}[op]
        isint = is_int(sub(b, a))
        if op in ('<', '<='):
            k = 1 if op == '<' and isint else 0
            if S.has(plus(sub(a, b), -(1 - k) if isint else 0)) and (isint or op == '<'):
                if isint: return None
                if not is_const(sub(a, b)) or sub(a, b)[1] >= 0: return None
            return S.learn(plus(sub(b, a), -k))
        if op == '==':
            if S.has(plus(sub(a, b), -1)) or S.has(plus(sub(b, a), -1)): return None
            return S.learn(sub(a, b)).learn(sub(b, a))
        le, ge = S.has(sub(b, a)), S.has(sub(a, b))
        if le and ge: return None
        if isint and le: S.learn(plus(sub(b, a), -1))
        elif isint and ge: S.learn(plus(sub(a, b), -1))
        return S

    # ---------------------------------------------------------------- expressions
    def strip(self, f, e):
        while True:
            n = f.E[e]
            if n is None: return e
            if n['k'] in ('wrap', 'definit', 'defarg') and n.get('e', -1) >= 0: e = n['e']
            elif n['k'] == 'cast' and n.get('e', -1) >= 0 and self.kind(self.P.T(n.get('t', -1)).get('s', '')) in ('other', 'cont', 'bnd'): e = n['e']
            elif n['k'] == 'call' and n.get('qn') in ('std::move', 'std::forward', 'std::as_const') and n['args']: e = n['args'][0]
            else: return e

    def varpath(self, fr, S, vid):
        f = fr.f; v = f.V[vid]; st = v['st']
        if st == 'param': return (('P', fr.fid, v['idx']), ())
        if st in ('global', 'static', 'tls'): return (('G', v.get('g', v['name'])), ())
        if st == 'outer':
            up = fr.env if fr.env is not None else fr.up
            if fr.env is not None and isinstance(fr.env, tuple): up, envp = fr.env
            else: envp = None
            if envp is not None and (envp, (v['name'],)) in S.env: return (envp, (v['name'],))
            while up is not None:
                for i, w in enumerate(up.f.V):
                    if w and w['name'] == v['name'] and w['l'] == v['l'] and w['c'] == v['c'] and w['st'] != 'outer': return self.varpath(up, S, i)
                if isinstance(up.env, tuple): up = up.env[0]
                else: up = up.up
            return (('O', v['name'], v['l'], v['c']), ())
        if st == 'binding':
            if 'of' in v:
                p = self.varpath(fr, S, v['of'])
                q = self.deref_path(S, p)
                w = S.env.get(q)
                if w is not None and w[0] == 'tup' and v.get('bidx', 0) < len(w[1]):
                    x = w[1][v['bidx']]
                    p2 = (('B', fr.fid, vid), ())
                    S.env[p2] = x
                    return p2
                names = ['first', 'second'] if self.ts(f.V[v['of']]['t']).startswith('std::pair<') else self.record_fields(f.vtype(v['of']).get('rec'))
                if names and v.get('bidx', 0) < len(names): return (q[0], q[1] + (names[v['bidx']],))
                return (q[0], q[1] + ('#%d' % v.get('bidx', 0),))
        return (('V', fr.fid, vid), ())

    def record_fields(self, rec):
        if rec and rec in self.P.records: return [fd['name'] for c, fd in self.P.fields(rec)]
        return None

    def thispath(self, fr):
        if fr.this is not None: return fr.this
        if isinstance(fr.env, tuple) and fr.env[0] is not None: return self.thispath(fr.env[0])
        return (('this', fr.fid), ())

    def lv(self, fr, S, e):
        """path of the object an expression designates, None if unknown"""
        f = fr.f
        if e is None or e < 0: return None
        e = self.strip(f, e); n = f.E[e]
        if n is None: return None
        k = n['k']
        if k == 'var': return self.varpath(fr, S, n['v'])
        if k == 'this': return self.thispath(fr)
        if k == 'field':
            if n.get('arrow'):
                v = self.val(fr, S, n['b']); b = v[1] if v and v[0] == 'at' else self.itpath(v)
            else: b = self.lv(fr, S, n['b'])
            if b is None: return None
            if not n['name']: return b
            b = self.deref_path(S, b)
            self.explode(S, b, n['name'])
            return (b[0], b[1] + (n['name'],))
        if k == 'cast': return self.lv(fr, S, n['e']) if n.get('lv') else None
        if k == 'un' and n['op'] == '*':
            v = self.val(fr, S, n['a'])
            if v and v[0] == 'at': return v[1]
            return self.itpath(v)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'): return self.lv(fr, S, n['a'])
        if k == 'assign': return self.lv(fr, S, n['a'])
        if k in ('sub',):
            v = self.val(fr, S, n['a']); i = self.val(fr, S, n['b'])
            if v and v[0] == 'it' and isnum(i): return (v[1][0], v[1][1] + (('[]', add(v[2], i[1])),))
            b = self.lv(fr, S, n['a'])
            if b is not None and isnum(i): return (b[0], b[1] + (('[]', i[1]),))
            return None
        v = S.vals.get((fr.fid, e))
        if v is not None:
            if v[0] == 'at': return v[1]
            if v[0] == 'lref': return v[1]
            if k in ('call', 'ctor', 'ilist', 'bin', 'lit', 'cond', 'un', 'wrap', 'cast'):
                p = (('T', fr.fid, e), ()); self.kill(S, p); S.env[p] = v
                return p
        if k in ('lit', 'zero', 'bin', 'cond', 'ilist'):
            v = self.val(fr, S, e)
            if v is not None and v[0] == 'at': return v[1]
            p = (('T', fr.fid, e), ()); self.kill(S, p)
            if v is not None: S.env[p] = v
            return p
        return (('T', fr.fid, e), ())

    def explode(self, S, b, name):
        """the members of a pair known as a value"""
        w = S.env.get(b)
        if w is None or w[0] != 'tup' or name not in ('first', 'second') or len(w[1]) != 2: return
        self.kill(S, b)
        for nm, x in zip(('first', 'second'), w[1]):
            q = (b[0], b[1] + (nm,))
            if x[0] == 'at': self.copy_obj(S, x[1], q)
            elif x[0] != '?': S.env[q] = x

    def itpath(self, v):
        if v is not None and v[0] == 'it': return (v[1][0], v[1][1] + (('[]', v[2]),))
        return None

    def val(self, fr, S, e):
        """value of an expression (as recorded when it was evaluated)"""
        f = fr.f
        if e is None or e < 0: return None
        n = f.E[e]
        if n is None: return None
        v = S.vals.get((fr.fid, e))
        if v is not None:
            if v[0] == 'lref': return self.load(fr, S, v[1], n)
            return v
        return self.compute(fr, S, e, n)

    def load(self, fr, S, p, n):
        return self.read(S, p, self.ts(n.get('t', -1)))

    def literal(self, n):
        v = n.get('cv', n.get('v'))
        if v in ('true', True): return ('n', num(1))
        if v in ('false', False): return ('n', num(0))
        try: return ('n', num(int(str(v).rstrip('uUlLzZ'), 0)))
        except ValueError: pass
        try:
            x = float(str(v).rstrip('fFlL'))
            return ('n', num(int(x) if x == int(x) else lin.Fr(x))) if abs(x) < 1e300 else None
        except (ValueError, OverflowError): return None

    def compute(self, fr, S, e, n):
        f = fr.f; k = n['k']
        if k != 'lit' and 'cv' in n and self.kind(self.ts(n.get('t', -1))) in ('int', 'uint', 'bool'):
            r = self.literal(n)
            if r: return r
        if k == 'lit': return self.literal(n)
        if k == 'zero': return ('n', ZERO)
        if k in ('wrap', 'definit', 'defarg'): return self.val(fr, S, n.get('e', -1))
        if k == 'this': return ('at', self.thispath(fr))
        if k == 'cast': return self.convert(fr, S, self.val(fr, S, n['e']), self.ts(n.get('t', -1)), e)
        if k in ('var', 'field'):
            p = self.lv(fr, S, e)
            if k == 'var' and f.V[n['v']]['st'] == 'binding':
                w = S.env.get(p)
                if w is not None and w[0] != 'at': return w
            return self.load(fr, S, p, n) if p is not None else None
        if k == 'sub':
            p = self.lv(fr, S, e)
            return self.load(fr, S, p, n) if p is not None else None
        if k == 'un':
            op = n['op']
            if op == '&':
                p = self.lv(fr, S, n['a'])
                if p is None: return None
                if p[1] and isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]': return ('it', (p[0], p[1][:-1]), p[1][-1][1])
                return ('at', self.deref_path(S, p))
            if op == '*':
                p = self.lv(fr, S, e)
                return self.load(fr, S, p, n) if p is not None else None
            if op == '!':
                v = self.val(fr, S, n['a'])
                if v and v[0] == 'b': return ('b', ('not', v[1]))
                if isnum(v): return ('b', ('cmp', '==', v[1], ZERO))
                return None
            if op == '-':
                v = self.num_of(fr, S, n['a']); return ('n', neg(v)) if v is not None else None
            if op == '+': return self.val(fr, S, n['a'])
            if op in ('++', '--') and not n.get('post'):
                p = self.lv(fr, S, n['a']); return self.load(fr, S, p, n) if p is not None else None
            return None
        if k == 'bin': return self.binary(fr, S, e, n)
        if k == 'cond':
            a, b = (fr.fid, self.strip(f, n['a'])), (fr.fid, self.strip(f, n['b']))
            c = self.val(fr, S, n['c'])
            t = self.truth(S, c)
            if t is not None: return self.val(fr, S, n['a'] if t else n['b'])
            return None
        if k == 'assign': 
            p = self.lv(fr, S, n['a']); return self.load(fr, S, p, n) if p is not None else None
        if k == 'ilist': return self.ilist(fr, S, e, n)
        if k in ('fnref', 'mref'): return ('fn', n.get('fn') or n.get('qn'))
        if k == 'call' and n.get('qn') in ('std::move', 'std::forward', 'std::as_const') and n['args']: return self.val(fr, S, n['args'][0])
        return None

    def truth(self, S, v):
        if v is None: return None
        if v[0] == 'n':
            if is_const(v[1]): return v[1][1] != 0
            return True if S.has(plus(v[1], -1)) else False if S.has(neg(v[1])) and S.has(v[1]) else None
        if v[0] == 'b':
            if self.assume(S, v, False) is None: return True
            if self.assume(S, v, True) is None: return False
        return None

    def num_of(self, fr, S, e):
        return self.to_num(fr, S, self.val(fr, S, e), e)

    def to_num(self, fr, S, v, e):
        if isnum(v): return v[1]
        if v is not None and v[0] == 'b':
            t = self.truth(S, v)
            if t is not None: return num(1 if t else 0)
            return self.fresh(S, 'bool', ('tb', fr.fid, e))
        if v is not None and v[0] == 'at' and v[1] in S.env and isnum(S.env[v[1]]): return S.env[v[1]][1]
        return None

    def convert(self, fr, S, v, t, e):
        """value v as type t"""
        k = self.kind(t)
        if k in ('int', 'uint', 'real', 'bool', 'bval') and v is not None and v[0] == 'b':
            if k == 'bool': return v
            x = self.to_num(fr, S, v, e); return ('n', x)
        if not isnum(v): 
            if v is None and k in ('int', 'uint', 'real', 'bool', 'bval'): return self.fresh_val(S, t, ('c', fr.fid, e))
            return v
        x = v[1]
        if k == 'bool': return ('b', ('cmp', '!=', x, ZERO))
        if k in ('int', 'uint') and not is_int(x):
            y = self.fresh(S, k, ('fl', fr.fid, e))
            if S.has(x): S.learn(y).learn(sub(x, y)).learn(plus(sub(y, x), 1))
            return ('n', y)
        if k == 'uint' and not is_const(x) and not S.has(x):
            return ('n', self.fresh(S, 'uint', ('cu', fr.fid, e)))
        if k == 'uint' and is_const(x) and x[1] < 0: return ('n', self.fresh(S, 'uint', ('cu', fr.fid, e)))
        return v

    CMP = ('<', '>', '<=', '>=', '==', '!=')

    def binary(self, fr, S, e, n):
        op = n['op']; f = fr.f
        if op == ',': return self.val(fr, S, n['b'])
        a, b = self.val(fr, S, n['a']), self.val(fr, S, n['b'])
        return self.binop(fr, S, e, op, a, b, self.ts(n.get('t', -1)), n)

    def binop(self, fr, S, e, op, a, b, t, n=None):
        if op in ('&&', '||'):
            if a and b and a[0] == 'b' and b[0] == 'b': return ('b', ('and' if op == '&&' else 'or', a[1], b[1]))
            if op == '&&' and b and b[0] == 'b' and self.truth(S, a) is True: return b
            return a if op == '&&' and a and a[0] == 'b' and b is None else None
        if a is not None and a[0] == 'it' or b is not None and b[0] == 'it':
            return self.iter_op(fr, S, e, op, a, b)
        x, y = self.to_num(fr, S, a, (e, 'a')), self.to_num(fr, S, b, (e, 'b'))
        if op in self.CMP:
            return ('b', ('cmp', op, x, y)) if x is not None and y is not None else None
        k = self.kind(t)
        if x is None or y is None: return self.fresh_val(S, t, ('b', fr.fid, e)) if k in ('int', 'uint', 'real') else None
        if op == '+': return ('n', add(x, y))
        if op == '-':
            r = sub(x, y)
            if k == 'uint' and not S.has(r): return ('n', self.fresh(S, 'uint', ('b', fr.fid, e)))
            return ('n', r)
        if op == '*':
            if is_const(x): return ('n', scale(y, x[1]))
            if is_const(y): return ('n', scale(x, y[1]))
            r = self.fresh(S, k if k == 'real' else 'int', ('b', fr.fid, e))
            for p, q in ((x, y), (y, x)):
                if S.has(p) and S.has(q):
                    S.learn(r)
                    if S.has(sub(num(1), p)): S.learn(sub(q, r))
                    if k != 'real' and S.has(plus(p, -1)): S.learn(sub(r, q))
            return ('n', r)
        if op == '/':
            if is_const(y) and y[1] > 0:
                if k == 'real': return ('n', scale(x, lin.Fr(1) / lin.Fr(y[1])))
                if S.has(x):
                    r = self.fresh(S, 'uint', ('b', fr.fid, e)); c = int(y[1])
                    S.learn(sub(x, scale(r, c))).learn(plus(sub(scale(r, c), x), c - 1))
                    return ('n', r)
            r = self.fresh(S, k, ('b', fr.fid, e))
            if S.has(x) and S.has(y):
                if k != 'real': S.learn(sub(x, r))
                S.learn(r)
                if k == 'real' and S.has(sub(y, x)): S.learn(sub(num(1), r))
            return ('n', r)
        if op == '%':
            r = self.fresh(S, k, ('b', fr.fid, e))
            if S.has(x) and S.has(y): S.learn(r).learn(sub(x, r)).learn(plus(sub(y, r), -1))
            return ('n', r)
        if op in ('^', '&', '|') and S.has(x) and S.has(y):
            r = self.fresh(S, 'uint', ('b', fr.fid, e))
            if S.has(sub(num(1), x)) and S.has(sub(num(1), y)): S.learn(sub(num(1), r))
            if op == '&': S.learn(sub(x, r)).learn(sub(y, r))
            return ('n', r)
        if op == '>>' and S.has(x):
            r = self.fresh(S, 'uint', ('b', fr.fid, e)); S.learn(sub(x, r)); return ('n', r)
        return self.fresh_val(S, t, ('b', fr.fid, e))

    def iter_op(self, fr, S, e, op, a, b):
        if a is not None and b is not None and a[0] == 'it' and b[0] == 'it':
            if self.canon(S, a[1]) != self.canon(S, b[1]): return None
            if op in self.CMP: return ('b', ('cmp', op, a[2], b[2]))
            if op == '<=>' or op == '-': return ('n', sub(a[2], b[2]))
            return None
        it, o = (a, b) if a is not None and a[0] == 'it' else (b, a)
        x = self.to_num(fr, S, o, (e, 'o'))
        if x is None: return None
        if op in ('+', '-') and (op == '+' or it is a):
            r = ('it', it[1], add(it[2], x) if op == '+' else sub(it[2], x))
            self.iter_ok(S, fr, e, r)
            return r
        return None

    def iter_ok(self, S, fr, e, it):
        n = self.size(S, it[1])
        self.oblige(S, fr, e, [it[2], sub(n, it[2])], 'the iterator stays within its range')

    def ilist(self, fr, S, e, n):
        f = fr.f; rec = n.get('rec')
        vals = [self.val(fr, S, a) for a in n['args']]
        s = self.ts(n.get('t', -1))
        names = self.record_fields(rec)
        if names and len(vals) <= len(names) and self.kind(s) == 'other':
            p = (('T', fr.fid, e), ()); self.kill(S, p)
            for nm, v, a in zip(names, vals, n['args']):
                self.store_arg(fr, S, (p[0], p[1] + (nm,)), a, v)
            return ('at', p)
        if len(vals) == 1 and not rec: return vals[0]
        if not vals and self.kind(s) in ('int', 'uint', 'real', 'bool'): return ('n', ZERO)
        return ('tup', tuple(v if v is not None else ('?', 'il') for v in vals))

    def store_arg(self, fr, S, p, a, v):
        t = self.ts(fr.f.E[self.strip(fr.f, a)].get('t', -1))
        if v is None: self.kill(S, p); return
        if v[0] == 'at': self.copy_typed(S, v[1], p, t)
        else: self.kill(S, p); S.env[p] = v

    def copy_typed(self, S, src, dst, t):
        src = self.deref_path(S, src)
        self.touch(S, src, t)
        self.copy_obj(S, src, dst)

    def touch(self, S, p, t, d=0):
        """make the sizes of the containers of an object explicit"""
        t = bare(t); k = self.kind(t)
        if k == 'cont':
            self.size(S, p)
        elif k == 'other' and d < 3 and t in self.P.records and t.startswith('gapp::') and 'GA' not in t:
            for c, fd in self.P.fields(t):
                ft = self.ts(fd.get('t', -1))
                if self.kind(ft) in ('cont', 'other'): self.touch(S, (p[0], p[1] + (fd['name'],)), ft, d + 1)
                elif self.kind(ft) in ('int', 'uint', 'real') : self.read(S, (p[0], p[1] + (fd['name'],)), ft)

    # ---------------------------------------------------------------- statements
    def elem(self, fr, S, e):
        f = fr.f
        if isinstance(e, dict):
            if e.get('k') == 'init' and 'field' in e and fr.this is not None and isinstance(e.get('e'), int) and e['e'] >= 0:
                p = (fr.this[0], fr.this[1] + (e['field'],))
                v = self.val(fr, S, e['e'])
                if v is not None and v[0] == 'at': self.copy_typed(S, v[1], p, self.ts(f.E[self.strip(f, e['e'])].get('t', -1)))
                else:
                    self.kill(S, p)
                    if v is not None: S.env[p] = v
            return [S]
        n = f.E[e]; k = n['k']
        self.retire(S, fr, e)
        if k == 'decl':
            for v in n['vars']:
                vid = v['v']; p = (('V', fr.fid, vid), ())
                if f.V[vid]['st'] in ('static', 'tls', 'global'): continue
                self.kill(S, p)
                t = f.vtype(vid)
                if 'init' not in v: continue
                self.bind(fr, S, p, v['init'], t)
            return [S]
        if k == 'assign':
            p = self.lv(fr, S, n['a'])
            t = self.ts(f.E[n['a']].get('t', -1))
            if n['op'] == '=':
                v = self.convert(fr, S, self.val(fr, S, n['b']), t, e)
            else:
                cur = self.val_now(fr, S, n['a'], p)
                v = self.binop(fr, S, e, n['op'][:-1], cur, self.val(fr, S, n['b']), t if self.kind(t) != 'uint' else t)
                v = self.convert(fr, S, v, t, (e, 'c'))
            if p is not None: self.write(S, p, v, (fr, e), t)
            return [S]
        if k == 'un' and n['op'] in ('++', '--'):
            p = self.lv(fr, S, n['a'])
            if p is None: return [S]
            cur = self.val_now(fr, S, n['a'], p)
            if cur is None: S.vals.pop((fr.fid, e), None); return [S]
            if n.get('post'): S.vals[(fr.fid, e)] = cur
            t = self.ts(f.E[n['a']].get('t', -1))
            d = 1 if n['op'] == '++' else -1
            if isnum(cur):
                r = plus(cur[1], d)
                if d < 0 and self.kind(t) == 'uint' and not S.has(r):
                    B = self.assume_b(S.copy(), ('cmp', '<=', cur[1], ZERO), True)
                    S = self.assume_b(S, ('cmp', '<', ZERO, cur[1]), True)
                    out = []
                    if B is not None: self.write(B, p, ('n', self.fresh(B, 'uint', ('dec', fr.fid, e))), (fr, e), t); out.append(B)
                    if S is not None: self.write(S, p, ('n', r), (fr, e), t); out.append(S)
                    return out
                self.write(S, p, ('n', r), (fr, e), t)
            elif cur[0] == 'it':
                it = ('it', cur[1], plus(cur[2], d)); self.iter_ok(S, fr, e, it); self.write(S, p, it, (fr, e), t)
            return [S]
        if k == 'ret':
            if 'e' in n:
                rt = self.P.T(f.d.get('ret', -1))
                if rt.get('ref'):
                    p = self.lv(fr, S, n['e'])
                    S.vals[('rv', fr.fid)] = ('at', self.deref_path(S, p)) if p is not None else None
                    if p is None: S.vals.pop(('rv', fr.fid), None)
                else:
                    v = self.val(fr, S, n['e'])
                    ts = self.ts(f.d.get('ret', -1))
                    if v is not None and v[0] == 'at' and not ts.endswith('*') and 'span<' not in ts[:12]:
                        q = (('R', fr.fid), ())
                        self.copy_typed(S, v[1], q, ts)
                        v = ('at', q)
                    else: v = self.convert(fr, S, v, ts, e)
                    if v is not None: S.vals[('rv', fr.fid)] = v
            return [S]
        if k == 'throw': return []
        if k == 'lambda':
            env = ('L', fr.fid, e)
            for c in n['caps']:
                if c.get('initcap') and 'init' in c:
                    p = (env, (c['name'],))
                    if c.get('ref'):
                        q = self.lv(fr, S, c['init'])
                        if q is not None: S.env[p] = ('at', q)
                    else:
                        v = self.val(fr, S, c['init'])
                        if v is not None: S.env[p] = v
            S.vals[(fr.fid, e)] = ('lam', tuple(n['ops']), env, fr)
            return [S]
        if k == 'call': return self.call(fr, S, e, n)
        if k == 'ctor': return self.ctor(fr, S, e, n)
        if k in ('var', 'field', 'sub', 'bin', 'cast', 'un', 'cond', 'ilist', 'lit', 'zero', 'wrap', 'this', 'fnref', 'mref'):
            if k == 'cond':
                f_ = f
                c = self.val(fr, S, n['c'])
                t = self.truth(S, c)
                if t is not None:
                    x = n['a'] if t else n['b']
                    if n.get('lv'):
                        p = self.lv(fr, S, x)
                        S.vals[(fr.fid, e)] = ('lref', self.deref_path(S, p)) if p is not None else None
                        if p is None: S.vals.pop((fr.fid, e))
                    else:
                        v = self.convert(fr, S, self.val(fr, S, x), self.ts(n.get('t', -1)), e)
                        if v is not None: S.vals[(fr.fid, e)] = v
                        else: S.vals.pop((fr.fid, e), None)
                    return [S]
                v = self.fresh_val(S, self.ts(n.get('t', -1)), ('cond', fr.fid, e))
                S.vals[(fr.fid, e)] = v
                return [S]
            if k in ('fnref', 'mref', 'this', 'lit'): return [S]
            S.vals.pop((fr.fid, e), None)
            if k in ('var', 'field', 'sub') or k == 'un' and n['op'] == '*':
                kk = self.kind(self.ts(n.get('t', -1)))
                if k in ('sub',) or k == 'un': self.deref_check(fr, S, e, n)
                if kk not in ('int', 'uint', 'real', 'bool', 'bval') : return [S]
                if self.is_target(f, e): return [S]
            v = self.compute(fr, S, e, n)
            if v is not None: S.vals[(fr.fid, e)] = v
            return [S]
        return [S]

    def is_target(self, f, e):
        """the expression only names the target of a write or is bound to a reference"""
        for p in f.parents().get(e, ()):
            n = f.E[p]
            if n['k'] == 'assign' and n['op'] == '=' and n['a'] == e: return True
        return False

    def deref_check(self, fr, S, e, n):
        p = self.lv(fr, S, e)
        if p is not None and p[1] and isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]':
            c = (p[0], p[1][:-1]); i = p[1][-1][1]
            nsz = self.size(S, c)
            self.oblige(S, fr, e, [i, plus(sub(nsz, i), -1)], 'the element accessed exists')

    def val_now(self, fr, S, e, p):
        n = fr.f.E[self.strip(fr.f, e)]
        if p is None: return self.val(fr, S, e)
        return self.load(fr, S, p, n)

    def bind(self, fr, S, p, init, t):
        """initialise the object (or reference) at path p"""
        f = fr.f
        s = bare(t.get('s', ''))
        if t.get('ref'):
            q = self.lv(fr, S, init)
            if q is not None:
                q = self.deref_path(S, q)
                if q != p: S.env[p] = ('at', q)
            return
        v = self.val(fr, S, init)
        if v is None:
            x = self.fresh_val(S, s, ('v', fr.fid, init))
            if x[0] == 'n': S.env[p] = x
            return
        if v[0] == 'at':
            if s.endswith('*') or s.startswith(('std::span<',)): S.env[p] = v; return
            if self.kind(s) in ('int', 'uint', 'real', 'bool'):
                w = self.read(S, v[1], s)
                if isnum(w): S.env[p] = w
                return
            self.copy_typed(S, v[1], p, s); return
        S.env[p] = self.convert(fr, S, v, s, init)

    # ---------------------------------------------------------------- calls
    def set(self, fr, S, e, v):
        if v is None: S.vals.pop((fr.fid, e), None)
        else: S.vals[(fr.fid, e)] = v
        return [S]

    def objtype(self, f, n):
        if 'obj' not in n: return ''
        t = self.ts(f.E[self.strip(f, n['obj'])].get('t', -1))
        if n.get('arrow') and t.endswith('*'): t = bare(t[:-1])
        return t

    def objpath(self, fr, S, n):
        if n.get('arrow'):
            v = self.val(fr, S, n['obj'])
            if v and v[0] == 'at': return v[1]
            return self.itpath(v)
        return self.lv(fr, S, n['obj'])

    def call(self, fr, S, e, n):
        f = fr.f; qn = n.get('qn', ''); nm = qn.rsplit('::', 1)[-1]; args = n.get('args', [])
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'): return [S]
        r = self.special(fr, S, e, n, qn, nm, args)
        if r is not None: return r
        if 'obj' in n:
            ot = self.objtype(f, n); k = self.kind(ot)
            ov = None
            if k == 'bval':
                v = self.val(fr, S, n['obj'])
                if isnum(v): return self.set(fr, S, e, v)
                p = self.objpath(fr, S, n)
                return self.set(fr, S, e, self.read(S, p, ot) if p is not None else self.fresh_val(S, ot, ('bv', fr.fid, e)))
            if k == 'bnd' and nm in ('lower', 'upper'):
                v = self.val(fr, S, n['obj'])
                if (v is None or v[0] != 'bnd'):
                    p = self.objpath(fr, S, n)
                    v = self.read(S, p, ot) if p is not None else None
                if v is not None and v[0] == 'bnd':
                    kk = 'r' if ot.endswith('<double>') or ot.endswith('<float>') else 'i'
                    lo, hi = (kk, 'LO', v[1]), (kk, 'HI', v[1])
                    S.learn(sub(sym(hi), sym(lo)))
                    return self.set(fr, S, e, ('n', sym(lo if nm == 'lower' else hi)))
                return self.set(fr, S, e, self.fresh_val(S, 'double' if 'double' in ot else 'long', ('bd', fr.fid, e)))
            if k == 'cont':
                r = self.container(fr, S, e, n, nm, args, ot)
                if r is not None: return r
            if n.get('op') or nm in ('base',):
                v = self.val(fr, S, n['obj'])
                if v is None or v[0] != 'it':
                    p = self.lv(fr, S, n['obj']) if not n.get('arrow') else None
                    if p is not None:
                        w = S.env.get(self.deref_path(S, p))
                        if w is not None and w[0] == 'it': v = w
                if v is not None and v[0] == 'it': return self.iterator(fr, S, e, n, v, args)
        elif n.get('op') and len(args) == 2:
            a, b = self.itval(fr, S, args[0]) or self.val(fr, S, args[0]), self.itval(fr, S, args[1]) or self.val(fr, S, args[1])
            if (a is not None and a[0] == 'it') or (b is not None and b[0] == 'it'):
                return self.set(fr, S, e, self.iter_op(fr, S, e, n['op'], a, b))
            if n['op'] in self.CMP and a is not None and a[0] == 'n' and 'ordering' in qn + (n.get('fn') or ''):
                return self.set(fr, S, e, ('b', ('cmp', n['op'], a[1], ZERO)))
        r = self.library(fr, S, e, n, qn, nm, args)
        if r is not None: return r
        # callables
        tgt = self.callable(fr, S, n)
        if tgt is not None:
            g, env, skip = tgt
            return self.inline(fr, S, e, n, g, None, args[skip:], env)
        gs = [g for g in self.P.callees(f, n) if g.blocks and self.P.is_repo(g)]
        if len(gs) == 1 and not n.get('virt') and fr.depth < self.max_depth and not self.recursive(fr, gs[0]) and self.descend(gs[0]):
            this = None
            if 'obj' in n: this = self.objpath(fr, S, n) or (('T', fr.fid, e), ('obj',))
            return self.inline(fr, S, e, n, gs[0], this, args, None)
        return self.unknown(fr, S, e, n)

    def descend(self, g): return True

    def recursive(self, fr, g):
        while fr is not None:
            if fr.f.key == g.key: return True
            fr = fr.up
        return False

    def callable(self, fr, S, n):
        f = fr.f; qn = n.get('qn', ''); args = n.get('args', [])
        def fn_of(v, skip, nargs):
            if v is None: return None
            if v[0] == 'lam':
                gs = [self.P.funcs[k] for k in v[1] if k in self.P.funcs and self.P.funcs[k].blocks]
                ok = [g for g in gs if len(g.params) == nargs]
                want = n.get('fn'); ex = [g for g in ok if g.key == want]
                g = (ex or ok or [None])[0]
                return (g, (v[3], v[2]), skip) if g is not None else None
            if v[0] == 'fn' and v[1] in self.P.funcs and self.P.funcs[v[1]].blocks and self.P.is_repo(self.P.funcs[v[1]]): return (self.P.funcs[v[1]], None, skip)
            return None
        def look(e):
            v = self.val(fr, S, e)
            if v is None or v[0] not in ('lam', 'fn'):
                p = self.lv(fr, S, e)
                if p is not None: v = S.env.get(self.deref_path(S, p), v)
            return v
        if qn in ('std::invoke', 'std::__invoke') and args: return fn_of(look(args[0]), 1, len(args) - 1)
        if n.get('op') == '()' and 'obj' in n: return fn_of(look(n['obj']), 0, len(args))
        if 'ind' in n: return fn_of(look(n['ind']), 0, len(args))
        return None

    def inline(self, fr, S, e, n, g, this, args, env):
        fid = (fr.fid, e)
        up = fr
        nf = Frame(g, fid, this, None, up, env)
        if env is not None: nf.this = self.thispath(env[0]) if isinstance(env, tuple) and env[0] is not None else None
        for i, pv in enumerate(g.params):
            p = (('P', fid, i), ())
            self.kill(S, p)
            if i < len(args) and args[i] is not None and args[i] >= 0: self.bind(fr, S, p, args[i], g.vtype(pv))
        try: outs = self.run(nf, S)
        except TooMany:
            if fr.up is None: raise
            raise
        res = []
        if len(outs) > 6:
            for o in outs:
                if o[1] is not None: o[0].vals[('rv', fid)] = o[1]
            outs = [(s, s.vals.pop(('rv', fid), None)) for s in self.merge([o[0] for o in outs], ('r', fid))]
        for s, v in outs:
            if v is None:
                if n.get('lv') is None and self.kind(self.ts(n.get('t', -1))) in ('int', 'uint', 'real', 'bool'): v = self.fresh_val(s, self.ts(n['t']), ('ret', fid))
            if v is not None and v[0] == 'at' and n.get('lv'): v = ('lref', v[1])
            if v is not None and v[0] == 'at' and v[1][0] == ('R', fid):
                q = (('T', fr.fid, e), ()); self.copy_obj(s, v[1], q); self.kill(s, v[1]); v = ('at', q)
            res += self.set(fr, s, e, v)
            self.drop_frame(s, fid, keep=v)
        return res

    def drop_frame(self, S, fid, keep=None):
        """forget the locals of a finished call"""
        def infid(x):
            while isinstance(x, tuple):
                if x == fid: return True
                if len(x) == 2 and isinstance(x[0], tuple): x = x[0]
                else: return False
            return False
        for k in [k for k in S.vals if k[0] != 'rv' and infid(k[0])]: del S.vals[k]
        refd = set()
        for v in list(S.env.values()) + list(S.vals.values()):
            if v is not None:
                if v[0] in ('at', 'lref', 'it'): refd.add(v[1][0])
                if v[0] in ('tup', 'rng'):
                    for x in v[1]:
                        if x and x[0] in ('at', 'it'): refd.add(x[1][0])
                if v[0] == 'lam': return
        for m in (S.env, S.size, S.cont):
            for k in [k for k in m if k[0][0] in ('V', 'P', 'B', 'T') and infid(k[0][1]) and k[0] not in refd]: del m[k]

    def unknown(self, fr, S, e, n):
        """a call about which nothing is known"""
        f = fr.f
        pts = n.get('pt') or []
        for i, a in enumerate(n.get('args', [])):
            if a is None or a < 0: continue
            pt = self.P.T(pts[i]) if i < len(pts) and isinstance(pts[i], int) else {}
            s = pt.get('s', '')
            if pt.get('ref') and not s.startswith('const ') and '&&' not in s:
                p = self.lv(fr, S, a)
                if p is not None: self.havoc(fr, S, p, e)
        if 'obj' in n and not n.get('cm') and not n.get('arrow'):
            p = self.lv(fr, S, n['obj'])
            if p is not None and p[0][0] in ('V', 'T') : self.havoc(fr, S, p, e)
        t = self.ts(n.get('t', -1))
        if n.get('lv'):
            return self.set(fr, S, e, None)
        v = self.fresh_val(S, t, ('u', fr.fid, e))
        if v[0] != 'n':
            p = (('T', fr.fid, e), ()); self.kill(S, p); v = ('at', p) if self.kind(t) in ('cont', 'other') and not t.endswith('*') else None
            if self.kind(t) == 'cont': S.size[p] = self.fresh(S, 'uint', ('usz', fr.fid, e)); S.cont[p] = (frozenset(), frozenset(), ZERO)
        return self.set(fr, S, e, v)

    def havoc(self, fr, S, p, e):
        p = self.deref_path(S, p)
        if p[1] and isinstance(p[1][-1], tuple) and p[1][-1][0] == '[]':
            c = (p[0], p[1][:-1]); self.elem_write(S, c, p[1][-1][1], ('?', e), (fr, e)); return
        for c in [c for c in S.el if prefix(p, c)]: self.flush(S, c)
        self.kill(S, p)
        self.forget_elems(S, p)
        for c in self.gene_paths(S, p):
            S.cont[c] = (frozenset(), None, ZERO); self.gene(S, c, False, (fr, e), None)

    def gene_paths(self, S, p): return [p] if self.gene_template(S, p) is not None else []

    def special(self, fr, S, e, n, qn, nm, args): return None

    # ---------------------------------------------------------------- containers and iterators
    def container(self, fr, S, e, n, nm, args, ot):
        c = self.objpath(fr, S, n)
        if c is None: return None
        c = self.deref_path(S, c)
        op = n.get('op')
        t = self.ts(n.get('t', -1))
        if nm in ('size', 'length'): return self.set(fr, S, e, ('n', self.size(S, c)))
        if nm == 'empty': return self.set(fr, S, e, ('b', ('cmp', '==', self.size(S, c), ZERO)))
        if nm in ('begin', 'cbegin', 'data'): return self.set(fr, S, e, ('it', c, ZERO))
        if nm in ('end', 'cend'): return self.set(fr, S, e, ('it', c, self.size(S, c)))
        if op == '[]' or nm == 'at':
            i = self.num_of(fr, S, args[0])
            if i is None: i = self.fresh(S, 'uint', ('ix', fr.fid, e))
            nsz = self.size(S, c)
            self.oblige(S, fr, e, [i, plus(sub(nsz, i), -1)], 'the element accessed exists')
            return self.set(fr, S, e, ('lref', (c[0], c[1] + (('[]', i),))))
        if nm in ('front', 'back'):
            nsz = self.size(S, c)
            self.oblige(S, fr, e, [plus(nsz, -1)], 'the container is not empty')
            return self.set(fr, S, e, ('lref', (c[0], c[1] + (('[]', ZERO if nm == 'front' else plus(nsz, -1)),))))
        if nm in ('reserve', 'shrink_to_fit', 'capacity', 'max_size'): return self.set(fr, S, e, self.fresh_val(S, t, ('cap', fr.fid, e)) if nm in ('capacity', 'max_size') else None)
        if nm in ('push_back', 'emplace_back'):
            nsz = self.size(S, c)
            v = self.val(fr, S, args[0]) if args else None
            self.flush(S, c)
            if isnum(v) or (v is not None and v[0] == 'b'):
                x = v if isnum(v) else ('n', self.to_num(fr, S, v, e))
                if c not in S.cont and self.gene_template(S, c) is None: S.cont[c] = (None, None, ZERO) if is_const(nsz) and nsz[1] == 0 else (frozenset(), frozenset(), ZERO)
                S.size[c] = plus(nsz, 1)
                self.elem_write(S, c, nsz, x, (fr, e)); self.flush(S, c)
            else: S.size[c] = plus(nsz, 1)
            return self.set(fr, S, e, None)
        if nm == 'pop_back':
            nsz = self.size(S, c)
            self.oblige(S, fr, e, [plus(nsz, -1)], 'the container is not empty')
            self.flush(S, c); S.size[c] = plus(nsz, -1)
            return self.set(fr, S, e, None)
        if nm == 'clear':
            self.flush(S, c); self.kill(S, c); S.size[c] = ZERO; S.cont[c] = (None, None, ZERO)
            return self.set(fr, S, e, None)
        if nm in ('resize', 'assign') and args:
            x = self.num_of(fr, S, args[0])
            if x is not None and (nm == 'resize' or len([a for a in args if a >= 0]) == 2):
                self.flush(S, c)
                self.forget_elems(S, c); self.kill(S, c)
                S.size[c] = x; S.cont[c] = (frozenset(), frozenset(), ZERO)
                return self.set(fr, S, e, None)
        if nm in ('find_first', 'find_next') and 'bitset' in ot:
            r = self.fresh(S, 'uint', ('ff', fr.fid, e)); S.learn(sub(self.size(S, c), r))
            return self.set(fr, S, e, ('n', r))
        if nm == 'fill' and 'bitset' in ot: return self.set(fr, S, e, None)
        if op == '=' and args:
            p = self.lv(fr, S, args[0])
            if p is not None:
                self.copy_typed(S, p, c, ot)
                return self.set(fr, S, e, ('lref', c))
        if nm == 'swap' and args:
            p = self.lv(fr, S, args[0])
            if p is not None: self.swap_obj(S, c, p, ot); return self.set(fr, S, e, None)
        if nm in ('ncols', 'nrows'):
            return None
        if nm in ('erase', 'insert') and args:
            self.flush(S, c); nsz = self.size(S, c)
            x = self.fresh(S, 'uint', ('rs', fr.fid, e)); S.size[c] = x
            self.forget_elems(S, c)
            S.cont[c] = (frozenset(), frozenset(), ZERO)
            return self.set(fr, S, e, None)
        return None

    def swap_obj(self, S, a, b, t):
        a, b = self.deref_path(S, a), self.deref_path(S, b)
        for p in (a, b): self.touch(S, p, t); self.flush(S, p)
        tmp = (('SW',), ())
        self.copy_obj(S, a, tmp); self.copy_obj(S, b, a); self.copy_obj(S, tmp, b); self.kill(S, tmp)

    def iterator(self, fr, S, e, n, it, args):
        op = n.get('op')
        if op == '*' and not [a for a in args if a >= 0]:
            nsz = self.size(S, it[1])
            self.oblige(S, fr, e, [it[2], plus(sub(nsz, it[2]), -1)], 'the iterator dereferenced points to an element')
            return self.set(fr, S, e, ('lref', self.itpath(it)))
        if op == '->':
            nsz = self.size(S, it[1])
            self.oblige(S, fr, e, [it[2], plus(sub(nsz, it[2]), -1)], 'the iterator dereferenced points to an element')
            return self.set(fr, S, e, ('at', self.itpath(it)))
        if op == '[]':
            i = self.num_of(fr, S, args[0])
            if i is None: return self.set(fr, S, e, None)
            j = add(it[2], i); nsz = self.size(S, it[1])
            self.oblige(S, fr, e, [j, plus(sub(nsz, j), -1)], 'the element accessed exists')
            return self.set(fr, S, e, ('lref', (it[1][0], it[1][1] + (('[]', j),))))
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            new = ('it', it[1], plus(it[2], d))
            self.iter_ok(S, fr, e, new)
            p = self.lv(fr, S, n['obj'])
            if p is not None:
                p = self.deref_path(S, p); self.kill(S, p); S.env[p] = new
            post = [a for a in args if a >= 0]
            return self.set(fr, S, e, it if post else new)
        if op in ('+=', '-='):
            x = self.num_of(fr, S, args[0])
            p = self.lv(fr, S, n['obj'])
            if p is None: return self.set(fr, S, e, None)
            p = self.deref_path(S, p); self.kill(S, p)
            if x is not None:
                new = ('it', it[1], add(it[2], x) if op == '+=' else sub(it[2], x)); self.iter_ok(S, fr, e, new)
                S.env[p] = new
                return self.set(fr, S, e, new)
            return self.set(fr, S, e, None)
        if op in ('+', '-') or op in self.CMP:
            b = self.val(fr, S, args[0]) if args else None
            return self.set(fr, S, e, self.iter_op(fr, S, e, op, it, b))
        if op == '=':
            v = self.val(fr, S, args[0]); p = self.lv(fr, S, n['obj'])
            if p is not None:
                p = self.deref_path(S, p); self.kill(S, p)
                if v is not None: S.env[p] = v
            return self.set(fr, S, e, None)
        return self.set(fr, S, e, None)

    # ---------------------------------------------------------------- the standard library and the random numbers
    PERM = {'sort', 'stable_sort', 'shuffle', 'reverse', 'rotate', 'partial_sort', 'nth_element', 'partition', 'stable_partition', 'random_shuffle', 'make_heap'}
    SEARCH = {'find', 'find_if', 'find_if_not', 'min_element', 'max_element', 'lower_bound', 'upper_bound', 'adjacent_find', 'partition_point', 'remove', 'remove_if', 'unique', 'is_sorted_until'}
    READS = {'accumulate', 'all_of', 'any_of', 'none_of', 'count', 'count_if', 'reduce', 'is_sorted', 'transform_reduce', 'for_each', 'inner_product', 'equal', 'minmax_element', 'binary_search', 'distance', 'sum'}

    def itval(self, fr, S, a):
        v = self.val(fr, S, a)
        if v is not None and v[0] == 'it': return v
        p = self.lv(fr, S, a)
        if p is not None:
            v = S.env.get(self.deref_path(S, p))
            if v is not None and v[0] == 'it': return v
        return None

    def weaken(self, S, c, lo=None, hi=None):
        """the elements of c are permuted"""
        own = self.gene_template(S, c)
        for j in list(S.el.get(c, {})): self.flush1(S, c, j)
        S.el.pop(c, None)
        self.forget_elems(S, c)
        cc = self.content(S, c)
        t0, t1, lf = cc
        if t0 != t1 and t1 is not None and S.has(sub(lf, self.size(S, c))): ts = t1
        elif t0 is None and t1 is None: S.cont[c] = cc; return
        else: ts = self.const_templates(cc)
        pos = [t for t in ts if K in lin.deep(t, set())]
        out = {t for t in ts if t not in pos}
        if pos:
            xs = sym(XI if any(XI in syms(t) for t in ts) else X)
            cand = [xs, sub(plus(self.size(S, c), -1), xs)]
            if own is not None: cand += [t for t in own if K not in lin.deep(t, set())]
            for t in cand:
                if self.t_implied(S, c, ts, t): out.add(t)
        if own is not None and c not in S.cont and frozenset(out) == frozenset(own): return
        S.cont[c] = (frozenset(out), frozenset(out), ZERO)
        if own is not None and not self.implied(S, c, own): self.gene(S, c, False, self.at, None)
        self.adopt(S, c)

    at = None

    def ilist_elems(self, f, e):
        '''The elements of an initializer list expression.'''
        for _ in range(8):
            n = f.E[e]
            if n['k'] == 'ilist': return [a for a in n.get('args', []) if a is not None and a >= 0]
            e = n.get('e', -1)
            if e is None or e < 0: return None
        return None

    def library(self, fr, S, e, n, qn, nm, args):
        f = fr.f
        t = self.ts(n.get('t', -1))
        self.at = (fr, e)
        A = [a for a in args if a is not None and a >= 0]
        if qn.startswith('gapp::rng::'):
            r = self.random(fr, S, e, n, nm, A, t)
            if r is not None: return r
        if not qn.startswith('std::'): return self.library2(fr, S, e, n, qn, nm, A, t)
        if nm in ('max', 'min', 'minmax') and len(A) == 1:
            # The form taking an initializer list: the elements are the operands.
            L = self.ilist_elems(f, A[0])
            if L is not None and len(L) == 1: L = L * 2
            if L is not None and len(L) == 2: A = L
            elif L is not None and nm != 'minmax' and len(L) > 2 and self.kind(t) != 'real':
                xs = [self.num_of(fr, S, a) for a in L]
                if all(x is not None for x in xs):
                    r = self.fresh(S, self.kind(t), ('mm', fr.fid, e))
                    for x in xs: S.learn(sub(r, x) if nm == 'max' else sub(x, r))
                    return self.set(fr, S, e, ('n', r))
        if nm in ('max', 'min') and len(A) >= 2:
            x, y = self.num_of(fr, S, A[0]), self.num_of(fr, S, A[1])
            if x is None or y is None: return self.set(fr, S, e, self.fresh_val(S, t, ('mm', fr.fid, e)))
            if self.kind(t) == 'real':
                r = self.fresh(S, 'real', ('mm', fr.fid, e))
                for z in (x, y): S.learn(sub(r, z) if nm == 'max' else sub(z, r))
                if S.has(sub(x, y)): return self.set(fr, S, e, ('n', x if nm == 'max' else y))
                if S.has(sub(y, x)): return self.set(fr, S, e, ('n', y if nm == 'max' else x))
                for z in list(S.cons):
                    pass
                for b in self.common_bounds(S, x, y, nm): S.learn(sub(b, r) if nm == 'max' else sub(r, b))
                return self.set(fr, S, e, ('n', r))
            out = []
            for pol in (True, False):
                s = self.assume_b(S.copy(), ('cmp', '<', x, y), pol)
                if s is None: continue
                lo, hi = (x, y) if pol else (y, x)
                out += self.set(fr, s, e, ('n', hi if nm == 'max' else lo))
            return out
        if nm == 'clamp' and len(A) >= 3:
            x, lo, hi = (self.num_of(fr, S, a) for a in A[:3])
            if lo is None or hi is None: return self.set(fr, S, e, self.fresh_val(S, t, ('cl', fr.fid, e)))
            self.oblige(S, fr, e, [sub(hi, lo)], 'std::clamp is given an ordered range')
            k = self.kind(t)
            r = self.fresh(S, 'real' if k == 'real' else k, ('cl', fr.fid, e))
            S.learn(sub(r, lo)).learn(sub(hi, r))
            return self.set(fr, S, e, ('n', r))
        if nm == 'minmax' and len(A) >= 2:
            x, y = self.num_of(fr, S, A[0]), self.num_of(fr, S, A[1])
            if x is None or y is None: return None
            out = []
            for pol in (True, False):
                s = self.assume_b(S.copy(), ('cmp', '<=', x, y), pol)
                if s is None: continue
                out += self.set(fr, s, e, ('tup', (('n', x), ('n', y)) if pol else (('n', y), ('n', x))))
            return out
        if nm in ('abs', 'fabs') and A:
            x = self.num_of(fr, S, A[0]); r = self.fresh(S, 'real' if self.kind(t) == 'real' else 'int', ('abs', fr.fid, e)); S.learn(r)
            if x is not None: S.learn(sub(r, x)).learn(add(r, x))
            return self.set(fr, S, e, ('n', r))
        if nm in ('begin', 'cbegin', 'end', 'cend', 'data', 'size', 'ssize', 'empty') and len(A) == 1:
            p = self.lv(fr, S, A[0])
            if p is None: return None
            p = self.deref_path(S, p)
            if nm in ('begin', 'cbegin', 'data'): return self.set(fr, S, e, ('it', p, ZERO))
            if nm == 'empty': return self.set(fr, S, e, ('b', ('cmp', '==', self.size(S, p), ZERO)))
            return self.set(fr, S, e, ('it', p, self.size(S, p)) if nm in ('end', 'cend') else ('n', self.size(S, p)))
        if nm in ('next', 'prev') and A:
            it = self.itval(fr, S, A[0])
            if it is None: return None
            d = self.num_of(fr, S, A[1]) if len(A) > 1 and f.E[A[1]]['k'] != 'defarg' else num(1)
            if d is None: return None
            r = ('it', it[1], add(it[2], d) if nm == 'next' else sub(it[2], d))
            self.iter_ok(S, fr, e, r)
            return self.set(fr, S, e, r)
        if nm == 'advance' and len(A) == 2:
            it = self.itval(fr, S, A[0]); d = self.num_of(fr, S, A[1]); p = self.lv(fr, S, A[0])
            if it is None or d is None or p is None: return None
            r = ('it', it[1], add(it[2], d)); self.iter_ok(S, fr, e, r)
            p = self.deref_path(S, p); self.kill(S, p); S.env[p] = r
            return self.set(fr, S, e, None)
        if nm in ('swap', 'iter_swap') and len(A) == 2:
            if nm == 'swap': p, q = self.lv(fr, S, A[0]), self.lv(fr, S, A[1])
            else:
                i, j = self.itval(fr, S, A[0]), self.itval(fr, S, A[1])
                if i is None or j is None: return None
                for it in (i, j): self.oblige(S, fr, e, [it[2], plus(sub(self.size(S, it[1]), it[2]), -1)], 'the iterator dereferenced points to an element')
                p, q = self.itpath(i), self.itpath(j)
            if p is None or q is None: return self.unknown(fr, S, e, n)
            p, q = self.deref_path(S, p), self.deref_path(S, q)
            et = self.ts(f.E[A[0]].get('t', -1)) if nm == 'swap' else t
            if self.kind(et) in ('cont', 'other') and nm == 'swap':
                self.swap_obj(S, p, q, et)
            else:
                a, b = self.read(S, p, et), self.read(S, q, et)
                if not isnum(a): a = ('?', 'sw')
                if not isnum(b): b = ('?', 'sw')
                S.vals[('#a',)] = a
                self.write(S, p, b, (fr, e), et)
                self.write(S, q, S.vals.pop(('#a',)), (fr, e), et)
            return self.set(fr, S, e, None)
        if nm == 'exchange' and len(A) == 2:
            p = self.lv(fr, S, A[0])
            if p is None: return self.unknown(fr, S, e, n)
            et = self.ts(f.E[self.strip(f, A[0])].get('t', -1))
            old = self.read(S, p, et); v = self.val(fr, S, A[1])
            self.write(S, p, v, (fr, e), et)
            return self.set(fr, S, e, old if isnum(old) else None)
        if nm == 'tie' or nm in ('make_pair', 'make_tuple'):
            vs = tuple(self.val(fr, S, a) or ('?', 't') for a in A)
            return self.set(fr, S, e, ('tup', vs))
        if nm == 'get' and len(A) == 1:
            p = self.lv(fr, S, A[0])
            v = S.env.get(self.deref_path(S, p)) if p is not None else None
            if v is None: v = self.val(fr, S, A[0])
            return None
        its = []
        for a in A:
            it = self.itval(fr, S, a)
            if it is None: break
            its.append(it)
        if len(its) >= 2 and self.canon(S, its[0][1]) == self.canon(S, its[1][1]):
            c = self.canon(S, its[0][1]); a0, a1 = its[0][2], its[1][2]
            last = a1
            if nm in ('rotate', 'partial_sort', 'nth_element') and len(its) >= 3:
                self.oblige(S, fr, e, [sub(its[1][2], a0), sub(its[2][2], its[1][2])], 'the range of std::%s is ordered' % nm)
                last = its[2][2]
            else: self.oblige(S, fr, e, [sub(a1, a0)], 'the range of std::%s is ordered' % nm)
            if nm == 'distance': return self.set(fr, S, e, ('n', sub(a1, a0)))
            if nm in self.PERM:
                self.weaken(S, c); return self.set(fr, S, e, None)
            if nm in self.SEARCH:
                r = self.fresh(S, 'int', ('it', fr.fid, e)); S.learn(sub(r, a0)).learn(sub(a1, r))
                if nm in ('min_element', 'max_element') and S.has(plus(sub(a1, a0), -1)): S.learn(plus(sub(a1, r), -1))
                if nm in ('remove', 'remove_if', 'unique'): self.weaken(S, c)
                return self.set(fr, S, e, ('it', its[0][1], r))
            if nm == 'minmax_element':
                rs = []
                for i in (0, 1):
                    r = self.fresh(S, 'int', ('it%d' % i, fr.fid, e)); S.learn(sub(r, a0)).learn(sub(a1, r))
                    if S.has(plus(sub(a1, a0), -1)): S.learn(plus(sub(a1, r), -1))
                    rs.append(('it', its[0][1], r))
                return self.set(fr, S, e, ('tup', tuple(rs)))
            if nm in ('generate', 'fill', 'iota') and len(A) >= 3:
                return self.fill(fr, S, e, n, nm, c, a0, a1, A[2])
            if nm in ('copy', 'move', 'transform', 'copy_if', 'reverse_copy', 'inclusive_scan', 'exclusive_scan', 'partial_sum', 'adjacent_difference', 'transform_inclusive_scan', 'replace_copy', 'unique_copy') and len(its) >= 3:
                out = its[2]; two = nm == 'transform' and len(its) >= 4
                if two: out = its[3]
                ln = sub(a1, a0)
                if two:
                    self.oblige(S, fr, e, [its[2][2], sub(self.size(S, its[2][1]), add(its[2][2], ln))], 'the second input range of std::transform is long enough')
                if nm not in ('copy_if', 'unique_copy'):
                    self.oblige(S, fr, e, [out[2], sub(self.size(S, out[1]), add(out[2], ln))], 'the output range of std::%s is long enough' % nm)
                return self.mapped(fr, S, e, n, nm, c, a0, a1, (its[2] if two else None), out, A)
            if nm in ('swap_ranges',) and len(its) >= 3:
                ln = sub(a1, a0)
                self.oblige(S, fr, e, [its[2][2], sub(self.size(S, its[2][1]), add(its[2][2], ln))], 'the second range of std::swap_ranges is long enough')
                return self.swap_ranges(fr, S, e, c, a0, a1, its[2])
            if nm == 'for_each' and len(A) == 3:
                r = self.each(fr, S, e, c, a0, a1, A)
                if r is not None: return r
            if nm in ('all_of', 'any_of', 'none_of') and len(A) == 3:
                r = self.quantified(fr, S, e, nm, c, a0, a1, A)
                if r is not None: return r
            if nm in self.READS or nm == 'for_each':
                return self.set(fr, S, e, self.fresh_val(S, t, ('alg', fr.fid, e)) if self.kind(t) in ('int', 'uint', 'real', 'bool') else None)
        if nm in ('copy_n', 'fill_n', 'generate_n') and its:
            k = self.num_of(fr, S, A[1])
            c = self.canon(S, its[0][1])
            if k is not None:
                self.oblige(S, fr, e, [sub(self.size(S, c), add(its[0][2], k))], 'the range of std::%s fits' % nm)
                if nm == 'copy_n':
                    o = self.itval(fr, S, A[2])
                    if o is not None:
                        self.oblige(S, fr, e, [sub(self.size(S, o[1]), add(o[2], k))], 'the output range of std::copy_n is long enough')
                        return self.mapped(fr, S, e, n, 'copy', c, its[0][2], add(its[0][2], k), None, o, A)
                    return self.set(fr, S, e, None)
                return self.fill(fr, S, e, n, nm[:-2], c, its[0][2], add(its[0][2], k), A[2])
        if nm in ('back_inserter', 'inserter', 'front_inserter'): return self.set(fr, S, e, None)
        if its and nm not in self.READS:
            # an algorithm nobody described: whatever it may write is unknown
            for it in its: self.wipe(S, it[1], (fr, e))
        return None if nm in ('invoke', '__invoke') or n.get('op') == '()' else self.unknown(fr, S, e, n)

    def wipe(self, S, c, at):
        c = self.canon(S, c)
        S.el.pop(c, None); self.forget_elems(S, c)
        if self.gene_template(S, c) is not None: self.gene(S, c, False, at, None)
        S.cont[c] = (frozenset(), frozenset(), ZERO)

    def common_bounds(self, S, x, y, nm):
        """expressions that bound both operands"""
        out = []
        for c in list(S.cons):
            for z in (x,):
                for s, k in z[0]:
                    d = dict(c[0])
                    if s in d:
                        # c: k*s + rest >= 0
                        b = None
                        if nm == 'max' and d[s] == -1 and k == 1: b = add(c, sym(s))       # s <= b
                        if nm == 'min' and d[s] == 1 and k == 1: b = neg(sub(c, sym(s)))    # s >= b
                        if b is not None and len(z[0]) == 1:
                            b = plus(b, z[1])
                            if S.has(sub(b, y) if nm == 'max' else sub(y, b)): out.append(b)
        return out

    def visited(self, fr, S, e, c, a0, a1, A):
        """the callable A[2] applied to one element of the range -> [(state, value)] or None"""
        k = ('i', 'each', fr.fid, e)
        self.rename_out(S, k); kk = sym(k)
        T = S.copy(); T.learn(sub(kk, a0)).learn(plus(sub(a1, kk), -1))
        src = (c[0], c[1] + (('[]', kk),))
        r = self.call_value(fr, T, e, A[2], [('lref', src)])
        return r

    def quantified(self, fr, S, e, nm, c, a0, a1, A):
        """all_of, any_of and none_of: decided when the predicate has one outcome for every element"""
        vs = self.visited(fr, S.copy(), e, c, a0, a1, A)
        if vs is None: return None
        def always(want):
            for s, v in vs:
                if v is None: return False
                if v[0] == 'b':
                    cs = self.conjuncts(v[1], want)
                    if cs is not None and all(s.has(x) for x in cs): continue
                    if self.assume_b(s.copy(), v[1], not want) is not None: return False
                elif v[0] == 'n':
                    if not (s.has(plus(v[1], -1)) if want else s.has(neg(v[1]))): return False
                else: return False
            return True
        want = nm == 'all_of'
        known = always(want)
        if nm == 'any_of' and not known: return None
        f = fr.f
        if f.E[e].get('mac') == 'GAPP_ASSERT' and fr.up is not None and nm != 'any_of':
            what = 'the precondition stated in the code holds'
            self.verdict(S, fr, e, known, what)
        if not known: return None
        if nm == 'any_of': return self.set(fr, S, e, ('n', num(0)))
        return self.set(fr, S, e, ('n', num(1)))

    def each(self, fr, S, e, c, a0, a1, A):
        """for_each: the callable runs for an unknown number of elements"""
        J = S.copy(); tag = ('fe', fr.fid, e)
        for i in range(14):
            vs = self.visited(fr, J.copy(), e, c, a0, a1, A)
            if vs is None: raise TooMany('for_each in ' + fr.f.key)
            N = J.copy()
            for s, v in vs: N = self.join(N, s, tag, i > 3)
            if self.same(N, J): return self.set(fr, N, e, None)
            J = N
        raise TooMany('no fixpoint in ' + fr.f.key)

    def element_type(self, fr, e): return 'double'

    def put_each(self, fr, S, e, c, a0, a1, k, v):
        """elements a0..a1 of c become v, a value described in terms of the symbol k, the index of the element"""
        c = self.canon(S, c)
        self.flush(S, c)
        ts = self.templates_of(S, v, sym(k)) if isnum(v) else frozenset()
        self.forget_elems(S, c)
        own = self.gene_template(S, c)
        if own is not None and c not in S.cont:
            ok = isnum(v) and all(S.has(self.inst(t, v[1], sym(k))) for t in own)
            self.gene(S, c, ok, (fr, e), v)
            if ok: return
        if S.eq(a0, ZERO) and S.has(sub(a1, self.size(S, c))): S.cont[c] = (ts, ts, ZERO)
        else:
            cc = self.content(S, c)
            t0, t1, lf = cc
            if t0 is not None and (t1 is None or t0 != t1) and S.eq(a0, lf):
                S.cont[c] = (t0, ts if t1 is None else frozenset(t for t in t1 if self.t_implied(S, c, ts, t)), a1)
            else:
                old = self.const_templates(cc)
                both = frozenset(t for t in (old | ts) if self.t_implied(S, c, old, t) and self.t_implied(S, c, ts, t))
                S.cont[c] = (both, both, ZERO)
        self.adopt(S, c)

    def fill(self, fr, S, e, n, nm, c, a0, a1, arg):
        k = ('i', 'each', fr.fid, e)
        self.rename_out(S, k)
        kk = sym(k)
        out = []
        if nm == 'fill':
            v = self.val(fr, S, arg)
            if v is not None and v[0] == 'b': v = ('n', self.to_num(fr, S, v, e))
            self.put_each(fr, S, e, c, a0, a1, k, v)
            return self.set(fr, S, e, None)
        if nm == 'iota':
            x = self.num_of(fr, S, arg)
            S.learn(sub(kk, a0)).learn(plus(sub(a1, kk), -1))
            self.put_each(fr, S, e, c, a0, a1, k, ('n', add(x, sub(kk, a0))) if x is not None else None)
            return self.set(fr, S, e, None)
        # generate: one representative call; an empty range calls nothing
        T = S.copy(); T.learn(sub(kk, a0)).learn(plus(sub(a1, kk), -1))
        vs = self.call_value(fr, T, e, arg, [])
        if vs is None: vs = [(T, None)]
        for s, v in vs:
            if v is not None and v[0] == 'b': v = ('n', self.to_num(fr, s, v, e))
            self.put_each(fr, s, e, c, a0, a1, k, v)
            out += self.set(fr, s, e, None)
        return [self.join_all(out, ('fl', fr.fid, e))]

    def join_all(self, ss, tag):
        r = ss[0]
        for s in ss[1:]: r = self.join(r, s, tag)
        return r

    def call_value(self, fr, S, e, fexpr, argvals):
        """interpret the callable fexpr once with the given argument values -> [(state, value)]"""
        f = fr.f
        v = self.val(fr, S, fexpr)
        if v is None or v[0] not in ('lam', 'fn'):
            p = self.lv(fr, S, fexpr)
            if p is not None: v = S.env.get(self.deref_path(S, p), v)
        if v is None: return None
        if v[0] == 'fn':
            nm = (v[1] or '').split('(')[0]
            r = self.random_fn(fr, S, e, nm)
            if r is not None: return r
            g = self.P.funcs.get(v[1]); env = None
        elif v[0] == 'lam':
            gs = [self.P.funcs[k] for k in v[1] if k in self.P.funcs and self.P.funcs[k].blocks and len(self.P.funcs[k].params) == len(argvals)]
            g = gs[0] if gs else None; env = (v[3], v[2])
        else: return None
        if g is None or not g.blocks or self.recursive(fr, g): return None
        fid = (fr.fid, ('cv', e))
        nf = Frame(g, fid, self.thispath(env[0]) if env and env[0] is not None else None, None, fr, env)
        for i, pv in enumerate(g.params):
            p = (('P', fid, i), ()); self.kill(S, p)
            a = argvals[i]
            if a is None: continue
            if a[0] == 'lref':
                if g.vtype(pv).get('ref'): S.env[p] = ('at', a[1])
                else:
                    x = self.read(S, a[1], self.ts(g.V[pv]['t']))
                    if x is not None and x[0] != 'at': S.env[p] = x
            else: S.env[p] = a
        outs = self.run(nf, S)
        for s, v in outs: self.drop_frame(s, fid, keep=v)
        return outs

    def random_fn(self, fr, S, e, nm):
        if nm.startswith('gapp::rng::randomBool'):
            return [(S, ('n', self.fresh(S, 'bool', ('rb', fr.fid, e))))]
        return None

    def mapped(self, fr, S, e, n, nm, c, a0, a1, second, out, A):
        k = ('i', 'each', fr.fid, e)
        self.rename_out(S, k); kk = sym(k)
        oc = self.canon(S, out[1])
        T = S.copy(); T.learn(sub(kk, out[2])).learn(plus(sub(add(out[2], sub(a1, a0)), kk), -1))
        src = (c[0], c[1] + (('[]', add(a0, sub(kk, out[2]))),))
        vs = None
        if nm in ('copy', 'move'):
            s = self.pointee(fr, A[0])
            v = self.read(T, src, s); vs = [(T, v if isnum(v) else None)]
        elif nm == 'transform':
            av = [('lref', src)]
            if second is not None: av.append(('lref', (second[1][0], second[1][1] + (('[]', add(second[2], sub(kk, out[2]))),))))
            fx = A[4] if second is not None and len(A) > 4 else A[3] if len(A) > 3 else None
            if fx is not None: vs = self.call_value(fr, T, e, fx, av)
        if vs is None: vs = [(T, None)]
        res = []
        end = add(out[2], sub(a1, a0))
        for s, v in vs:
            if v is not None and v[0] == 'b': v = ('n', self.to_num(fr, s, v, e))
            self.put_each(fr, s, e, oc, out[2], end, k, v)
            res += self.set(fr, s, e, ('it', out[1], end))
        return [self.join_all(res, ('mp', fr.fid, e))]

    def pointee(self, fr, a):
        t = self.ts(fr.f.E[self.strip(fr.f, a)].get('t', -1))
        if t.endswith('*'): return bare(t[:-1])
        if '__normal_iterator<' in t: return bare(t.split('__normal_iterator<', 1)[1].split('*')[0])
        return 'double'

    def swap_ranges(self, fr, S, e, c, a0, a1, other):
        k = ('i', 'each', fr.fid, e)
        self.rename_out(S, k); kk = sym(k)
        T = S.copy(); T.learn(sub(kk, a0)).learn(plus(sub(a1, kk), -1))
        s = self.pointee(fr, fr.f.E[e]['args'][0])
        j = add(other[2], sub(kk, a0)); oc = self.canon(T, other[1])
        x = self.elem_read(T, c, kk, s); y = self.elem_read(T, oc, j, s)
        T.learn(ZERO)
        T.vals[('#a',)] = x if isnum(x) else ('?', 'sr')
        self.elem_write(T, c, kk, y if isnum(y) else ('?', 'sr'), (fr, e))
        self.elem_write(T, oc, j, T.vals.pop(('#a',)), (fr, e))
        self.flush(T, c); self.flush(T, oc)
        return self.set(fr, T, e, None)

    # contracts of the library's own random numbers
    def random(self, fr, S, e, n, nm, A, t):
        f = fr.f
        k = self.kind(t)
        tag = (nm, fr.fid, e)
        A = [a for a in A if f.E[a] and f.E[a]['k'] != 'defarg'] if nm not in ('randomNormal',) else A
        if nm == 'randomInt' and len(A) == 2:
            lo, hi = self.num_of(fr, S, A[0]), self.num_of(fr, S, A[1])
            lo = self.conv_num(fr, S, lo, t, (e, 0)); hi = self.conv_num(fr, S, hi, t, (e, 1))
            self.oblige(S, fr, e, [sub(hi, lo)], 'rng::randomInt is given a lower bound that is not above the upper bound')
            r = self.fresh(S, k, tag); S.learn(sub(r, lo)).learn(sub(hi, r))
            return self.set(fr, S, e, ('n', r))
        if nm == 'randomReal':
            r = self.fresh(S, 'real', tag)
            if len(A) == 2:
                lo, hi = self.num_of(fr, S, A[0]), self.num_of(fr, S, A[1])
                if lo is not None and hi is not None:
                    if self.exact_order(lo, hi): self.oblige(S, fr, e, [sub(hi, lo)], 'rng::randomReal is given a lower bound that is not above the upper bound')
                    S.learn(sub(r, lo)).learn(sub(hi, r))
            else: S.learn(r).learn(sub(num(1), r))
            return self.set(fr, S, e, ('n', r))
        if nm == 'randomBool': return self.set(fr, S, e, ('n', self.fresh(S, 'bool', tag)))
        if nm == 'randomBinomial' and len(A) == 2:
            x, p = self.num_of(fr, S, A[0]), self.num_of(fr, S, A[1])
            if x is None: return None
            conds = [x] + ([p, sub(num(1), p)] if p is not None else [])
            self.oblige(S, fr, e, conds, 'rng::randomBinomial is given a number of trials and a probability')
            r = self.fresh(S, k, tag); S.learn(r).learn(sub(x, r))
            return self.set(fr, S, e, ('n', r))
        if nm == 'sampleUnique' and len(A) == 3:
            lo, hi, cnt = (self.num_of(fr, S, a) for a in A)
            if lo is None or hi is None or cnt is None: return None
            self.oblige(S, fr, e, [sub(hi, lo), cnt, sub(sub(hi, lo), cnt)], 'rng::sampleUnique is asked for no more numbers than the range has')
            p = (('T', fr.fid, e), ()); self.kill(S, p); S.size[p] = cnt
            x = sym(XI); ts = frozenset({sub(x, lo), plus(sub(hi, x), -1)})
            S.cont[p] = (ts, ts, ZERO); self.forget_elems(S, p)
            return self.set(fr, S, e, ('at', p))
        if nm == 'randomIndex' and len(A) == 1:
            p = self.lv(fr, S, A[0])
            if p is None: return None
            sz = self.range_size(fr, S, self.deref_path(S, p), A[0])
            if sz is None: return None
            self.oblige(S, fr, e, [plus(sz, -1)], 'rng::randomIndex is given a range with elements')
            r = self.fresh(S, 'uint', tag); S.learn(plus(sub(sz, r), -1))
            return self.set(fr, S, e, ('n', r))
        if nm == 'randomElement' and len(A) == 2:
            a, b = self.itval(fr, S, A[0]), self.itval(fr, S, A[1])
            if a is None or b is None or self.canon(S, a[1]) != self.canon(S, b[1]): return None
            self.oblige(S, fr, e, [plus(sub(b[2], a[2]), -1)], 'rng::randomElement is given a range with elements')
            r = self.fresh(S, 'int', tag); S.learn(sub(r, a[2])).learn(plus(sub(b[2], r), -1))
            return self.set(fr, S, e, ('it', a[1], r))
        if nm == 'sampleCdf' and len(A) == 1:
            p = self.lv(fr, S, A[0])
            if p is None: return None
            sz = self.size(S, self.deref_path(S, p))
            r = self.fresh(S, 'uint', tag); S.learn(plus(sub(sz, r), -1))
            return self.set(fr, S, e, ('n', r))
        if nm in ('randomNormal', 'randomPoisson'):
            r = self.fresh(S, k, tag); return self.set(fr, S, e, ('n', r))
        return None

    def exact_order(self, lo, hi): return len(lo[0]) <= 1 and len(hi[0]) <= 1 and all(s[1] in ('LO', 'HI') for s, k in lo[0] + hi[0])

    def range_size(self, fr, S, p, a): return self.size(S, p)

    def conv_num(self, fr, S, x, t, e):
        if x is None: return self.fresh(S, self.kind(t), ('cn', fr.fid, e))
        v = self.convert(fr, S, ('n', x), t, e)
        return v[1] if isnum(v) else x

    def library2(self, fr, S, e, n, qn, nm, A, t): return None

    # ---------------------------------------------------------------- constructors
    def ctor(self, fr, S, e, n):
        f = fr.f; P = self.P; rec = n.get('rec') or n.get('cls') or self.ts(n.get('t', -1))
        s = self.ts(n.get('t', -1)) or rec
        args = [a for a in n.get('args', []) if a is not None and a >= 0]
        real = [a for a in args if f.E[a] and f.E[a]['k'] != 'defarg']
        p = (('T', fr.fid, e), ())
        if n.get('copy') or n.get('move'):
            v = self.val(fr, S, args[0]) if args else None
            if v is not None and v[0] in ('it', 'n', 'tup', 'lam', 'bnd', 'b'): return self.set(fr, S, e, v)
            q = self.lv(fr, S, args[0]) if args else None
            if q is not None:
                q = self.deref_path(S, q)
                w = S.env.get(q)
                if w is not None and w[0] in ('it', 'tup', 'lam', 'bnd'): return self.set(fr, S, e, w)
                if w is None and self.kind(s) == 'bnd': return self.set(fr, S, e, self.read(S, q, s))
                self.copy_typed(S, q, p, s)
                return self.set(fr, S, e, ('at', p))
            self.kill(S, p); return self.set(fr, S, e, ('at', p))
        k = self.kind(s)
        if k == 'bval':
            v = self.val(fr, S, real[0]) if real else None
            return self.set(fr, S, e, v if isnum(v) else self.fresh_val(S, s, ('bc', fr.fid, e)))
        if k == 'cont':
            self.kill(S, p); self.forget_elems(S, p)
            if s.startswith('std::span<'):
                if len(real) == 1:
                    q = self.lv(fr, S, real[0])
                    if q is not None: return self.set(fr, S, e, ('at', self.deref_path(S, q)))
                return self.set(fr, S, e, ('at', p))
            if not real:
                S.size[p] = ZERO; S.cont[p] = (None, None, ZERO)
                return self.set(fr, S, e, ('at', p))
            its = [self.itval(fr, S, a) for a in real[:2]]
            if len(real) >= 2 and its[0] is not None and its[1] is not None and self.canon(S, its[0][1]) == self.canon(S, its[1][1]):
                self.oblige(S, fr, e, [sub(its[1][2], its[0][2])], 'the range a container is made from is ordered')
                S.size[p] = sub(its[1][2], its[0][2]); S.cont[p] = (frozenset(), frozenset(), ZERO)
                return self.set(fr, S, e, ('at', p))
            v0 = self.val(fr, S, real[0])
            if v0 is not None and v0[0] in ('tup',):       # initializer list
                S.size[p] = num(len(v0[1])); S.cont[p] = (None, None, ZERO)
                for i, x in enumerate(v0[1]): self.elem_write(S, p, num(i), x, (fr, e)); 
                self.flush(S, p)
                return self.set(fr, S, e, ('at', p))
            x = self.to_num(fr, S, v0, (e, 's'))
            if x is not None and len(real) <= 2:
                if 'initializer_list' in (n.get('fn') or '').split('(')[-1]:
                    S.size[p] = num(1); S.cont[p] = (frozenset(), frozenset(), ZERO)
                    return self.set(fr, S, e, ('at', p))
                S.size[p] = x
                v = self.val(fr, S, real[1]) if len(real) == 2 else ('n', ZERO)
                ts = frozenset()
                if isnum(v) and is_const(v[1]):
                    xi = 'i' if not self.real_elems(s) else 'r'
                    xx = sym((xi, 'X')); ts = frozenset({plus(xx, -v[1][1]), add(num(v[1][1]), neg(xx))})
                S.cont[p] = (ts, None, ZERO)
                return self.set(fr, S, e, ('at', p))
            S.cont[p] = (frozenset(), frozenset(), ZERO)
            return self.set(fr, S, e, ('at', p))
        v = self.ctor_special(fr, S, e, n, rec, s, real, p)
        if v is not None: return v
        if rec.startswith(('std::tuple<', 'std::pair<')):
            vs = tuple(self.val(fr, S, a) or ('?', 'tp') for a in real)
            if len(vs) == 1 and vs[0][0] == 'tup': return self.set(fr, S, e, vs[0])
            if any(x[0] == 'at' for x in vs):
                self.kill(S, p)
                for i, (x, a) in enumerate(zip(vs, real)):
                    self.store_arg(fr, S, (p[0], p[1] + (('first', 'second')[i] if rec.startswith('std::pair') else '#%d' % i,)), a, x)
                return self.set(fr, S, e, ('at', p))
            return self.set(fr, S, e, ('tup', vs))
        if 'iterator' in rec and len(real) == 1:
            it = self.itval(fr, S, real[0])
            if it is not None: return self.set(fr, S, e, it)
        g = P.funcs.get(n.get('fn'))
        if g is not None and g.blocks and P.is_repo(g) and fr.depth < self.max_depth and not self.recursive(fr, g) and self.descend(g):
            self.kill(S, p)
            fid = (fr.fid, e)
            nf = Frame(g, fid, p, None, fr, None)
            for i, pv in enumerate(g.params):
                q = (('P', fid, i), ()); self.kill(S, q)
                if i < len(args): self.bind(fr, S, q, args[i], g.vtype(pv))
            out = []
            for s2, v in self.run(nf, S):
                out += self.set(fr, s2, e, ('at', p)); self.drop_frame(s2, fid)
            return out
        self.kill(S, p)
        return self.set(fr, S, e, ('at', p))

    def real_elems(self, s): return s.split('<', 1)[1].lstrip().startswith(('double', 'float')) if '<' in s else False

    def ctor_special(self, fr, S, e, n, rec, s, real, p): return None
