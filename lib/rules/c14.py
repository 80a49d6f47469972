"""Arguments: the documented restrictions of every public function (closed intervals, lower bounds, `can't be a nullptr', relations between two
parameters) are read from the documentation of /repo's current headers; for each one the parameter's type must carry the restriction or the function must
not have a normal exit for an offending value (constant propagation through the function and everything it delegates to), and must have one for a
conforming value.  The bounded value types are decided by the compiler's constant evaluator (compile-time witnesses)."""
import re
from absint import AbsInt, Store, TooBig, const
from ir import short
import witness

RULE = ('a documented restriction of a parameter is enforced by the type of the parameter or by every path of the function; bounded types accept exactly '
        'their interval (NaN excluded)')
WRAPPED = ('gapp::crossover::Crossover', 'gapp::mutation::Mutation', 'gapp::selection::Selection', 'gapp::replacement::Replacement', 'gapp::stopping::StopCondition', 'gapp::FitnessFunctionBase')
NUM = r'(-?\d+(?:\.\d+)?)'
BOUND = re.compile(r'BoundedValue<.*Interval<[\w ]+>\{([-+.\de]+), ([-+.\de]+), (true|false), (true|false)\}>')


class Probe(AbsInt):
    exc = False
    max_depth = 8

    probes = ()

    def hook_descend(self, fr, S, e, n, g):
        if g.get('ctor') and 'BoundedValue<' not in (g.cls or '') and self.P.is_repo(g) and len(fr.fid) < 12: return True
        return any(self.carries(fr, S, a) for a in n.get('args', [])) or self.carries_obj(fr, S, n)

    def carries(self, fr, S, a):
        if a is None or a < 0: return False
        x = self.strip(fr.f, a)
        m = fr.f.E[x]
        if m and m['k'] == 'lit': return False
        v = self.value(fr, S, a)
        if v in self.probes: return True
        if v[0] == 'at': return self.snapshot(S, v[1]) in self.probes
        return any(self.carries(fr, S, b) for b in m.get('args', [])) if m and m['k'] in ('ctor', 'call') else False

    def carries_obj(self, fr, S, n): return False

    def hook_call(self, fr, S, e, n):
        if n['k'] == 'ctor' and 'BoundedValue<' in (fr.f.type(n).get('rec') or '') and len(n.get('args', [])) == 1 and not n.get('copy') and not n.get('move'):
            iv = interval(fr.f.type(n).get('rec'))
            v = self.value(fr, S, n['args'][0])
            if iv and v[0] == 'k' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
                lo, hi, li, ri = iv
                if v[1] < lo or v[1] > hi or (v[1] == lo and not li) or (v[1] == hi and not ri): return []
                return [('n', S, v)]
        if n['k'] != 'call': return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if 'obj' in n and nm.startswith('operator ') and 'BoundedValue<' in n.get('qn', '') + (n.get('cls') or ''):
            return [('n', S, self.value(fr, S, n['obj']))]
        if nm in ('size', 'empty') and 'obj' in n and len(n['args']) == 0:
            v = self.value(fr, S, n['obj'])
            if v[0] == 'ap' and v[1] in ('new:std::vector', 'new:gapp::small_vector') and v[2][0] == 'k' and isinstance(v[2][1], int):
                return [('n', S, v[2] if nm == 'size' else const(v[2][1] == 0))]
        if n.get('qn') == 'std::make_unique' and any(self.carries(fr, S, a) for a in n['args']):
            m = re.match(r'std::unique_ptr<(.*?)(?:, std::default_delete<.*)?>$', fr.f.type(n).get('rec') or '')
            rec = m.group(1) if m else None
            cs = [g for g in self.P.by_cls.get(rec, []) if g.get('ctor') and not g.get('copy') and not g.get('move') and g.blocks and len(g.params) == len(n['args'])]
            if len(cs) > 1:
                def ty(i, g): return (g.vtype(g.params[i]).get('rec') or '') == (fr.f.type(n['args'][i]).get('rec') or '')
                cs = [g for g in cs if all(ty(i, g) for i in range(len(g.params)))] or cs
            if cs and len(fr.fid) < 12:
                loc = (('N', fr.fid, e), ())
                outs = self.call_fn(cs[0], S, this=loc, args=self.args_of(fr, S, n, cs[0]), fid=(fr.fid, e), up=fr)
                return [(k, s, ('nn', (fr.fid, e))) for k, s, v in outs if k == 'n']
        return None


def interval(s):
    m = BOUND.search(s or '')
    return (float(m.group(1)), float(m.group(2)), m.group(3) == 'true', m.group(4) == 'true') if m else None


def doc_params(doc):
    doc = re.sub(r'\n\s*\*', ' ', doc.replace('*/', '').replace('/**', ''))
    for m in re.finditer(r'@param\s+(\w+)\s+(.*?)(?=@param\b|@return|@tparam|@throws|$)', doc, re.S):
        yield m.group(1), re.sub(r'\s+', ' ', m.group(2)).strip()


def restrictions(text):
    """[(kind, ...)] stated by the documentation of a parameter"""
    t = text.lower(); out = []
    m = re.search(r'must be in the closed (?:interval|range) \[%s, %s\]' % (NUM, NUM), t)
    if m: out.append(('in', float(m.group(1)), float(m.group(2))))
    m = re.search(r'must be in the closed (?:interval|range) \[%s, @p (\w+)\]' % NUM, t)
    if m: out.append(('ge', float(m.group(1)))); out.append(('le_param', m.group(2)))
    m = re.search(r'must be at least %s' % NUM, t)
    if m: out.append(('ge', float(m.group(1))))
    m = re.search(r'(?:greater than|>) %s' % NUM, t) if 'must' in t else None
    if m: out.append(('gt', float(m.group(1))))
    m = re.search(r'must be greater than @p (\w+)', t)
    if m: out.append(('ge_param', m.group(1)))
    if re.search(r'non-negative|can\'t be negative|cannot be negative', t): out.append(('ge', 0.0))
    if 'finite' in t: out.append(('finite',))
    if re.search(r"(can't|cannot|must not) be (a )?null", t): out.append(('notnull',))
    return out


def allowed_null(text): return bool(re.search(r"if it's a nullptr|allowed to be a null|may be (a )?null|can be (a )?null|nullptr is|default .* nullptr", text or '', re.I))


def enforced_by_type(t, r):
    iv = interval(t.get('rec') or t['s'])
    if not iv: return None
    lo, hi, li, ri = iv
    if r[0] == 'in': return lo >= r[1] and hi <= r[2]
    if r[0] == 'ge': return lo > r[1] or lo == r[1] or (lo == r[1] - 1 and not li and hi > 1e15 and 'long' in (t.get('rec') or ''))
    if r[0] == 'gt': return lo > r[1] or (lo == r[1] and not li)
    if r[0] == 'finite': return abs(lo) < 1e309 and abs(hi) < 1e309 and 'inf' not in str(hi)
    return None


def stricter(t, r):
    """the type refuses a documented value"""
    iv = interval(t.get('rec') or t['s'])
    if not iv: return False
    lo, hi, li, ri = iv
    integral = 'Interval<unsigned' in (t.get('rec') or '') or 'Interval<int' in (t.get('rec') or '') or 'Interval<long' in (t.get('rec') or '')
    if r[0] == 'in': return lo > r[1] or hi < r[2] or not li or not ri
    if r[0] == 'ge': return (lo > r[1] or (lo == r[1] and not li)) or hi < 1e15
    if r[0] == 'gt': return lo > r[1] + (1 if integral else 0) or hi < 1e15
    return False


def probe(cx, f, vals):
    """vals: {param index: value}; True = some normal exit, False = none, None = not decided"""
    A = Probe(cx); A.probes = tuple(v for v in vals.values())
    args = []
    for i, p in enumerate(f.params):
        v = vals.get(i)
        if v is None: args.append(None); continue
        if f.vtype(p).get('ref'):
            args.append(('ref', (('G', 'probe', i), ())))
        else: args.append(('val', v))
    S = Store()
    for i, v in vals.items():
        if f.vtype(f.params[i]).get('ref'): A.write(S, (('G', 'probe', i), ()), v)
    try: outs = A.call_fn(f, S, this=(('this',), ()), args=args)
    except TooBig: return None
    return any(k == 'n' for k, _, _ in outs)


def check(cx):
    P = cx.P
    wrapped_types = set()
    groups = {}
    for f in P.funcs.values():
        if not (P.is_repo(f) or 'verif_selftest' in f.qn) or f.get('implicit') or f.get('defaulted') or not f.blocks or f.get('inheriting'): continue
        names = [f.V[p]['name'] for p in f.params]
        for nm, text in doc_params(f.get('doc') or ''):
            rs = restrictions(text)
            if not rs: continue
            if nm in names: ix = names.index(nm)
            else:
                # the parameter was renamed in the definition: take the one at the documented position
                order = [a for a, _ in doc_params(f.get('doc'))]
                ix = order.index(nm) if len(order) == len(names) else (0 if len(names) == 1 else None)
                if ix is None: continue
            for r in rs: groups.setdefault((f.key, ix), (f, ix, []))[2].append((r, text))
        m = re.search(r'closed\s+(?:range|interval)\s+\[@p\s+(\w+),\s*@p\s+(\w+)\]', f.get('doc') or '')
        if m and len(names) == 2 and m.group(1) in names and m.group(2) in names and m.group(1) != m.group(2):
            ix = names.index(m.group(1))
            groups.setdefault((f.key, ix), (f, ix, []))[2].append((('le_param', m.group(2).lower()), 'closed range'))
        # wrappers of a callable
        if f.get('ctor') and len(f.params) >= 1 and f.cls and any(P.is_a(f.cls, b) or any(x.split('<')[0] == b for x in P.all_bases(f.cls)) for b in WRAPPED):
            t = f.vtype(f.params[0]).get('rec') or ''
            if t.startswith('std::function<') and len(f.params) == 1 and any((P.T(fd['t']).get('rec') or '') == t for c, fd in P.fields(f.cls, False)):
                wrapped_types.add(t)
                groups.setdefault((f.key, 0), (f, 0, []))[2].append((('notnull',), 'callable of a wrapper'))
    # every public function that takes such a callable
    for f in P.lib_funcs():
        if not P.is_repo(f) or not f.blocks or f.get('access') not in (None, 'public') or not f.cls or f.get('implicit') or f.get('inheriting'): continue
        if f.cls.startswith('std::') or 'anonymous' in f.qn: continue
        for i, p in enumerate(f.params):
            t = f.vtype(p).get('rec') or ''
            if t in wrapped_types and not any(nm == f.V[p]['name'] and allowed_null(tx) for nm, tx in doc_params(f.get('doc') or '')):
                g = groups.setdefault((f.key, i), (f, i, []))[2]
                if not any(r == ('notnull',) for r, _ in g): g.append((('notnull',), 'mandatory callable'))
    cx.anchor(len(groups) > 40, 'documented restrictions of arguments')
    nn = 0
    for (_, ix), (f, ix, rs) in sorted(groups.items(), key=lambda kv: kv[0]):
        t = f.vtype(f.params[ix]); pn = f.V[f.params[ix]]['name']
        where = '%s(%s)' % (short(f.qn), pn)
        done = set()
        for r, text in rs:
            if r in done: continue
            done.add(r); nn += 1
            cx.obligation('%s: %s' % (where, ' '.join(str(x) for x in r)))
            key = '%s|%s|%s' % (short(f.qn), pn, r[0])
            by = enforced_by_type(t, r)
            if r[0] in ('in', 'ge', 'gt', 'finite'):
                if by:
                    if stricter(t, r): cx.violation(key + '|strict', f.loc(), '%s: the type of the parameter refuses documented values (%s)' % (where, text[-70:]), func=f.qn)
                    continue
                if by is False:
                    cx.violation(key, f.loc(), '%s: the type of the parameter admits values outside the documented range (%s)' % (where, text[-70:]), func=f.qn); continue
                if r[0] == 'finite': continue
                bad = {'in': lambda: [r[1] - 1, r[2] + 1], 'ge': lambda: [r[1] - 1] if r[1] else [-1.0], 'gt': lambda: [r[1]]}[r[0]]()
                if 'unsigned' in t['s']: bad = [int(b) for b in bad if b >= 0]
                good = {'in': lambda: [r[1], r[2]], 'ge': lambda: [r[1]], 'gt': lambda: [r[1] + 1]}[r[0]]()
                real = 'double' in t['s'] or 'double' in (t.get('rec') or '')
                lo = r[1]; hi = r[2] if r[0] == 'in' else None
                more = [lo - 10 ** 6] + ([hi + 10 ** 6] if hi is not None else []) + ([lo - 1e-9, float('-inf')] + ([hi + 1e-9, float('inf')] if hi is not None else []) if real else [])
                more += [x for c in literals(f) for x in (c, c - 1, c + 1) if real or x == int(x)]
                bad += [b for b in more if (b < lo or (hi is not None and b > hi) or (r[0] == 'gt' and b == lo)) and not ('unsigned' in t['s'] and b < 0)]
                good += [x for c in literals(f) for x in (c, c - 1, c + 1) if (real or x == int(x)) and x > lo and (hi is None or x < hi)] + ([(lo + hi) / 2] if hi is not None and real else [])
                if 'unsigned' in t['s']: good = [int(b) for b in good]
                for b in bad:
                    res = probe(cx, f, {ix: const(b)})
                    if res is None: cx.undecided.append('%s %s' % (where, r)); continue
                    if res and not corrected(cx, f, ix): cx.violation(key, f.loc(), '%s: the value %s is accepted although the documentation excludes it (%s)' % (where, b, text[-70:]), func=f.qn)
                for b in good:
                    if probe(cx, f, {ix: const(b)}) is False: cx.violation(key + '|strict', f.loc(), '%s: the documented value %s is refused' % (where, b), func=f.qn)
            elif r[0] == 'notnull':
                res = probe(cx, f, {ix: const(None)})
                if res is None: cx.undecided.append('%s %s' % (where, r)); continue
                if res: cx.violation(key, f.loc(), '%s: a null argument is accepted without a check' % where, func=f.qn)
                if probe(cx, f, {ix: ('nn', ('arg', ix))}) is False: cx.violation(key + '|strict', f.loc(), '%s: every argument is refused' % where, func=f.qn)
            elif r[0] in ('le_param', 'ge_param'):
                names = [f.V[p]['name'].lower() for p in f.params]
                if r[1] not in names: continue
                j = names.index(r[1])
                lo, hi = (ix, j) if r[0] == 'le_param' else (j, ix)
                real = any('double' in (f.vtype(f.params[k]).get('s', '') + (f.vtype(f.params[k]).get('rec') or '')) for k in (lo, hi))
                pairs = [(2, 3), (0, 1), (10 ** 6, 10 ** 7)] + ([(0.125, 0.875), (1e-9, 2e-9), (0.0, 0.5)] if real else [])
                for c in [c for c in literals(f) if real or c == int(c)]: pairs += [(c, c + 1), (c - 1, c)] + ([(c - 0.25, c - 0.125), (c + 0.125, c + 0.25)] if real else []) if c >= 1 else []
                for a, b in pairs:
                    res = probe(cx, f, {lo: const(b), hi: const(a)})
                    if res is None: cx.undecided.append('%s %s' % (where, r)); break
                    if res: cx.violation(key, f.loc(), '%s: values in the wrong order relative to %s are accepted (%s, %s)' % (where, r[1], b, a), func=f.qn); break
                    if probe(cx, f, {lo: const(a), hi: const(b)}) is False: cx.violation(key + '|strict', f.loc(), '%s: values in the documented order are refused' % where, func=f.qn); break
                nan = float('nan')
                for a, b in [(nan, 1.0), (0.0, nan), (nan, nan)] if all(f.vtype(f.params[k]).get('s', '').replace('const', '').strip(' &') == 'double' for k in (lo, hi)) else []:
                    if probe(cx, f, {lo: const(a), hi: const(b)}): cx.violation(key + '|nan', f.loc(), '%s: a value that is not a number is accepted although the values must be in order (%s, %s)' % (where, a, b), func=f.qn); break
    witnesses(cx)
    cx.coverage['restrictions'] = nn
    cx.coverage['mandatory_callable_types'] = len(wrapped_types)
    cx.expect_selftest('verif_selftest::unchecked_argument')


def corrected(cx, f, ix):
    """the offending value is replaced by a legal one before it is used (documented lower bound via std::max / std::clamp)"""
    for n in f.E:
        if n and n['k'] == 'call' and n.get('qn') in ('std::max', 'std::clamp') and any(reads(f, a, f.params[ix]) for a in n['args']):
            others = [m for m in f.E if m and m['k'] == 'var' and m['v'] == f.params[ix]]
            inside = sum(1 for a in n['args'] for x in f.subtree(a) if f.E[x] and f.E[x]['k'] == 'var' and f.E[x]['v'] == f.params[ix])
            if inside == len(others): return True
    return False


def literals(f):
    """the numbers a function mentions: its behaviour can change there"""
    out = set()
    for n in f.E:
        if n and n['k'] == 'lit':
            try: v = float(n['v'])
            except ValueError: continue
            if v == v and abs(v) < 1e12: out.add(int(v) if v == int(v) else v)
    return sorted(out)[:12]


def reads(f, e, v): return any(f.E[x] and f.E[x]['k'] == 'var' and f.E[x]['v'] == v for x in f.subtree(e))


PRE = '''
namespace verif_w {
template<class B, class V> concept accepts = requires { typename std::bool_constant<(static_cast<void>(B(V::value)), true)>; };
#define VAL(name, type, v) struct name { static constexpr type value = v; };
VAL(d_m1, double, -0.1) VAL(d_mz, double, -0.0) VAL(d_0, double, 0.0) VAL(d_eps, double, 1e-300) VAL(d_half, double, 0.5) VAL(d_1, double, 1.0) VAL(d_1p, double, 1.0000001) VAL(d_big, double, 1e300)
VAL(d_max, double, std::numeric_limits<double>::max()) VAL(d_low, double, std::numeric_limits<double>::lowest())
VAL(d_inf, double, std::numeric_limits<double>::infinity()) VAL(d_minf, double, -std::numeric_limits<double>::infinity()) VAL(d_nan, double, std::numeric_limits<double>::quiet_NaN())
VAL(u_0, std::size_t, 0) VAL(u_1, std::size_t, 1) VAL(u_max, std::size_t, std::numeric_limits<std::size_t>::max())
VAL(i_m1, int, -1) VAL(i_0, int, 0) VAL(i_1, int, 1) VAL(i_2, int, 2) VAL(i_3, int, 3) VAL(i_4, int, 4) VAL(i_5, int, 5)
template<class T> using PosD = gapp::Positive<T>;
}
'''
TABLE = [
    ('Probability', 'gapp::Probability', 'd_mz d_0 d_eps d_half d_1', 'd_m1 d_1p d_big d_inf d_minf d_nan d_low'),
    ('Normalized', 'gapp::Normalized<double>', 'd_mz d_0 d_eps d_half d_1', 'd_m1 d_1p d_big d_inf d_minf d_nan d_low'),
    ('NonNegative', 'gapp::NonNegative<double>', 'd_0 d_mz d_eps d_half d_1 d_1p d_big d_max', 'd_m1 d_minf d_low d_inf d_nan'),
    ('Positive real', 'gapp::Positive<double>', 'd_eps d_half d_1 d_1p d_big d_max', 'd_0 d_mz d_m1 d_minf d_low d_inf d_nan'),
    ('Positive integer', 'gapp::Positive<std::size_t>', 'u_1 u_max', 'u_0'),
    ('NonNegative integer', 'gapp::NonNegative<int>', 'i_0 i_1', 'i_m1'),
    ('Negative', 'gapp::Negative<double>', 'd_m1 d_low', 'd_0 d_mz d_eps d_half d_minf d_inf d_nan'),
    ('BoundedValue', 'gapp::BoundedValue<int, 2, 4>', 'i_2 i_3 i_4', 'i_1 i_5 i_m1'),
]


def witnesses(cx):
    ws = []
    for nm, ty, good, bad in TABLE:
        for g in good.split(): ws.append(('%s accepts %s' % (nm, g), 'static_assert(verif_w::accepts<%s, verif_w::%s>);' % (ty, g)))
        for b in bad.split(): ws.append(('%s refuses %s' % (nm, b), 'static_assert(!verif_w::accepts<%s, verif_w::%s>);' % (ty, b)))
    for v in ('d_half', 'd_1', 'd_0'):
        ws.append(('Probability keeps %s' % v, 'static_assert(double(gapp::Probability(verif_w::%s::value)) == verif_w::%s::value);' % (v, v)))
    ws.append(('Bounds accepts', 'namespace verif_w { template<int L, int H> concept bnd = requires { typename std::bool_constant<(static_cast<void>(gapp::Bounds<gapp::IntegerGene>(L, H)), true)>; }; }\nstatic_assert(verif_w::bnd<1, 2> && verif_w::bnd<2, 2>);'))
    ws.append(('Bounds refuses', 'static_assert(!verif_w::bnd<3, 2>);'))
    res = witness.compile_witnesses(ws, witness.HEAD + PRE)
    und = 0
    for k, (ok, msg, kind) in res.items():
        cx.obligation('witness: ' + k)
        if ok: continue
        if kind == 'assert': cx.violation('witness|' + k, 'src/utility/bounded_value.hpp', 'bounded values: the compile-time witness `%s\' fails' % k, func='BoundedValue')
        else: und += 1; cx.undecided.append('witness %s: %s' % (k, msg[:80]))
    cx.anchor(und < len(res) / 2, 'bounded value types')
    cx.coverage['witnesses'] = len(res)
