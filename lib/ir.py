"""Program model over the extracted facts: functions with CFGs and resolved expression trees."""
import re
from collections import defaultdict


class Func:
    __slots__ = ('d', 'key', 'qn', 'name', 'cls', 'tmpl', 'file', 'l', 'E', 'V', 'params', 'blocks', 'entry', 'exit',
                 'P', '_parents', '_live', '_tryof', 'kind', 'parent', '_order', 'el')

    def __init__(self, d, P):
        self.d = d; self.P = P
        self.key = d['key']; self.qn = d['qn']; self.name = d['name']
        self.cls = d.get('cls'); self.tmpl = d.get('tmpl')
        self.file = P.files[d['file']]; self.l = d['l']; self.el = d['el']
        self.E = d['E']; self.V = d['V']; self.params = d['params']
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        self.entry = d.get('entry'); self.exit = d.get('exit')
        self.parent = d.get('parent')
        self._parents = None; self._live = None; self._tryof = None; self._order = None

    def __repr__(self): return '<F %s>' % self.key
    def get(self, k, dflt=None): return self.d.get(k, dflt)

    @property
    def sfile(self): return self.file.split('/src/', 1)[-1] if '/src/' in self.file else self.file.rsplit('/', 1)[-1]

    def loc(self, eid=None):
        if eid is None: return '%s:%d' % (self.sfile, self.l)
        n = self.E[eid] if isinstance(eid, int) else eid
        return '%s:%d' % (self.sfile, n.get('l') or self.l)

    def type(self, n):
        """type record of an expression id / node / variable id tuple"""
        if isinstance(n, int): n = self.E[n]
        t = n.get('t', -1)
        return self.P.types[t] if t is not None and t >= 0 else {}

    def vtype(self, vid): return self.P.types[self.V[vid]['t']] if self.V[vid].get('t', -1) >= 0 else {}

    def children(self, n):
        """ids of the direct sub-expressions"""
        if isinstance(n, int): n = self.E[n]
        r = []
        k = n['k']
        for f in ('obj', 'ind', 'sobj', 'b', 'a', 'c', 'e', 'init', 'pseudo'):
            v = n.get(f)
            if isinstance(v, int) and not isinstance(v, bool) and v >= 0: r.append(v)
        r += [x for x in n.get('args', []) if isinstance(x, int) and x >= 0]
        if k == 'decl': r += [v['init'] for v in n['vars'] if 'init' in v]
        if k == 'lambda': r += [c['init'] for c in n['caps'] if 'init' in c]
        return r

    def subtree(self, eid, into=None):
        seen = set() if into is None else into
        st = [eid]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += self.children(x)
        return seen

    def elems(self):
        """(block id, index, element) in block order"""
        for b in self.order():
            for i, e in enumerate(self.blocks[b]['e']): yield b, i, e

    def order(self):
        """blocks in reverse post order from entry (reachable only)"""
        if self._order is None:
            seen, out = set(), []
            st = [(self.entry, iter([s for s in self.blocks[self.entry]['s'] if s >= 0]))] if self.entry is not None and self.blocks else []
            seen.add(self.entry)
            extra = [b['id'] for b in self.blocks.values() if 'catch' in b]
            def dfs(root):
                st = [(root, iter([s for s in self.blocks[root]['s'] if s >= 0]))]
                while st:
                    b, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s); st.append((s, iter([x for x in self.blocks[s]['s'] if x >= 0]))); break
                    else:
                        out.append(b); st.pop()
            catches = []
            if self.blocks:
                for c in extra:
                    if c not in seen:
                        seen.add(c); dfs(c)
                o1 = out[:]; out.clear()
                dfs(self.entry)
                out2 = out[:]; out.clear(); out.extend(o1 + out2)
            self._order = list(reversed(out))
        return self._order

    def preds(self):
        p = defaultdict(list)
        for b in self.blocks.values():
            for s in b['s']:
                if s >= 0: p[s].append(b['id'])
        return p

    def parents(self):
        if self._parents is None:
            p = defaultdict(list)
            for i, n in enumerate(self.E):
                if n:
                    for c in self.children(n): p[c].append(i)
            self._parents = p
        return self._parents

    def decl_init(self):
        """var id -> (init eid or None, decl eid)"""
        m = {}
        for i, n in enumerate(self.E):
            if n and n['k'] == 'decl':
                for v in n['vars']: m[v['v']] = (v.get('init'), i)
        return m

    def tries(self):
        """eid -> list of try indices (innermost first, by body size)"""
        if self._tryof is None:
            m = defaultdict(list)
            ts = self.d.get('tries', [])
            for ix in sorted(range(len(ts)), key=lambda i: len(ts[i]['body'])):
                for e in ts[ix]['body']: m[e].append(ix)
            self._tryof = m
        return self._tryof

    # -- printing
    def show(self, eid, depth=0):
        if eid is None or (isinstance(eid, int) and eid < 0): return ''
        n = self.E[eid] if isinstance(eid, int) else eid
        if n is None: return '?'
        if depth > 7: return '…'
        s = lambda x: self.show(x, depth + 1)
        k = n['k']
        if k == 'var': return self.V[n['v']]['name'] or '_'
        if k == 'lit': return n['v']
        if k == 'str': return '"%s"' % n['v'][:30]
        if k == 'enum': return n['name'].rsplit('::', 1)[-1]
        if k == 'this': return 'this'
        if k == 'field':
            b = s(n['b'])
            if b == 'this': return n['name']
            return b + ('->' if n.get('arrow') else '.') + n['name'] if n['name'] else b
        if k == 'call':
            a = ', '.join(s(x) for x in n.get('args', []) if self.E[x] and self.E[x]['k'] != 'defarg')
            if 'op' in n and 'obj' in n:
                if n['op'] == '[]': return '%s[%s]' % (s(n['obj']), a)
                if n['op'] == '()': return '%s(%s)' % (s(n['obj']), a)
                if n['op'] in ('*', '->', '!', '++', '--') and not n.get('args'): return (n['op'] if n['op'] != '->' else '') + s(n['obj'])
                return '%s %s %s' % (s(n['obj']), n['op'], a)
            if 'op' in n and len(n.get('args', [])) == 2: return '%s %s %s' % (s(n['args'][0]), n['op'], s(n['args'][1]))
            if 'obj' in n:
                o = s(n['obj'])
                return ('' if o == 'this' else o + ('->' if n.get('arrow') else '.')) + n.get('qn', '?').rsplit('::', 1)[-1] + '(' + a + ')'
            if 'ind' in n: return s(n['ind']) + '(' + a + ')'
            return n.get('qn', '?').replace('gapp::', '').replace('detail::', '') + '(' + a + ')'
        if k == 'ctor':
            a = ', '.join(s(x) for x in n.get('args', []) if self.E[x] and self.E[x]['k'] != 'defarg')
            if (n.get('copy') or n.get('move') or n.get('elide')) and len(n['args']) == 1: return a
            return short(n.get('rec', '?')) + '{' + a + '}'
        if k in ('assign', 'bin'): return '%s %s %s' % (s(n['a']), n['op'], s(n['b']))
        if k == 'un': return s(n['a']) + n['op'] if n.get('post') else n['op'] + s(n['a'])
        if k == 'cond': return '%s ? %s : %s' % (s(n['c']), s(n['a']), s(n['b']))
        if k == 'sub': return '%s[%s]' % (s(n['a']), s(n['b']))
        if k == 'cast': return s(n['e'])
        if k in ('wrap', 'defarg', 'definit'): return s(n.get('e', -1))
        if k == 'ilist': return '{' + ', '.join(s(x) for x in n['args']) + '}'
        if k == 'lambda': return '[lambda@%d]' % n['l']
        if k == 'ret': return 'return ' + s(n.get('e', -1))
        if k == 'throw': return 'throw ' + s(n.get('e', -1))
        if k == 'decl': return '; '.join((self.V[v['v']]['name'] or '_') + (' = ' + s(v['init']) if 'init' in v else '') for v in n['vars'])
        if k == 'new': return 'new(%s)' % ', '.join(s(x) for x in n['args'])
        if k == 'delete': return 'delete ' + s(n['a'])
        if k in ('fnref', 'mref'): return n.get('qn', '?').rsplit('::', 1)[-1]
        if k == 'zero': return '{}'
        return k + '(' + ','.join(s(c) for c in self.children(n)) + ')'


def short(name):
    name = re.sub(r'\b(gapp|detail|std|dtl)::', '', name)
    return name if len(name) < 60 else name[:57] + '...'


class Program:
    def __init__(self, facts):
        self.files = facts['files']; self.types = facts['types']; self.globals = facts['globals']
        self.records = {r['name']: r for r in facts['records']}
        self.unused_templates = facts['unused_templates']
        self.funcs = {}
        for d in facts['functions']: self.funcs[d['key']] = Func(d, self)
        # overriders
        self.overriders = defaultdict(set)
        self.mdecl = {}
        for r in facts['records']:
            for m in r['methods']:
                self.mdecl[m['key']] = (r, m)
                for o in m.get('over', []): self.overriders[o].add(m['key'])
        self.by_name = defaultdict(list)
        for f in self.funcs.values(): self.by_name[f.name].append(f)
        self.by_cls = defaultdict(list)
        for f in self.funcs.values():
            if f.cls: self.by_cls[f.cls].append(f)
        # lambda bodies by parent
        self.lambda_children = defaultdict(list)
        for f in self.funcs.values():
            if f.parent: self.lambda_children[f.parent].append(f)
        self._bases = {}
        self.derived = defaultdict(set)
        for r in facts['records']:
            for b in self.all_bases(r['name']): self.derived[b].add(r['name'])

    def is_repo(self, f):
        """defined in the library (not in the instantiation file)"""
        return '/src/' in f.file and not f.file.endswith('inst.inc')

    def lib_funcs(self):
        return [f for f in self.funcs.values() if self.is_repo(f)]

    def all_bases(self, rec):
        if rec in self._bases: return self._bases[rec]
        self._bases[rec] = []
        out = []
        r = self.records.get(rec)
        if r:
            for b in r['bases']:
                if b['name'] not in out: out.append(b['name'])
                for x in self.all_bases(b['name']):
                    if x not in out: out.append(x)
        self._bases[rec] = out
        return out

    def is_a(self, rec, base_pred):
        """base_pred: exact record name or template qualified name prefix 'x::Y<'"""
        for n in [rec] + self.all_bases(rec):
            if n == base_pred or n.split('<')[0] == base_pred: return True
        return False

    def subclasses(self, base, concrete=False):
        out = []
        for n, r in self.records.items():
            if n.split('<')[0] == base or self.is_a(n, base):
                if concrete and r.get('abstract'): continue
                out.append(n)
        return out

    def fields(self, rec, inherited=False):
        r = self.records.get(rec)
        if not r: return []
        out = [(rec, f) for f in r['fields']]
        if inherited:
            for b in self.all_bases(rec):
                out += [(b, f) for f in (self.records.get(b) or {'fields': []})['fields']]
        return out

    def T(self, i): return self.types[i] if i is not None and i >= 0 else {}

    # ---- analysis for one dynamic type of the object: virtual calls on `this` go to its final overriders
    ctx_cls = None

    def in_ctx(self, f):
        if not self.ctx_cls: return False
        g = f; i = 0
        while g is not None and g.parent and i < 10: g = self.funcs.get(g.parent); i += 1
        c = g.cls if g is not None else None
        return c is not None and (c == self.ctx_cls or c in self.all_bases(self.ctx_cls))

    def ctx_key(self, f): return (f.key, self.ctx_cls) if self.in_ctx(f) else f.key

    def final_overrider(self, cls, key):
        cands = {key} | set(self.overriders.get(key, ()))
        for c in [cls] + self.all_bases(cls):
            for f in self.by_cls.get(c, []):
                if f.key in cands: return f
            for m in self.records.get(c, {'methods': []})['methods']:
                if m['key'] in cands and m['key'] != key: return self.funcs.get(m['key'])
        return self.funcs.get(key)

    def callees(self, f, n):
        """repo functions a call / ctor node may run (virtual dispatch resolved over the analysed classes)"""
        k = n.get('fn')
        if not k: return []
        out = []
        if n.get('virt') and self.ctx_cls and isinstance(n.get('obj'), int) and f.E[n['obj']] and self.in_ctx(f):
            o = f.E[n['obj']]
            while o and o['k'] in ('cast', 'wrap') or (o and o['k'] == 'un' and o['op'] == '*'): o = f.E[o.get('e', o.get('a'))]
            if o and o['k'] == 'this':
                g = self.final_overrider(self.ctx_cls, k)
                return [g] if g else []
        if k in self.funcs: out.append(self.funcs[k])
        if n.get('virt'):
            for o in sorted(self.overriders.get(k, ())):
                if o in self.funcs: out.append(self.funcs[o])
        return out

    def lambda_of(self, f, eid, depth=0):
        """lambda call operators an argument expression denotes"""
        if depth > 6 or eid is None or eid < 0: return []
        n = f.E[eid]
        if n is None: return []
        if n['k'] == 'lambda': return [self.funcs[o] for o in n['ops'] if o in self.funcs]
        t = f.type(n)
        if t.get('lambda') and t['lambda'] in self.funcs: return [self.funcs[t['lambda']]]
        if n['k'] == 'ctor' and len(n.get('args', [])) >= 1: return self.lambda_of(f, n['args'][0], depth + 1)
        if n['k'] == 'call' and n.get('qn') in ('std::move', 'std::forward', 'std::ref', 'std::cref') and n['args']: return self.lambda_of(f, n['args'][0], depth + 1)
        if n['k'] == 'var':
            v = f.V[n['v']]
            di = f.decl_init().get(n['v'])
            if di and di[0] is not None: return self.lambda_of(f, di[0], depth + 1)
        if n['k'] == 'cast' or n['k'] == 'wrap': return self.lambda_of(f, n['e'], depth + 1) if 'e' in n else []
        return []
