"""Access paths and interprocedural mod/ref effects.

A path is (root, sels).  Roots: ('v', vid) local object, ('p', i) parameter, ('this',), ('g', gid) static
storage, ('o', name, line, col) variable of an enclosing function seen from a lambda, ('othis', key) the
enclosing function's this, ('t', eid) a fresh temporary.  Selectors: field names, '[]' element, '*' pointee.
"""
from collections import defaultdict

ELEM = {'operator[]', 'at', 'front', 'back', 'value', 'first_element'}
PTRLIKE = {'operator*', 'operator->', 'get'}
ITER = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'data', 'find', 'lower_bound', 'upper_bound', 'before_begin',
        'base', 'row_begin'}
# non-const library member functions that do not modify the object
NONMUT = ELEM | PTRLIKE | ITER | {'c_str', 'operator bool', 'load', 'native_handle', 'joinable', 'size', 'empty', 'count', 'contains', 'max_size', 'get_allocator', 'capacity'}
READ_ALGOS = {'std::find', 'std::find_if', 'std::find_if_not', 'std::all_of', 'std::any_of', 'std::none_of', 'std::count', 'std::count_if', 'std::equal', 'std::max_element',
              'std::min_element', 'std::minmax_element', 'std::accumulate', 'std::reduce', 'std::transform_reduce', 'std::inner_product', 'std::is_sorted', 'std::lower_bound', 'std::upper_bound', 'std::distance', 'std::next',
              'std::prev', 'std::begin', 'std::end', 'std::mismatch', 'std::search', 'std::lexicographical_compare', 'std::adjacent_find', 'std::includes',
              'std::binary_search', 'std::min', 'std::max', 'std::clamp', 'std::size', 'std::data', 'std::cbegin', 'std::cend', 'std::addressof', 'std::move', 'std::forward',
              'std::make_move_iterator', 'std::back_inserter', 'std::inserter', 'std::make_reverse_iterator', 'std::as_const', 'std::get', 'std::to_address', 'std::operator==', 'std::operator!=', 'std::operator-', 'std::operator<',
              'std::operator<=>', 'std::operator+', 'std::is_permutation', 'std::operator<=', 'std::operator>', 'std::operator>=', 'std::ranges::begin', 'std::ranges::end'}
# (algorithm -> indices of arguments that are written through)
WRITE_ALGOS = {'std::copy': [2], 'std::copy_n': [2], 'std::copy_if': [2], 'std::copy_backward': [2], 'std::move_backward': [2, 0], 'std::transform': [-2, -1, 2, 3], 'std::merge': [4],
               'std::set_union': [4], 'std::set_intersection': [4], 'std::set_difference': [4], 'std::unique_copy': [2], 'std::uninitialized_copy': [2],
               'std::uninitialized_move': [2], 'std::partial_sum': [2], 'std::exclusive_scan': [2], 'std::inclusive_scan': [2], 'std::adjacent_difference': [2], 'std::sample': [2], 'std::remove_copy': [2],
               'std::remove_copy_if': [2], 'std::reverse_copy': [2], 'std::rotate_copy': [3], 'std::replace_copy': [2]}
MOVEISH = {'std::move', 'std::forward', 'std::as_const', 'std::forward_like', 'std::ref', 'std::cref', 'std::__addressof', 'std::launder'}
ADDROF = {'std::addressof', 'std::__addressof', 'std::to_address', 'std::next', 'std::prev', 'std::make_move_iterator', 'std::back_inserter', 'std::inserter', 'std::make_reverse_iterator',
          'std::move_iterator', 'std::find', 'std::find_if', 'std::find_if_not', 'std::lower_bound', 'std::upper_bound', 'std::max_element', 'std::min_element', 'std::remove', 'std::remove_if', 'std::unique', 'std::partition',
          'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::data', 'std::stable_partition', 'std::rotate', 'std::adjacent_find', 'std::ranges::begin', 'std::ranges::end', 'std::find_first_of', 'std::search', 'std::copy', 'std::transform'}

MAXLEN = 6


class Paths:
    def __init__(self, P):
        self.P = P
        self._memo = {}
        self._ret = {}
        self._inits = {}
        self._assigns = {}

    def inits(self, f):
        if f.key not in self._inits:
            self._inits[f.key] = f.decl_init()
        return self._inits[f.key]

    def assigns(self, f):
        """var id -> rhs eids of plain assignments to the variable"""
        if f.key not in self._assigns:
            m = defaultdict(list)
            for n in f.E:
                if not n: continue
                if n['k'] == 'assign' and n['op'] == '=' and f.E[n['a']]['k'] == 'var': m[f.E[n['a']]['v']].append(n['b'])
                elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and f.E[n['obj']] and f.E[n['obj']]['k'] == 'var' and n['args']: m[f.E[n['obj']]['v']].append(n['args'][0])
            self._assigns[f.key] = m
        return self._assigns[f.key]

    def ext(self, ps, sel):
        out = set()
        for r, s in ps:
            if len(s) < MAXLEN: out.add((r, s + (sel,)))
            else: out.add((r, s))
        return out

    def path(self, f, eid):
        """set of paths the expression's value/object lives at"""
        k = (f.key, eid, 0)
        if k in self._memo: return self._memo[k]
        self._memo[k] = {(('t', eid), ())}
        r = self._path(f, eid)
        self._memo[k] = r
        return r

    def pointee(self, f, eid):
        """paths of what a pointer / iterator / smart pointer valued expression points to"""
        k = (f.key, eid, 1)
        if k in self._memo: return self._memo[k]
        self._memo[k] = {(('t', eid), ('*',))}
        r = self._pointee(f, eid)
        self._memo[k] = r
        return r

    def var_path(self, f, vid):
        v = f.V[vid]
        st = v['st']
        t = f.vtype(vid)
        if st == 'param': return {(('p', v['idx']), ())}
        if st == 'outer': return {(('o', v['name'], v['l'], v['c']), ())}
        if st in ('global', 'static', 'tls'):
            # a static / thread_local *reference* is still the static object
            return {(('g', v['g']), ())}
        if st == 'binding':
            if 'bind' in v and v['bind'] is not None and v['bind'] >= 0: 
                b = f.E[v['bind']]
                if b['k'] in ('field', 'sub', 'call'):
                    return self.path(f, v['bind'])
                if b['k'] == 'var' and b['v'] != vid:
                    # tuple-like: a holding variable; element of the decomposed object
                    pass
            if 'of' in v: return self.ext(self.var_path(f, v['of']), '#%d' % v.get('bidx', 0))
            return {(('v', vid), ())}
        if st == 'local':
            if t.get('ref') or v.get('range'):
                i = self.inits(f).get(vid)
                if i and i[0] is not None and t.get('ref'): return self.path(f, i[0])
            if v.get('initcap'):
                return {(('o', v['name'], v['l'], v['c']), ())}
            return {(('v', vid), ())}
        return {(('v', vid), ())}

    def _path(self, f, eid):
        n = f.E[eid]
        if n is None: return {(('t', eid), ())}
        k = n['k']
        if k == 'var': return self.var_path(f, n['v'])
        if k == 'this':
            if f.get('lambda'): return {(('othis', f.parent or ''), ('&',))}
            return {(('this',), ('&',))}
        if k == 'field':
            base = self.pointee(f, n['b']) if n.get('arrow') else self.path(f, n['b'])
            return self.ext(base, n['name']) if n['name'] else base
        if k == 'un' and n['op'] == '*': return self.pointee(f, n['a'])
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'): return self.path(f, n['a'])
        if k == 'sub': return self.ext(self._container(f, n['a']), '[]')
        if k in ('cast', 'wrap', 'defarg', 'definit'):
            return self.path(f, n['e']) if n.get('e', -1) >= 0 else {(('t', eid), ())}
        if k == 'cond': return self.path(f, n['a']) | self.path(f, n['b'])
        if k == 'assign': return self.path(f, n['a'])
        if k == 'bin' and n['op'] == ',': return self.path(f, n['b'])
        if k == 'call':
            qn = n.get('qn', '')
            nm = qn.rsplit('::', 1)[-1]
            if qn in MOVEISH and n['args']: return self.path(f, n['args'][0])
            if qn == 'std::get' and n['args']: return self.ext(self.path(f, n['args'][0]), '#get')
            if qn in ('std::max', 'std::min', 'std::clamp') and n['args']:
                r = set()
                for a in n['args'][:2]: r |= self.path(f, a)
                return r
            if 'obj' in n:
                tgt = self.P.funcs.get(n.get('fn'))
                t = f.type(n)
                if tgt is not None and not n.get('virt'):
                    if n.get('lv'): 
                        r = self.ret_paths(tgt)
                        if r is not None: return self.subst(f, n, r)
                    if nm == 'operator=' : return self._objpath(f, n)
                    if nm in ELEM: return self.ext(self._objpath(f, n), '[]')
                    return {(('t', eid), ())} if not n.get('lv') else self.ext(self._objpath(f, n), '?' + nm)
                if n.get('virt') and n.get('lv') and n.get('fn'):
                    return self.ext(self._objpath(f, n), '?' + nm)
                if nm in ELEM: return self.ext(self._objpath(f, n), '[]')
                if nm in ('operator*', 'operator->'): return self.pointee(f, n['obj'])
                if nm == 'get' and n.get('lv'): return self.ext(self._objpath(f, n), '*')
                if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--', 'assign', 'emplace_back', 'emplace'):
                    if nm in ('emplace_back', 'emplace'): return self.ext(self._objpath(f, n), '[]') if n.get('lv') else {(('t', eid), ())}
                    return self._objpath(f, n)
                if n.get('lv'): return self.ext(self._objpath(f, n), '[]')
                return {(('t', eid), ())}
            tgt = self.P.funcs.get(n.get('fn'))
            if tgt is not None and n.get('lv'):
                r = self.ret_paths(tgt)
                if r is not None: return self.subst(f, n, r)
            return {(('t', eid), ())}
        if k == 'ctor' and (n.get('copy') or n.get('move')) and n.get('elide') and n['args']:
            return {(('t', eid), ())}
        return {(('t', eid), ())}

    def _objpath(self, f, n):
        return self.pointee(f, n['obj']) if n.get('arrow') else self.path(f, n['obj'])

    def _container(self, f, eid):
        t = f.type(eid)
        if t.get('ptr'): return {(r, s[:-1]) if s and s[-1] == '[]' else (r, s) for r, s in self.pointee(f, eid)}
        return self.path(f, eid)

    def _pointee(self, f, eid):
        n = f.E[eid]
        if n is None: return {(('t', eid), ('*',))}
        k = n['k']
        if k == 'this':
            if f.get('lambda'): return {(('othis', f.parent or ''), ())}
            return {(('this',), ())}
        if k == 'un' and n['op'] == '&': return self.path(f, n['a'])
        if k == 'un' and n['op'] in ('++', '--'): return self.pointee(f, n['a'])
        if k in ('cast', 'wrap', 'defarg', 'definit') and n.get('e', -1) >= 0: return self.pointee(f, n['e'])
        if k == 'bin' and n['op'] in ('+', '-'): return self.pointee(f, n['a'])
        if k == 'cond': return self.pointee(f, n['a']) | self.pointee(f, n['b'])
        if k == 'ctor':
            if n['args'] and (n.get('copy') or n.get('move') or len(n['args']) == 1 or 'iterator' in n.get('rec', '')): return self.pointee(f, n['args'][0])
            return {(('t', eid), ('*',))}
        if k == 'var':
            v = f.V[n['v']]
            if v['st'] == 'local' and not v.get('initcap'):
                t = f.vtype(n['v'])
                if t.get('ptr') or 'iterator' in t.get('s', '') or v['name'].startswith('__'):
                    i = self.inits(f).get(n['v'])
                    r = set()
                    if i and i[0] is not None: r |= self.pointee(f, i[0])
                    for a in self.assigns(f).get(n['v'], []): r |= self.pointee(f, a)
                    if r: return r
            t = f.vtype(n['v'])
            sel = '[]' if 'iterator' in t.get('s', '') else '*'
            return self.ext(self.var_path(f, n['v']), sel)
        if k == 'call':
            qn = n.get('qn', '')
            nm = qn.rsplit('::', 1)[-1]
            if qn in ('std::addressof', 'std::__addressof'): return self.path(f, n['args'][0])
            if qn in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::data', 'std::ranges::begin', 'std::ranges::end'): return self.ext(self.path(f, n['args'][0]), '[]')
            if qn in ('std::back_inserter', 'std::inserter'): return self.ext(self.path(f, n['args'][0]), '[]')
            if qn in MOVEISH | ADDROF and n['args']: return self.pointee(f, n['args'][0])
            if 'obj' in n:
                tgt = self.P.funcs.get(n.get('fn'))
                if nm in ITER: return self.ext(self._objpath(f, n), '[]')
                if nm in ('operator->', 'operator*'):
                    return self.ext(self.path(f, eid), '*') if nm == 'operator*' else self.pointee(f, n['obj'])
                if nm in ('operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-='): return self.pointee(f, n['obj'])
                if nm in ('get', 'release') : return self.ext(self._objpath(f, n), '*')
                if nm in ('insert', 'erase', 'emplace'): return self.ext(self._objpath(f, n), '[]')
                if tgt is not None and not n.get('virt'):
                    r = self.ret_pointees(tgt)
                    if r is not None: return self.subst(f, n, r)
            elif 'op' in n and n.get('op') in ('+', '-') and n['args']: return self.pointee(f, n['args'][0])
            else:
                tgt = self.P.funcs.get(n.get('fn'))
                if tgt is not None:
                    r = self.ret_pointees(tgt)
                    if r is not None: return self.subst(f, n, r)
            return {(('t', eid), ('*',))}
        t = f.type(n)
        sel = '[]' if 'iterator' in t.get('s', '') else '*'
        out = set()
        for r, s in self.path(f, eid):
            # element of a braced list of pointers
            if r[0] == 't' and s == ('[]',) and isinstance(r[1], int) and 0 <= r[1] < len(f.E) and f.E[r[1]] and f.E[r[1]]['k'] == 'ilist':
                for a in f.E[r[1]]['args']: out |= self.pointee(f, a)
            else: out.add((r, s[:-1]) if s and s[-1] == '&' else (r, s + (sel,)))
        return out

    def ret_paths(self, g):
        if g.key in self._ret: return self._ret[g.key]
        self._ret[g.key] = None
        out = set()
        for n in g.E:
            if n and n['k'] == 'ret' and 'e' in n: out |= self.path(g, n['e'])
        out = {p for p in out if p[0][0] not in ('v',)}
        self._ret[g.key] = out or None
        return self._ret[g.key]

    def ret_pointees(self, g):
        k = ('ptr', g.key)
        if k in self._ret: return self._ret[k]
        self._ret[k] = None
        out = set()
        for n in g.E:
            if n and n['k'] == 'ret' and 'e' in n: out |= self.pointee(g, n['e'])
        out = {p for p in out if p[0][0] not in ('v', 't')}
        self._ret[k] = out or None
        return self._ret[k]

    def arg_binding(self, f, n):
        """-> function mapping a callee root to caller paths for call/ctor node n"""
        args = n.get('args', [])

        def m(root):
            if root == ('this',):
                if 'obj' in n: return self._objpath(f, n)
                if n['k'] == 'ctor': return {(('t', id(n)), ())}
                return {(('t', -1), ())}
            if root[0] == 'p':
                if root[1] < len(args): return self.path(f, args[root[1]])
                return {(('t', -1), ())}
            return None
        return m

    def subst(self, f, n, paths):
        m = self.arg_binding(f, n)
        out = set()
        for root, sels in paths:
            out |= self.subst1(f, n, m, root, sels)
        return out

    def subst1(self, f, n, m, root, sels):
        out = set()
        if root[0] in ('v', 't'): return {(('t', -1), ())}
        if root[0] == 'o':
            return {(self.own(f, root), sels)}
        if root[0] == 'othis':
            if root[1] == f.key: return {(('this',), sels)} if not f.get('lambda') else {(('othis', f.parent or ''), sels)}
            return {(root, sels)}
        if root[0] == 'p' and sels and sels[0] in ('*', '[]') and root[1] < len(n.get('args', [])):
            t = f.type(n['args'][root[1]])
            isptr = t.get('ptr') or 'iterator' in t.get('s', '') or 'unique_ptr' in t.get('tmpl', '') 
            if isptr:
                for r, s in self.pointee(f, n['args'][root[1]]): out.add((r, (s + sels[1:])[:MAXLEN]))
                return out
        b = m(root)
        if b is None: return {(root, sels)}
        for r, s in b:
            if s and s[-1] == '&' and sels and sels[0] == '*': out.add((r, s[:-1] + sels[1:]))
            else: out.add((r, (s + sels)[:MAXLEN]))
        return out

    def own(self, f, root):
        """an ('o', ...) root seen in f: becomes f's own variable when f declares it"""
        for i, v in enumerate(f.V):
            if v and v['name'] == root[1] and v['l'] == root[2] and v['c'] == root[3]:
                if v['st'] == 'param': return ('p', v['idx'])
                if v['st'] == 'local':
                    if f.vtype(i).get('ref'):
                        ps = self.var_path(f, i)
                        # a single alias is common; keep the first
                        for p in ps: 
                            if p[1] == (): return p[0]
                        return ('v', i)
                    return ('v', i)
        return root


class Access:
    __slots__ = ('kind', 'path', 'f', 'eid', 'how', 'chain')

    def __init__(self, kind, path, f, eid, how, chain=()):
        self.kind = kind; self.path = path; self.f = f; self.eid = eid; self.how = how; self.chain = chain

    def loc(self): return self.f.loc(self.eid) if self.eid is not None else self.f.loc()

    def __repr__(self): return '%s %s @%s %s' % (self.kind, pstr(self.path), self.loc(), self.how)


def pstr(p):
    r, s = p
    return '.'.join([':'.join(str(x) for x in r)] + list(s))


class Effects:
    def __init__(self, P, paths=None):
        self.P = P
        self.paths = paths or Paths(P)
        self._local = {}
        self._sum = {}
        self._stack = set()
        self.held = None      # optional: (f, eid) -> True when a lock is held there

    def local(self, f):
        """direct accesses of f (calls into analysed functions are not expanded)"""
        if f.key in self._local: return self._local[f.key]
        out = []
        PT = self.paths
        par = f.parents()

        def w(eid, ps, how, kind='w'):
            for p in ps: out.append(Access(kind, p, f, eid, how))
        reach = set()
        for b in f.order():
            for e in f.blocks[b]['e']:
                if isinstance(e, int): reach |= {e}
        written = set()
        elem_ids = [e for b in f.order() for e in f.blocks[b]['e']]
        for e in elem_ids:
            if not isinstance(e, int):
                if e['k'] == 'init' and 'field' in e: out.append(Access('w', (('this',), (e['field'],)), f, e.get('e'), 'init'))
                continue
            n = f.E[e]; k = n['k']
            if k == 'assign':
                w(e, PT.path(f, n['a']), n['op']); written.add((e, n['a']))
            elif k == 'un' and n['op'] in ('++', '--'): w(e, PT.path(f, n['a']), n['op'])
            elif k in ('call', 'ctor', 'new'):
                self.call_effects(f, e, n, w)
                if k == 'call' and n.get('lv') and n.get('fn') not in self.P.funcs and not f.type(n).get('rec') and self.is_read(f, e, par): w(e, PT.path(f, e), 'read', 'r')
            elif k in ('var', 'field', 'sub') or (k == 'un' and n['op'] == '*'):
                # reads: an lvalue used other than as assignment target / address / member base
                if self.is_read(f, e, par): w(e, PT.path(f, e), 'read', 'r')
        self._local[f.key] = out
        return out

    def is_read(self, f, e, par):
        ps = par.get(e, [])
        if not ps: return True
        for p in ps:
            pn = f.E[p]
            if pn['k'] == 'assign' and pn['a'] == e and pn['op'] == '=': continue
            if pn['k'] == 'field' and pn.get('b') == e and not pn.get('arrow'): continue
            if pn['k'] == 'un' and pn['op'] == '&': continue
            if pn['k'] == 'call' and pn.get('obj') == e and not pn.get('cm'): 
                # object of a non-const call: the call itself is classified
                if pn.get('qn', '').rsplit('::', 1)[-1] in NONMUT: continue
                continue
            if pn['k'] == 'call' and pn.get('qn') in MOVEISH: continue
            if pn['k'] == 'call' and e in pn.get('args', []):
                i = pn['args'].index(e)
                pt = pn.get('pt', [])
                if i < len(pt):
                    t = self.P.T(pt[i])
                    if t.get('ref') and not t.get('const'): continue
            if pn['k'] == 'ret' and self.P.T(f.d.get('ret')).get('ref'): continue
            if pn['k'] == 'decl':
                # bound to a reference: not a read by itself
                if any(v.get('init') == e and f.vtype(v['v']).get('ref') for v in pn['vars']): continue
            return True
        return False

    def call_effects(self, f, e, n, w):
        PT = self.paths
        qn = n.get('qn', ''); nm = qn.rsplit('::', 1)[-1]
        args = n.get('args', [])
        tgt = self.P.funcs.get(n.get('fn'))
        if n['k'] == 'new': return
        if n['k'] == 'ctor' and n.get('rec', '').startswith(('std::span<const ', 'std::basic_string_view')):
            for a in args:
                if a is not None and a >= 0: w(e, PT.path(f, a), 'view', 'r')
            return
        if tgt is not None and not (n.get('virt') and not tgt.blocks):
            return   # expanded transitively
        # library / unknown callee
        if n['k'] == 'ctor' and n.get('rec', '').startswith('std::atomic_ref<'): return
        if 'obj' in n and 'atomic_ref<' in f.type(n['obj']).get('s', ''):
            w(e, self.atomic_target(f, n['obj']), 'atomic:' + nm, 'a'); return
        if 'obj' in n:
            op = PT._objpath(f, n)
            if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock'): w(e, op, 'sync', 's')
            elif 'std::atomic' in (f.type(n['obj']).get('s', '')) or 'atomic' in qn: w(e, op, 'atomic:' + nm, 'a')
            elif n.get('cm') or nm in NONMUT: w(e, op, nm, 'r')
            elif 'iterator' in f.type(n['obj']).get('s', '') and nm in ('operator++', 'operator--', 'operator+=', 'operator-='): w(e, op, nm)
            elif f.type(n['obj']).get('ptr') and nm == 'operator=': w(e, op, nm)
            else: w(e, op, nm)
        if nm == 'operator=' or n['k'] == 'ctor' or qn in MOVEISH: 
            pass
        pts = n.get('pt', [])
        for i, a in enumerate(args):
            if a is None or a < 0: continue
            t = self.P.T(pts[i]) if i < len(pts) else {}
            at = f.type(a)
            if qn in READ_ALGOS:
                if 'iterator' in at.get('s', '') or at.get('ptr'): w(e, PT.pointee(f, a), nm, 'r')
                continue
            if qn in MOVEISH: continue
            if qn in ('std::swap', 'std::iter_swap', 'std::exchange'):
                if qn == 'std::iter_swap': w(e, PT.pointee(f, a), nm)
                elif i == 0 or qn == 'std::swap': w(e, PT.path(f, a), nm)
                continue
            isit = 'iterator' in at.get('s', '') or at.get('ptr')
            if isit and qn.startswith('std::'):
                constp = at.get('pconst') or 'const_iterator' in at.get('s', '') or 'const ' in at.get('s', '').split('*')[0]
                if qn in WRITE_ALGOS:
                    idxs = [x if x >= 0 else len(args) + x for x in WRITE_ALGOS[qn]]
                    if qn == 'std::transform': idxs = [self._out_iter(f, args)]
                    if i in idxs: w(e, PT.pointee(f, a), nm)
                    else: w(e, PT.pointee(f, a), nm, 'r')
                elif 'obj' in n or n['k'] == 'ctor': w(e, PT.pointee(f, a), nm, 'r')
                elif constp: w(e, PT.pointee(f, a), nm, 'r')
                elif qn == 'std::move' : w(e, PT.pointee(f, a), nm)
                elif qn in ('std::for_each',): w(e, PT.pointee(f, a), nm, 'r')
                else: w(e, PT.pointee(f, a), nm)
                continue
            if t.get('ref') == 1 and not t.get('const') and n['k'] == 'ctor' and qn.startswith(('std::tuple', 'std::pair', 'std::reference_wrapper', 'std::optional', 'std::function', 'std::shared_lock', 'std::unique_lock', 'std::scoped_lock', 'std::lock_guard')): w(e, PT.path(f, a), nm, 'r')
            elif t.get('ref') == 1 and not t.get('const'): w(e, PT.path(f, a), nm + '(ref)')
            elif t.get('ref') == 2 and (f.E[a].get('qn') == 'std::move'): w(e, PT.path(f, a), 'moved')
            elif t.get('ptr') and not t.get('pconst') and not qn.startswith('std::'): w(e, PT.pointee(f, a), nm + '(ptr)')

    def atomic_target(self, f, e, depth=0):
        """paths of the object a std::atomic_ref expression refers to"""
        n = f.E[e]
        if depth > 8 or n is None: return {(('t', e), ())}
        if n['k'] in ('cast', 'wrap', 'definit'): return self.atomic_target(f, n['e'], depth + 1)
        if n['k'] == 'ctor':
            if n.get('rec', '').startswith('std::atomic_ref<') and n['args'] and 'atomic_ref' not in f.type(n['args'][0]).get('s', ''): return self.paths.path(f, n['args'][0])
            if n['args']: return self.atomic_target(f, n['args'][0], depth + 1)
        if n['k'] == 'ilist' and n['args']: return self.atomic_target(f, n['args'][0], depth + 1)
        if n['k'] == 'var':
            i = f.decl_init().get(n['v'])
            if i and i[0] is not None: return self.atomic_target(f, i[0], depth + 1)
            return self.paths.var_path(f, n['v'])
        if n['k'] in ('field', 'sub'): return self.paths.path(f, e)
        return self.paths.path(f, e)

    def _out_iter(self, f, args):
        # the output iterator of std::transform: the last iterator argument
        last = 2
        for i, a in enumerate(args):
            s = f.type(a).get('s', '')
            if 'lambda' in s or 'function' in s: break
            last = i
        return last

    def summary(self, f):
        """all accesses of f and what it calls, in terms of f's own roots; cached"""
        ck = self.P.ctx_key(f)
        if ck in self._sum: return self._sum[ck]
        if ck in self._stack: return []
        self._stack.add(ck)
        seen = {}

        def add(a, at=None):
            if self.held is not None and a.kind in ('w', 'r') and self.held(f, a.eid if at is None else at):
                a = Access(a.kind.upper(), a.path, a.f, a.eid, a.how, a.chain)
            k = (a.kind, a.path, a.f.key, a.eid)
            if k not in seen: seen[k] = a
        for a in self.local(f): add(a)
        PT = self.paths
        for b in f.order():
            for e in f.blocks[b]['e']:
                if not isinstance(e, int):
                    if e['k'] in ('adtor', 'tdtor') and e.get('fn') in self.P.funcs:
                        g = self.P.funcs[e['fn']]
                        if e['k'] == 'adtor':
                            for a in self.summary(g):
                                for r, s in self._sub_dtor(f, e, a.path): add(Access(a.kind, (r, s), a.f, a.eid, a.how, (('%s' % f.loc()),) + a.chain))
                    continue
                n = f.E[e]
                if n['k'] in ('call', 'ctor'):
                    for g in self.P.callees(f, n):
                        m = PT.arg_binding(f, n)
                        for a in self.summary(g):
                            if a.path[0][0] in ('v', 't'): continue
                            for p in PT.subst1(f, n, m, a.path[0], a.path[1]):
                                if p[0][0] == 't': continue
                                add(Access(a.kind, p, a.f, a.eid, a.how, (f.loc(e),) + a.chain), e)
                if n['k'] == 'lambda':
                    for o in n['ops']:
                        g = self.P.funcs.get(o)
                        if g:
                            for a in self.summary(g):
                                r, s = a.path
                                if r[0] == 'o': r = PT.own(f, r)
                                elif r[0] == 'othis' and r[1] == f.key: r = ('this',) if not f.get('lambda') else ('othis', f.parent or '')
                                elif r[0] not in ('othis', 'g'): continue
                                add(Access(a.kind, (r, s), a.f, a.eid, a.how, (f.loc(e),) + a.chain), e)
        self._stack.discard(ck)
        res = list(seen.values())
        self._sum[ck] = res
        return res

    def _sub_dtor(self, f, e, path):
        r, s = path
        if r == ('this',): return [(r2, s2 + s) for r2, s2 in self.paths.var_path(f, e['v'])]
        if r[0] in ('g',): return [path]
        return []
