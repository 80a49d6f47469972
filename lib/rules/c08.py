"""Work submission typestate: interprocedural path analysis (finite abstract stores, normal and exceptional edges) of every
function that hands a task to a worker queue.  Along every path the analysis tracks whether a task has been handed over that
has not been waited for, whether some handed-over task will never run although it is waited for, whether an exception has been
caught on behalf of the caller, and which thread's queue the waiting thread owns."""
from absint import AbsInt, const, TooBig
from facts import AnalysisBroken
import roles

RULE = ('at every exit (return or exception) of a function that submits tasks no submitted task is outstanding; a caught exception '
        'is stored before its flag is observed and is rethrown after the wait; a task counts down exactly once, as its last access '
        'to the caller\'s frame; the blocking wait is only reached by threads that own no queue')
ASSUMPTIONS = ['number of submitted tasks equals the count waited for whenever the submission loop ran to completion (checked only for counted loops)',
               'the memory ordering of the join is decided by a separate property']

ST = 'st'


def st(S, k, d=0): return S.m.get((ST, k), d)


def put(S, k, v):
    if v in (0, None): S.m.pop((ST, k), None)
    else: S.m[(ST, k)] = v


class Roles:
    def __init__(self, cx):
        P = self.P = cx.P
        self.queues = {}
        for r, d in P.records.items():
            if not r.startswith('gapp::'): continue
            ts = [P.T(x['t']).get('s', '') for x in d['fields']]
            if any('condition_variable' in t for t in ts) or r.split('<')[0].endswith('queue'):
                self.queues[r] = d
        cx.anchor(self.queues, 'task queue class (a class with a condition variable)')
        self.insert, self.take, self.close = set(), set(), set()
        for r in self.queues:
            for f in P.by_cls.get(r, []):
                names = set()
                for k in closure(P, f):
                    for n in P.funcs[k].E:
                        if n and n['k'] == 'call': names.add(n.get('qn', '').rsplit('::', 1)[-1])
                if f.name == f.cls.rsplit('::', 1)[-1] or f.get('ctor') or f.get('dtor'): continue
                if names & {'emplace_back', 'push_back', 'push', 'emplace', 'insert', 'push_front', 'emplace_front'}: self.insert.add(f.key)
                elif names & {'pop_front', 'pop', 'pop_back', 'erase'}: self.take.add(f.key)
                elif 'notify_all' in names: self.close.add(f.key)
        cx.anchor(self.insert, 'inserting operation of the task queue')
        cx.anchor(self.take, 'removing operation of the task queue')
        cx.anchor(self.close, 'closing operation of the task queue')
        self.latches = set()
        for r, d in P.records.items():
            if not r.startswith('gapp::') or r in self.queues: continue
            if any('std::atomic<' in P.T(x['t']).get('s', '') and 'bool' not in P.T(x['t']).get('s', '') for x in d['fields']):
                ms = P.by_cls.get(r, [])
                if any(self.calls(f, ('fetch_sub', 'operator--', 'operator-=', 'sub')) for f in ms if not f.get('ctor')): self.latches.add(r)
        self.latches = {r for r in self.latches if 'latch' in r.lower() or any(f.name in ('wait', 'count_down', 'arrive') for f in P.by_cls.get(r, []))}
        self.latches |= {'std::latch'}
        self.elem = set()
        for r in self.queues:
            i = r.find('<')
            if i > 0 and r[i + 1:-1] in P.records and r[i + 1:-1].startswith('gapp::') or 'function' in r[i + 1:]: self.elem.add(r[i + 1:-1])

    def calls(self, f, names):
        return any(n and n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in names for n in f.E)

    def latch_op(self, n):
        """'down' | 'wait' | 'try' | None"""
        if n['k'] != 'call' or 'obj' not in n: return None
        cls = n.get('cls', '') or n.get('qn', '').rsplit('::', 1)[0]
        if cls not in self.latches: return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if nm in ('count_down', 'arrive'): return 'down'
        if nm == 'try_wait': return 'try'
        if nm in ('wait',): return 'wait'
        if nm == 'arrive_and_wait': return 'downwait'
        g = self.P.funcs.get(n.get('fn'))
        if g is not None:
            if self.calls(g, ('fetch_sub',)): return 'down'
            t = self.P.T(g.d.get('ret')).get('s', '')
            if self.calls(g, ('load',)): return 'try' if t == 'bool' else 'wait' if t == 'void' else None
        return None


def closure(P, f):
    seen = {f.key}; w = [f]
    while w:
        g = w.pop()
        for n in g.E:
            if not n: continue
            cs = [c.key for c in P.callees(g, n)] if n['k'] in ('call', 'ctor') else list(n['ops']) if n['k'] == 'lambda' else []
            for c in cs:
                if c in P.funcs and c not in seen and P.is_repo(P.funcs[c]) and (P.funcs[c].cls == f.cls or P.funcs[c].parent or not P.funcs[c].cls):
                    seen.add(c); w.append(P.funcs[c])
    return seen


class Loop(AbsInt):
    exc = True

    def __init__(self, cx, R, entry):
        super().__init__(cx); self.R = R; self.entry = entry
        self.bad = {}; self.tasks = {}; self.sites = set(); self.joins = set(); self.mode = 'caller'
        self.subloop = None; self.task_noexcept = True; self.count = None

    def error(self, key, f, e, msg):
        self.bad.setdefault(key, (f, e, msg))

    # every callable that comes from outside may throw
    def may_throw(self, fr, n):
        qn = n.get('qn', '')
        if qn in ('std::invoke', 'std::apply', 'std::invoke_r') or n.get('op') == '()' or 'ind' in n:
            a = n['args'][0] if qn.startswith('std::') and n.get('args') else n.get('obj', n.get('ind'))
            t = fr.f.type(a) if isinstance(a, int) else {}
            s = t.get('s', '') + ' ' + t.get('rec', '')
            if any(x in s for x in self.R.elem): return not self.task_noexcept
            return True
        return super().may_throw(fr, n)

    def is_task_call(self, fr, n):
        qn = n.get('qn', '')
        if not (qn in ('std::invoke', 'std::apply', 'std::invoke_r') or n.get('op') == '()'): return False
        return not self.is_user_call(fr, n)

    def is_user_call(self, fr, n):
        qn = n.get('qn', '')
        if qn in ('std::invoke', 'std::apply', 'std::invoke_r') or n.get('op') == '()' or 'ind' in n:
            a = n['args'][0] if qn.startswith('std::') and n.get('args') else n.get('obj', n.get('ind'))
            t = fr.f.type(a) if isinstance(a, int) else {}
            s = t.get('s', '') + ' ' + t.get('rec', '')
            return not any(x in s for x in self.R.elem)
        return False

    def known_callable(self, fr, S, n):
        a = n['args'][0] if n.get('qn', '').startswith('std::') and n.get('args') else n.get('obj', n.get('ind'))
        v = self.value(fr, S, a)
        if v[0] == 'at': v = self.read(S, v[1])
        return v[0] in ('lam', 'fn')

    def in_task(self, fr):
        x = fr
        while x is not None:
            if isinstance(x.fid, tuple) and len(x.fid) == 2 and isinstance(x.fid[1], tuple) and x.fid[1][:1] == ('task',): return True
            x = x.up
        return False

    def hook_descend(self, fr, S, e, n, g):
        P = self.P
        if g.cls in self.R.queues or g.cls in self.R.latches: return False
        if not P.is_repo(g): return False
        return True

    def hook_call(self, fr, S, e, n):
        P = self.P; f = fr.f; R = self.R
        qn = n.get('qn', '')
        if n['k'] == 'ctor' and n.get('rec') in R.latches and not n.get('copy'):
            self.joins.add('count'); vals = [self.value(fr, S, a) for a in n.get('args', [])]
            self.count = vals[0] if vals else None
            return [('n', S, ('nn', 'latch'))]
        if n['k'] == 'call' and n.get('fn') in R.insert and not self.in_task(fr):
            self.sites.add((f.key, e))
            lam = None
            for a in n['args']:
                v = self.value(fr, S, a)
                if v[0] == 'lam': lam = v
            if lam is None: raise TooBig('submitted task is not a lambda of the submitting function: ' + f.loc(e))
            self.tasks[lam[1]] = lam
            S1 = S.copy(); put(S1, 'out', 1); put(S1, 'task', lam)
            S2 = S.copy(); put(S2, 'missing', 1)
            out = [('n', S1, const(True)), ('n', S2, const(False))]
            if not n.get('ne'):
                S3 = S.copy(); put(S3, 'missing', 1); out.append(('x', S3, None))
            return out
        if n['k'] == 'call' and n.get('fn') in R.take or (n['k'] == 'call' and n.get('cls') in R.queues and n.get('fn') not in R.insert):
            S = S.copy(); put(S, 'drained', 1)
            return [('n', S, self.fresh(S, (fr.fid, e)))]
        op = R.latch_op(n)
        if op:
            if op in ('down', 'downwait'):
                S = S.copy()
                if self.in_task(fr):
                    if st(S, 'down'): self.error('double-countdown|' + self.entry.name, f, e, 'a task can signal its completion twice')
                    put(S, 'down', 1)
                else: put(S, 'missing', 0)
                if op == 'down': return [('n', S, None)]
            if self.in_task(fr): return [('n', S, self.fresh(S, (fr.fid, e)))]
            if op == 'try':
                S2 = S.copy()
                if st(S2, 'tried') and not st(S2, 'drained') and st(S2, 'own') != 'null':
                    self.error('spin|' + self.entry.name, f, e, 'a thread that owns a task queue waits for its loop without running the tasks in its own queue: nested parallel loops deadlock')
                put(S2, 'tried', 1); put(S2, 'drained', 0)
                return [('n', S2, const(False))] + [('n', s, const(True)) for s in self.join(fr, S, e, n)]
            if st(S, 'own') != 'null':
                self.error('blocking-wait|' + self.entry.name, f, e, 'a thread that may own a task queue blocks until the loop completes: nested parallel loops deadlock')
            return [('n', s, None) for s in self.join(fr, S, e, n)]
        if qn == 'std::current_exception': return [('n', S, ('nn', 'cur'))]
        if qn == 'std::rethrow_exception':
            v = self.value(fr, S, n['args'][0])
            if self.truth(S, v) is not True:
                self.error('rethrow-empty|' + self.entry.name, f, e, 'rethrows an exception that was never stored')
            if st(S, 'threw'): S = S.copy(); put(S, 'threw', 0)
            return [('x', S, None)]
        if self.is_task_call(fr, n):
            v = self.fresh(S, (fr.fid, e))
            return [('n', S, v)] + ([] if self.task_noexcept else [('x', S.copy(), None)])
        if self.is_user_call(fr, n) and not self.known_callable(fr, S, n):
            S1 = S.copy(); S2 = S.copy(); put(S2, 'threw', 1)
            return [('n', S1, self.fresh(S1, (fr.fid, e))), ('x', S2, None)]
        return None

    def join(self, fr, S, e, n):
        """the tasks that were handed over have run: zero or more of them stored an exception"""
        self.joins.add(fr.f.key)
        if st(S, 'missing'):
            self.error('join-missing|' + self.entry.name, fr.f, e, 'waits for a task that was never handed to a worker (submission refused or failed): the wait never ends')
        S = S.copy(); put(S, 'out', 0); put(S, 'joined', 1); put(S, 'drained', 0); put(S, 'tried', 0)
        lam = st(S, 'task')
        if not lam: return [S]
        seen = {S.key(): S}; todo = [S]; r = 0
        while todo and r < 4:
            r += 1; new = []
            for s in todo:
                for s2 in self.run_task(fr, s, lam):
                    if s2.key() not in seen: seen[s2.key()] = s2; new.append(s2)
            todo = new
        return list(seen.values())

    def run_task(self, fr, S, lam):
        g = self.P.funcs[lam[1][0]]
        self.ran = getattr(self, 'ran', set()) | {g.key}
        S = S.copy()
        S.m[(ST, 'threw0')] = 1 if st(S, 'threw') else 2
        for i in ('down', 'won'): put(S, i, 0)
        res = []
        for k, s, v in self.call_fn(g, S, args=[None] * len(g.params), fid=(('task',), ('task', g.key)), env=lam[2], up=fr):
            if k == 'x':
                self.error('task-throws|' + self.entry.name, g, None, 'an exception of an iteration escapes the task on a worker thread and terminates the program')
                continue
            if not st(s, 'down'):
                self.error('no-countdown|' + self.entry.name, g, None, 'a task can finish without signalling its completion: the caller waits forever')
            for i in ('down', 'won', 'threw0'): put(s, i, 0)
            res.append(s)
        return res

    def hook_terminate(self, fr, e, S):
        if isinstance(e, int) and fr.f.E[e]['k'] == 'throw' and (st(S, 'threw') or self.in_task(fr)):
            self.error('terminate|' + self.entry.name, fr.f, e, 'an exception thrown by an iteration reaches a noexcept boundary and terminates the program')
        if isinstance(e, int) and self.is_user_call(fr, fr.f.E[e]) and not self.known_callable(fr, S, fr.f.E[e]):
            self.error('terminate|' + self.entry.name, fr.f, e, 'an exception thrown by an iteration reaches a noexcept boundary and terminates the program')

    def hook_elem(self, fr, S, e, n):
        # accesses to the caller's frame after the completion signal
        if self.in_task(fr) and st(S, 'down') and fr.env is not None and isinstance(e, int):
            for x in fr.f.subtree(e):
                q = fr.f.E[x]
                if q and q['k'] == 'var' and fr.f.V[q['v']]['st'] == 'outer' and (fr.env, ('&' + fr.f.V[q['v']]['name'],)) in S.m:
                    if self.R.latch_op(n) in ('down', 'downwait'): continue
                    self.error('after-countdown|' + self.entry.name, fr.f, e, "a task uses `%s' of the caller's frame after it has signalled its completion" % fr.f.V[q['v']]['name'])
        return None

    def write(self, S, loc, v):
        # the exception slot: written at most once per loop (other tasks may be writing it as well)
        if v == ('nn', 'cur'):
            old = self.read(S, loc)
            if old == ('nn', 'cur'): self.race = True; S.m[(ST, 'overwritten')] = 1
        super().write(S, loc, v)

    def elem(self, fr, S, e):
        out = super().elem(fr, S, e)
        if self.subloop and fr.f.key == self.subloop[0] and not self.in_task(fr):
            for k, s in out:
                if k == 'x' and isinstance(e, int) and e in self.subloop[1]: put(s, 'missing', 1)
        return out

    def finish(self, fr, S, outs, kind, rv):
        if fr.up is not None and not self.in_task(fr):
            t = self.P.T(fr.f.d.get('ret'))
            if t.get('ptr') and any(q in t.get('s', '') for q in self.R.queues) and kind == 'n':
                S = S.copy(); put(S, 'own', 'null' if rv is not None and self.truth(S, rv) is False else 'some')
        super().finish(fr, S, outs, kind, rv)


def natural_loop(f, eid):
    """expression ids in the innermost loop around eid, and the loop header block"""
    at = next((b for b, i, e in f.elems() if e == eid), None)
    if at is None: return None
    preds = f.preds()
    # blocks that can reach at and are reachable from at
    def reach(start, nxt):
        seen = {start}; w = [start]
        while w:
            b = w.pop()
            for s in nxt(b):
                if s is not None and s >= 0 and s not in seen: seen.add(s); w.append(s)
        return seen
    fwd = set()
    for s in f.blocks[at]['s']:
        if s >= 0: fwd |= reach(s, lambda b: f.blocks[b]['s'])
    if at not in fwd: return None
    bwd = reach(at, lambda b: preds[b])
    blocks = fwd & bwd
    return {e for b in blocks for e in f.blocks[b]['e'] if isinstance(e, int)}, blocks


def counted(f, blocks):
    """(bound expression) of the loop `for (i = 0; i < bound; i++)`"""
    for b in blocks:
        c = f.blocks[b].get('cond')
        if c is None or c < 0 or not any(s not in blocks for s in f.blocks[b]['s']): continue
        n = f.E[c]
        while n and n['k'] in ('cast', 'wrap'): n = f.E[n['e']]
        if n and n['k'] == 'bin' and n['op'] in ('<', '!='): return c, n['a'], n['b']
    return None


def check(cx):
    P = cx.P; R = Roles(cx)
    callers = {}
    subs = {}
    for f in P.lib_funcs():
        for i, n in enumerate(f.E):
            if n and n['k'] == 'call' and n.get('fn') in R.insert and f.cls not in R.queues: subs.setdefault(f.key, []).append(i)
    cx.anchor(subs, 'a call that hands a task to a worker queue')
    entries = entry_functions(P, subs)
    cx.anchor(entries, 'entry functions of task submission')
    njoin = 0
    shapes = set()
    for f in entries:
        sg = signature(f)
        if sg in shapes: cx.obligation('%s: same code as an analysed instance' % f.key[:160]); continue
        shapes.add(sg)
        A = Loop(cx, R, f)
        for k, sites in subs.items():
            g = P.funcs[k]
            for s in sites:
                l = natural_loop(g, s)
                if l and (k == f.key or A.subloop is None): A.subloop = (k, l[0])
        # tasks are noexcept?
        this = (('this',), ()) if f.cls else None
        S0 = __import__('absint').Store()
        try:
            prev = None
            outs = A.call_fn(f, S0, this=this, args=[None] * len(f.params))
            ts = [P.funcs[k] for t in A.tasks for k in t if k in P.funcs]
            if not all(t.get('ne') for t in ts):
                A2 = Loop(cx, R, f); A2.subloop = A.subloop; A2.task_noexcept = False
                A = A2; outs = A.call_fn(f, S0, this=this, args=[None] * len(f.params))
        except TooBig as ex:
            cx.undecided.append('%s: %s' % (f.name, ex)); continue
        key = short(f)
        for k, S, v in outs:
            what = 'returns' if k == 'n' else 'is left by an exception'
            if st(S, 'out'):
                A.error('outstanding-%s|%s' % (k, f.name), f, None, 'the parallel loop %s while tasks it handed to worker threads may still be running (they refer to its frame)' % what)
            if k == 'n' and st(S, 'threw'):
                A.error('swallowed|' + f.name, f, None, 'an exception thrown by an iteration is lost: the parallel loop returns normally')
            if k == 'n' and st(S, 'missing'):
                A.error('refused|' + f.name, f, None, 'the loop returns normally although a task was refused by its queue')
            if st(S, 'overwritten'):
                A.error('slot-race|' + f.name, f, None, 'several tasks can write the stored exception')
        for t in A.tasks:
            g = P.funcs.get(t[0])
            cx.obligation('task %s of %s: one completion signal, last access, no escaping exception' % (g.loc() if g else t, key))
        for s in sorted(A.sites, key=str): cx.obligation('submission at %s' % P.funcs[s[0]].loc(s[1]))
        cx.obligation('%s: %d abstract exits checked' % (key, len(outs)))
        njoin += bool(A.joins - {'count'})
        for bk, (g, e, msg) in A.bad.items():
            cx.violation(bk, g.loc(e), msg, func=g.key)
        cx.coverage.setdefault('steps', 0); cx.coverage['steps'] += A.steps
    cx.anchor(njoin or cx.undecided, 'join of the submitted tasks')
    members(cx, R)
    cx.coverage['entries'] = len(entries)


def entry_functions(P, subs):
    """outermost functions of the class that owns the queues"""
    out = {}
    for k in subs:
        g = P.funcs[k]; i = 0
        while g.parent and g.parent in P.funcs and i < 8: g = P.funcs[g.parent]; i += 1
        out[g.key] = g
    # climb through callers inside the same class
    changed = True; seen = set(out)
    while changed:
        changed = False
        for f in list(P.lib_funcs()):
            if f.key in out or f.key in seen: continue
            for n in f.E:
                if n and n['k'] == 'call' and n.get('fn') in out and f.cls and f.cls == out[n['fn']].cls:
                    seen.add(f.key); out[f.key] = f; out.pop(n['fn'], None); changed = True; break
    return sorted(out.values(), key=lambda f: f.key)


def signature(f):
    """two instances of a template with the same signature run the same operations"""
    return (f.sfile, f.l, f.get('ne'), tuple((n['k'], n.get('qn', '').rsplit('::', 1)[-1], n.get('op'), n.get('ne'), n.get('v') if n['k'] == 'lit' else None, n.get('fn') in f.P.funcs) if n else None for n in f.E))


def short(f): return f.key.split('<')[0].rsplit('::', 1)[-1] if f.key.find('<') > 0 else f.name


def members(cx, R):
    """a thread that runs tasks of a queue is destroyed (joined) before the queue"""
    P = cx.P; n = 0
    for r, d in P.records.items():
        if not r.startswith('gapp::'): continue
        fs = [(x['name'], P.T(x['t']).get('s', '')) for x in d['fields']]
        q = [i for i, (nm, t) in enumerate(fs) if any(t == k for k in R.queues)]
        t = [i for i, (nm, ty) in enumerate(fs) if ty in ('std::jthread', 'std::thread')]
        if not q or not t: continue
        n += 1
        cx.obligation('%s: the thread is declared after (destroyed before) the queue it uses' % r)
        for i in t:
            if fs[i][1] == 'std::jthread' and i < max(q):
                cx.violation('member-order|' + r, '%s:%s' % (r, fs[i][0]), 'the worker thread member is declared before the task queue it uses: the queue is destroyed while the thread still runs')
    cx.coverage['thread_owners'] = n
