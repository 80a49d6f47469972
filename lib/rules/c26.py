"""The task queue and its workers. Every operation of a class that hands elements from thread to thread (a container, a closed flag, a
condition variable) is interpreted over all CFG paths with the emptiness of the container and the flag as symbolic conditions; waiting
gives up everything known about them. The worker threads' main function, the shutdown and the declaration order of queue and thread
are checked on top of it."""
from absint import AbsInt, Store, TooBig, const
import roles
from rules.c07 import stem

RULE = ('insertion: closed -> refused and nothing inserted, else exactly one element at the back and a waiter is notified afterwards; removal: exactly the front element, an empty answer only when closed and drained; '
        'a waiter sleeps only while the queue is open and empty; closing notifies all; workers run each element exactly once until the empty answer; queues are closed before their thread is joined')
ASSUMPTIONS = ['the library container, mutex and condition variable behave as specified']
ST = ('st',)
INS = {'emplace_back': 'back', 'push_back': 'back', 'push': 'back', 'emplace': 'back', 'emplace_front': 'front', 'push_front': 'front', 'insert': 'front'}
REM = {'pop_front': 'front', 'pop': 'front', 'pop_back': 'back', 'erase': 'any', 'clear': 'any', 'swap': 'any', 'resize': 'any'}


class Queue(AbsInt):
    exc = True

    def __init__(self, cx, cls, cont, flag, cv):
        super().__init__(cx); self.cls = cls; self.cont = (('this',), (cont,)); self.flag = (('this',), (flag,)); self.cv = (('this',), (cv,)); self.waits = []; self.waited = False

    def hook_descend(self, fr, S, e, n, g): return bool(g.cls) and stem(g.cls) == stem(self.cls) or g.parent is not None

    def g(self, S, k): return S.m.get((ST, k), 0)

    def up(self, S, k, v=None): S.m[(ST, k)] = min(self.g(S, k) + 1, 2) if v is None else v

    def loc_of(self, fr, S, n):
        l = self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj'])
        return l

    def empty(self, S):
        """True/False/None"""
        return S.m.get((ST, 'empty'))

    def forget(self, S):
        S.m.pop((ST, 'empty'), None); S.m.pop((ST, 'closed'), None)
        self.write(S, self.flag, ('w', ('sleep', self.g(S, 'slept')))); self.up(S, 'slept')
        self.write(S, self.cont, ('w', ('csleep', self.g(S, 'slept'))))

    def hook_call(self, fr, S, e, n):
        nm = n.get('qn', '').rsplit('::', 1)[-1]; args = n.get('args', [])
        if n['k'] != 'call': return None
        if nm in ('empty', 'size') and ('obj' in n or args):
            l = self.loc_of(fr, S, n) if 'obj' in n else self.lval(fr, S, args[0])
            if l == self.cont:
                if nm == 'size': return [('n', S, ('ap', 'qsize'))]
                t = self.empty(S)
                if t is not None: return [('n', S, const(t))]
                A, B = S.copy(), S.copy(); A.m[(ST, 'empty')] = True; B.m[(ST, 'empty')] = False
                return [('n', A, const(True)), ('n', B, const(False))]
        if 'obj' not in n: return None
        l = self.loc_of(fr, S, n)
        if l == self.cv:
            if nm in ('notify_one', 'notify_all'):
                S = S.copy(); self.up(S, nm, 1); S.m[(ST, 'unnotified')] = 0
                if nm == 'notify_all': S.m[(ST, 'unnotified_close')] = 0
                return [('n', S, None)]
            if nm in ('wait', 'wait_for', 'wait_until'):
                return self.wait(fr, S, e, n, nm, args)
        if l == self.cont:
            if nm in INS:
                S1 = S.copy(); self.up(S1, 'ins'); self.up(S1, 'ins_' + INS[nm], 1); S1.m[(ST, 'empty')] = False; S1.m[(ST, 'unnotified')] = 1
                S1.m[(ST, 'ins_closed')] = self.closed(S)
                return [('n', S1, ('w', (fr.fid, e))), ('x', S.copy(), None)]
            if nm in REM:
                S = S.copy(); self.up(S, 'rem'); self.up(S, 'rem_' + REM[nm], 1)
                if self.empty(S) is not False: self.up(S, 'rem_unknown', 1)
                S.m[(ST, 'took_first')] = self.g(S, 'front_read')
                S.m.pop((ST, 'empty'), None)
                return [('n', S, ('w', (fr.fid, e)))]
            if nm in ('front', 'back', 'begin', 'operator[]', 'at'):
                S = S.copy()
                if self.empty(S) is not False: self.up(S, 'read_unknown', 1)
                self.up(S, 'after_rem' if self.g(S, 'rem') else 'front_read', 1)
                return [('n', S, ('at', (('Q', nm), ())))]
        return None

    def closed(self, S):
        return self.truth(S, self.read(S, self.flag))

    def wait(self, fr, S, e, n, nm, args):
        f = fr.f
        pred = None; self.waited = True
        for a in args:
            v = self.value(fr, S, a)
            if v[0] == 'at': v = self.read(S, v[1])
            if v[0] == 'lam': pred = v
        timed = nm != 'wait'
        if pred is None:
            self.waits.append((f, e, self.empty(S), self.closed(S), 'plain'))
            S = S.copy(); self.forget(S); return [('n', S, None)]
        out = []
        # before the first check nothing is given up; later checks see any state
        for start in (S.copy(), self.slept(S)):
            for g in [self.P.funcs[k] for k in pred[1] if k in self.P.funcs and self.P.funcs[k].blocks][:1]:
                for k, s, v in self.call_fn(g, start, this=None, args=[], fid=(fr.fid, e, 'pred', start is S), env=pred[2], up=fr):
                    if k == 'x': out.append(('x', s, None)); continue
                    v = v if v is not None else ('w', 'pred')
                    for pol in (True, False):
                        s2 = self.assume(s.copy(), v, pol)
                        if s2 is None: continue
                        if pol: out.append(('n', s2, None))
                        else:
                            self.waits.append((f, e, self.empty(s2), self.closed(s2), 'pred'))
                            if timed: out.append(('n', s2, None))
        return out

    def slept(self, S):
        S = S.copy(); self.forget(S); return S

    def hook_elem(self, fr, S, e, n):
        if n and n['k'] == 'assign' and n['op'] == '=' and self.lval(fr, S, n['a']) == self.flag:
            v = self.value(fr, S, n['b'])
            S = S.copy()
            if self.truth(S, v) is True: S.m[(ST, 'closes')] = 1; S.m[(ST, 'unnotified_close')] = 1
            else: S.m[(ST, 'reopens')] = 1
            self.write(S, self.flag, v)
            return [S]
        return None


def check(cx):
    P = cx.P
    qs = {}
    for r, d in P.records.items():
        if not (r.startswith('gapp::') or 'verif_selftest' in r): continue
        cv = [x['name'] for x in d['fields'] if 'condition_variable' in P.T(x['t']).get('s', '')]
        if not cv: continue
        fl = [x['name'] for x in d['fields'] if P.T(x['t']).get('s', '') in ('bool', 'std::atomic<bool>')]
        ct = [x['name'] for x in d['fields'] if P.T(x['t']).get('s', '').startswith(('std::deque', 'std::queue', 'std::list', 'std::vector'))]
        if len(fl) != 1 or len(ct) != 1 or len(cv) != 1:
            cx.undecided.append('queue class %s has another shape' % stem(r)); continue
        qs[r] = (ct[0], fl[0], cv[0])
    cx.anchor([q for q in qs if 'selftest' not in q], 'a queue class (container, flag, condition variable)')
    kinds = set()
    for r, (ct, fl, cv) in sorted(qs.items()):
        for f in sorted(P.by_cls.get(r, []), key=lambda f: f.key):
            if not f.blocks or f.get('ctor') or f.get('dtor') or f.name.startswith('operator') or f.get('access') == 'private': continue
            A = Queue(cx, r, ct, fl, cv)
            try: outs = A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
            except TooBig: cx.undecided.append(f.key[:100]); continue
            kinds |= operation(cx, P, r, f, A, outs)
    if not {'insert', 'remove', 'close'} <= kinds: cx.anchor(False, 'insert, remove and close operations of the queue')
    workers(cx, P, {q for q in qs if 'selftest' not in q})
    cx.expect_selftest('verif_selftest::lossy_queue')


def operation(cx, P, r, f, A, outs):
    kinds = set()
    nm = '%s::%s' % (stem(r), f.name)

    def bad(key, msg): cx.violation('%s|%s' % (nm, key), f.loc(), '%s: %s' % (nm, msg), func=f.key)
    g = lambda S, k: S.m.get((ST, k), 0)
    ins = any(g(S, 'ins') for k, S, v in outs); rem = any(g(S, 'rem') for k, S, v in outs) or A.waited
    closes = any(g(S, 'closes') for k, S, v in outs)
    rt = P.T(f.d['ret']) if f.d.get('ret') is not None else {}
    isbool = rt.get('s') == 'bool'
    cx.obligation('%s on every path' % f.key[:110])
    for k, S, v in outs:
        if g(S, 'reopens'): bad('reopen', 'reopens a closed queue')
        if k == 'x':
            if g(S, 'rem') and not g(S, 'ins'): bad('lost', 'an element is removed although the operation fails with an exception')
            continue
        if g(S, 'unnotified'): bad('notify', 'an element is inserted on some path without waking a waiter afterwards')
        if g(S, 'unnotified_close'): bad('notify-close', 'the queue is closed on some path without waking all waiters afterwards')
        if g(S, 'rem_unknown') or g(S, 'read_unknown'): bad('empty', 'the container is read or shrunk on some path without knowing that it is not empty')
        if ins and not rem:
            kinds.add('insert')
            t = A.truth(S, v) if v is not None else None
            if isbool and t is None: bad('answer', 'the answer does not tell whether the element was inserted')
            want = 1 if (t is True or not isbool) else 0
            if g(S, 'ins') != want: bad('count', 'an accepted element is not inserted exactly once' if want else 'an element is inserted although it is reported as refused')
            if want and g(S, 'ins_front'): bad('order', 'elements are not inserted at the back')
            if want and g(S, 'ins_closed') is not False: bad('closed', 'an element is inserted on some path although the queue may be closed')
            if not want and A.closed(S) is not True: bad('refuse', 'an element is refused on some path although the queue is open')
        if rem and not ins:
            kinds.add('remove')
            none = v == const(None) or v is not None and (v == ('empty',) or A.truth(S, v) is False)
            if none:
                if g(S, 'rem'): bad('lost', 'an element is removed but not returned')
                if A.closed(S) is not True or A.empty(S) is not True: bad('early', 'an empty answer is given although the queue is open or not drained')
            else:
                if g(S, 'rem') != 1: bad('count', 'an element that is returned is not removed exactly once')
                if g(S, 'rem_back') or g(S, 'rem_any'): bad('order', 'the element that is removed is not the oldest one')
                if not g(S, 'took_first') or g(S, 'after_rem'): bad('order2', 'the element is removed before it is read')
        if closes: kinds.add('close')
    if closes and not all(g(S, 'closes') for k, S, v in outs if k == 'n'): bad('close', 'some path leaves the queue open')
    for fx, e, em, cl, how in A.waits:
        if em is not True or cl is not False: bad('sleep', 'a thread can go to sleep although %s' % ('the queue may be closed' if cl is not False else 'the queue may hold an element')); break
    return kinds


# ---------------------------------------------------------------------------------------------- worker threads
class Worker(AbsInt):
    exc = True

    def __init__(self, cx, takes): super().__init__(cx); self.takes = takes; self.bad = []; self.n = 0

    def hook_descend(self, fr, S, e, n, g): return g.parent is not None or g.cls == fr.f.cls

    def hook_call(self, fr, S, e, n):
        qn = n.get('qn', '')
        if n['k'] == 'call' and n.get('fn') in self.takes:
            self.n += 1
            if S.m.get((ST, 'pending')): self.bad.append((fr.f, e, 'an element is taken while another one has not been run'))
            A, B = S.copy(), S.copy()
            A.m[(ST, 'pending')] = 1; B.m[(ST, 'drained')] = 1
            return [('n', A, ('rec', ('nn', 'opt'), frozenset({(('*',), ('w', 'task'))}))), ('n', B, const(None))]
        if qn in ('std::invoke', 'std::apply') or n.get('op') == '()':
            a = n['args'][0] if qn.startswith('std::') and n.get('args') else n.get('obj')
            t = fr.f.type(a).get('s', '') if a is not None else ''
            if 'function' in t or 'task' in t:
                S = S.copy()
                if not S.m.get((ST, 'pending')): self.bad.append((fr.f, e, 'something is run that was not taken from the queue, or an element is run twice'))
                S.m[(ST, 'pending')] = 0
                return [('n', S, None)]
        return None


def workers(cx, P, queues):
    takes = {f.key for q in queues for f in P.by_cls.get(q, []) if f.name in ('take', 'pop', 'get', 'dequeue') or takes_elem(P, f)}
    closers = {f.key for q in queues for f in P.by_cls.get(q, []) if f.blocks and not f.get('ctor') and any(n and n['k'] == 'call' and n.get('qn', '').endswith('::notify_all') for n in f.E)}
    n = 0
    for r, d in sorted(P.records.items()):
        if not r.startswith('gapp::'): continue
        th = [i for i, x in enumerate(d['fields']) if P.T(x['t']).get('s', '') in ('std::jthread', 'std::thread')]
        qi = [i for i, x in enumerate(d['fields']) if P.T(x['t']).get('rec', '') in queues]
        if not th: continue
        n += 1
        joins_itself = P.T(d['fields'][th[0]]['t']).get('s') == 'std::jthread'
        cx.obligation('lifetime of the queue of %s' % stem(r))
        for i in qi:
            if i > th[0]: cx.violation('lifetime|%s' % stem(r), '%s:%s' % (P.files[d['file']], d['fields'][i].get('l')), '%s: the queue is declared after the thread that uses it, so it is destroyed (and constructed) on the wrong side of the thread\'s life' % stem(r), func=r)
        if not joins_itself and not any(f.get('dtor') and f.blocks and any(x and x['k'] == 'call' and x.get('qn', '').endswith('::join') for x in f.E) for f in P.by_cls.get(r, [])):
            cx.violation('join|%s' % stem(r), '%s:%s' % (P.files[d['file']], d.get('l', 0)), '%s does not join its thread' % stem(r), func=r)
        mains = main_of(P, r, d)
        cx.anchor(mains, 'main function of the worker threads')
        for f in mains:
            A = Worker(cx, takes)
            try: outs = A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
            except TooBig: cx.undecided.append(f.key[:100]); continue
            cx.obligation('worker main %s' % f.key[:100])
            if not A.n: cx.violation('worker|notake', f.loc(), 'the worker thread never takes anything from a queue', func=f.key)
            for fx, e, msg in A.bad: cx.violation('worker|%s' % msg[:30], fx.loc(e), 'worker thread: %s' % msg, func=f.key)
            for k, S, v in outs:
                if k == 'x': continue
                if S.m.get((ST, 'pending')): cx.violation('worker|dropped', f.loc(), 'the worker thread can stop with an element it has taken but not run', func=f.key)
                if not S.m.get((ST, 'drained')): cx.violation('worker|stop', f.loc(), 'the worker thread can stop before its queue is closed and drained', func=f.key)
            if not any(k == 'n' for k, S, v in outs): cx.violation('worker|forever', f.loc(), 'the worker thread never stops, so joining it never returns', func=f.key)
        shutdown(cx, P, r, closers)
    cx.anchor(n, 'a class that owns a worker thread')


def takes_elem(P, f):
    return f.blocks and not f.get('ctor') and 'optional' in (P.T(f.d['ret']).get('s', '') if f.d.get('ret') is not None else '') and any(n and n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in REM for n in f.E)


def main_of(P, r, d):
    """functions named or created in the initialiser of the thread member"""
    out = set()
    for f in P.funcs.values():
        if f.cls == r and (f.get('ctor')) :
            for n in f.E:
                if n and n['k'] in ('fnref', 'mref') and n.get('fn') in P.funcs and P.funcs[n['fn']].cls == r: out.add(n['fn'])
                if n and n['k'] == 'lambda': out |= set(n['ops'])
    for f in P.by_cls.get(r, []):
        if f.get('static') and f.blocks: out.add(f.key)
    return [P.funcs[k] for k in sorted(out) if k in P.funcs and P.funcs[k].blocks]


class Shutdown(AbsInt):
    max_depth = 6

    def __init__(self, cx, field, closers): super().__init__(cx); self.wfield = field; self.closers = closers; self.bad = []

    def hook_descend(self, fr, S, e, n, g): return g.cls == fr.f.cls or g.parent is not None

    def hook_call(self, fr, S, e, n):
        if n['k'] == 'call' and n.get('fn') in self.closers:
            S = S.copy(); S.m[(ST, 'closed')] = 1; return [('n', S, None)]
        if 'obj' in n and n['k'] == 'call':
            nm = n.get('qn', '').rsplit('::', 1)[-1]
            l = self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj'])
            if l == (('this',), (self.wfield,)) and nm in REPLACE and not S.m.get((ST, 'closed')):
                self.bad.append((fr.f, e))
        return None


def shutdown(cx, P, worker, closers):
    """the owner of the workers closes every queue (a loop over all workers) before the workers are destroyed or replaced"""
    owners = [(r, x['name']) for r, d in P.records.items() for x in d['fields'] if worker in P.T(x['t']).get('s', '') and r != worker]
    cx.anchor(owners, 'owner of the workers')
    for r, fld in owners:
        closing = {f.key for f in P.by_cls.get(r, []) if f.blocks and closes_all(P, f, fld, closers)}
        wdtor = any(f.get('dtor') and f.blocks and any(n and n['k'] == 'call' and n.get('fn') in closers for n in f.E) for f in P.by_cls.get(worker, []))
        for f in sorted(P.by_cls.get(r, []), key=lambda f: f.key):
            if not f.blocks or wdtor: continue
            if f.get('dtor'):
                cx.obligation('%s closes its queues before joining' % stem(f.key))
                A = Shutdown(cx, fld, closing)
                outs = A.call_fn(f, Store(), this=(('this',), ()), args=[])
                own = f.key in closing
                for k, S, v in outs:
                    if k == 'n' and not S.m.get((ST, 'closed')) and not own: cx.violation('shutdown|%s' % stem(r), f.loc(), '%s can be destroyed without closing every queue first: joining the workers never returns' % stem(r), func=f.key); break
            elif not f.get('ctor') and f.key not in closing and replaces(P, f, fld):
                A = Shutdown(cx, fld, closing)
                try: A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
                except TooBig: continue
                for fx, e in A.bad: cx.violation('replace|%s' % stem(f.key), fx.loc(e), '%s replaces the workers without closing every queue first' % f.name, func=f.key)
        if not wdtor and not any(f.get('dtor') and f.blocks for f in P.by_cls.get(r, [])):
            cx.violation('shutdown|%s' % stem(r), '%s' % stem(r), '%s does not close the queues of its workers' % stem(r), func=r)


REPLACE = ('operator=', 'clear', 'resize', 'assign', 'pop_back', 'erase', 'swap', 'exchange')


def replaces(P, f, fld):
    for k in roles_closure(P, f):
        g = P.funcs[k]
        for n in g.E:
            if n and n['k'] == 'call' and (n.get('op') == '=' or n.get('qn', '').rsplit('::', 1)[-1] in REPLACE):
                for a in ([n['obj']] if 'obj' in n else []) + [a for a in n.get('args', []) if a is not None and a >= 0]:
                    if g.E[a] and g.E[a]['k'] == 'field' and g.E[a]['name'] == fld: return True
    return False


def roles_closure(P, f):
    from rules.c08 import closure
    return closure(P, f)


def closes_all(P, f, fld, closers):
    """contains an unconditional loop over the workers whose body closes the queue on every path"""
    loops = f.loops() if hasattr(f, 'loops') else None
    for e, n in enumerate(f.E):
        if n and n['k'] == 'call' and n.get('fn') in closers:
            b = f.block_of(e) if hasattr(f, 'block_of') else next((b for b in f.blocks if e in f.blocks[b]['e']), None)
            if b is None: continue
            # no path from the loop head around the loop avoids this block; loop entered from the entry on every path
            head = [h for h in f.blocks if b_reach(f, b, h) and b_reach(f, h, b)]
            if not head: continue
            cyc = set(head)
            hd = [h for h in cyc if any(p not in cyc for p in preds(f, h))]
            if len(hd) != 1: continue
            h = hd[0]
            if cycle_avoiding(f, h, b, cyc): continue
            exits = [(x, s) for x in cyc for s in f.blocks[x]['s'] if s >= 0 and s not in cyc]
            if any(x != h for x, s in exits): continue
            if path_avoiding(f, f.entry, f.exit, h): continue
            return True
        if n and n['k'] == 'call' and n.get('qn', '').startswith(('std::for_each', 'std::ranges::for_each', 'std::ranges::__for_each')):
            for a in n.get('args', []):
                for x in f.subtree(a):
                    if f.E[x] and f.E[x]['k'] == 'lambda' and any(y and y['k'] == 'call' and y.get('fn') in closers for o in f.E[x]['ops'] if o in P.funcs for y in P.funcs[o].E): return True
    return False


def preds(f, h): return [b for b in f.blocks if h in f.blocks[b]['s']]


def b_reach(f, a, b):
    seen = set(); st = [s for s in f.blocks[a]['s'] if s >= 0]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += [s for s in f.blocks[x]['s'] if s >= 0]
    return False


def cycle_avoiding(f, h, b, cyc):
    if h == b: return False
    seen = set(); st = [s for s in f.blocks[h]['s'] if s in cyc and s != b]
    while st:
        x = st.pop()
        if x == h: return True
        if x in seen: continue
        seen.add(x); st += [s for s in f.blocks[x]['s'] if s in cyc and s != b]
    return False


def path_avoiding(f, a, z, h):
    if a == h: return False
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x == z: return True
        if x in seen: continue
        seen.add(x); st += [s for s in f.blocks[x]['s'] if s >= 0 and s != h]
    return False
