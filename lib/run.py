"""Check runner: facts -> rule -> evidence, known findings, exit status."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts as facts_mod
from facts import AnalysisBroken, VERIF
import ir, effects

EVID = os.environ.get('GAPP_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Ctx:
    """What a rule gets: the program, the effect engine and the result collectors."""

    def __init__(self, pid, P, info, tier):
        self.pid = pid; self.P = P; self.info = info; self.tier = tier
        self.paths = effects.Paths(P); self.effects = effects.Effects(P, self.paths)
        self.violations = []; self.selftest_hits = set(); self.selftests = []
        self.obligations = []; self.undecided = []; self.notes = []; self.coverage = {}
        self.assumptions = []
        self._seen = set()

    def obligation(self, what, ok=True):
        self.obligations.append((what, ok))

    def violation(self, key, loc, msg, trace=(), func=''):
        """key identifies the instance stably (no line numbers)"""
        if 'verif_selftest' in key or 'verif_selftest' in func or (loc or '').startswith('inst.inc'):
            self.selftest_hits.add(key if 'verif_selftest' in key else func + '|' + key)
            self.selftest_hits.add(func)
            return
        k = (key, loc)
        if k in self._seen: return
        self._seen.add(k)
        self.violations.append(dict(key=key, loc=loc, msg=msg, trace=list(trace)[:12], function=func))

    def expect_selftest(self, token):
        """a planted construct of the instantiation file the rule must report"""
        self.selftests.append(token)

    def anchor(self, cond, what):
        if not cond: raise AnalysisBroken('anchor not found: ' + what)


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('{'): continue
            out.append(json.loads(line))
    return out


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        d, info = facts_mod.get_facts()
        P = ir.Program(d)
        cx = Ctx(pid, P, info, tier)
        mod.check(cx)
        missing = [s for s in cx.selftests if not any(s in h for h in cx.selftest_hits)]
        seg_dropped = info.get('dropped_segments', [])
        if missing and 'selftest' not in ' '.join(seg_dropped):
            raise AnalysisBroken('self-test construct(s) no longer reported: ' + ', '.join(missing))
        if not cx.obligations: raise AnalysisBroken('no instance of the rule was found')
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    new, listed = [], []
    for v in cx.violations:
        kf = next((k for k in known if k['key'] == v['key']), None)
        (listed if kf else new).append((v, kf))
    seen = set()
    for v, kf in listed:
        if kf['key'] in seen: continue
        seen.add(kf['key'])
        print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    distinct = sorted(set(o[0] for o in cx.obligations))
    cov = dict(
        explanation=(mod.__doc__ or '').strip(),
        rule=getattr(mod, 'RULE', ''),
        obligations=len(cx.obligations), discharged=sum(1 for o in cx.obligations if o[1]),
        distinct_obligations=len(distinct),
        samples=distinct[:getattr(mod, 'SAMPLES', 25)],
        functions_in_program=len(P.lib_funcs()),
        analysed=dict(info),
        self_tests=cx.selftests, uninstantiated_templates=len(P.unused_templates),
        undecided=cx.undecided[:40], notes=cx.notes[:40])
    cov.update(cx.coverage)
    cov['violations'] = [v for v, _ in new][:50]
    cov['known'] = [v for v, _ in listed][:50]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
              assumptions=cx.assumptions + getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if new:
        rp = os.path.join(EVID, pid + '.violations.json')
        json.dump([v for v, _ in new], open(rp, 'w'), indent=1)
        for v, _ in new[:40]:
            print('%s: %s' % (v['loc'], v['msg']))
            for t in v['trace']: print('    via %s' % t)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d distinct=%d functions=%d %.1fs' % (pid, len(cx.obligations), len(distinct), len(P.lib_funcs()), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
