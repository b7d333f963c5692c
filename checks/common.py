"""Shared runner of the checks: loads the program, collects obligations and
violations, matches known findings, writes evidence, sets the exit status."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(20000)
import build
import flow
from build import Broken

KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.prog = build.load()
        self._A = None
        self.viol = {}
        self.obl = 0
        self.kinds = {}
        self.samples = []
        self.notes = {}
        self.known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l:
                    r = json.loads(l)
                    if r['property'] == pid and r.get('status') == 'known':
                        self.known[r['key']] = r

    @property
    def A(self):
        if self._A is None:
            self._A = flow.Analysis(self.prog)
        return self._A

    def fn(self, name):
        """an anchor function; its absence means the analysis no longer applies"""
        if name not in self.prog.fns:
            raise Broken('anchor function %s not found' % name)
        return self.prog.fns[name]

    def ok(self, kind, sample=None, n=1):
        self.obl += n
        self.kinds[kind] = self.kinds.get(kind, 0) + n
        if sample is not None and len(self.samples) < 40 and sum(1 for s in self.samples if s.startswith(kind)) < 4:
            self.samples.append('%s: %s' % (kind, sample))

    def bad(self, key, where, text, trace=None):
        """key identifies the violated instance without line numbers"""
        self.viol.setdefault(key, (where, text, trace))

    def need(self, kind, n):
        """instance floor: fewer obligations than confirmed by hand means the rule went blind"""
        if self.kinds.get(kind, 0) < n and not self.viol:
            raise Broken('only %d instances of rule "%s" analysed, expected at least %d' % (self.kinds.get(kind, 0), kind, n))

    def finish(self, rule, assumptions=(), trusted=None):
        new = {k: v for k, v in self.viol.items() if k not in self.known}
        old = {k: v for k, v in self.viol.items() if k in self.known}
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': rule,
                'functions_in_program': len(self.prog.fns),
                'obligations': self.obl,
                'discharged': self.obl - len(self.viol),
                'obligations_by_rule': self.kinds,
                'samples': self.samples,
                'known_findings': sorted(old),
                'analysed': self.notes,
                'exhaustive': True,
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.pid, self.known[k]['what'], k, old[k][0]))
        rep = os.path.join('evidence', self.pid + '.violations.txt')
        full = os.path.join(VERIF, rep)
        if os.path.exists(full):
            os.remove(full)
        if new:
            with open(full, 'w') as o:
                for k in sorted(new):
                    w, t, tr = new[k]
                    o.write('[%s]\n  at   %s\n  rule %s\n' % (k, w, t))
                    if tr:
                        o.write('  path lines %s\n' % ' '.join(str(x) for x in tr))
            for k in sorted(new):
                print('  %s: %s [%s]' % (new[k][0], new[k][1], k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        print('OK property=%s obligations=%d %s (%.1fs)' % (self.pid, self.obl, self.kinds, time.time() - self.t0))
        return 0


def main(pid, body):
    try:
        c = Check(pid)
        r = body(c)
        sys.exit(c.finish(*r) if isinstance(r, tuple) else c.finish(r))
    except Broken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN property=%s' % pid)
        sys.exit(2)
