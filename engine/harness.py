"""Runs one property check: floors, violations, known findings, evidence, exit codes."""
import json, os, resource, sys, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'rules'))
import facts, interp
from facts import AnalysisBroken
from interp import Broken


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.counts = {}
        self.viol = {}          # key -> message
        self.samples = []
        self.functions = set()
        self.assumptions = []
        self.rules = []
        self.notes = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, rule, sample=None):
        """one obligation of `rule` examined"""
        self.count('obligations')
        self.count('rule:' + rule)
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def check(self, cond, rule, key, msg, sample=None):
        self.ok(rule, sample)
        if not cond:
            self.violation(rule, key, msg)
        return cond

    def violation(self, rule, key, msg):
        k = rule + '|' + key
        self.viol.setdefault(k, msg)

    def floor(self, what, n, minimum):
        self.counts['floor:' + what] = n
        if n < minimum:
            raise AnalysisBroken('%s: only %d %s analysed, expected at least %d' % (self.pid, n, what, minimum))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def fn(self, *keys):
        self.functions.update(keys)


def where(f, ln=None):
    return '%s:%s' % (f['file'], ln or f['ln'])


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith('{'):
                continue
            o = json.loads(line)
            if o.get('property') == pid and o.get('status') == 'known':
                out[o['key']] = o
    return out


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid, tier)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    try:
        prog = facts.Program()
        mod = importlib.import_module(pid.lower() if os.path.exists(os.path.join(VERIF, 'rules', pid.lower() + '.py')) else pid)
        mod.run(prog, rep)
        rep.floor('obligations', rep.counts.get('obligations', 0), getattr(mod, 'MIN_OBLIGATIONS', 1))
    except (AnalysisBroken, Broken) as e:
        if not set(rep.viol) - set(known(pid)):
            if '--trace' in argv:
                traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 3
        # violations found before the analysis gave up stand on their own
        rep.notes.append('analysis incomplete: %s' % e)
        print('note: analysis incomplete: %s' % e)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    kn = known(pid)
    new, old = {}, {}
    for k, m in rep.viol.items():
        (old if k in kn else new)[k] = m
    for k in kn:
        if k in old:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k].get('what', k)))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    wall = round(time.time() - t0, 2)
    cov = {'explanation': '; '.join(rep.rules) or 'see DESIGN.md',
           'obligations': rep.counts.get('obligations', 0),
           'functions_analysed': len(rep.functions),
           'functions': sorted(rep.functions)[:400],
           'translation_units': len(prog.tus),
           'functions_in_program': len(prog.fns),
           'counts': {k: v for k, v in sorted(rep.counts.items())},
           'samples': rep.samples,
           'notes': rep.notes,
           'known_findings_reported': len(old)}
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': rep.assumptions, 'wall_s': wall, 'violations': len(new)},
              open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations over %d functions (%d TUs), %d known finding(s), %d violation(s), %.1fs' %
          (pid, rep.counts.get('obligations', 0), len(rep.functions), len(prog.tus), len(old), len(new), wall))
    if new:
        d = os.path.join(VERIF, '.cache', 'reports')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as f:
            for k, m in new.items():
                f.write('[%s]\n%s\n\n' % (k, m))
        for k, m in list(new.items())[:25]:
            print('  [%s] %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
