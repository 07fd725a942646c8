"""Obligations, violations, known findings and evidence of one check run."""
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


def check(prop, rule, trusted=(), level='other'):
    def d(f):
        REGISTRY[prop] = (f, rule, list(trusted), level)
        return f
    return d


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obligations = 0
        self.discharged = 0
        self.kinds = {}
        self.violations = []      # (key, where, message, detail)
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, kind, good, where, msg, key=None, detail=None, sample=None):
        """one proof obligation; a violated one is reported under a line-number-free key"""
        self.obligations += 1
        k = self.kinds.setdefault(kind, [0, 0])
        k[0] += 1
        if good:
            k[1] += 1
            self.discharged += 1
            if len(self.samples) < 400 and k[1] <= 3:
                self.samples.append({'rule': kind, 'where': str(where), 'what': msg, 'holds': True})
        else:
            self.violate(kind, where, msg, key, detail)
        return good

    def violate(self, kind, where, msg, key=None, detail=None):
        key = key or '%s: %s' % (kind, msg)
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append({'key': key, 'rule': kind, 'where': str(where), 'message': msg, 'detail': detail})

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.violate('floor', name, 'analysed only %d %s, expected at least %d: the rule no longer sees the code it '
                         'is about' % (n, name, least), 'floor: ' + name)

    def fn(self, *names):
        self.functions.update(names)


def known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                out.append(json.loads(l))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    f, rule, trusted, level = REGISTRY[prop]
    r = Report(prop, tier)
    sys.setrecursionlimit(20000)
    try:
        f(r)
    except Exception as e:   # fail closed: an unanalysable tree is not a passing one
        tb = traceback.format_exc()
        r.violate('analysis', type(e).__name__, 'the tree could not be analysed: %s' % str(e)[:1500],
                  'analysis: ' + type(e).__name__, tb[-4000:])
    kf = [k for k in known() if k.get('property') == prop and 'key' in k]
    viol = []
    for v in r.violations:
        hit = [k for k in kf if k['key'] == v['key']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
        else:
            viol.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {
        'explanation': rule,
        'obligations': r.obligations,
        'discharged': r.discharged,
        'obligations_by_rule': {k: {'checked': a, 'hold': b} for k, (a, b) in sorted(r.kinds.items())},
        'counts': r.counts,
        'functions_analysed': len(r.functions),
        'functions': sorted(r.functions)[:400],
        'samples': r.samples[:60],
        'checker_cmd': 'python3 run.py %s %s' % (prop, tier),
        'trusted_base': trusted + BASE,
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': r.notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
        o.write('\n')
    print('%s: %d obligations, %d hold; %d functions analysed; %s; %.1f s' % (
        prop, r.obligations, r.discharged, len(r.functions),
        ', '.join('%s=%s' % kv for kv in sorted(r.counts.items())), time.time() - t0))
    if viol:
        rp = os.path.join(VERIF, 'evidence', '%s-violations.json' % prop)
        with open(rp, 'w') as o:
            json.dump(viol, o, indent=1)
            o.write('\n')
        for v in viol[:20]:
            print('  [%s] %s: %s' % (v['rule'], v['where'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    rp = os.path.join(VERIF, 'evidence', '%s-violations.json' % prop)
    if os.path.exists(rp):
        os.remove(rp)
    return 0


BASE = ['rustc 1.70 front end (MIR emitted from the same crate configuration the build uses, dev profile)',
        'vsa/mir.py, vsa/absint.py, vsa/engine.py, vsa/models.py (the analysis and its models of std)']
