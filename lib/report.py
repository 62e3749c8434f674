"""Obligation bookkeeping, evidence, known findings, exit protocol."""
import os, sys, json, time, re
import build

VERIF = build.VERIF


class Report:
    def __init__(self, pid, rule, technique):
        self.pid, self.rule, self.technique = pid, rule, technique
        self.t0 = time.time()
        self.obl = []            # (kind, instance, ok, detail)
        self.viol = {}           # key -> (loc, msg)
        self.analysed = {}       # free counters
        self.notes = []
        self.floors = []
        self.undecided = []

    def ok(self, kind, inst, detail=''):
        self.obl.append((kind, inst, True, detail))

    def bad(self, kind, inst, loc, msg, key=None):
        """inst identifies the construct; key is stable across line moves"""
        self.obl.append((kind, inst, False, msg))
        key = key or ('%s:%s' % (kind, inst))
        self.viol.setdefault(key, (loc, kind, inst, msg))

    def check(self, kind, inst, good, loc, msg, key=None):
        if good:
            self.ok(kind, inst)
        else:
            self.bad(kind, inst, loc, msg, key)
        return good

    def skip(self, kind, inst, why):
        """shape not recognised: stays undecided, reported in the evidence"""
        self.undecided.append('%s: %s: %s' % (kind, inst, why))

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def floor(self, what, n, least):
        self.floors.append((what, n, least))

    def note(self, s):
        self.notes.append(s)


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(.+?) \| (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(rep):
    pid = rep.pid
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kn = known(pid)
    new = {k: v for k, v in rep.viol.items() if k not in kn}
    old = {k: v for k, v in rep.viol.items() if k in kn}
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[k], v[0]))
    if not new:
        for what, n, least in rep.floors:
            if n < least:
                raise build.AnalysisBroken('%s: only %d instances, at least %d expected (anchors vanished?)' % (what, n, least))
    kinds = {}
    for kind, inst, ok, d in rep.obl:
        e = kinds.setdefault(kind, dict(obligations=0, discharged=0, samples=[]))
        e['obligations'] += 1
        e['discharged'] += bool(ok)
        if len(e['samples']) < 3 and ok:
            e['samples'].append(('%s: %s' % (inst, d))[:300] if d else inst[:300])
    n = len(rep.obl)
    good = sum(1 for o in rep.obl if o[2])
    replay = os.path.join(ev, pid + '.report.txt')
    with open(replay, 'w') as f:
        f.write('property %s\nrule: %s\n\n' % (pid, rep.rule))
        for k, (loc, kind, inst, msg) in sorted(new.items()):
            f.write('VIOLATION %s\n  rule: %s\n  construct: %s\n  at: %s\n  %s\n\n' % (k, kind, inst, loc, msg))
        for u in rep.undecided:
            f.write('undecided: %s\n' % u)
    doc = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1') or 1),
               level='other', wall_s=round(time.time() - rep.t0, 2), violations=len(new),
               coverage=dict(
                   explanation='%s. Static analysis of the current sources (clang front end with the build\'s flags, SSA form); '
                               'nothing is executed. Each obligation is one rule instance found in the code.' % rep.rule,
                   technique=rep.technique, obligations=n, discharged=good, undecided=len(rep.undecided),
                   undecided_list=rep.undecided[:40], rules=kinds, analysed=rep.analysed,
                   samples=[s for e in kinds.values() for s in e['samples']][:12],
                   known_findings=sorted(old)),
               assumptions=rep.notes)
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    print('%s: %d obligations, %d discharged, %d known findings, %d undecided shapes; analysed %s' %
          (pid, n, good, len(old), len(rep.undecided), rep.analysed))
    if new:
        for k, (loc, kind, inst, msg) in sorted(new.items())[:50]:
            print('  %s: [%s] %s: %s' % (loc, kind, inst, msg))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
