"""Decides one property on the current tree of /repo.

    check.py PROPERTY [quick|thorough]
    check.py --replay FILE

Histories of public calls are made (by seeded generators, and by TLC from the design models), run against the real
library, and the recorded behaviours are checked by TLC against spec/Trace.tla.  Exit 0: the property held on everything
explored; 1: VIOLATION lines were printed; 2: the machinery itself failed.
"""

import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo') + '/src')

import tlc                     # noqa: E402
from props import PROPS, relevant   # noqa: E402

LEVEL = 'model_checking'
BATCH_BYTES = 1500000
BUDGET = {'quick': 600, 'thorough': 800}      # seconds after which no further work is begun
MAX_REPORT = 20


class Known:
    """The committed list of findings."""

    def __init__(self, path):
        self.known = []
        if os.path.exists(path):
            for ln in open(path):
                m = re.match(r'known: property=(\S+) case="([^"]*)" clause=(\S+) detail="([^"]*)" (.*)', ln)
                if m:
                    self.known.append(m.groups())

    def find(self, prop, case, clause, detail):
        for p, c, cl, d, what in self.known:
            if p == prop and c == case and cl == clause and d == detail:
                return what
        return None


def size_of(tr):
    return sum(len(f) for f in tr['files']) + 60 * len(tr['ev']) + sum(len(a['rows']) * 20 for a in tr['arrays']) \
        + sum(len(t['body']) for e in tr['ev'] for t in e.get('taps', []))


def batches(traces):
    out, cur, n = [], [], 0
    for t in traces:
        s = size_of(t)
        if cur and n + s > BATCH_BYTES:
            out.append(cur)
            cur, n = [], 0
        cur.append(t)
        n += s
    if cur:
        out.append(cur)
    return out


def short(case, n=12):
    """A case in a form fit for the evidence file."""
    def s(v):
        if isinstance(v, dict):
            if v.get('t') == 'txt':
                return ''.join(map(chr, v['c'][:40]))
            if v.get('t') == 'int':
                return int.from_bytes(bytes(v['m']), 'big') * (-1 if v['n'] else 1)
            if v.get('t') == 'none':
                return None
            return {k: s(x) for k, x in v.items() if k != 'py'}
        if isinstance(v, list):
            return [s(x) for x in v[:8]]
        return v
    return {'id': case['id'], 'events': [{k: s(v) for k, v in e.items() if v not in ('', None)} for e in case['ev'][:n]],
            'more_events': max(0, len(case['ev']) - n)}


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.trans = 0
        self.validated = 0
        self.writes = Counter()
        self.calls = Counter()
        self.fam = Counter()
        self.bytes = 0
        self.failed = []          # (case, event, clause, detail)
        self.errors = []
        self.samples = []
        self.problems = []
        self.models = {}
        self.skipped = 0
        self.other = Counter()

    def left(self):
        return BUDGET[self.tier] - (time.time() - self.t0)

    def judge(self, cases):
        """Run the cases and check the behaviours."""
        import driver
        res = driver.run_cases(cases, deadline=time.time() + max(60, self.left() / 2))
        byid = {c['id']: c for c in cases}
        traces = []
        for (tr, problems, _), case in zip(res, cases):
            if tr is None:
                self.skipped += 1
                continue
            if 'error' in tr:
                self.errors.append(f"{case['id']}: {tr['error']}")
                continue
            for p in problems:
                self.problems.append(f"{case['id']}: {p}")
            traces.append(tr)
        for b in batches(traces):
            if self.left() < 0:
                self.skipped += len(b)
                continue
            try:
                verdicts, s, t = tlc.check_traces(b, timeout=max(120, min(700, self.left() + 150)))
            except tlc.MachineryError as e:
                self.errors.append(str(e))
                continue
            self.states += s
            self.trans += t
            for tr in b:
                case = byid[tr['id']]
                self.validated += 1
                self.fam[case['fam']] += 1
                self.bytes += sum(len(f) for f in tr['files'])
                for e in tr['ev']:
                    if 'ok' in e:
                        self.calls[e['op'] + ('' if e['ok'] else ' raised')] += 1
                for v in verdicts[tr['id']]:
                    if relevant(self.prop, case, v[1]):
                        self.failed.append((case, tr) + v)
                    else:
                        self.other[v[1]] += 1

    def only_after_rejections(self):
        """C20: what fails also without the rejected calls is not their trace."""
        import driver
        keep, todo = [], {}
        for f in self.failed:
            if f[3] in ('det', 'raise'):
                keep.append(f)
            else:
                todo.setdefault(f[0]['id'], []).append(f)
        twins, names = [], {}
        for cid, fs in list(todo.items())[:30]:
            case, tr = fs[0][0], fs[0][1]
            bad = [k for k, e in enumerate(tr['ev']) if e.get('ok') is False]
            # events which were skipped are not in the trace: match in order
            ev, k = [], 0
            for e in case['ev']:
                t = tr['ev'][k] if k < len(tr['ev']) else None
                same = t is not None and t['op'] == e['op'] and t.get('ob') == e.get('ob') and t.get('l') == e.get('l')
                if same:
                    if k not in bad:
                        ev.append(e)
                    k += 1
            twin = dict(case, id='twin of ' + cid, ev=ev)
            twins.append(twin)
            names[cid] = twin['id']
        if twins:
            try:
                res = [r[0] for r in driver.run_cases(twins) if r[0] is not None and 'error' not in r[0]]
                verdicts, _, _ = tlc.check_traces(res)
            except tlc.MachineryError:
                verdicts = {}
            for cid, fs in todo.items():
                again = {(v[1], v[2]) for v in verdicts.get(names.get(cid), [])}
                keep += [f for f in fs if (f[3], f[4]) not in again]
        self.failed = keep

    def shrink(self):
        pass

    def report(self):
        known = Known(os.path.join(VERIF, 'known-findings.txt'))
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(rdir, f))
        n, said = 0, set()
        for case, tr, ev, clause, detail in self.failed:
            what = known.find(self.prop, case['id'], clause, detail)
            if what:
                if (case['id'], what) not in said:
                    said.add((case['id'], what))
                    print(f'KNOWN-FINDING: property={self.prop} {what}')
                continue
            n += 1
            if n > MAX_REPORT:
                continue
            path = os.path.join(rdir, f'{self.prop}-{n}.json')
            with open(path, 'w') as fh:
                json.dump({'property': self.prop, 'clause': clause, 'detail': detail, 'event': ev, 'case': case}, fh)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'    case "{case["id"]}", event {ev}: [{clause}] {detail}'[:400])
        if n > MAX_REPORT:
            print(f'    and {n - MAX_REPORT} more')
        return n

    def evidence(self, violations):
        cov = {
            'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.validated,
            'samples': self.samples[:3],
            'histories_by_family': dict(self.fam), 'calls_judged': dict(self.calls), 'file_bytes_parsed': self.bytes,
            'design_models': self.models,
            'deciding_clauses': sorted(PROPS[self.prop]['clauses']),
            'skipped_for_lack_of_time': self.skipped,
        }
        if self.other:
            cov['verdicts_of_other_properties'] = dict(self.other)
        if self.problems:
            cov['calls_that_did_not_return'] = self.problems[:20]
        d = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': LEVEL, 'coverage': cov,
             'assumptions': ['the specification in spec/ states RP66 v1 and the documented behaviour correctly',
                             'TLC evaluates it correctly',
                             'the driver records calls, outcomes and files faithfully'],
             'wall_s': round(time.time() - self.t0, 1), 'violations': violations}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.replace(path + '.tmp', path)

    def sample(self, cases):
        if cases and len(self.samples) < 3:
            c = random.Random(f'{self.seed}-sample-{cases[0]["fam"]}').choice(cases)
            self.samples.append(short(c))

    def main(self):
        import gens
        import models
        spec = PROPS[self.prop]
        # the design models are explored at the same time
        started = [models.start(name, self.tier, self.seed) for name in spec['models']]
        cases = []
        for f in spec['families']:
            cs = list(gens.FAMILIES[f](random.Random(f'{self.seed}-{f}'), self.tier))
            self.sample(cs)
            cases += cs
        self.judge(cases)
        for m in started:
            info, cases = m.finish(self.seed)
            self.models[m.name] = info
            self.states += info['states']
            self.trans += info['transitions']
            if info.get('failed'):
                self.errors.append('design model: ' + info['failed'])
            if cases:
                self.sample(cases)
                self.judge(cases)
        r = 0
        while self.tier == 'thorough' and self.left() > 60 and not self.failed:
            r += 1
            cases = []
            for f in spec['families']:
                cs = list(gens.FAMILIES[f](random.Random(f'{self.seed}-{f}-{r}'), 'quick' if r % 2 else 'thorough'))
                for c in cs:
                    c['id'] = f"r{r} {c['id']}"
                cases += cs
            random.Random(r).shuffle(cases)
            self.judge(cases)
        if self.prop == 'C20' and self.failed:
            self.only_after_rejections()
        n = self.report()
        self.evidence(n)
        if n:
            return 1
        if self.errors or not self.validated:
            for e in self.errors[:5]:
                print('MACHINERY:', e[-3000:], file=sys.stderr)
            return 2
        print(f'{self.prop} held: {self.validated} histories, {sum(self.calls.values())} calls, {self.states} states, '
              f'{time.time() - self.t0:.0f} s')
        return 0


def replay(path):
    import driver
    d = json.load(open(path))
    (tr, problems, _), = driver.run_cases([d['case']])
    verdicts, _, _ = tlc.check_traces([tr])
    again = False
    for ev, clause, detail in verdicts[tr['id']]:
        print(f'event {ev}: [{clause}] {detail}')
        again = again or relevant(d['property'], d['case'], clause)
    if again:
        print(f"VIOLATION property={d['property']} replay={path}")
    return 1 if again else 0


if __name__ == '__main__':
    tmp = tempfile.mkdtemp(prefix='dlisverif')
    os.environ['VERIF_TMP'] = tmp
    try:
        if sys.argv[1] == '--replay':
            rc = replay(sys.argv[2])
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            rc = Run(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))).main()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
