"""The design models: explored by TLC, which emits histories for the real library.

A model (spec/M*.tla) prints, for every transition of its state graph,  HIST|<base>|<calls as JSON>; the arrays used
and the calls every history of that base begins with are printed once (ARRAYS|, BASE|<base>|).
"""

import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

import tlc
import vals

# constants by tier; histories executed in the quick tier; properties for which refused calls and determinism count
MODELS = {
    'MMode': dict(quick={'MaxOps': 3}, thorough={'MaxOps': 4}, sim=({'MaxOps': 9, 'EmitAll': 'FALSE'}, 120, 10), n=150,
                  raise_=['C17', 'C14']),
    'MWriter': dict(quick={'MaxMrl': 24, 'Single': 50}, thorough={'MaxMrl': 40, 'Single': 130}, n=250,
                    raise_=['C15', 'C16', 'C10'], det=['C10']),
    'MHistory': dict(quick={'MaxOps': 2}, thorough={'MaxOps': 3}, sim=({'MaxOps': 9, 'EmitAll': 'FALSE'}, 150, 10), n=150,
                     raise_=['C14', 'C20'], det=['C14', 'C20']),
    'MRows': dict(quick={'MaxRows': 3}, thorough={'MaxRows': 5}, n=150, raise_=['C03', 'C10', 'C11'],
                  det=['C10', 'C11']),
    'MIndex': dict(quick={'MaxLen': 4, 'MaxSteps': 3}, thorough={'MaxLen': 5, 'MaxSteps': 4}, n=250, raise_=['C13']),
    'MStruct': dict(quick={'MaxOps': 3}, thorough={'MaxOps': 4}, sim=({'MaxOps': 14, 'EmitAll': 'FALSE'}, 60, 16), n=150,
                    raise_=['C09', 'C12', 'C16', 'C18']),
    'MSource': dict(quick={'MaxOps': 2}, thorough={'MaxOps': 3}, n=200, raise_=['C03', 'C11', 'C12', 'C14', 'C19'],
                    det=['C11', 'C14']),
    'MAttr': dict(quick={'MaxOps': 2, 'Width': 1, 'CheckStale': 'FALSE', 'EmitAll': 'FALSE'},
                  thorough={'MaxOps': 2, 'Width': 2, 'CheckStale': 'TRUE'},
                  sim=({'MaxOps': 7, 'Width': 2, 'CheckStale': 'FALSE', 'EmitAll': 'FALSE'}, 150, 8), n=150, raise_=['C05', 'C12', 'C20']),
    'MCodec': dict(quick={'Dense': 'FALSE'}, thorough={'Dense': 'TRUE'}, n=400, raise_=[]),
    'MChannel': dict(quick={'MaxOps': 2, 'Wide': 'FALSE'}, thorough={'MaxOps': 2, 'Wide': 'TRUE'},
                     sim=({'MaxOps': 9, 'Wide': 'TRUE', 'EmitAll': 'FALSE'}, 150, 10), simx=4, n=200, raise_=['C08', 'C14']),
    'MLatitude': dict(quick={'MaxObs': 2, 'Forms': '"few"', 'Dense': 'FALSE'}, thorough={'MaxObs': 2, 'Forms': '"many"', 'Dense': 'TRUE'},
                      n=150, raise_=['C04', 'C05']),
    'MShape': dict(quick={'MaxCh': 3, 'MaxBad': 1}, thorough={'MaxCh': 3, 'MaxBad': 3}, n=300, bybase=True,
                   raise_=['C03', 'C08', 'C12']),
    'MMember': dict(quick={'MaxCh': 2}, thorough={'MaxCh': 3}, n=250, bybase=True, raise_=['C17']),
    'MOracle': dict(quick={'Stride': 101}, thorough={'Stride': 5}, n=10, raise_=[]),
    'MNaming': dict(quick={'MaxOps': 2}, thorough={'MaxOps': 3}, sim=({'MaxOps': 9, 'EmitAll': 'FALSE'}, 120, 10), n=150,
                    raise_=['C07', 'C09', 'C18', 'C20']),
}
TIMEOUT = {'quick': 240, 'thorough': 700}
THOROUGH_N = 6000
SIM_FACTOR = 20


def complete(v):
    """Fields which the specification of text reads, and models leave out."""
    if isinstance(v, dict):
        if v.get('t') == 'txt' and 'dt' not in v:
            return dict(vals.txt(''.join(map(chr, v['c']))), **{k: x for k, x in v.items() if k not in ('asdt', 'asnum')})
        return {k: complete(x) for k, x in v.items()}
    if isinstance(v, list):
        return [complete(x) for x in v]
    return v


def signature(line, bybase=False):
    """Kinds of calls of a history, without parsing it; with bybase, also what the model calls its beginning."""
    return ((line.split('|', 2)[1],) if bybase else ()) + tuple(re.findall(r'\\"op\\":\\"(\w+)\\"', line)) + tuple(re.findall(r'\\"ty\\":\\"([\w-]+)\\"', line))


class Model:
    """One exhaustive exploration within small bounds, and (sim) one of random longer histories."""

    def __init__(self, name, tier, seed=1):
        self.name, self.tier = name, tier
        self.m = MODELS[name]
        self.tmp = tempfile.mkdtemp(prefix='model', dir=os.environ.get('VERIF_TMP', None))
        self.consts = dict(self.m[tier])
        self.t0 = time.time()
        self.procs = [self.tlc('bfs', self.consts, [])]
        if 'sim' in self.m:
            consts, num, depth = self.m['sim']
            num = num if tier == 'quick' else num * self.m.get('simx', SIM_FACTOR)
            self.procs.append(self.tlc('sim', consts, ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed)]))

    def tlc(self, kind, consts, extra):
        cfg = open(os.path.join(tlc.SPEC, self.name + '.cfg')).read()
        for k, v in consts.items():
            cfg, n = re.subn(rf'(\b{k} = )\S+', rf'\g<1>{v}', cfg)
            assert n == 1, k
        path = os.path.join(self.tmp, f'{kind}.cfg')
        with open(path, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xmx6g', '-Xss256m', '-XX:+UseSerialGC', '-cp', tlc._jars(), 'tlc2.TLC', '-workers', '1',
               '-metadir', os.path.join(self.tmp, 'meta' + kind), '-noTE', *extra, '-config', path, self.name + '.tla']
        return subprocess.Popen(cmd, cwd=tlc.SPEC, stdout=open(os.path.join(self.tmp, kind), 'wb'),
                                stderr=subprocess.STDOUT)

    def finish(self, seed):
        """What was explored, and the histories to execute."""
        stopped = False
        for p in self.procs:
            try:
                p.wait(max(5, TIMEOUT[self.tier] - (time.time() - self.t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                stopped = True
        rng = random.Random(f'{seed}-{self.name}')
        want = self.m['n'] if self.tier == 'quick' else THOROUGH_N
        info = {'constants': self.consts, 'wall_s': round(time.time() - self.t0, 1), 'complete': not stopped}
        cases = []
        try:
            out = self.read('bfs', rng, want)
            info['states'], info['transitions'] = tlc.stats(out['rest'])
            info['histories_emitted'] = out['total']
            if not stopped and 'Model checking completed. No error has been found.' not in out['rest']:
                info['failed'] = f'{self.name}: ' + out['rest'][-2500:]
            cases += self.cases(out, self.name)
            if len(self.procs) > 1:
                out = self.read('sim', rng, want)
                m = re.findall(r'([\d,]+) states checked, ([\d,]+) traces generated', out['rest'])
                if m:
                    info['simulated_states'], info['simulated_histories'] = [int(x.replace(',', '')) for x in m[-1]]
                    info['transitions'] += info['simulated_states']
                if not stopped and ('Error:' in out['rest'] or not m):
                    info['failed'] = f'{self.name} (simulation): ' + out['rest'][-2500:]
                cases += self.cases(out, self.name + ' long')
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        info['histories_executed'] = len(cases)
        return info, cases

    def read(self, kind, rng, want):
        groups, base, arrays, rest, total, seen = {}, {}, [], [], 0, set()
        with open(os.path.join(self.tmp, kind), errors='replace') as f:
            for ln in f:
                if ln.startswith('"HIST|') and ln.endswith('"\n'):
                    if hash(ln) in seen:
                        continue
                    seen.add(hash(ln))
                    total += 1
                    g = groups.setdefault(signature(ln, self.m.get('bybase')), [0, []])
                    g[0] += 1
                    # a sample of each kind of history
                    if len(g[1]) < want:
                        g[1].append(ln)
                    else:
                        i = rng.randrange(g[0])
                        if i < want:
                            g[1][i] = ln
                elif ln.startswith('"BASE|'):
                    _, b, js = tlc.unescape(ln.strip()[1:-1]).split('|', 2)
                    base[b] = json.loads(js)
                elif ln.startswith('"ARRAYS|'):
                    arrays = json.loads(tlc.unescape(ln.strip()[1:-1]).split('|', 1)[1])
                elif not ln.startswith(('Parsing file', 'Semantic processing', 'Linting of')):
                    rest.append(ln)
        # every kind of history in turn
        pools = [g[1] for _, g in sorted(groups.items())]
        for p in pools:
            rng.shuffle(p)
        rng.shuffle(pools)
        lines, i = [], 0
        while len(lines) < want and any(len(p) > i for p in pools):
            lines += [p[i] for p in pools if len(p) > i]
            i += 1
        return {'lines': lines[:want], 'base': base, 'arrays': arrays, 'rest': ''.join(rest), 'total': total}

    def cases(self, out, name):
        cases = []
        for k, ln in enumerate(out['lines']):
            _, b, js = tlc.unescape(ln.strip()[1:-1]).split('|', 2)
            h = json.loads(js)
            own = isinstance(h, dict)            # a history with its own arrays
            cases.append({'id': f'{name} {k}', 'fam': self.name, 'arrays': h['arrays'] if own else out['arrays'],
                          'ev': complete(out['base'].get(b, []) + (h['ev'] if own else h)), 'tzoff': 0,
                          'meta': {'raise_': self.m.get('raise_', []), 'det': self.m.get('det', [])}})
        return cases


def start(name, tier, seed=1):
    return Model(name, tier, seed)
