"""Runs TLC: on recorded histories (Trace.tla) and on the design models."""

import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def _jars():
    cp = os.environ.get('TLA_CP')
    if cp:
        return cp
    d = os.path.dirname(JAVA_CP)
    jars = [JAVA_CP] + sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith('.jar') and 'tla2tools' not in x)
    return ':'.join(jars)


def run(module, config, env=None, workers=8, mem='12g', timeout=850, extra=(), stack='512m'):
    """One TLC run in a scratch directory; returns (return code, output)."""
    tmp = tempfile.mkdtemp(prefix='tlcrun', dir=os.environ.get('VERIF_TMP', None))
    try:
        cmd = ['java', f'-Xmx{mem}', f'-Xss{stack}', '-XX:+UseParallelGC', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
               '-cp', _jars(), 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'), '-noTE',
               '-config', config, *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
    m2 = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m2:
        return 0, 0
    return int(m2[-1][1].replace(',', '')), int(m2[-1][0].replace(',', ''))


def unescape(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


MAX_UNDECIDED = 15


def check_traces(traces, workers=8, mem='10g', timeout=850):
    """Verdicts on trace cases: {case id: [(event, clause, detail)]}, number of states and transitions.

    A behaviour which the specification cannot even evaluate gets the clause 'undec'."""
    res, states, trans = {}, 0, 0
    todo = list(traces)
    end = time.time() + timeout
    undecided = 0
    while todo:
        tmp = tempfile.mkdtemp(prefix='tlctrace', dir=os.environ.get('VERIF_TMP', None))
        try:
            path = os.path.join(tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for t in todo:
                    f.write(json.dumps(t) + '\n')
            try:
                rc, out = run('Trace.tla', 'Trace.cfg', env={'TRACE': path}, workers=workers, mem=mem,
                              timeout=max(30, end - time.time()))
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC took too long')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        s, t = stats(out)
        states += s
        trans += t
        done = set(re.findall(r'^"DONE\|(.*)"$', out, re.M))
        verdicts = {}
        for ln in out.splitlines():
            if ln.startswith('"VERDICT|'):
                _, cid, ev, clause, detail = unescape(ln[1:-1]).split('|', 4)
                v = (int(ev), clause, detail)
                if v not in verdicts.setdefault(cid, []):
                    verdicts[cid].append(v)
        for tr in todo:
            if tr['id'] in done:
                res[tr['id']] = verdicts.get(tr['id'], [])
        left = [t for t in todo if t['id'] not in res]
        if not left:
            break
        # the case at which the evaluation failed
        m = re.findall(r'^(?:/\\ )?cid = (\d+)', out, re.M)
        lm = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
        err = re.search(r'Error: (.*(?:\n.*){0,6})', out)
        bad = todo[int(m[-1]) - 1] if m and int(m[-1]) <= len(todo) else None
        if bad is None or bad['id'] in res or not err or undecided >= MAX_UNDECIDED or 'OutOfMemory' in out:
            raise MachineryError(f"no verdict for {[t['id'] for t in left][:5]}:\n" + out[-3000:])
        undecided += 1
        res[bad['id']] = verdicts.get(bad['id'], []) + [
            (int(lm[-1]) if lm else 0, 'undec', 'cannot be evaluated: ' + ' '.join(err.group(1).split())[:300])]
        todo = [t for t in left if t is not bad]
    return res, states, trans
