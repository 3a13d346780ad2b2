"""Running TLC."""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg, env=None, workers=1, heap='2g', timeout=600, extra=(), simulate=None):
    """Run TLC in a scratch metadir; returns (returncode, output)."""
    with tempfile.TemporaryDirectory(prefix='tlc') as meta:
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
               f'-Djava.io.tmpdir={meta}', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-noGenerateSpecTE', '-config', cfg, *extra, module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            out = x.stdout or b''
            return -9, out.decode(errors='replace') if isinstance(out, bytes) else out


VIOL = re.compile(r'<<\s*"VIOL",\s*(\d+),\s*(\d+),\s*"([^"]+)"\s*>>')
CUT = re.compile(r'<<\s*"CUT",\s*(\d+),\s*(\d+)\s*>>')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def validate(traces, timeout=600, heap='2g'):
    """Judge traces with spec/Trace.tla: {ok, viols: [(trace, event, clause)], cuts, states, out}."""
    with tempfile.TemporaryDirectory(prefix='traces') as d:
        path = os.path.join(d, 't.json')
        with open(path, 'w') as f:
            json.dump(traces, f, separators=(',', ':'))
        rc, out = tlc('Trace.tla', 'Trace.cfg', {'TRACES': path}, timeout=timeout, heap=heap)
    viols = [(int(a) - 1, int(b), c) for a, b, c in VIOL.findall(out)]
    cuts = {int(a) - 1: int(b) for a, b in CUT.findall(out)}
    m = STATES.search(out)
    want = sum(cuts.get(i, len(t)) + 1 for i, t in enumerate(traces))
    distinct = int(m[2]) if m else -1
    ok = rc == 0 and distinct == want
    return {'ok': ok, 'viols': sorted(set(viols)), 'cuts': cuts, 'states': distinct, 'want': want, 'rc': rc, 'out': out}
