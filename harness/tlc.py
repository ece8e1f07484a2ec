"""Running TLC and reading what it says."""
import json, os, re, subprocess, tempfile, shutil, time
from common import SPEC

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:
    pass


def run_tlc(module, cfg, workdir, env=None, workers=8, heap='4g', extra=(), timeout=800, cfgtext=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; output parsed into a TlcResult."""
    md = tempfile.mkdtemp(prefix='tlcmeta', dir=workdir)
    if cfgtext is not None:
        cfgp = os.path.join(md, 'x.cfg')
        open(cfgp, 'w').write(cfgtext)
    else:
        cfgp = os.path.join(SPEC, cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-XX:ParallelGCThreads=4', '-XX:TieredStopAtLevel=4',
           '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC', '-config', cfgp,
           '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-deadlock',
           *extra, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    t0 = time.time()
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors='replace')
        r.rc, r.out, r.timeout = p.returncode, p.stdout, False
    except subprocess.TimeoutExpired as x:
        r.rc, r.timeout = -1, True
        r.out = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
    r.wall = time.time() - t0
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', r.out)
    r.generated, r.distinct, r.left = (int(m[1]), int(m[2]), int(m[3])) if m else (0, 0, -1)
    m = re.search(r'The depth of the complete state graph search is (\d+)', r.out)
    r.depth = int(m[1]) if m else 0
    r.complete = 'Model checking completed. No error has been found.' in r.out
    r.msgs = []
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            s = json.loads(line) if line.endswith('"') else line
            r.msgs.append(s[2:])
    m = re.search(r'Invariant (\S+) is violated', r.out)
    r.inv = m[1] if m else None
    if r.inv is None:
        m = re.search(r'(?:Action|Temporal) propert(?:y|ies) (\S+)', r.out)
        r.inv = m[1] if m else None
    # per-action coverage: <Name line ..>: distinct:generated
    r.actions = {}
    for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', r.out, re.M):
        a = r.actions.setdefault(m[1], [0, 0])
        a[0] = max(a[0], int(m[2])); a[1] = max(a[1], int(m[3]))
    return r


def simulate(module, cfg, workdir, num, depth, seed, timeout=300, heap='2g', env=None):
    """Behaviours of spec/<module>.tla generated by TLC's simulator: the JSON values it prints as @@H."""
    r = run_tlc(module, cfg, workdir, workers=1, heap=heap, timeout=timeout, env=env,
                extra=['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed), '-aril', '0'])
    H = [json.loads(m[2:]) for m in r.msgs if m.startswith('H ')]
    if not H or r.inv:
        raise RuntimeError('simulation of ' + module + ' failed: ' + r.out[-2000:])
    return H
