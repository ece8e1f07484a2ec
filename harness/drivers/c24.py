"""C24: hash tables (one caller, several callers under controlled schedules), the thread pool and semaphores."""
import os, random, subprocess, json, atexit
from common import *
import tlc

TRACE_SPEC = 'T24'
RULE = ('(a) histories of 10-140 operations of one caller on a table (three accessors of Hash, Hash64), key/value splits with and without implicit key bits, nearly full groups, colliding probe sequences, '
        'resizing and copying between sizes and splits, deletion of everything; (b) two to four callers inserting, finding, overwriting, then deleting the same few keys, every memory access to the table being a '
        'scheduling point: schedules from behaviours of MC24 and random ones; (c) thread pools of 1-4 threads with up to three clients handing in tasks (which may hand in more) and waiting, every mutex and '
        'condition variable being a scheduling point; (d) counting semaphores; non-trivial: at least two operations')
CASE_TIMEOUT = 12
OUTS = ('log', 'ok', 'used', 'size', 'got')
SKIP = ('t0', 't1', 'k', 'v', 'th')
NOTE = ('k2/csrc/hash.h and the thread pool of the built library are driven through harness/cpp/conc_cli.cc.  On the host AtomicCAS is documented to assume one thread, so the several-callers part compiles the same header with '
        'an AtomicCAS that is atomic (what a device does); the one-caller part uses the header as it is.  Threads are scheduled by replacing pthread functions (harness/cpp/sched.cc), so a schedule is reproducible and a deadlock is seen exactly')


def MODELS(tier):
    q = tier == 'quick'
    m = [dict(module='MC24', cfg='MC24.cfg', workers=4, actions=['Call', 'Read', 'Swap', 'SetValue']),
         dict(module='MC24P', cfg='MC24P.cfg', workers=4, actions=['Submit', 'Wait', 'Woken', 'Take', 'Child', 'End', 'Quit', 'Leave'])]
    if not q:
        m += [dict(module='MC24', cfg='MC24w.cfg', workers=6, actions=['Call', 'Read', 'Value', 'Swap', 'Write', 'SetValue']),
              dict(module='MC24', cfg='MC24_deep.cfg', workers=6, actions=['Call', 'Read', 'Swap', 'SetValue']),
              dict(module='MC24P', cfg='MC24P_deep.cfg', workers=6, actions=['Submit', 'Wait', 'Woken', 'Take', 'Child', 'End', 'Quit', 'Leave'])]
    return m


def prepare(wd):
    T = '/opt/venv/lib/python3.12/site-packages/torch/lib'
    H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'cpp')
    F = ['-std=c++17', '-D_GLIBCXX_USE_CXX11_ABI=0', '-I/repo', '-I/opt/k2-build']
    cmds = [['g++', '-O1', 'hash_ops', 'seq'], ['clang++', '-O0', 'hash_ops', 'conc', '-DCONC', '-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores'],
            ['g++', '-O1', 'sched', 'sched'], ['g++', '-O1', 'conc_cli', 'cli']]
    ps = [subprocess.Popen([c[0], c[1]] + F + c[4:] + ['-c', os.path.join(H, c[2] + '.cc'), '-o', os.path.join(wd, c[3] + '.o')], stderr=subprocess.PIPE, text=True) for c in cmds]
    for p, c in zip(ps, cmds):
        e = p.communicate()[1]
        if p.returncode:
            raise RuntimeError('cannot compile ' + c[2] + ': ' + e[-1500:])
    for v in ('seq', 'conc'):
        r = subprocess.run(['g++'] + [os.path.join(wd, x + '.o') for x in (v, 'sched', 'cli')] + ['-rdynamic', '-o', os.path.join(wd, v + '_cli'), '-L/opt/k2-build/lib', '-lk2context', '-lk2_log',
                           '-Wl,-rpath,/opt/k2-build/lib', '-Wl,-rpath,' + T, '-L' + T, '-ltorch', '-ltorch_cpu', '-lc10', '-lpthread', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cannot link: ' + r.stderr[-1500:])


_P = {}


def send(which, line):
    p = _P.get(which)
    if p is None or p.poll() is not None:
        p = _P[which] = subprocess.Popen(['./' + which + '_cli'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, preexec_fn=with_parent)
        atexit.register(p.kill)
    try:
        p.stdin.write(line + '\n')
        p.stdin.flush()
        r = p.stdout.readline()
        while r and r[0] != '{':
            r = p.stdout.readline()
    except BrokenPipeError:
        r = ''
    if not r:
        p.kill()
        p.wait()
        _P[which] = None
        return dict(err='died', end='died', log=[])
    d = json.loads(r)
    if d.get('end') == 'deadlock':
        p.wait()
        _P[which] = None
    return d


def stop():
    for p in _P.values():
        if p is not None:
            p.kill()
    _P.clear()


# ---------------------------------------------------------------- generation
FIXED = [7, 8, 16, 28, 31, 32, 33, 40, 48, 63]


def shape(rng, small=False):
    """kind, buckets, key bits, value bits"""
    kind = rng.choice([0, 1, 1, 2, 64])
    nb = rng.choice([128, 128, 256, 512] if small else [128, 128, 128, 256, 512, 1024, 4096])
    if kind == 64:
        return kind, nb, 64, 64
    kb = rng.choice(FIXED) if kind == 2 else rng.choice([5, 7, 8, 12, 20, 31, 32, 33, 40, 50, 57, 60])
    imp = rng.choice([0, 0, 1, 2, 3, 5]) if kind == 1 else 0
    while imp and ((nb >> imp) < 32 or kb - imp < 1):
        imp -= 1
    return kind, nb, kb, 64 - kb + imp


def fits(S, m, full=1):
    """whether the pairs m fit in a table of shape S with a place left in every group"""
    kind, nb, kb, vb = S
    imp = 0 if kind == 64 else kb + vb - 64
    if imp < 0 or (nb >> imp) < 32:
        return False
    cnt = {}
    for k, v in m.items():
        if kind == 64:
            if k == 2 ** 64 - 1 or v == 2 ** 64 - 1:
                return False
        else:
            if k >> kb or v >> vb or (((v << (kb - imp)) | (k >> imp)) == 2 ** 64 - 1):
                return False
        g = k & ((1 << imp) - 1)
        cnt[g] = cnt.get(g, 0) + 1
    return all(c <= (nb >> imp) - full for c in cnt.values())


def keys_for(rng, S, n):
    kind, nb, kb, vb = S
    top = (1 << kb) - 1
    out = []
    base = rng.getrandbits(64) & top
    style = rng.randrange(4)
    n = min(n, 1 << (kb - 1))
    while len(out) < n:
        r = rng.random()
        if r < .12:
            k = rng.choice([0, 1, top, top - 1, top >> 1, nb - 1, nb, top - rng.randrange(40), top ^ (1 << (kb - 1))])
        elif style == 0 or r < .3:
            k = rng.getrandbits(64)
        elif style == 1:
            k = base + nb * rng.randrange(4 * n + 4)          # the same first bucket
        elif style == 2:
            k = base ^ (rng.randrange(2 * n + 2) << max(0, kb - 8))
        else:
            k = base + rng.randrange(3 * n)
        k &= top
        if kind == 64 and k == top:
            continue
        if k not in out:
            out.append(k)
        elif kb < 20 and rng.random() < .05:
            break
    return out


def value_for(rng, S):
    vb = S[3]
    top = (1 << vb) - 1
    v = rng.choice([0, 1, top, top - 1, rng.getrandbits(64) & top, rng.getrandbits(64) & top, rng.randrange(100) & top])
    return top - 1 if S[0] == 64 and v == top else v


def hist(rng):
    S = shape(rng)
    ops = [('new', S)]
    m = {}
    n = rng.choice([5, 20, 60, 110])
    ks = keys_for(rng, S, n)
    for _ in range(rng.choice([10, 30, 80, 140])):
        r = rng.random()
        k = rng.choice(ks)
        if r < .5:
            v = value_for(rng, S)
            if k in m or fits(S, {**m, k: v}):
                ops.append((rng.choice(['ins', 'ins', 'insn']), k, v))
                m.setdefault(k, v)
        elif r < .72:
            ops.append(('find', k, 0))
        elif r < .86 and m:
            k = rng.choice(list(m))
            v = value_for(rng, S)
            if fits(S, {**m, k: v}):
                ops.append((rng.choice(['set', 'setk']), k, v))
                m[k] = v
        elif r < .94:
            for _ in range(6):
                T = shape(rng)
                how = rng.choice(['resize', 'resize', 'copy'])
                if how == 'resize' and (T[0] != S[0] or (S[0] == 2 and T[2] != S[2])):
                    T = (S[0], T[1], S[2], S[3]) if S[0] != 1 or T[0] == 64 or rng.random() < .5 else (1, T[1], T[2], 64 - T[2] + rng.choice([0, 1, 2]))
                if (T[0] == 64) != (S[0] == 64):
                    continue
                keep = int(rng.random() < .9) if how == 'resize' else 1
                if how == 'copy' and S[0] != 64 and T[0] != 64 and T[2:] == S[2:] and S[2] + S[3] == 64 and rng.random() < .6:
                    how = 'copysimple'
                if not fits(T, m if keep else {}) or (T[0] == 1 and T[2] - (T[2] + T[3] - 64) < 1):
                    continue
                ops.append((how, T, keep))
                S = T
                if not keep:
                    m = {}
                ks = [x for x in ks if x >> S[2] == 0] + keys_for(rng, S, 4)
                if S[0] == 64:
                    ks = [x for x in ks if x != 2 ** 64 - 1]
                break
        elif r < .97:
            ops.append(('empty',))
        else:
            d = list(m)
            rng.shuffle(d)
            ops += [('del', x, 0) for x in d] + [('empty',)]
            m = {}
    ops += [('find', k, 0) for k in ks]
    return dict(kind='hist', ops=ops)


def bad(rng):
    nb, kb, vb, kind = rng.choice([(64, 32, 32, 0), (100, 32, 32, 0), (129, 32, 32, 0), (128, 32, 31, 0), (128, 40, 40, 1), (128, 34, 33, 1), (0, 32, 32, 0), (1000, 20, 44, 1), (128, 32, 33, 0), (127, 64, 64, 64),
                                   (192, 64, 64, 64), (256, 48, 20, 1), (1024, 32, 38, 1)])
    return dict(kind='bad', S=(kind, nb, kb, vb))


def threads(rng, model=None):
    S = shape(rng, True)
    kind, nb, kb, vb = S
    imp = 0 if kind == 64 else kb + vb - 64
    used = []
    if model:
        progs, order = model['prog'], [-t for t in model['order']]
    else:
        nt = rng.choice([2, 2, 3, 4])
        order = []
        nk = rng.choice([1, 1, 2, 3])
        progs = [[dict(op=rng.choice(['ins', 'ins', 'insn', 'find', 'set', 'setk']), k=rng.choice([0, 4, 1, 5, 2][:nk]), v=0) for _ in range(rng.choice([1, 2, 3] if nt < 4 else [1, 2]))] for _ in range(nt)]
    while True:                  # real keys for the keys of the model
        a, b, c = (rng.getrandbits(64) & ((1 << kb) - 1) for _ in range(3))
        step = nb * rng.randrange(1, 50)
        if rng.random() < .3:
            a = ((1 << kb) - 1) ^ (rng.randrange(4) if imp or kind == 64 else 0)
        real = {0: a, 4: (a + step) & ((1 << kb) - 1), 1: b, 5: (b + step) & ((1 << kb) - 1), 2: c}
        if kb < 16:
            real = dict(zip([0, 4, 1, 5, 2], rng.sample(range(1 << kb), 5)))
        if len(set(real.values())) == 5 and not (kind == 64 and 2 ** 64 - 1 in real.values()):
            break
    out = []
    for t, p in enumerate(progs):
        q, last = [], None
        for i, o in enumerate(p):
            op = o['op']
            if op == 'ins' and model and rng.random() < .2:
                op = 'insn'
            if op == 'set' and rng.random() < .5:
                op = 'setk'
            if op in ('set', 'setk'):
                if last is None or q[-1][0] in ('set', 'setk'):
                    op = 'find'
                    k = real[o['k']]
                else:
                    k = last
            else:
                k = real[o['k']]
            v = 0
            if op != 'find':
                for _ in range(50):
                    v = value_for(rng, S)
                    if fits(S, {k: v}) and (v not in used or vb < 5):
                        break
                if not fits(S, {k: v}):
                    v = 0
                used.append(v)
            last = k
            q.append((op, k, v))
        out.append(q)
    pre = []
    for k in rng.sample(list(real.values()), rng.choice([0, 0, 1, 3])):
        v = value_for(rng, S)
        if fits(S, {k: v}):
            pre.append(('ins', k, v))
    return dict(kind='threads', S=S, pre=pre, progs=out, order=order, stick=rng.choice([0, 0, 50, 90]), seed=rng.randrange(1, 10 ** 9), keys=sorted(real.values()),
                grow=rng.choice([0, 0, 2 * nb, 4 * nb]), dels=rng.choice([1, 2, 3]))


def pool(rng):
    nc = rng.choice([1, 2, 2, 3])
    progs, n = [], 0
    for c in range(nc):
        p = []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            if rng.random() < .6:
                n += 1
                p.append(('sub', n, rng.choice([0, 0, 1, 2, 5]) + rng.choice([0, 0, 0, 16])))
            else:
                p.append(('wait', 0, 0))
        progs.append(p)
    return dict(kind='pool', n=rng.choice([1, 1, 2, 2, 3, 4, 4, -1]), glob=int(rng.random() < .03), progs=progs, stick=rng.choice([0, 0, 50, 90]), seed=rng.randrange(1, 10 ** 9))


def sem(rng):
    nc = rng.choice([2, 3, 4])
    kind = rng.choice([0, 0, 1])
    count = 0 if kind else rng.choice([0, 0, 1, 2])
    progs = [[(rng.choice(['acq', 'rel']), 0, 0) for _ in range(rng.choice([1, 2, 3]))] for _ in range(nc)]
    enough = int(rng.random() < .93)
    if enough:
        if not any(all(o[0] == 'rel' for o in p) for p in progs):
            progs.append([])
        r = sum(o[0] == 'rel' for p in progs for o in p)
        a = sum(o[0] == 'acq' for p in progs for o in p)
        i = [i for i, p in enumerate(progs) if all(o[0] == 'rel' for o in p)][0]
        progs[i] += [('rel', 0, 0)] * max(0, a)
    else:
        progs = [[('acq', 0, 0)] * rng.choice([1, 2]) for _ in range(nc)] + [[('rel', 0, 0)] * rng.choice([0, 1])]
        if sum(len(p) for p in progs[:-1]) <= count + len(progs[-1]):
            count = 0
            progs[-1] = []
    return dict(kind='sem', sk=kind, count=count, progs=progs, enough=enough, stick=rng.choice([0, 50, 90]), seed=rng.randrange(1, 10 ** 9))


def gen(rng, tier, ctx):
    q = tier == 'quick'
    for h in tlc.simulate('MC24', 'MC24S.cfg', ctx['wd'], 500 if q else 5000, 70, ctx['seed'] + 3):
        yield threads(rng, h)
    yield dict(kind='bits', sizes=list(range(0, 70)) + [2 ** i + d for i in range(7, 29) for d in (-1, 0, 1)])
    for _ in range(1 if q else 10):
        for _ in range(450):
            yield threads(rng)
        for _ in range(350):
            yield hist(rng)
        for _ in range(40):
            yield bad(rng)
        for _ in range(500):
            yield pool(rng)
        for _ in range(120):
            yield sem(rng)


# ---------------------------------------------------------------- execution
def hx(x):
    return '%x' % x


def prog(ps):
    return ' '.join([str(len(ps))] + [' '.join([str(len(p))] + [f'{o} {hx(k)} {hx(v)}' for o, k, v in p]) for p in ps])


class Names:
    """the 64-bit words of a case, numbered"""
    def __init__(self):
        self.k, self.v = {}, {}

    def key(self, s):
        return self.k.setdefault(s, len(self.k))

    def val(self, s):
        return self.v.setdefault(s, 2 * len(self.v))

    def log(self, L, th=None):
        out = []
        for e in L:
            e = dict(e)
            o = e['op']
            e['k'] = self.key(e['k'])
            e['v'] = self.val(e['v'])
            e['out'] = 77777 if o == 'find' and not e['ok'] or o in ('ins', 'insn') and e['ok'] else self.key(e['out']) if o == 'setk' else self.val(e['out'])
            if th is not None:
                e['th'] = th
            out.append(e)
        return out


def run(c):
    try:
        return run_(c)
    except BaseException:        # also a time-out: the process may still be busy with this case
        stop()
        raise


def run_(c):
    N = Names()
    evs = []

    def do(which, o, k, v):
        r = send(which, f'do {o} {hx(k)} {hx(v)}')
        if 'err' in r:
            return dict(op='Do', end=r['err'], log=[dict(th=0, op=o, k=N.key(hx(k)), v=N.val(hx(v)), ok=-1, out=0, loc=-1, t0=0, t1=0)])
        return dict(op='Do', end=r['end'], log=N.log(r['log']))

    def new(which, S, legal=1):
        kind, nb, kb, vb = S
        short = kind != 64 and legal and kb + vb == 64 and c.get('seed', len(c.get('ops', ()))) % 2
        r = send(which, f'new {kind} {nb} {kb} {-1 if short else vb}')
        evs.append(dict(op='New', legal=legal, ok=int('err' not in r), want=[nb, kb, vb], got=[r.get(x, -1) for x in ('nb', 'kb', 'vb')]))
        return 'err' not in r

    def empty(which):
        r = send(which, 'empty')
        evs.append(dict(op='Empty', ok=r.get('ok', -1), used=r.get('used', -1)))

    def move(which, how, T, keep):
        kind, nb, kb, vb = T
        r = send(which, f'{how} {kind} {nb} {kb} {vb} {keep}')
        evs.append(dict(op='Move', keep=keep, ok=int('err' not in r), want=[nb, kb, vb], got=[r.get(x, -1) for x in ('nb', 'kb', 'vb')]))
        return 'err' not in r
    K = c['kind']
    if K == 'hist':
        for o in c['ops']:
            if o[0] == 'new':
                if not new('seq', o[1]):
                    break
            elif o[0] == 'empty':
                empty('seq')
            elif o[0] in ('resize', 'copy', 'copysimple'):
                if not move('seq', *o):
                    break
            else:
                evs.append(do('seq', *o))
    elif K == 'bad':
        # a packed table accepts sums above 64; the other accessors are checked when they are made
        S = c['S']
        new('seq', S, legal=0) if not (S[0] == 0 and S[2] + S[3] > 64) else None
        if S[0] == 0 and S[2] + S[3] > 64:
            send('seq', 'new %d %d %d %d' % tuple(S))
            r = send('seq', 'do find 1 0')
            evs.append(dict(op='New', legal=0, ok=int('err' not in r), want=[], got=[]))
    elif K == 'threads':
        if not new('conc', c['S']):
            return evs
        for o in c['pre']:
            evs.append(do('conc', *o))
        r = send('conc', f"threads {c['seed']} {c['stick']} {len(c['order'])} {' '.join(map(str, c['order']))} {prog(c['progs'])}")
        e = dict(op='Threads', end=r.get('end', r.get('err')), log=N.log(r.get('log', [])))
        if r.get('end') != 'ok':
            evs.append(e)
            return evs
        fin = [do('conc', 'find', k, 0)['log'][0] for k in c['keys']]
        for f in fin:
            f['th'] = -2
        here = [k for k, f in zip(c['keys'], fin) if f['ok'] == 1]
        e['log'] += fin
        evs.append(e)
        kind, nb, kb, vb = c['S']
        if c['grow'] and move('conc', 'resize', (kind, c['grow'], kb, vb), 1):
            evs += [do('conc', 'find', k, 0) for k in c['keys']]
        ps = [[('del', k, 0) for k in here[i::c['dels']]] for i in range(c['dels'])]
        r = send('conc', f"threads {c['seed']} {c['stick']} 0 {prog(ps)}")
        evs.append(dict(op='Deletes', end=r.get('end', r.get('err')), log=N.log(r.get('log', []))))
        empty('conc')
    elif K == 'pool':
        r = send('seq', f"pool {c['seed']} {c['stick']} 0 {c['n']} {c['glob']} {prog(c['progs'])}")
        L = r.get('log', [])
        size = [int(e['v'], 16) for e in L if e['op'] == 'gone']
        evs.append(dict(op='Pool', n=-1 if c['glob'] else c['n'], size=size[0] if size else max(1, c['n']), end=r.get('end', r.get('err')),
                        log=[dict(op=e['op'], k=int(e['k'], 16), t0=e['t0'], t1=e['t1']) for e in L]))
        if c['glob']:
            stop()
    elif K == 'sem':
        r = send('seq', f"sem {c['seed']} {c['stick']} 0 {c['sk']} {c['count']} {prog(c['progs'])}")
        evs.append(dict(op='Sem', count=c['count'], enough=c['enough'], end=r.get('end', r.get('err')), log=[dict(op=e['op'], t0=e['t0'], t1=e['t1']) for e in r.get('log', [])]))
    else:
        r = send('seq', 'bits %d %s' % (len(c['sizes']), ' '.join(map(str, c['sizes']))))
        evs.append(dict(op='Bits', size=c['sizes'], bits=r.get('bits', [0] * len(c['sizes']))))
    return evs


def nontrivial(c, ev):
    return sum(len(e.get('log', [])) for e in ev) >= 2
