"""Shared by the orchestrator and the workers (no torch import at module level)."""
import json, math, os, random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
NEGINF, POSINF = -1000000000, 1000000000
NONINT, NAN = 2000000001, 2000000003


def si(x):
    """float/int -> exact small int or a sentinel."""
    x = float(x)
    if x != x:
        return NAN
    if x == math.inf:
        return POSINF
    if x == -math.inf:
        return NEGINF
    if x == int(x) and abs(x) < 1e9:
        return int(x)
    # huge finite values such as float lowest / -1e30 are kept apart from -inf
    return NONINT


def ri(x, tol=2e-4):
    """float that should be an integer up to rounding -> int or a sentinel."""
    x = float(x)
    if x != x:
        return NAN
    if x == math.inf:
        return POSINF
    if x == -math.inf:
        return NEGINF
    r = round(x)
    if abs(x - r) <= tol * max(1.0, abs(x)) and abs(r) < 1e9:
        return int(r)
    return NONINT


def ei(x, tol=2e-4):
    """log of an integer -> that integer (0 for -inf)."""
    x = float(x)
    if x != x:
        return NAN
    if x == -math.inf:
        return 0
    if x > 20.5:
        return POSINF
    return ri(math.exp(x), tol)


def err_event(op, e, **kw):
    d = dict(op=op, err=type(e).__name__, msg=str(e).strip().split('\n')[0][:160])
    d.update(kw)
    return d


# ---------------------------------------------------------------- generators
def rand_fsa(rng, n=None, nsym=2, eps=0.2, acyclic=False, narcs=None, wlo=-4, whi=4,
             final_p=0.35, extra_syms=(), strict_topo=True):
    """Random valid automaton as {n, a:[[s,d,l,w]..]} (sorted by source)."""
    if n is None:
        n = rng.choice([2, 2, 3, 3, 3, 4, 4, 5])
    if n == 0:
        return dict(n=0, a=[])
    arcs = []
    if narcs is None:
        narcs = rng.randint(0, 2 * n + 2)
    for _ in range(narcs):
        s = rng.randrange(n - 1)
        if rng.random() < final_p or (acyclic and s == n - 2):
            d = n - 1
        elif acyclic:
            d = rng.randrange(s + 1, n)
        else:
            d = rng.randrange(n)
        w = rng.randint(wlo, whi)
        if d == n - 1:
            l = -1
        elif rng.random() < eps:
            l = 0
        else:
            l = rng.choice(list(range(1, nsym + 1)) + list(extra_syms))
        arcs.append([s, d, l, w])
    order = list(range(len(arcs)))
    rng.shuffle(order)
    arcs = [arcs[i] for i in order]
    arcs.sort(key=lambda x: x[0])
    return dict(n=n, a=arcs)


def coreach_fix(rng, f):
    """Adds final arcs so that something is accepted, most of the time."""
    n = f['n']
    if n == 0:
        return f
    if not any(a[2] == -1 for a in f['a']):
        f['a'].append([rng.randrange(n - 1), n - 1, -1, rng.randint(-3, 3)])
        f['a'].sort(key=lambda x: x[0])
    return f


def arc_sorted(f):
    g = dict(f)
    g['a'] = sorted(f["a"], key=lambda x: (x[0], x[2] & 0xffffffff, x[1]))
    return g


# ---------------------------------------------------------------- k2 side
def k2mods():
    import torch
    import k2
    import _k2
    return torch, k2, _k2


def mk_arcs_tensor(f):
    import torch
    import struct
    if not f['a']:
        return torch.zeros((0, 4), dtype=torch.int32)
    rows = []
    for s, d, l, w in f['a']:
        rows.append([s, d, l, struct.unpack('<i', struct.pack('<f', float(w)))[0]])
    return torch.tensor(rows, dtype=torch.int32)


def mk_fsa(f, **attrs):
    """Single k2.Fsa of {n,a}; n is only honoured if the arcs imply it, else the
    ragged constructor is used so that any state count can be expressed."""
    import torch
    import k2
    import _k2
    n = f['n']
    if n == 0:
        vec = mk_vec([f])
        return vec[0]
    return mk_vec([f])[0]


def mk_ragged_arc(fs):
    """3-axis ragged arcs built through the shapes, so dead/isolated states are kept."""
    import torch
    import k2
    import _k2
    rs1 = [0]
    rs2 = [0]
    rows = []
    for f in fs:
        cnt = [0] * f['n']
        for a in f['a']:
            cnt[a[0]] += 1
        for c in cnt:
            rs2.append(rs2[-1] + c)
        rs1.append(rs1[-1] + f['n'])
        rows += f['a']
    s1 = k2.ragged.create_ragged_shape2(torch.tensor(rs1, dtype=torch.int32), None, rs1[-1])
    s2 = k2.ragged.create_ragged_shape2(torch.tensor(rs2, dtype=torch.int32), None, rs2[-1])
    shape = s1.compose(s2)
    return _k2.RaggedArc(shape, mk_arcs_tensor(dict(a=rows)))


def mk_vec(fs):
    import k2
    return k2.Fsa(mk_ragged_arc(fs))


def arcs_json(ra, sc=si):
    """RaggedArc with 2 or 3 axes -> list of {n,a}."""
    import torch
    vals = ra.values()
    L = vals.tolist() if vals.numel() else []
    import struct
    arcs = []
    for r in L:
        arcs.append([r[0], r[1], r[2], sc(struct.unpack('<f', struct.pack('<i', r[3]))[0])])
    sh = ra.shape()
    if ra.num_axes() == 2:
        rs = sh.row_splits(1).tolist()
        return [dict(n=len(rs) - 1, a=arcs, c=[rs[i + 1] - rs[i] for i in range(len(rs) - 1)])]
    rs1 = sh.row_splits(1).tolist()
    rs2 = sh.row_splits(2).tolist()
    out = []
    for i in range(len(rs1) - 1):
        b, e = rs1[i], rs1[i + 1]
        out.append(dict(n=e - b, a=arcs[rs2[b]:rs2[e]],
                        c=[rs2[j + 1] - rs2[j] for j in range(b, e)]))
    return out


def fsa_json(fsa, sc=si):
    """k2.Fsa -> {vec, f:[{n,a,c}]}; scores are taken from .scores."""
    f = arcs_json(fsa.arcs, sc)
    s = [sc(x) for x in fsa.scores.tolist()]
    k = 0
    same = True
    for x in f:
        for a in x['a']:
            if a[3] != s[k]:
                same = False
            k += 1
    return dict(vec=1 if len(fsa.shape) == 3 else 0, f=f, same=1 if same else 0)


def tl(t):
    return [int(x) for x in t.tolist()]


def with_parent():
    """for a child process: to be killed when the worker is"""
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def build_cli(wd, name, libs=('k2context', 'k2_log'), flags=('-O1',)):
    """compiles harness/cpp/<name>.cc against the current tree into the working directory"""
    import subprocess
    T = '/opt/venv/lib/python3.12/site-packages/torch'
    src = os.path.join(HERE, 'cpp', name + '.cc')
    cmd = ['g++', '-x', 'c++', '-std=c++17', '-D_GLIBCXX_USE_CXX11_ABI=0', *flags, '-I/repo', '-I/opt/k2-build', src, '-o', os.path.join(wd, name), '-L/opt/k2-build/lib'] + \
          ['-l' + x for x in libs] + ['-Wl,-rpath,/opt/k2-build/lib', '-Wl,-rpath,' + T + '/lib', '-L' + T + '/lib', '-ltorch', '-ltorch_cpu', '-lc10', '-lpthread']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cannot compile ' + name + ': ' + r.stderr[-1500:])
