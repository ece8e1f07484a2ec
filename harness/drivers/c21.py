"""C21: per-sublist reductions, sorting, uniqueness, pruning; indexed sums on dense tensors; gradients."""
import math, random
from common import *
from drivers import c20

TRACE_SPEC = 'T21'
RULE = ('sum/max/min/argmax/logsumexp/normalize/sort_/unique/add on ragged tensors of 2-4 axes (empty rows, three dtypes, initial values) with gradients under contiguous, strided and '
        'expanded upstream gradients; bitwise reductions, exclusive sums, pruning, reordering, counts and hashes through the C++ headers; index_select/index_add/index_and_sum/compose_arc_maps '
        'on contiguous, strided and transposed tensors; non-trivial: some row has two elements')
CASE_TIMEOUT = 30
OUTS = ('out', 'grad', 'm')
NOTE = c20.NOTE
LOW, HIGH = -1999999999, 1999999999


def MODELS(tier):
    return [dict(module='MC21', cfg='MC21.cfg' if tier == 'quick' else 'MC21_deep.cfg', workers=4, actions=['Grow'])]


prepare = c20.prepare

PY = ['sum', 'sum', 'max', 'min', 'argmax', 'argmax', 'logsumexp', 'logsumexp', 'normalize', 'normalize', 'sort', 'sort', 'unique', 'unique', 'unique', 'add']
CLI = ['sum', 'max', 'min', 'and', 'or', 'argmax', 'exsum', 'sort', 'unique', 'add', 'prune', 'prune', 'prune', 'reorder', 'counts', 'hash']
DENSE = ['select', 'select', 'addinto', 'indexsum', 'indexsum', 'maps']


def gen(rng, tier, ctx):
    N = 9000 if tier == 'quick' else 60000
    for i in range(N):
        r = rng.random()
        if r < .4:
            yield dict(kind='py', op=rng.choice(PY), seed=rng.randrange(10 ** 9), dt=rng.choice(['int32', 'float32', 'float64']))
        elif r < .7:
            yield dict(kind='cli', op=rng.choice(CLI), seed=rng.randrange(10 ** 9))
        else:
            yield dict(kind='dense', op=rng.choice(DENSE), seed=rng.randrange(10 ** 9), dt=rng.choice(['int32', 'int64', 'float32', 'float64']))


def ragged(rng, d, vals):
    """a nested list d deep; vals() draws one value"""
    if rng.random() < .2:   # one long row among short ones
        mx = rng.choice([5, 8, 12])
    else:
        mx = 3

    def go(k):
        n = rng.choice([0, 1, 2, 2, 3, mx if k == 1 else 3])
        return [vals() if k == 1 else go(k - 1) for _ in range(n)]
    return go(d)


def plain(L, d):
    sp, v = c20.views_of(L, d)
    return dict(d=d, splits=sp, values=v)


def lastrows(r):
    return len(r['splits'][-1]) - 1


def sen(x):
    """an extreme of the type -> its sentinel"""
    import torch
    out = []
    info = torch.iinfo(x.dtype) if x.dtype in (torch.int32, torch.int64) else torch.finfo(x.dtype)
    for y in x.tolist():
        out.append(LOW if y == info.min else HIGH if y == info.max else ri(y))
    return out


def upstream(rng, torch, shape, dt):
    """a gradient of this shape in some layout, and how to apply it"""
    how = rng.choice(['contig', 'contig', 'ones', 'strided'])
    if how == 'ones':
        return torch.ones(shape, dtype=dt), 'ones'
    g = torch.tensor([rng.randint(-3, 4) for _ in range(math.prod(shape))], dtype=dt).reshape(shape)
    if how == 'strided' and len(shape) == 1:
        b = torch.full((shape[0], 2), 77, dtype=dt)
        b[:, 0] = g
        g = b[:, 0]
    elif how == 'strided':
        g = g.t().contiguous().t()
    return g, how


def back(y, g, how):
    if how == 'ones':
        y.sum().backward()
    else:
        y.backward(g)


def run_py(c, rng):
    torch, k2, _ = k2mods()
    R = k2.RaggedTensor
    op = c['op']
    DT = dict(int32=torch.int32, float32=torch.float32, float64=torch.float64)
    dt = DT[c['dt']]
    if op == 'unique':
        dt = torch.int32
    if op in ('logsumexp', 'normalize') and dt == torch.int32:
        dt = torch.float64
    d = rng.choice([2, 2, 3, 4])
    K = rng.choice([1, 2, 3, 9])
    logs = op == 'logsumexp' or (op == 'normalize' and rng.random() < .6)
    pos = op in ('logsumexp', 'normalize')
    val = (lambda: rng.randint(0 if rng.random() < .1 and logs else 1, 20)) if pos else (lambda: rng.randint(-K, K))
    big = dt == torch.float64 and not pos and rng.random() < .3
    if big:
        base = rng.choice([1, -1]) * rng.randint(2 ** 25, 2 ** 26)
        val = lambda: base + rng.randint(-3, 3)
    L = ragged(rng, d, val)
    if op == 'unique' and d >= 2 and rng.random() < .7:
        pool = [ragged(rng, 1, val) for _ in range(rng.choice([1, 2, 3]))]

        def go(k):
            return [list(rng.choice(pool)) if k == 2 else go(k - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        L = go(d)
    r = plain(L, d)
    if big:
        r['values'] = [int(x) for x in r['values']]
    fv = [(math.log(x) if x else -math.inf) for x in r['values']] if logs else r['values']
    x = c20.make(rng, k2, torch, d, r['splits'] + [fv], dt) if not logs else R(c20.make(rng, k2, torch, d, r['splits'] + [[0] * len(fv)], dt).shape, torch.tensor(fv, dtype=dt))
    nr = lastrows(r)
    e = dict(op=op, r=r)
    evs = []

    def flag(ok):
        evs.append(dict(op='flags', r=r, ok=int(bool(ok))))
    grad = dt != torch.int32 and op in ('sum', 'logsumexp', 'normalize') and rng.random() < .7
    if op == 'normalize' and not logs:
        grad = False
    if grad:
        x.requires_grad_(True)
    e['g'], e['grad'] = [], []
    if op == 'sum':
        init = rng.choice([0, 0, 1, -5])
        y = x.sum() if init == 0 and rng.random() < .5 else x.sum(initial_value=init)
        e.update(init=init, out=[ri(v) for v in y.tolist()])
        flag(y.dtype == dt and y.shape == (nr,))
        if grad and nr:
            g, how = upstream(rng, torch, (nr,), dt)
            back(y, g, how)
            e.update(g=[ri(v) for v in g.tolist()], grad=[ri(v) for v in x.grad.tolist()])
    elif op in ('max', 'min', 'argmax'):
        init = rng.choice([None, None, 0, -K, K, K + 1]) if not big else rng.choice([None, 0])
        y = getattr(x, op)() if init is None else getattr(x, op)(initial_value=init if dt == torch.int32 else float(init))
        e.update(init=(HIGH if op == 'min' else LOW) if init is None else init, out=[int(v) for v in y.tolist()] if op == 'argmax' else sen(y))
        flag(y.dtype == (torch.int32 if op == 'argmax' else dt) and y.shape == (nr,))
    elif op == 'logsumexp':
        init = rng.choice([0, 0, 1, 5])
        y = x.logsumexp() if init == 0 else x.logsumexp(initial_value=math.log(init))
        e.update(init=init, out=[ri(math.exp(v)) for v in y.tolist()])
        flag(y.dtype == dt and y.shape == (nr,))
        if grad and nr:
            g, how = upstream(rng, torch, (nr,), dt)
            back(y, g, how)
            e.update(g=[ri(v) for v in g.tolist()], grad=[ri(v * 10000, 1e9) for v in x.grad.tolist()])
    elif op == 'normalize':
        y = x.normalize(use_log=logs)
        o = view_(y, lambda v: rnd(math.exp(v) if logs else v, 100000))
        e.update(init=0, o=o)
        flag(y.dtype == dt)
        n = len(fv)
        if grad and n:
            g, how = upstream(rng, torch, (n,), dt)
            back(y.values, g, how)
            e.update(g=[ri(v) for v in g.tolist()], grad=[rnd(v, 10000) for v in x.grad.tolist()])
    elif op == 'sort':
        desc, need = rng.randint(0, 1), rng.random() < .8
        kw = dict(descending=bool(desc)) if desc or rng.random() < .5 else {}
        if need:
            m = x.sort_(need_new2old_indexes=True, **kw)
            e.update(o=view_(x, ri), m=m.tolist(), desc=desc, before=r['values'])
            flag(m.dtype == torch.int32)
        else:
            z = x.clone()
            q = x.sort_(**kw)
            m = z.sort_(need_new2old_indexes=True, **kw)
            e.update(o=view_(x, ri), m=m.tolist(), desc=desc, before=r['values'])
            flag(q is None)
    elif op == 'unique':
        a, b = rng.randint(0, 1), rng.randint(0, 1)
        y, nrep, m = x.unique(need_num_repeats=bool(a), need_new2old_indexes=bool(b))
        e.update(o=view_(y, ri), reps=[view_(nrep, ri)] if a else [], m=[m.tolist()] if b else [])
        flag((nrep is None) == (not a) and (m is None) == (not b))
    elif op == 'add':
        v = [rng.randint(-5, 5) for _ in range(nr)]
        al = rng.choice([1, -1, 2, 0])
        y = x.add(torch.tensor(v, dtype=dt), al)
        e.update(v=v, alpha=al, o=view_(y, ri))
        flag(y.dtype == dt)
    evs.insert(0, e)
    if op != 'sort':
        evs.append(dict(op='same', r=dict(r, values=r['values'] if not logs else [0] * len(fv)), r2=dict(d=d, splits=[x.shape.row_splits(a).tolist() for a in range(1, d)],
                        values=[ri(v) for v in x.values.tolist()] if not logs else [0 if (v == w or abs(v - w) < 1e-6) else 1 for v, w in zip(x.values.tolist(), fv)])))
    return evs


def rnd(x, s):
    x *= s
    return int(round(x)) if x == x and abs(x) < 1.9e9 else NAN


def view_(x, f):
    sh = x.shape
    return dict(d=sh.num_axes, splits=[sh.row_splits(a).tolist() for a in range(1, sh.num_axes)], values=[f(v) for v in x.values.tolist()])


def sub(o):
    return dict(d=o['d'], splits=o['splits'], values=o['values'])


def run_cli(c, rng):
    op = c['op']
    c20.send('case')
    d = rng.choice([2, 2, 3, 4])
    K = rng.choice([1, 2, 5, 9])
    val = lambda: rng.randint(-K, K)
    if op in ('and', 'or'):
        val = lambda: rng.randint(0, 15)
    if op in ('counts', 'hash'):
        d = 2 if op == 'counts' else d
    if op == 'reorder':
        d, val = 2, lambda: rng.randint(0, K)
    L = ragged(rng, d, val)
    S = None
    if op == 'counts':
        w = [rng.choice([1, 2, 3]) for _ in L]
        st = [sum(w[:i]) for i in range(len(w))]
        L = [[rng.randint(st[i], st[i] + w[i] - 1) for _ in x] for i, x in enumerate(L)]
        S = plain([[0] * k for k in w], 2)
    if op in ('unique', 'hash') and rng.random() < .7:
        pool = [ragged(rng, 1, val) for _ in range(rng.choice([1, 2, 3]))]

        def go(k):
            return [list(rng.choice(pool)) if k == 2 else go(k - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        L = go(d)
    if op == 'reorder' and rng.random() < .4:   # three axes, where the order does not cross the lists of axis 0
        d = 3
        n = rng.choice([1, 2, 3])
        L = [[[rng.randint(b * 4, b * 4 + 3) for _ in range(rng.choice([0, 1, 2, 3]))] for _ in range(rng.choice([0, 1, 2, 3]))] for b in range(n)]
    r = plain(L, d)
    r['values'] = [int(x) for x in r['values']]
    new = f"new {rng.choice([0, 1, 2])} {d} " + ' '.join(c20.enc(x) for x in r['splits'] + [r['values']])
    x = c20.send(new)
    nr = lastrows(r)
    init = rng.choice([0, -K, K, -20, 20]) if op in ('max', 'min', 'sum', 'argmax') else 0 if op == 'or' and rng.random() < .5 else rng.randint(0, 15)
    e = dict(op=op, r=r, g=[], grad=[], init=init)

    def do(cmd):
        z = c20.send(cmd)
        if 'err' in z:
            raise CliError(op + ':' + z['err'])
        return z
    if op in ('max', 'min', 'sum', 'and', 'or', 'argmax'):
        e['out'] = do(f'{op} 0 {init}')['maps'][0]
    elif op == 'exsum':
        e['out'] = do(f'exsum 0 {rng.randint(0, 1)}')['maps'][0]
    elif op == 'sort':
        desc = rng.randint(0, 1)
        z = do(f'sort 0 {desc}')
        e.update(o=sub(z['out'][0]), m=z['maps'][0], desc=desc, before=r['values'])
    elif op == 'unique':
        z = do('uniq 0')
        e.update(o=sub(z['out'][0]), m=[z['maps'][0]], reps=[sub(z['out'][1])])
    elif op == 'add':
        v, al = [rng.randint(-5, 5) for _ in range(nr)], rng.choice([1, -1, 2, 0])
        z = do(f'add 0 {c20.enc(v)} {al}')
        e.update(o=sub(z['out'][0]), v=v, alpha=al)
    elif op == 'prune':
        ax, beam, mx = rng.randrange(d), rng.choice([0, 1, 2, 3, 5, 30]), rng.choice([0, 0, -1, 1, 2, 3])
        z = do(f'prune 0 {ax} {beam} {mx}')
        e.update(axis=ax, beam=beam, mx=mx, m=z['maps'][0], o=sub(z['out'][0]))
    elif op == 'reorder':
        z = do(f"transre 0 {max(r['values'] + [0]) + rng.choice([1, 1, 3])}")
        e.update(m=z['maps'][0])
    elif op == 'counts':
        do('new 0 2 ' + c20.enc(S['splits'][0]) + ' ' + c20.enc(S['values']))
        z = do('counts 0 1')
        e.update(o=sub(z['out'][0]), s=S)
    elif op == 'hash':
        e.update(m=do('hash 0')['maps'])
    z = c20.send('registers')['out'][0]
    return [e, dict(op='same', r=r, r2=sub(z))]


class CliError(Exception):
    pass


def layout(rng, torch, X, dt, two, rowmajor=False):
    """the matrix (or vector) X as a tensor in some layout"""
    t = torch.tensor(X, dtype=dt)
    t = t.reshape(len(X), -1) if two else t.reshape(-1)
    q = rng.random()
    if not two:
        if q < .35:
            b = torch.full((t.shape[0], 2), 55, dtype=dt)
            b[:, 1] = t
            t = b[:, 1]
    elif q < .3 and not rowmajor:
        t = t.t().contiguous().t()
    elif q < .5:
        b = torch.full((t.shape[0], t.shape[1] * 2 + 1), 55, dtype=dt)
        b[:, :t.shape[1]] = t
        t = b[:, :t.shape[1]]
    elif q < .6:
        b = torch.full((t.shape[0] * 2, t.shape[1]), 55, dtype=dt)
        b[::2] = t
        t = b[::2]
    return t


def rows_of(t):
    return [[ri(v) for v in r] for r in t.tolist()] if t.dim() == 2 else [[ri(v)] for v in t.tolist()]


def run_dense(c, rng):
    torch, k2, _ = k2mods()
    op = c['op']
    dt = dict(int32=torch.int32, int64=torch.int64, float32=torch.float32, float64=torch.float64)[c['dt']]
    if op in ('addinto',) and dt == torch.int64:
        dt = torch.int32
    n, m = rng.choice([0, 1, 2, 4, 7]), rng.choice([0, 1, 2, 3, 6, 9])
    fl = dt in (torch.float32, torch.float64)
    idx = [rng.randint(-1, n - 1) if n else -1 for _ in range(m)]
    r = dict(d=2, splits=[[0]], values=[])
    if op == 'select':
        two = rng.random() < .5
        w = rng.choice([1, 2, 3]) if two else 1
        X = [[rng.randint(-9, 9) for _ in range(w)] for _ in range(n)]
        x = layout(rng, torch, X, dt, two, True) if n or not two else torch.zeros((0, w), dtype=dt)
        it = torch.tensor(idx, dtype=torch.int32)
        df = rng.choice([0, 0, 7, -1]) if not two else 0
        e = dict(op='select', r=r, x=rows_of(x), idx=idx, df=[df] * w, g=[], grad=[])
        if fl and rng.random() < .7:
            x.requires_grad_(True)
        y = k2.index_select(x, it) if df == 0 and rng.random() < .5 else k2.index_select(x, it, default_value=df)
        e['out'] = rows_of(y)
        if x.requires_grad and m:
            g, how = upstream(rng, torch, tuple(y.shape), dt)
            back(y, g, how)
            e.update(g=rows_of(g), grad=rows_of(x.grad))
        return [e, dict(op='flags', r=r, ok=int(y.dtype == dt and tuple(y.shape) == ((m, w) if two else (m,))))]
    if op == 'addinto':
        two = rng.random() < .5
        w = rng.choice([1, 2, 3]) if two else 1
        X = [[rng.randint(-9, 9) for _ in range(w)] for _ in range(n)]
        Y = [[rng.randint(-9, 9) for _ in range(w)] for _ in range(m)]
        x = layout(rng, torch, X, dt, two) if n or not two else torch.zeros((0, w), dtype=dt)
        y = layout(rng, torch, Y, dt, two) if m or not two else torch.zeros((0, w), dtype=dt)
        if m and rng.random() < .25:   # a broadcast value
            y = y[:1].expand(m, *y.shape[1:])
        e = dict(op='addinto', r=r, x=rows_of(x), y=rows_of(y), idx=idx, g=[], grad=[])
        k2.index_add(torch.tensor(idx, dtype=torch.int32), y, x)
        e['out'] = rows_of(x)
        return [e]
    if op == 'indexsum':
        if not fl:
            dt = torch.float64
        L = [[rng.randint(-1, n - 1) if n else -1 for _ in range(rng.choice([0, 1, 2, 3, 5]))] for _ in range(rng.choice([0, 1, 2, 4]))]
        q = plain(L, 2)
        ix = c20.make(rng, k2, torch, 2, q['splits'] + [q['values']], torch.int32)
        X = [rng.randint(-9, 9) for _ in range(n)]
        x = torch.tensor(X, dtype=dt)
        e = dict(op='indexsum', r=q, x=X, g=[], grad=[])
        if rng.random() < .7:
            x.requires_grad_(True)
        y = k2.index_and_sum(x, ix) if hasattr(k2, 'index_and_sum') else k2.ragged.index_and_sum(x, ix)
        e['out'] = [ri(v) for v in y.tolist()]
        if x.requires_grad and len(L):
            g, how = upstream(rng, torch, tuple(y.shape), dt)
            back(y, g, how)
            e.update(g=[ri(v) for v in g.tolist()], grad=[ri(v) for v in x.grad.tolist()])
        return [e, dict(op='flags', r=r, ok=int(y.dtype == dt))]
    X = [rng.randint(0, 50) for _ in range(n)]
    y = k2.compose_arc_maps(torch.tensor(X, dtype=torch.int32), torch.tensor(idx, dtype=torch.int32))
    return [dict(op='maps', r=r, x=X, idx=idx, out=y.tolist(), g=[], grad=[])]


def run(c):
    rng = random.Random(c['seed'])
    return dict(py=run_py, cli=run_cli, dense=run_dense)[c['kind']](c, rng)


def nontrivial(c, ev):
    e = ev[0]
    if c['kind'] == 'dense':
        return bool(e.get('out'))
    s = e['r']['splits'][-1] if 'r' in e else [0]
    return any(b - a > 1 for a, b in zip(s, s[1:]))
