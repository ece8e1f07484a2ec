"""C20: structural ragged operations, through the C++ headers (ragged_cli) and through the Python classes."""
import os, random, subprocess, pickle, atexit, select
from common import *
import tlc

TRACE_SPEC = 'T20'
RULE = ('histories of 3-9 structural operations on ragged tensors of 2-4 axes (empty sublists anywhere, int32/float32/float64): new, index, slice, select with tensors and ragged indexes, '
        'cat/stack/unstack/merge, remove axis/values/empty lists, prefixes, subsets, decompose/compose/layers, transpose, padding, text, pickling; every register is read again at the end; '
        'non-trivial: at least 3 operations on something nonempty')
CASE_TIMEOUT = 30
OUTS = ('splits', 'ids', 'values', 'sizes', 'maps')
NOTE = 'operations without Python binding are driven through harness/cpp/ragged_cli.cc, which calls the public C++ headers'
SKIP = ('registers',)


def MODELS(tier):
    return [dict(module='MC20', cfg='MC20.cfg' if tier == 'quick' else 'MC20_deep.cfg', workers=4, actions=['Grow'])]


def prepare(wd):
    build_cli(wd, 'ragged_cli')


# ---------------------------------------------------------------- generation
def nested(rng, d, mx=3):
    return [rng.choice([-1, 0, 0, 1, 1, 2, 2, 3, 4, 5]) if d == 1 else nested(rng, d - 1, mx) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, mx]))]


def views_of(lst, d):
    splits, cur = [], [lst]
    for _ in range(d - 1):
        nxt = []
        cur = [y for x in cur for y in x]
        sp = [0]
        for x in cur:
            sp.append(sp[-1] + len(x))
        splits.append(sp)
    return splits, [y for x in cur for y in x]


def pick_new(rng, d=None):
    d = d or rng.choice([2, 2, 2, 3, 3, 4])
    r = rng.random()
    l = nested(rng, d)
    if r < .15 and d == 3:
        w = rng.choice([0, 1, 2, 3])
        l = [[nested(rng, 1) for _ in range(w)] for _ in range(rng.choice([1, 2, 3]))]
    elif r < .25 and d == 2:
        w = rng.choice([0, 1, 2, 3])
        l = [[rng.randint(-1, 5) for _ in range(w)] for _ in range(rng.choice([0, 1, 2, 3]))]
    sp, vals = views_of(l, d)
    return dict(op='new', src=[], a=[d, rng.choice([0, 1, 2, 3])], v=sp + [vals])


def shows_axes(X):
    return X['sizes'][X['d'] - 2] > 0


def dims(V, a):
    return V['sizes'][a]


def index_list(rng, V, a):
    n = V['sizes'][a]
    if n == 0:
        return [] if a or rng.random() < .7 else [-1] * rng.randint(0, 2)
    k = rng.choice([0, 1, 2, 3, n])
    if a == 0:
        return [rng.randint(-1 if rng.random() < .3 else 0, n - 1) for _ in range(k)]
    ids = V['ids'][a - 1]
    return sorted((rng.randrange(n) for _ in range(k)), key=lambda i: ids[i])


CLI_OPS = ['new', 'idx', 'idx', 'idxr', 'rmaxis', 'rmlast', 'arange', 'prefix', 'prefixes', 'split', 'index0', 'addsuffix', 'addprefix', 'unsq', 'unsqp', 'layer', 'decompose', 'compose',
           'compose3', 'offsets', 'mktrans', 'trans', 'trans', 'cat', 'cat', 'stack', 'stack', 'catshape', 'stackshape', 'unstack', 'unstack', 'unstackshape', 'merge', 'subset', 'subset', 'subset2', 'rmempty',
           'rmempty0', 'rmsome', 'renum0', 'chsize', 'chsizep', 'cover', 'decr', 'leq', 'eq', 'equal', 'regular', 'trivial', 'empty', 'str', 'strshape', 'elem', 'pad']
PY_OPS = ['new', 'idx', 'idx', 'idxnomap', 'idxr', 'getitem', 'getitem', 'slice', 'slice', 'rmaxis', 'arange', 'catnomap', 'catnomap', 'leq', 'eq', 'equal', 'pad', 'pad', 'copy', 'shape', 'layer',
          'compose', 'regular', 'lookup', 'show', 'bad', 'rmlast', 'index0']


def choose(rng, op, V, fresh):
    """one operation with valid operands (V: the views of the registers), or None"""
    if op == 'new':
        return pick_new(rng)
    if op in ('regular',):
        return dict(op=op, src=[], a=[rng.randint(0, 3), rng.randint(0, 3)], v=[])
    if op in ('trivial', 'empty'):
        return dict(op=op, src=[], a=[rng.randint(0, 4) if op == 'trivial' else rng.randint(2, 4)], v=[])
    small = [i for i, x in enumerate(V) if x['n'] <= 40 and max(x['sizes']) <= 40]
    if not small:
        return pick_new(rng)
    i = rng.choice(small[-4:]) if rng.random() < .7 else rng.choice(small)
    X = V[i]
    d, n = X['d'], X['sizes']

    def ev(a=(), v=(), src=None):
        return dict(op=op, src=[s + 1 for s in (src if src is not None else [i])], a=list(a), v=[list(x) for x in v])
    if op in ('idx', 'idxnomap'):
        ax = rng.randrange(d) if op == 'idx' else 0
        return ev([ax], [index_list(rng, X, ax)])
    if op == 'idxr':
        cand = [j for j in small if V[j]['values'] and all(0 <= x < n[0] for x in V[j]['values']) and V[j]['d'] + d <= 5 and V[j].get('int', 1)]
        return ev([rng.choice([0, 1])], [], [i, rng.choice(cand)]) if cand else None
    if op == 'rmaxis':
        return ev([rng.randrange(d - 1)]) if d > 2 else None
    if op == 'rmlast':
        return ev() if d > 2 else None
    if op == 'arange':
        ax = rng.randrange(d - 1)
        b = rng.randint(0, n[ax])
        return ev([ax, b, rng.randint(b, n[ax])])
    if op == 'prefix':
        return ev([rng.randint(0, n[0])])
    if op == 'prefixes':
        return ev([], [[rng.randint(0, n[0]) for _ in range(rng.randint(1, 3))]])
    if op == 'split':
        return ev() if d > 2 else None
    if op == 'index0':
        return ev([rng.randrange(n[0])]) if d > 2 and n[0] else None
    if op == 'getitem':
        return ev([rng.randrange(n[0])]) if n[0] else None
    if op == 'slice':
        f = [rng.choice([0, 1, 1]), rng.randint(-n[0] - 2, n[0] + 2), rng.choice([0, 1, 1]), rng.randint(-n[0] - 2, n[0] + 2)]
        return ev(f)
    if op in ('addsuffix', 'addprefix'):
        return ev([], [[rng.randint(-1, 5) for _ in range(n[d - 2])]])
    if op == 'unsq':
        return ev([rng.randrange(d)]) if d < 5 else None
    if op in ('unsqp', 'offsets'):
        c = [j for j in small if V[j]['d'] == d]
        return ev([], [], [rng.choice(c) for _ in range(rng.randint(1, 3))])
    if op == 'layer':
        return ev([rng.randrange(d - 1)])
    if op == 'decompose':
        return ev([rng.randint(1, d - 2)]) if d > 2 else None
    if op == 'compose':
        c = [j for j in small if V[j]['sizes'][0] == n[d - 1] and V[j]['d'] + d <= 6]
        return ev([], [], [i, rng.choice(c)]) if c else None
    if op == 'compose3':
        c = [(j, k) for j in small if V[j]['sizes'][0] == n[d - 1] for k in small if V[k]['sizes'][0] == V[j]['sizes'][-1] and V[j]['d'] + V[k]['d'] + d <= 7]
        return ev([], [], [i] + list(rng.choice(c))) if c else None
    if op == 'mktrans':
        return ev() if d > 2 else None
    if op == 'trans':
        w = {b - a for a, b in zip(X['splits'][0], X['splits'][0][1:])}
        return ev() if d > 2 and len(w) == 1 else None
    if op in ('cat', 'stack', 'catshape', 'stackshape', 'catnomap'):
        ax = rng.randrange(min(d, 2 if op in ('cat', 'catshape') and rng.random() < .0 else d))
        if op == 'catnomap':
            ax = rng.choice([0, 1])
        cats = op in ('cat', 'catshape', 'catnomap')
        if not cats and ax == d - 1:
            ax = rng.randrange(d - 1)

        def comp(j):
            Y = V[j]
            return Y['d'] == d and Y.get('dt') == X.get('dt') and (ax == 0 or Y['sizes'][0] == n[0]) and all(Y['splits'][b] == X['splits'][b] for b in range(0, ax - 1))
        c = [j for j in small if comp(j)]
        return ev([ax], [], [i] + [rng.choice(c) for _ in range(rng.randint(0, 3))])
    if op in ('unstack', 'unstackshape'):
        return ev([rng.randrange(d), rng.choice([0, 1])])
    if op == 'merge':
        c = [j for j in small if V[j]['d'] == d]
        s = [rng.choice(c) for _ in range(rng.randint(1, 3))]
        m = [x * len(s) + k for k, j in enumerate(s) for x in range(V[j]['sizes'][0])]
        rng.shuffle(m)
        return ev([], [m], s)
    if op == 'subset':
        ax = rng.randrange(d)
        return ev([ax], [[int(rng.random() < .6) for _ in range(n[ax])]])
    if op == 'subset2':
        if d == 2:
            return None
        kb = [int(rng.random() < .6) for _ in range(n[d - 2])]
        ids = X['ids'][d - 2]
        return ev([], [kb, [int(kb[ids[e]] and rng.random() < .7) for e in range(n[d - 1])]])
    if op in ('rmempty', 'rmempty0', 'rmsome', 'renum0'):
        ax = 0 if op in ('rmempty0', 'renum0') else rng.randrange(d - 1)
        if op in ('rmempty', 'rmempty0'):
            return ev([ax])
        sp = X['splits'][ax]
        return ev([ax], [[int(sp[k + 1] > sp[k] or rng.random() < .5) for k in range(n[ax])]])
    if op in ('chsize', 'chsizep'):
        sp = X['splits'][-1]
        mn = min([b - a for a, b in zip(sp, sp[1:])] or [0])
        return ev([rng.randint(-mn if op == 'chsize' else -3, 2)])
    if op == 'cover':
        c = [j for j in small if V[j]['d'] == 2 and V[j]['sizes'][0] == n[0]]
        return ev([], [], [rng.choice(c) for _ in range(rng.randint(1, 3))]) if d == 2 else None
    if op == 'decr':
        return ev() if d == 2 else None
    if op in ('leq', 'eq'):
        return ev([rng.randint(-1, 5)])
    if op == 'equal':
        c = [j for j in small if V[j].get('dt') == X.get('dt')]
        return ev([], [], [i, rng.choice(c)])
    if op in ('str', 'strshape', 'copy', 'shape', 'show'):
        if op in ('str', 'strshape', 'shape') and not shows_axes(X):
            return None        # the brackets do not tell the number of axes
        return ev()
    if op == 'elem':
        return ev()
    if op == 'pad':
        return ev([rng.choice([0, 1]), rng.randint(-9, 9), rng.choice([0, 1])]) if d == 2 else None
    if op == 'lookup':
        m = max(X['values'] + [0])
        return ev([rng.randint(-9, 9)], [[rng.randint(-9, 9) for _ in range(m + 1)]]) if min(X['values'] + [0]) >= -1 and X.get('int', 1) else None
    raise Exception(op)


def gen(rng, tier, ctx):
    N = 5000 if tier == 'quick' else 40000
    hist = tlc.simulate('MC20S', 'MC20S.cfg', ctx['wd'], 400 if tier == 'quick' else 4000, 6, ctx['seed'] + 5)
    for h in hist:
        yield dict(kind='cli', ops=h, seed=0)
    for i in range(N):
        yield dict(kind='cli' if i % 5 < 3 else 'py', seed=rng.randrange(10 ** 9), n=rng.choice([3, 4, 6, 9]), dt=rng.choice(['int32', 'int32', 'float32', 'float64']))


# ---------------------------------------------------------------- execution
_CLI = None


def cli():
    global _CLI
    if _CLI is None or _CLI.poll() is not None:
        _CLI = subprocess.Popen(['./ragged_cli'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, preexec_fn=with_parent)
        atexit.register(_CLI.kill)
    return _CLI


def send(line):
    p = cli()
    p.stdin.write(line + '\n')
    p.stdin.flush()
    r = p.stdout.readline()
    while r and r[0] != '{':     # log lines
        r = p.stdout.readline()
    if not r:
        global _CLI
        _CLI = None
        return dict(err='died')
    return json.loads(r)


def enc(x):
    return ' '.join(map(str, [len(x)] + list(x)))


def command(e):
    op, s, a, v = e['op'], [x - 1 for x in e['src']], e['a'], e['v']
    if op == 'new':
        return ' '.join(['new', str(a[1]), str(a[0])] + [enc(x) for x in v])
    multi = ('unsqp', 'offsets', 'cat', 'stack', 'catshape', 'stackshape', 'merge', 'cover')
    if op in ('cat', 'stack', 'catshape', 'stackshape'):
        return f'{op} {a[0]} {enc(s)}'
    if op in multi:
        return ' '.join([op, enc(s)] + [enc(x) for x in v])
    if op in ('rmempty0', 'renum0'):
        return ' '.join([op, str(s[0])] + (['0'] if op == 'renum0' else []) + [enc(x) for x in v])
    return ' '.join([op] + [str(x) for x in s] + [str(x) for x in a] + [enc(x) for x in v])


def run_cli(c, rng):
    send('case')
    V, evs = [], []
    todo = list(c['ops']) if 'ops' in c else None
    n = len(todo) if todo else c['n']
    tries = 0
    while len(evs) < n and tries < 60:
        tries += 1
        if todo:
            e = todo[len(evs)]
        else:
            e = pick_new(rng) if len(V) < 2 else choose(rng, rng.choice(CLI_OPS), V, None)
            if e is None:
                continue
        r = send(command(e))
        if 'err' in r:
            evs.append(dict(op='Died' if r['err'] == 'died' else 'Raised', err=e['op'] + ':' + r['err'], case=e))
            return evs
        evs.append(dict(e, out=r['out'], maps=r['maps']))
        V += r['out']
        if todo and len(evs) == len(todo):
            break
    r = send('registers')
    evs.append(dict(op='registers', src=[], a=[], v=[], out=r['out'], maps=[]))
    return evs


def ivals(x):
    import torch
    return [ri(y) for y in x.tolist()] if x.dtype in (torch.float32, torch.float64) else [int(y) for y in x.tolist()]


def view(x):
    """the views of a RaggedTensor"""
    sh = x.shape
    d = sh.num_axes
    assert d == x.num_axes
    return dict(d=d, sizes=[x.tot_size(a) for a in range(d)] if True else 0, splits=[sh.row_splits(a).tolist() for a in range(1, d)], ids=[sh.row_ids(a).tolist() for a in range(1, d)],
                maxs=[sh.max_size(a) for a in range(1, d)], values=ivals(x.values), n=x.numel(), d0=sh.dim0)


def ilist(x):
    return [ilist(y) for y in x] if isinstance(x, list) else ri(x)


def run_py(c, rng):
    torch, k2, _ = k2mods()
    R = k2.RaggedTensor
    DT = dict(int32=torch.int32, float32=torch.float32, float64=torch.float64)
    regs, V, evs = [], [], []
    cdt = DT[c['dt']]

    def num(dt, x):
        return int(x) if dt == torch.int32 else float(x)

    def zeros(sh, dt=cdt):
        return R(sh, torch.zeros(sh.numel(), dtype=dt))

    def put(e, outs, maps=(), dts=None):
        outs = list(outs)
        vs = [view(x) for x in outs]
        dts = dts or [regs[e['src'][0] - 1].dtype if e['src'] else cdt] * len(outs)
        evs.append(dict(e, out=vs, maps=[list(m) for m in maps], list=[ilist(x.tolist()) for x in outs], dt=[str(x.dtype) == str(t) for x, t in zip(outs, dts)], dt0=True))
        for x, v in zip(outs, vs):
            regs.append(x)
            V.append(dict(v, dt=str(x.dtype), int=int(x.dtype == torch.int32)))

    tries = 0
    while len(evs) < c['n'] and tries < 60:
        tries += 1
        op = rng.choice(PY_OPS) if len(V) >= 2 else 'new'
        if op == 'bad':
            bad(rng, k2, torch, regs, V, evs)
            continue
        e = choose(rng, op, V, None)
        if e is None:
            continue
        a, v = e['a'], e['v']
        S = [regs[s - 1] for s in e['src']]
        x = S[0] if S else None
        if op == 'new':
            dt = cdt if rng.random() < .75 else torch.int32
            put(e, [make(rng, k2, torch, a[0], v, dt)], dts=[dt])
        elif op == 'idx':
            t = torch.tensor(v[0], dtype=torch.int32)
            if rng.random() < .75:
                y, m = x.index(t, axis=a[0], need_value_indexes=True)
                put(e, [y], [m.tolist()])
            else:
                y, m = x.shape.index(a[0], t)
                put(e, [R(y, x.values[m.long()])], [m.tolist()])
        elif op == 'idxnomap':
            t = torch.tensor(v[0], dtype=torch.int32)
            put(e, [x[t] if rng.random() < .6 else x.index(t, axis=0)[0]])
        elif op == 'idxr':
            e['a'] = [0]
            y = S[1]
            put(e, [x.index(y)])
        elif op in ('getitem', 'index0'):
            if op == 'index0':
                put(e, [zeros(x.shape[a[0]])], dts=[cdt]) if False else put(dict(e, op='index0'), [x[a[0]]])
                # the shape's own element
                k = len(regs)
                put(dict(op='shape', src=[k], a=[], v=[]), [zeros(x.shape[a[0]])], dts=[cdt])
            else:
                y = x[a[0]]
                if isinstance(y, torch.Tensor):
                    y = R(k2.RaggedShape.regular_ragged_shape(1, y.numel()), y)
                put(e, [y])
        elif op == 'slice':
            put(e, [x[(a[1] if a[0] else None):(a[3] if a[2] else None)]])
        elif op == 'rmaxis':
            if rng.random() < .7:
                put(e, [x.remove_axis(a[0])])
            else:
                put(e, [R(x.shape.remove_axis(a[0]), x.values)])
        elif op == 'rmlast':
            put(e, [zeros(x.shape.remove_axis(x.num_axes - 1))], dts=[cdt])
        elif op == 'arange':
            put(e, [x.arange(*a)])
        elif op == 'catnomap':
            put(e, [k2.ragged.cat(S, axis=a[0])])
        elif op == 'leq':
            put(e, [x.remove_values_leq(num(x.dtype, a[0]))])
        elif op == 'eq':
            put(e, [x.remove_values_eq(num(x.dtype, a[0]))])
        elif op == 'equal':
            y = S[1]
            b1, b2 = x == y, x.shape == y.shape
            if (x != y) == b1 or (x.shape != y.shape) == b2:
                b1 = 2
            put(e, [], [[int(b1)], [int(b2)]])
        elif op == 'pad':
            m = x.pad(mode='replicate' if a[0] else 'constant', padding_value=num(x.dtype, a[1]), **(dict(pad_left=True) if a[2] else {}))
            put(e, [], [ivals(r) for r in m])
        elif op in ('copy', 'show'):
            y, dt = copy(rng, k2, torch, x)
            put(e, [y], dts=[dt])
        elif op == 'shape':
            if rng.random() < .5:
                put(e, [zeros(x.shape)], dts=[cdt])
            else:
                put(e, [zeros(k2.RaggedShape(str(x.shape)))], dts=[cdt])
        elif op == 'layer':
            put(e, [zeros(x.shape.get_layer(a[0]))], dts=[cdt])
        elif op == 'compose':
            y = S[1]
            put(e, [R(x.shape.compose(y.shape), y.values)], dts=[y.dtype])
        elif op == 'regular':
            put(e, [zeros(k2.ragged.regular_ragged_shape(*a))], dts=[cdt])
        elif op == 'lookup':
            dt = rng.choice(list(DT.values()))
            src = torch.tensor(v[0], dtype=dt)
            kw = {} if min(V[e['src'][0] - 1]['values'] + [0]) >= 0 and rng.random() < .5 else dict(default_value=num(dt, a[0]))
            put(e, [k2.ragged.index(src, x, **kw)], dts=[dt])
        else:
            raise Exception(op)
    evs.append(dict(op='registers', src=[], a=[], v=[], out=[view(x) for x in regs], maps=[]))
    return evs


def make(rng, k2, torch, d, v, dt):
    R = k2.RaggedTensor

    def nest(sp, vals):
        for s in reversed(sp):
            vals = [vals[s[i]:s[i + 1]] for i in range(len(s) - 1)]
        return vals
    vals = [int(y) if dt == torch.int32 else float(y) for y in v[-1]]
    L = nest(v[:-1], vals)
    opts = ['shape', 'shape', 'list', 'str']
    how = rng.choice(opts)
    W = d == 2 and len({len(r) for r in L}) == 1
    if W and len(L) and rng.random() < .5:
        how = 'tensor'
    if how in ('list', 'str') and depth(L) < d:
        how = 'shape'      # nested lists do not tell the number of axes
    if how == 'tensor':
        t = torch.tensor(L, dtype=dt).reshape(len(L), -1)
        if rng.random() < .5:
            t = t.t().contiguous().t()
        return R(t)
    if how == 'list':
        return R(L, dtype=dt) if rng.random() < .7 else R(L, dtype=dt, device='cpu')
    if how == 'str':
        s = str(L).replace(',', ' ' if rng.random() < .5 else ',')
        return R(s, dtype=dt)
    sh = None
    for s in v[:-1]:
        sp = torch.tensor(s, dtype=torch.int32)
        ids = torch.tensor([i for i in range(len(s) - 1) for _ in range(s[i + 1] - s[i])], dtype=torch.int32)
        m = rng.randrange(3)
        last = len(s) > 1 and s[-1] > s[-2]
        f = k2.ragged.create_ragged_shape2
        q = f(sp) if m == 0 else f(sp, ids, s[-1]) if m == 1 or not last else f(None, ids)
        sh = q if sh is None else sh.compose(q)
    t = torch.tensor(vals, dtype=dt)
    return R(sh, t)


def depth(L):
    """nesting depth that the brackets of L show"""
    return 1 + max([depth(x) for x in L if isinstance(x, list)] + [0]) if isinstance(L, list) else 0


def copy(rng, k2, torch, x):
    R = k2.RaggedTensor
    L = x.tolist()
    how = ['clone', 'pickle', 'str', 'simple', 'dtype', 'device', 'list', 'again']
    if depth(L) < x.num_axes:
        how = ['clone', 'dtype', 'device', 'again']
    h = rng.choice(how)
    if h == 'pickle' and x.num_axes > 3:
        h = 'clone'
    ns = dict(RaggedTensor=R, torch=torch)
    if h == 'clone':
        y = x.clone()
        y.values[:] = 99        # the copy does not share
        return x.clone(), x.dtype
    if h == 'pickle':
        return pickle.loads(pickle.dumps(x)), x.dtype
    if h == 'str':
        return eval(str(x), ns), x.dtype
    if h == 'simple':
        s = x.to_str_simple()
        y = eval(s, ns)
        return y, x.dtype
    if h == 'dtype':
        dt = rng.choice([torch.int32, torch.float32, torch.float64])
        return x.to(dt), dt
    if h == 'device':
        return x.to('cpu' if rng.random() < .5 else torch.device('cpu')), x.dtype
    if h == 'list':
        return R(L, dtype=x.dtype), x.dtype
    return R(x.shape, x.values), x.dtype


def bad(rng, k2, torch, regs, V, evs):
    R = k2.RaggedTensor
    i = rng.randrange(len(regs))
    x, X = regs[i], V[i]
    d, n = X['d'], X['sizes']
    g = []
    k = n[0] + rng.choice([0, 0, 1, 5])
    g += [lambda: x[k], lambda: x[-n[0] - 1 - rng.choice([0, 3])], lambda: x.shape[k]]
    g += [lambda: x.remove_axis(d - 1 if d == 2 else d), lambda: x.arange(0, 0, n[0] + 1), lambda: x.arange(0, min(1, n[0]) + 1, 0), lambda: x.tot_size(d), lambda: x.shape.get_layer(d - 1)]
    if d == 2:
        g += [lambda: x.pad('mirror', 0)]
    g += [lambda: R([[1], 2]), lambda: R([[1], [[2]]]), lambda: R('[[1 2]'), lambda: R('[[1] 2]'), lambda: R('[[1 y]]'), lambda: R('[[1]] 3'), lambda: k2.RaggedShape('[[x] x]'), lambda: k2.RaggedShape('[[x]')]
    o = [j for j in range(len(V)) if V[j]['d'] != d]
    if o:
        j = rng.choice(o)
        g += [lambda: k2.ragged.cat([x, regs[j]], axis=0)]
    o = [j for j in range(len(V)) if V[j]['d'] == d and V[j]['sizes'][0] != n[0] and V[j]['dt'] == X['dt']]
    if o:
        j2 = rng.choice(o)
        g += [lambda: k2.ragged.cat([x, regs[j2]], axis=1)]
    q = rng.randrange(len(g))
    e = dict(src=[], a=[], v=[], out=[], maps=[], bad=1, which=q)
    try:
        g[q]()
        evs.append(dict(e, op='accepted'))
    except Exception:
        evs.append(dict(e, op='refused'))


def run(c):
    rng = random.Random(c['seed'])
    return run_cli(c, rng) if c['kind'] == 'cli' else run_py(c, rng)


def nontrivial(c, ev):
    return len([e for e in ev if e.get('out') and any(o['n'] for o in e['out'])]) >= 3
