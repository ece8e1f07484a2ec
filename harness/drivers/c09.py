"""C09: gradients through chains of operations equal posteriors / best-path indicators."""
from common import *
from attrs import read1
from drivers.c08 import dag, total

TRACE_SPEC = 'T09'
RULE = ('chains of up to 5 operations over leaves with tracked source arcs; totals of several results combined with random integer weights, in one or several '
        'backward passes (accumulating); derivatives of forward, backward and posterior scores under sparse integer upstream gradients; both semirings and '
        'precisions; non-trivial: a gradient that is not zero')
CASE_TIMEOUT = 30
SC = 10000


def MODELS(tier):
    return [dict(module='MC09', cfg='MC09.cfg' if tier == 'quick' else 'MC09_deep.cfg', workers=4, actions=['AddArc'])]


OPS = ['connect', 'top_sort', 'arc_sort', 'add_loops', 'rm_loops', 'reverse', 'closure', 'union', 'rm_eps', 'rm_eps_loops', 'index', 'index_fsa', 'vec', 'cat',
       'clone', 'to', 'invert', 'expand', 'shortest_path', 'prune', 'double', 'intersect', 'intersect', 'intersect', 'intersect_device', 'compose']


def leaf(rng, mode, ns):
    L = []
    for _ in range(ns):
        if rng.random() < .06:
            L.append(dict(n=0, a=[]))
            continue
        f = dag(rng, mode, 0, n=rng.choice([2, 3, 3, 4, 5]), narcs=rng.choice([1, 3, 5, 7]))
        if mode == 'log':
            for a in f['a']:
                a[3] = min(a[3], 3)
        elif rng.random() < .5:
            for a in f['a']:
                if a[3] != NEGINF:
                    a[3] = rng.randint(-900, 900)
        if not any(a[2] == -1 for a in f['a']):
            f['a'].append([f['n'] - 2, f['n'] - 1, -1, 1])
        L.append(arc_sorted(f))
    return L


def gen(rng, tier, ctx):
    N = 9000 if tier == 'quick' else 20000
    for i in range(N):
        mode = rng.choice(['trop', 'log'])
        if rng.random() < .3:
            S = [dag(rng, mode, 0, n=rng.choice([2, 3, 4, 5, 6])) if rng.random() > .1 else dict(n=0, a=[]) for _ in range(rng.choice([1, 1, 2, 3]))]
            for f in S:
                if mode == 'log':
                    while not total(f, 4000):
                        f['a'].pop(rng.randrange(len(f['a'])))
                else:
                    for a in f['a']:
                        if a[3] != NEGINF:
                            a[3] = rng.randint(-9999, 9999)
            yield dict(kind='der', mode=mode, f=S, dbl=rng.randint(0, 1), seed=rng.randrange(1 << 30))
            continue
        nl = 3
        yield dict(kind='chain', mode=mode, leaves=[leaf(rng, mode, rng.choice([1, 1, 2, 3])) for _ in range(nl)], rg=[1] + [rng.choice([1, 1, 0]) for _ in range(nl - 1)],
                   param=[rng.randint(0, 1) for _ in range(nl)], seed=rng.randrange(1 << 30), ops=[rng.choice(OPS) for _ in range(rng.choice([1, 2, 3, 4, 5]))],
                   aux=rng.choice([0, 1, 1]))


def to_k2(S, mode):
    R = []
    for f in S:
        R.append(dict(n=f['n'], a=[[a[0], a[1], a[2], (math.log(a[3]) if a[3] else -math.inf) if mode == 'log' else (-math.inf if a[3] == NEGINF else a[3])] for a in f['a']]))
    return mk_vec(R)


def acyc(fs):
    return all(a[0] < a[1] for f in fs for a in f['a'])


def enters_start(fs):     # top_sort requires the start state to come first
    return any(a[1] == 0 for f in fs for a in f['a'])


def has_cycle(fs):
    for f in fs:
        indeg, adj = [0] * f['n'], [[] for _ in range(f['n'])]
        for a in f['a']:
            adj[a[0]].append(a[1])
            indeg[a[1]] += 1
        q, k = [s for s in range(f['n']) if indeg[s] == 0], 0
        while q:
            s = q.pop()
            k += 1
            for d in adj[s]:
                indeg[d] -= 1
                if indeg[d] == 0:
                    q.append(d)
        if k < f['n']:
            return True
    return False


def run(c):
    if c['kind'] == 'der':
        return run_der(c)
    torch, k2, _k2 = k2mods()
    mode = c['mode']
    sc = ei if mode == 'log' else si
    rng = random.Random(c['seed'])
    leaves, params, W = [], [], []
    for i, L in enumerate(c['leaves']):
        x = to_k2(L, mode)
        if c['param'][i]:
            p = x.scores.detach().clone().requires_grad_(bool(c['rg'][i]))
            x.scores = p
        else:
            x.requires_grad_(bool(c['rg'][i]))
            p = x.scores
        n = x.arcs.num_elements()
        setattr(x, f'id{i}', torch.arange(1, n + 1, dtype=torch.int32))
        if c['aux'] and i < 2:
            if i == 0:
                x.aux_labels = torch.where(x.labels == -1, x.labels, torch.tensor([rng.choice([0, 1, 2]) for _ in range(n)], dtype=torch.int32)) if n else x.labels.clone()
        leaves.append(x)
        params.append(p)
        W.append([sc(v) for v in p.tolist()])
    pool = [leaves[0]]
    used = 1

    def small(x):
        return x.arcs.num_elements() <= 60

    for op in c['ops']:
        x = rng.choice(pool)
        fs = fsa_json(x, sc)['f']
        vec = len(x.shape) == 3
        o = None
        try:
            if op in ('connect', 'arc_sort', 'clone', 'invert'):
                if op == 'invert' and not (hasattr(x, 'aux_labels') and isinstance(x.aux_labels, torch.Tensor)):
                    continue
                o = x.clone() if op == 'clone' else getattr(k2, op)(x)
            elif op == 'to':
                o = x.to('cpu')
            elif op == 'reverse':
                o = k2.reverse(x)
            elif op == 'closure':
                if vec and not fs:
                    continue
                y = x[rng.randrange(len(fs))] if vec else x
                if any(a[1] == 0 for a in fsa_json(y, sc)['f'][0]['a']):
                    continue
                o = k2.closure(y)
            elif op == 'top_sort':
                if has_cycle(fs) or enters_start(fs):
                    continue
                o = k2.top_sort(x)
            elif op == 'add_loops':
                o = k2.add_epsilon_self_loops(x)
            elif op == 'rm_loops':
                o = k2.remove_epsilon_self_loops(x)
            elif op == 'union':
                if not vec or not fs or any(f['n'] == 0 for f in fs):
                    continue
                o = k2.union(x)
            elif op in ('rm_eps', 'rm_eps_loops'):
                if not acyc(fs):
                    continue
                o = k2.remove_epsilon(x) if op == 'rm_eps' else k2.remove_epsilon_and_add_self_loops(x)
            elif op in ('shortest_path', 'prune'):
                if not vec or not acyc(fs) or x.arcs.num_elements() == 0:
                    continue
                if op == 'prune' and any(a[3] == NONINT for f in fs for a in f['a']):
                    continue
                o = k2.shortest_path(x, bool(rng.randint(0, 1))) if op == 'shortest_path' else k2.prune_on_arc_post(x, rng.choice([.0001, .3]), True)
            elif op == 'index':
                if not vec or not fs:
                    continue
                o = x[rng.randrange(len(fs))]
            elif op == 'index_fsa':
                if not vec or not fs:
                    continue
                o = k2.index_fsa(x, torch.tensor([rng.randrange(len(fs)) for _ in range(rng.choice([1, 2, 3]))], dtype=torch.int32))
            elif op == 'vec':
                o = k2.create_fsa_vec([x[rng.randrange(len(fs))] for _ in range(rng.choice([1, 2, 3]))] if vec and fs else [x] * rng.choice([1, 2]))
            elif op == 'cat':
                if not vec:
                    continue
                o = k2.cat([x] * rng.choice([1, 2]))
            elif op == 'expand':
                if not any(isinstance(v, k2.RaggedTensor) and n == 'aux_labels' for n, v in x.named_tensor_attr()):
                    continue
                o = k2.expand_ragged_attributes(x, ragged_attribute_names=['aux_labels'])
            elif op == 'double':
                o = x.clone()
                o.scores = x.scores * 2
                for i in range(3):
                    v = ids(x, i)
                    if v is not None:
                        setattr(o, f'id{i}', k2.RaggedTensor([L + L for L in v], dtype=torch.int32) if v else k2.RaggedTensor('[ ]', dtype=torch.int32))
            else:
                if used >= 3 or not fs:
                    continue
                b = leaves[used]
                nb = b.shape[0]
                if nb == 0:
                    continue
                if vec and nb != len(fs) and nb != 1 and len(fs) != 1:
                    continue
                if op == 'intersect_device':
                    if not vec:
                        continue
                    m = len(fs)
                    b2 = [rng.randrange(m) for _ in range(nb)]
                    o = k2.intersect_device(k2.arc_sort(x), b, torch.tensor(b2, dtype=torch.int32), sorted_match_a=bool(rng.randint(0, 1)))
                elif op == 'compose':
                    if not (hasattr(x, 'aux_labels') and isinstance(x.aux_labels, torch.Tensor)):
                        continue
                    o = k2.compose(x, b, treat_epsilons_specially=bool(rng.randint(0, 1)))
                else:
                    o = k2.intersect(k2.arc_sort(x), b, treat_epsilons_specially=bool(rng.randint(0, 1)))
                used += 1
        except Exception as e:
            return [err_event('Raised', e, what=op)]
        if o is not None and small(o):
            pool.append(o)
    # what can be scored
    res, objs = [], []
    for o in pool:
        f = fsa_json(o, sc)['f']
        if has_cycle(f):
            continue
        y = o
        if len(y.shape) == 2:
            y = k2.create_fsa_vec([y])
        if not acyc(f):
            if enters_start(f):
                continue
            y = k2.top_sort(y)
        r = fsa_json(y, sc)['f']
        if any(a[3] in (NONINT, NAN, POSINF) for q in r for a in q['a']):
            if any(a[3] in (NAN,) for q in r for a in q['a']):
                return [dict(op='Raised', err='NaN')]
            continue
        if mode == 'log' and not all(total(q, 4000) for q in r):
            continue
        if mode == 'trop' and any(abs(a[3]) > 10 ** 8 and a[3] != NEGINF for q in r for a in q['a']):
            continue
        res.append(dict(f=r, ids=[ids(y, i) or [[] for _ in range(y.arcs.num_elements())] for i in range(3)]))
        objs.append(y)
    if not objs:
        return []
    units, uidx = [], {}
    L = [i for i in range(3) if c['rg'][i]]

    def unit(j, i, dbl):
        key = (j, i, dbl)
        if key not in uidx:
            t = objs[j].get_tot_scores(bool(dbl), False)
            g = [None] * 3
            if t.requires_grad:
                gg = torch.autograd.grad(t[i], [params[q] for q in L], retain_graph=True, allow_unused=True)
                for q, v in zip(L, gg):
                    g[q] = v
            units.append(dict(r=j + 1, i=i + 1, g=[[0] * len(W[q]) if g[q] is None else [si(v) for v in g[q].tolist()] for q in range(3)]))
            uidx[key] = len(units)
        return uidx[key]
    terms, evs = [], []
    for _ in range(rng.choice([1, 1, 2])):
        loss = 0
        any_grad = False
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(len(objs)) if rng.random() < .5 else len(objs) - 1
            dbl = rng.randint(0, 1)
            n = len(res[j]['f'])
            if n == 0:
                continue
            t = objs[j].get_tot_scores(bool(dbl), mode == 'log')
            u = [rng.choice([0, 1, 1, 2, -1, 3]) for _ in range(n)]
            if rng.random() < .3:
                u = [1] * n
            fin = [i for i in range(n) if t[i] != -math.inf]
            for i in range(n):
                if i not in fin and rng.random() < .5:
                    u[i] = 0
            if t.requires_grad:
                any_grad = True
                # elements with a total of minus infinity still take part, through the upstream gradient alone
                loss = (loss, t, u) if isinstance(loss, int) else loss
                t.backward(torch.tensor(u, dtype=t.dtype), retain_graph=True) if rng.random() < .5 else \
                    torch.autograd.backward([t], [torch.tensor(u, dtype=t.dtype)], retain_graph=True)
            for i in range(n):
                if u[i]:
                    terms.append([j + 1, i + 1, u[i], unit(j, i, dbl) if mode == 'trop' else 0])
        # one more pass with a summed loss
        if rng.random() < .5:
            parts = []
            for _ in range(2):
                j = rng.randrange(len(objs))
                n = len(res[j]['f'])
                t = objs[j].get_tot_scores(True, mode == 'log')
                k = [i for i in range(n) if t[i] != -math.inf]
                if not k or not t.requires_grad:
                    continue
                w = rng.choice([1, 2, -1])
                parts.append(w * t[k].sum())
                terms += [[j + 1, i + 1, w, unit(j, i, 1) if mode == 'trop' else 0] for i in k]
            if parts:
                sum(parts).backward(retain_graph=True)
        g = []
        for q in range(3):
            v = params[q].grad
            g.append([0] * len(W[q]) if v is None else [ri(x * SC, 0.6) if mode == 'log' else si(x) for x in v.tolist()])
        # only what the terms speak about
        keep = sorted({t[0] for t in terms})
        pos = {j: k + 1 for k, j in enumerate(keep)}
        kept_units = sorted({t[3] for t in terms if t[3]})
        up = {u: k + 1 for k, u in enumerate(kept_units)}
        evs.append(dict(op='grad', mode=mode, w=W, rg=c['rg'], res=[res[j - 1] for j in keep], depth=4, terms=[[pos[t[0]], t[1], t[2], up.get(t[3], 0)] for t in terms],
                        units=[dict(units[u - 1], r=pos[units[u - 1]['r']]) for u in kept_units], out=g))
    return evs


def ids(x, i):
    v = read1(x, f'id{i}')
    if v['kind'] == 'int':
        return [[y] if y else [] for y in v['v']]
    if v['kind'] == 'rag':
        return v['v']
    return None


def run_der(c):
    torch, k2, _k2 = k2mods()
    mode, log = c['mode'], c['mode'] == 'log'
    sc = ei if log else si
    rng = random.Random(c['seed'])
    fsa = to_k2(c['f'], mode)
    fsa.requires_grad_(True)
    f = fsa_json(fsa, sc)['f']
    off = [0]
    aoff = [0]
    for x in f:
        off.append(off[-1] + x['n'])
        aoff.append(aoff[-1] + len(x['a']))
    evs = []
    for what in rng.sample(['fwd', 'bwd', 'post'], rng.choice([1, 2, 3])):
        fn = dict(fwd=fsa.get_forward_scores, bwd=fsa.get_backward_scores, post=fsa.get_arc_post)[what]
        t = fn(use_double_scores=bool(c['dbl']), log_semiring=log)
        o = aoff if what == 'post' else off
        ok = [i for i in range(o[-1]) if t[i] != -math.inf]
        up = torch.zeros_like(t)
        terms = []
        for i in rng.sample(ok, min(len(ok), rng.choice([1, 1, 2, 3]))):
            e = max(k for k in range(len(f)) if o[k] <= i)
            w = rng.choice([1, 1, 2, -1])
            up[i] = w
            terms.append([e + 1, i - o[e] + (1 if what == 'post' else 0), w])
        if not terms:
            continue
        g, = torch.autograd.grad(t, [fsa.scores], [up], retain_graph=True)
        evs.append(dict(op='der', what=what, mode=mode, f=f, terms=terms, out=[ri(x * SC, 0.6) for x in g.tolist()]))
    return evs


def nontrivial(c, ev):
    def nz(x):
        return any(nz(y) for y in x) if isinstance(x, list) else x != 0
    return any('out' in e and nz(e['out']) for e in ev)


def finding_match(f, case, ev, l):
    return False
