"""C28: the equivalence test and the random generators."""
import math
from common import *

TRACE_SPEC = 'T28'
OUTS = ('res', 'f')
RULE = ('pairs of acyclic, topologically sorted automata and batches: the second made from the first by steps that keep the weighted strings '
        '(states renumbered, arcs split or doubled, epsilons inserted, states duplicated, dead parts, prefix tree of all strings) and possibly one '
        'that does not (weight, label, an arc more or less); tropical and log semiring, epsilon special or not, beams, tolerances, 1-4000 samples; '
        'random automata and batches for all argument ranges; non-trivial: a path exists')
CASE_TIMEOUT = 20


def MODELS(tier):
    acts = ['CompareLabels', 'CompareTotals', 'Examine']
    q = tier == 'quick'
    return [dict(module='MC28', cfg='MC28.cfg' if q else 'MC28_deep.cfg', workers=3, actions=acts),
            dict(module='MC28', cfg='MC28_trop.cfg' if q else 'MC28_tropdeep.cfg', workers=3, actions=acts)]


def topo(rng, f):
    """random renumbering that stays topologically sorted"""
    n = f['n']
    if n < 3:
        return f
    pre = {s: set() for s in range(n)}
    for a in f['a']:
        pre[a[1]].add(a[0])
    order, left = [0], set(range(1, n - 1))
    while left:
        ok = [s for s in left if not (pre[s] & left)]
        s = rng.choice(sorted(ok))
        order.append(s)
        left.discard(s)
    order.append(n - 1)
    ix = {s: i for i, s in enumerate(order)}
    arcs = [[ix[a[0]], ix[a[1]], a[2], a[3]] for a in f['a']]
    rng.shuffle(arcs)
    arcs.sort(key=lambda a: a[0])
    return dict(n=n, a=arcs)


def insert_state(f, at):
    """a new state numbered at (0 < at < n)"""
    g = lambda s: s + 1 if s >= at else s
    return dict(n=f['n'] + 1, a=[[g(a[0]), g(a[1]), a[2], a[3]] for a in f['a']])


def norm(f):
    f['a'].sort(key=lambda a: a[0])
    return f


def same(rng, f, m, eps):
    """one step that keeps the weighted strings"""
    f = dict(n=f['n'], a=[list(a) for a in f['a']])
    k = rng.choice(['topo', 'double', 'eps', 'dup', 'dead', 'move', 'tree'])
    if not f['a']:
        return f
    if k == 'topo':
        return topo(rng, f)
    i = rng.randrange(len(f['a']))
    a = f['a'][i]
    if k == 'double':
        if m == 'trop':
            f['a'].append([a[0], a[1], a[2], a[3] - rng.choice([0, 0, 1, 3])])
        elif a[3] > 1:
            x = rng.randint(1, a[3] - 1)
            f['a'].append([a[0], a[1], a[2], x])
            a[3] -= x
    elif k == 'eps' and eps and f['n'] < 9:      # u -x-> v  becomes  u -x-> w -eps-> v or u -eps-> w -x-> v
        w = a[0] + 1
        s, d, l, wt = a
        f['a'].pop(i)
        f = insert_state(f, w)
        d += 1
        w1 = rng.randint(-2, 2) if m == 'trop' else rng.choice([x for x in (1, 2, 3, 4) if wt % x == 0])
        w2 = wt - w1 if m == 'trop' else wt // w1
        if l != -1 and rng.random() < .5:
            f['a'] += [[s, w, l, w1], [w, d, 0, w2]]
        else:
            f['a'] += [[s, w, 0, w1], [w, d, l, w2]]
    elif k == 'dup' and f['n'] > 2:
        s = rng.randrange(1, f['n'] - 1)
        f = insert_state(f, s + 1)
        f['a'] += [[s + 1] + x[1:] for x in f['a'] if x[0] == s]
        for x in f['a']:
            if x[1] == s and rng.random() < .5:
                x[1] = s + 1
    elif k == 'dead' and f['n'] > 2:
        s = rng.randrange(1, f['n'])
        f = insert_state(f, s)
        f['a'] += [[rng.randrange(0, s), s, rng.choice([0, 1, 2, 7]), rng.randint(1, 3)]] if rng.random() < .5 else \
            [[s, d, -1 if d == f['n'] - 1 else rng.choice([0, 1, 7]), rng.randint(1, 3)] for d in [rng.randrange(s + 1, f['n'])]]
    elif k == 'move' and f['n'] > 2:      # push weight through a state
        s = rng.randrange(1, f['n'] - 1)
        w = rng.randint(-2, 2) if m == 'trop' else 2
        ins = [x for x in f['a'] if x[1] == s]
        outs = [x for x in f['a'] if x[0] == s]
        if m == 'trop':
            for x in ins:
                x[3] += w
            for x in outs:
                x[3] -= w
        elif all(x[3] % 2 == 0 for x in outs):
            for x in ins:
                x[3] *= 2
            for x in outs:
                x[3] //= 2
    elif k == 'tree':
        strs = {}

        def walk(s, labs, w):
            if len(strs) > 12:
                return
            if s == f['n'] - 1:
                if labs in strs:
                    strs[labs] = max(strs[labs], w) if m == 'trop' else strs[labs] + w
                else:
                    strs[labs] = w
                return
            for x in f['a']:
                if x[0] == s:
                    walk(x[1], labs if eps and x[2] == 0 else labs + (x[2],), w + x[3] if m == 'trop' else w * x[3])
        walk(0, (), 0 if m == 'trop' else 1)
        if not 0 < len(strs) <= 8:
            return f
        nodes = sorted({t[:j] for t in strs for j in range(len(t))})
        ix = {t: j for j, t in enumerate(nodes)}
        if len(nodes) > 10:
            return f
        one = 0 if m == 'trop' else 1
        arcs = [[ix[t[:-1]], ix[t], t[-1], one] for t in nodes if t] + [[ix[t[:-1]], len(nodes), -1, w] for t, w in strs.items()]
        f = dict(n=len(nodes) + 1, a=arcs)
    return norm(f)


def differ(rng, f, m):
    f = dict(n=f['n'], a=[list(a) for a in f['a']])
    if not f['a']:
        return f
    i = rng.randrange(len(f['a']))
    a = f['a'][i]
    k = rng.choice(['w', 'w', 'w', 'l', 'del', 'add', 'swap', 'swap'])
    if k == 'w':
        a[3] += rng.choice([1, 2, 5]) if m == 'log' else rng.choice([-5, -1, 1, 2, 5])
    elif k == 'l' and a[2] != -1:
        a[2] = rng.choice([0, 1, 2, 3])
    elif k == 'del':
        f['a'].pop(i)
    elif k == 'add':
        s = rng.randrange(0, f['n'] - 1)
        d = rng.randrange(s + 1, f['n'])
        f['a'].append([s, d, -1 if d == f['n'] - 1 else rng.choice([0, 1, 2]), rng.randint(1, 3)])
    elif k == 'swap':      # totals often stay the same
        j = rng.randrange(len(f['a']))
        b = f['a'][j]
        if rng.random() < .5 and a[2] != -1 and b[2] != -1:
            a[2], b[2] = b[2], a[2]
        else:
            a[3], b[3] = b[3], a[3]
    return norm(f)


def npaths(f):
    c = [0] * f['n']
    if f['n']:
        c[0] = 1
        for a in f['a']:
            c[a[1]] += c[a[0]]
        return c[-1]
    return 0


def total(f):
    c = [0] * f['n']
    if f['n']:
        c[0] = 1
        for a in f['a']:
            c[a[1]] += c[a[0]] * a[3]
        return c[-1]
    return 0


def base(rng, m):
    if rng.random() < .06:
        return dict(n=0, a=[]) if rng.random() < .5 else dict(n=rng.choice([2, 3]), a=[])
    while True:
        n = rng.choice([2, 3, 3, 4, 4, 5])
        f = rand_fsa(rng, n=n, nsym=rng.choice([1, 2, 2, 3]), eps=rng.choice([0, .2, .4]), acyclic=True, narcs=rng.choice([2, n, n + 2, 2 * n]))
        if m == 'log':
            for a in f['a']:
                a[3] = rng.choice([1, 1, 2, 2, 3, 4])
        if rng.random() < .9:
            coreach_fix(rng, f)
            if m == 'log':
                for a in f['a']:
                    a[3] = max(1, abs(a[3]))
        if npaths(f) <= 12:
            return norm(f)


def pair(rng, m, eps, diff):
    a = base(rng, m)
    b = a
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        g = same(rng, b, m, eps)
        if npaths(g) <= 24 and g['n'] <= 11 and (m == 'trop' or total(g) < 3000):
            b = g
    if diff:
        g = differ(rng, b, m)
        if npaths(g) <= 30 and (m == 'trop' or total(g) < 3000):
            b = g
    return (a, b) if rng.random() < .5 else (b, a)


def gen(rng, tier, ctx):
    N = 5000 if tier == 'quick' else 30000
    for i in range(N):
        if rng.random() < .15:
            hi = rng.choice([0, 1, 2, 5, 10, 40])
            lo = rng.randint(0, hi)
            vec = rng.random() < .5
            nhi = rng.choice([1, 1, 2, 5])
            yield dict(kind='random', vec=1 if vec else 0, acyclic=rng.choice([0, 1]), maxsym=rng.choice([0, 1, 3, 50]), lo=lo, hi=hi,
                       nhi=nhi, nlo=rng.randint(1, nhi))
            continue
        m = rng.choice(['trop', 'log'])
        eps = 1 if rng.random() < .75 else 0
        ns = rng.choice([0, 0, 0, 1, 2, 3])
        dif = rng.random() < .5
        k = max(ns, 1)
        j = rng.randrange(k)
        ps = [pair(rng, m, eps, dif and q == j) for q in range(k)]
        A, B = [p[0] for p in ps], [p[1] for p in ps]
        if ns and rng.random() < .06:
            (A if rng.random() < .5 else B).append(base(rng, m))
        yield dict(kind='equiv', m=m, eps=eps, a=A, b=B, vec=1 if ns else 0, d=rng.choice([0, 0, 0, 1, 2]) if m == 'trop' else 0,
                   h=rng.choice([0, 0, 1, 3, 5, 9, 41]) if m == 'trop' else rng.choice([0, 0, 3, 5, 9, 41]), npath=rng.choice([1, 20, 100, 700, 2600]))


def build(fs, m, vec):
    torch, k2, _k2 = k2mods()
    if m == 'log':
        fs = [dict(n=f['n'], a=[a[:3] + [math.log(a[3])] for a in f['a']]) for f in fs]
    v = mk_vec(fs)
    return v if vec else v[0]


def run(c):
    torch, k2, _k2 = k2mods()
    if c['kind'] == 'random':
        ev = dict(op='random', **{k: c[k] for k in ('vec', 'acyclic', 'maxsym', 'lo', 'hi', 'nlo', 'nhi')})
        try:
            f = k2.random_fsa_vec(c['nlo'], c['nhi'], bool(c['acyclic']), c['maxsym'], c['lo'], c['hi']) if c['vec'] else \
                k2.random_fsa(bool(c['acyclic']), c['maxsym'], c['lo'], c['hi'])
            ev.update(f=fsa_json(f, lambda x: 0)['f'], finite=1 if bool(torch.isfinite(f.scores).all()) else 0)
        except Exception as e:
            ev.update(err=type(e).__name__, msg=str(e)[:200])
        return [ev]
    m = c['m']
    a, b = build(c['a'], m, c['vec']), build(c['b'], m, c['vec'])
    sc = si if m == 'trop' else ei
    ev = dict(op='equiv', m=m, eps=c['eps'], d=c['d'], h=c['h'], npath=c['npath'])
    kw = {}
    if c['h']:
        kw['beam'] = c['h'] / 2 if m == 'trop' else math.log(c['h'] / 2)
    if not c['eps'] or c['npath'] == 20:
        kw['treat_epsilons_specially'] = bool(c['eps'])
    if m == 'log':
        kw['delta'] = 1e-4
    elif c['d']:
        kw['delta'] = c['d'] + .25
    if c['npath'] != 100:
        kw['npath'] = c['npath']
    try:
        r = k2.is_rand_equivalent(a, b, m == 'log', **kw)
        ev['res'] = 1 if r is True else 0 if r is False else 2
    except Exception as e:
        if len(c['a']) != len(c['b']):
            ev['res'] = 0          # refused
        else:
            ev.update(err=type(e).__name__, msg=str(e)[:200])
    ev.update(a=fsa_json(a, sc)['f'], b=fsa_json(b, sc)['f'])
    return [ev]


def nontrivial(c, ev):
    return c['kind'] == 'random' or any(f['a'] for f in c['a'])
