"""C02: rational operations."""
from common import *
from attrs import *

TRACE_SPEC = 'T02'
RULE = ('random valid automata and batches (0-6 states, epsilons, cycles, dead states, no arcs, parallel arcs), random attribute sets '
        '(fillers, floats, ragged, non-tensor, dense/ragged secondary labels), label sequences incl. empty; non-trivial: result has an arc')
CASE_TIMEOUT = 30


def MODELS(tier):
    return [dict(module='MC02', cfg='MC02.cfg' if tier == 'quick' else 'MC02_deep.cfg', workers=4,
                 actions=['DoUnion', 'DoClosure', 'DoReverse', 'DoReplace'])]


def rfsa(rng, neg=False, maxn=5, empty=0.0, nsym=2):
    r = rng.random()
    if r < empty:
        return dict(n=0, a=[])
    if r < empty + .08:
        return dict(n=rng.choice([2, 3]), a=[])
    if r < empty + .16:
        return dict(n=2, a=[[0, 1, -1, rng.randint(-4, 0 if neg else 3)] for _ in range(rng.choice([1, 1, 2]))])
    f = rand_fsa(rng, n=rng.choice([2, 3, 3, 4, maxn]), nsym=nsym, eps=rng.choice([0, .15, .3]), acyclic=rng.random() < .4,
                 whi=0 if neg else 4, narcs=rng.randint(0, 8))
    for a in f['a']:
        if a[2] == 0 and a[3] > 0:
            a[3] = -a[3]
    if rng.random() < .8:
        coreach_fix(rng, f)
        if neg:
            for a in f['a']:
                a[3] = min(a[3], 0)
    return f


def flat(S):
    return [a for f in S for a in f['a']]


def gen(rng, tier, ctx):
    N = 8000 if tier == 'quick' else 50000
    for i in range(N):
        k = rng.choice(['union', 'union', 'closure', 'closure', 'reverse', 'reverse', 'replace', 'replace', 'replace', 'linear', 'linear', 'loops', 'loops'])
        if k == 'union':
            S = [rfsa(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            yield dict(k=k, f=S, at=rand_attrs(rng, flat(S), aux=rng.choice([None, 'dense', 'rag'])))
        elif k == 'closure':
            S = [rfsa(rng, neg=True)]
            yield dict(k=k, f=S, at=rand_attrs(rng, flat(S), aux=rng.choice([None, 'dense', 'dense', 'rag'])))
        elif k == 'reverse':
            S = [rfsa(rng, empty=.05) for _ in range(rng.choice([1, 1, 2, 3]))]
            yield dict(k=k, f=S, single=1 if len(S) == 1 and rng.random() < .7 else 0,
                       at=rand_attrs(rng, flat(S), aux=rng.choice([None, 'dense', 'rag'])))
        elif k == 'replace':
            S = [rfsa(rng, neg=True, empty=.06, maxn=4) for _ in range(rng.choice([1, 2, 3]))]
            I = [rfsa(rng, neg=True, empty=.05, maxn=4, nsym=4) for _ in range(rng.choice([1, 1, 2]))]
            if sum(len(f['a']) for f in I) > 14:
                I = I[:1]
            c = dict(k=k, f=S, i=I, single=1 if len(I) == 1 and rng.random() < .7 else 0, sb=rng.choice([1, 1, 2, 3, 3, 0, 7]),
                     at=rand_attrs(rng, flat(S), prefix='s'), iat=rand_attrs(rng, flat(I), prefix='i'))
            if rng.random() < .4:
                c['shared'] = [[rng.randint(-9, 9) for _ in flat(S)], [rng.randint(-9, 9) for _ in flat(I)]]
            yield c
        elif k == 'linear':
            form = rng.choice(['list', 'lists', 'ragged'])
            n = 1 if form == 'list' else rng.choice([1, 2, 3, 4])
            q = [[rng.choice([0, 1, 2, 3, 9]) for _ in range(rng.choice([0, 1, 2, 3, 6]))] for _ in range(n)]
            fst = 1 if rng.random() < .5 and form != 'ragged' else 0
            c = dict(k=k, form=form, q=q, fst=fst)
            if fst:
                if form == 'list' and not q[0]:
                    q[0] = [1]
                c['aux'] = [[rng.choice([0, 1, 5, 7]) for _ in x] for x in q]
            yield c
        else:
            S = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                L = rng.choice([0, 1, 2, 4, 6])
                labs = [rng.choice([0, 0, 1, 2, 5]) for _ in range(L)]
                S.append(dict(n=L + 2, a=[[j, j + 1, labs[j] if j < L else -1, rng.randint(-3, 3)] for j in range(L + 1)]))
            fst = rng.randint(0, 1)
            c = dict(k=k, f=S, fst=fst, single=1 if len(S) == 1 and rng.random() < .6 else 0)
            c['aux'] = [-1 if a[2] == -1 else rng.choice([0, 0, 1, 3, 4]) for a in flat(S)]
            yield c


def amap(o, name):
    v = read1(o, name)
    return [x - 1 for x in v['v']] if v['kind'] == 'int' else [-9]


def run(c):
    torch, k2, _k2 = k2mods()
    k = c['k']
    if k == 'linear':
        op = 'linear_fst' if c['fst'] else 'linear_fsa'
        ev = dict(op=op, seqs=c['q'], vec=0 if c['form'] == 'list' else 1, aux=c.get('aux', []))
        lab = c['q'][0] if c['form'] == 'list' else c['q']
        if c['form'] == 'ragged':
            lab = k2.RaggedTensor(c['q'], dtype=torch.int32)
        try:
            if c['fst']:
                o = k2.linear_fst(lab, c['aux'][0] if c['form'] == 'list' else c['aux'])
            else:
                o = k2.linear_fsa(lab)
        except Exception as e:
            ev.update(err=type(e).__name__, msg=str(e)[:200])
            return [ev]
        ev['out'] = fsa_json(o)
        if c['fst']:
            ev['out']['aux'] = tl(o.aux_labels)
        return [ev]
    S = c['f']
    a = mk_vec(S)
    if (c.get('single') and k != 'replace') or k == 'closure':
        a = a[0]
    if k == 'loops':
        op = 'linear_fst_with_self_loops' if c['fst'] else 'linear_fsa_with_self_loops'
        ev = dict(op=op, vec=0 if c['single'] else 1, f=fsa_json(a)['f'], aux=c['aux'])
        try:
            a.aux_labels = torch.tensor(c['aux'], dtype=torch.int32)
            o = getattr(k2, op)(a)
        except Exception as e:
            ev.update(err=type(e).__name__, msg=str(e)[:200])
            return [ev]
        ev['out'] = fsa_json(o)
        if c['fst']:
            ev['out']['aux'] = o.aux_labels.tolist()
        return [ev]
    attach(a, c['at'])
    names = list(c['at'])
    ev = dict(op=k, f=fsa_json(a)['f'], attrs=read(a, names), vec=0 if c.get('single') else 1)
    try:
        if k == 'replace':
            ev['op'] = 'replace_fsa'
            b = mk_vec(c['i'])
            if c['single']:
                b = b[0]
            attach(b, c['iat'])
            ev['i'] = fsa_json(b)['f']
            ev['ivec'] = 0 if c['single'] else 1
            ev['iattrs'] = read(b, list(c['iat']))
            ev['sb'] = c['sb']
            if 'shared' in c:
                a.sh = torch.tensor(c['shared'][0], dtype=torch.float32)
                b.sh = torch.tensor(c['shared'][1], dtype=torch.float32)
                ev['shared'] = c['shared']
            o, mi, ms = k2.replace_fsa(a, b, c['sb'], ret_arc_map=True)
            ev['out'] = dict(fsa_json(o), mi=tl(mi), ms=tl(ms), attrs=read(o, names), iattrs=read(o, list(c['iat'])))
            if 'shared' in c:
                ev['out']['shared'] = read1(o, 'sh')['v']
        else:
            o = getattr(k2, k)(a)
            ev['out'] = dict(fsa_json(o), m=amap(o, 'id'), attrs=read(o, names))
    except Exception as e:
        ev.update(err=type(e).__name__, msg=str(e)[:200])
        ev.pop('out', None)
    return [ev]


def nontrivial(c, ev):
    return any('out' in e and any(f['a'] for f in e['out']['f']) for e in ev)


def finding_match(f, case, ev, l):
    return case['k'] == 'closure' and any(a[1] == 0 for a in case['f'][0]['a'])
