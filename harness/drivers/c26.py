"""C26: n-best lists."""
from common import *
import attrs as AT
from drivers import c08

TRACE_SPEC = 'T26'
RULE = ('random batches of acyclic lattices (epsilons, duplicate outputs, dead ends, lattices with no path, empty batches of entries, minus-infinity scores) with dense or ragged outputs: lists sampled from lattices '
        '(1-20 paths, scales, both precisions, gradients through a leaf or a derived score tensor, the same lattice used again), written-down lists; total scores, best k (k below, at and above the sizes), Levenshtein graphs, '
        'intersection with a lattice, rescoring with a language model, lists of token sequences; non-trivial: some utterance has two entries or a rescored lattice has a path')
CASE_TIMEOUT = 30
OUTS = ('entries', 'rows', 'tot', 'top', 'trows', 'words', 'graphs', 'res', 'rrows', 'out', 'g', 'same', 'refused')
SKIP = ('c',)


def MODELS(tier):
    return [dict(module='MC26', cfg='MC26.cfg' if tier == 'quick' else 'MC26_deep.cfg', workers=4, actions=['Expand', 'Score', 'Done'])]


def npaths(f):
    if f['n'] == 0:
        return 0
    c = [0] * f['n']
    c[0] = 1
    for a in f['a']:
        c[a[1]] += c[a[0]]
    return c[-1]


def lattices(rng, B, inf=True):
    S = []
    for _ in range(B):
        if rng.random() < .06:
            S.append(dict(n=0, a=[]))
            continue
        while 1:
            f = c08.dag(rng, 'trop', 0, n=rng.choice([2, 3, 4, 4, 5, 6]))
            if rng.random() < .9 and not npaths(f):
                continue
            if npaths(f) <= 40:
                break
        if rng.random() < .3:       # many free steps
            for a in f['a']:
                if a[2] > 0 and rng.random() < .7:
                    a[2] = 0
        if not inf or rng.random() < .7:
            for a in f['a']:
                a[3] = max(a[3], -9)
        S.append(f)
    return S


def outputs(rng, S, ragged):
    X = []
    for f in S:
        X.append([([rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))] + ([-1] if a[2] == -1 else [])) if ragged else [-1 if a[2] == -1 else rng.choice([0, 1, 2, 3])] for a in f['a']])
    return X


def words_of(rng, f):
    """labels of some successful path, or a random sequence"""
    if rng.random() < .75 and npaths(f):
        for _ in range(20):
            s, out = 0, []
            while s != f['n'] - 1:
                A = [a for a in f['a'] if a[0] == s]
                if not A:
                    break
                a = rng.choice(A)
                if a[2] > 0:
                    out.append(a[2])
                s = a[1]
            else:
                return out
    return [rng.choice([1, 2]) for _ in range(rng.randint(0, 4))]


def gen(rng, tier, ctx):
    N = 3000 if tier == 'quick' else 14000
    for i in range(N):
        op = rng.choice(['built', 'built', 'written', 'meet', 'meet', 'rescore', 'rescore', 'list'])
        B = rng.choice([1, 1, 2, 3, 4])
        S = lattices(rng, B)
        if op == 'rescore':
            S = [f if f['n'] else dict(n=2, a=[]) for f in S] if rng.random() < .5 else S
        ragged = rng.choice([0, 1]) if op in ('built', 'meet', 'rescore') else 0
        c = dict(op=op, f=S, x=outputs(rng, S, ragged), ragged=ragged, n=rng.choice([1, 2, 5, 20]), dbl=rng.choice([0, 1]), scale=rng.choice([1.0, 0.5, 0.5, 0.25]), ks=rng.sample([1, 2, 3, 4, 7], 2),
                 grad=rng.choice([0, 0, 1, 2]), again=rng.choice([0, 1]), aux=rng.choice([0, 1]))
        if op in ('meet', 'written'):
            c['list'] = [[(w, [rng.randint(-3, 3) for _ in range(len(w) + 1)]) for w in [words_of(rng, f) for _ in range(rng.choice([0, 1, 2, 3, 5]) if rng.random() < .5 else rng.choice([1, 2, 3]))]] for f in S]
            c['lx'] = [[[rng.choice([0, 1, 2, 3]) if rng.random() < .7 else -5 for _ in w[0]] for w in row] for row in c['list']]
            c['lrag'] = rng.choice([0, 1])
        if op == 'rescore':
            c['lm'] = [[rng.randint(-3, 3) for _ in f['a']] for f in S]
            c['G'] = grammar(rng)
        yield c


def grammar(rng):
    while 1:
        n = rng.choice([2, 3, 3, 4])
        f = rand_fsa(rng, n=n, nsym=3, eps=0, narcs=rng.randint(n, 4 * n), final_p=.25)
        coreach_fix(rng, f)
        if rng.random() < .6:     # every word everywhere
            for s in range(n - 1):
                for w in (1, 2, 3):
                    if not any(a[0] == s and a[2] == w for a in f['a']) and n > 2:
                        f['a'].append([s, rng.randrange(n - 1), w, rng.randint(-3, 3)])
            f['a'].sort(key=lambda a: a[0])
        if any(a[2] == -1 for a in f['a']):
            return f


def inf(S):
    return [dict(n=f['n'], a=[[a[0], a[1], a[2], -math.inf if a[3] == NEGINF else a[3]] for a in f['a']]) for f in S]


def attach_x(fsa, X, ragged, name='aux_labels'):
    torch, k2, _k2 = k2mods()
    flat = [x for r in X for x in r]
    if ragged:
        setattr(fsa, name, k2.RaggedTensor(flat, dtype=torch.int32) if flat else k2.RaggedTensor('[ ]', dtype=torch.int32))
    else:
        setattr(fsa, name, torch.tensor([x[0] for x in flat], dtype=torch.int32))


def read_x(fsa, name='aux_labels'):
    """per automaton, per arc, a list"""
    torch, k2, _k2 = k2mods()
    v = getattr(fsa, name)
    v = v.tolist() if isinstance(v, k2.RaggedTensor) else [[y] for y in v.tolist()]
    out, p = [], 0
    for f in arcs_json(fsa.arcs):
        out.append(v[p:p + len(f['a'])])
        p += len(f['a'])
    if p != len(v):
        raise RuntimeError('aux')
    return out


def lat_json(S, X):
    import torch
    r = []
    for f, x in zip(S, X):
        c = [0] * f['n']
        for a in f['a']:
            c[a[0]] += 1
        r.append(dict(f=dict(n=f['n'], a=f['a'], c=c), x=x))
    return r


def rows_of(shape):
    rs = shape.row_splits(1).tolist()
    return [rs[i + 1] - rs[i] for i in range(len(rs) - 1)]


def local(S, arcs):
    """arc numbers of the batch -> positions (from 1) within the automaton of the first arc"""
    off, o = [], 0
    for f in S:
        off.append((o, o + len(f['a'])))
        o += len(f['a'])
    for lo, hi in off:
        if arcs and lo <= arcs[0] < hi:
            return [a - lo + 1 for a in arcs]
    return list(arcs)


def entries_of(nb, aux=True):
    f = fsa_json(nb.fsa)
    X = read_x(nb.fsa) if aux else [[] for _ in f['f']]
    if not f['same']:
        raise RuntimeError('scores differ from arcs')
    return [dict(o=dict(n=o['n'], a=o['a'], c=o['c']), x=x) for o, x in zip(f['f'], X)]


def after(nb, rows, entries, c, aux):
    """what is computed from a list"""
    torch, k2, _k2 = k2mods()
    ev = [dict(op='totals', rows=rows, list=entries, tot=[[si(y) for y in r] for r in nb.total_scores().tolist()])]
    ids = []
    for j, e in enumerate(entries):
        ids += [j + 1] * len(e['o']['a'])
    nb.fsa.eid = torch.tensor(ids, dtype=torch.int32)
    for k in c['ks']:
        e = dict(op='top', rows=rows, list=entries, k=k, refused=0, trows=[], top=[])
        try:
            t = nb.top_k(k)
        except AssertionError:
            if all(rows):
                raise
            e['refused'] = 1
        else:
            e['trows'] = rows_of(t.shape)
            te = entries_of(t, aux)
            p, q = t.fsa.eid.tolist(), 0
            for y in te:
                y['id'] = p[q] if q < len(p) and y['o']['a'] else 0
                q += len(y['o']['a'])
            e['top'] = te
        ev.append(e)
    if aux:
        g = nb.build_levenshtein_graphs()
        words = k2.nbest._get_texts(nb.fsa)
        ok = int(not words or fsa_json(g) == fsa_json(k2.levenshtein_graph(words)))
        ev.append(dict(op='lev', list=entries, words=words, graphs=ok))
    return ev


def run(c):
    torch, k2, _k2 = k2mods()
    S, X = c['f'], c['x']
    lat = mk_vec(inf(S))
    attach_x(lat, X, c['ragged'])
    op = c['op']
    L = lat_json(S, X)
    if op == 'built':
        leaf = None
        if c['grad'] == 1:
            lat.requires_grad_(True)
            leaf = lat.scores
        elif c['grad'] == 2:
            leaf = lat.scores.detach().clone().requires_grad_(True)
            lat.scores = leaf * 1
        before = (fsa_json(lat)['f'], read_x(lat))
        scaled = mk_vec(inf(S))
        scaled.scores = scaled.scores.clone() * c['scale']
        sampled = k2.random_paths(scaled, num_paths=c['n'], use_double_scores=bool(c['dbl'])).tolist()
        if c['again']:
            lat.get_tot_scores(True, True)
            k2.Nbest.from_lattice(lat, 3, bool(c['dbl']), 0.3)
        used = None
        if c['grad'] and sum(len(f['a']) for f in S):
            used = lat.scores * lat.scores      # needs its operand for the gradient
        nb = k2.Nbest.from_lattice(lat, num_paths=c['n'], use_double_scores=bool(c['dbl']), nbest_scale=c['scale'])
        rows = rows_of(nb.shape)
        ent = entries_of(nb)
        kp = nb.kept_path.tolist()
        for e, p in zip(ent, kp):
            e['path'] = local(S, p)
        same = int(len(kp) == len(ent) and before == (fsa_json(lat)['f'], read_x(lat)))
        ev = dict(op='built', lat=L, rows=rows, entries=ent, sampled=[[local(S, p) for p in u] for u in sampled], same=same, grad=0, g=[], w=[])
        if c['grad'] and ent and all(a[3] != NEGINF for f in S for a in f['a']):
            w = [1 + j % 3 for j in range(len(ent))]
            loss = (nb.fsa.get_tot_scores(True, False) * torch.tensor(w, dtype=torch.float64)).sum()
            if used is not None:
                loss = loss + 0 * used.sum().double()
            loss.backward()
            g = [si(y) for y in leaf.grad.tolist()]
            ev.update(grad=1, w=w, g=[])
            p = 0
            for f in S:
                ev['g'].append(g[p:p + len(f['a'])])
                p += len(f['a'])
        ent2 = [dict(o=e['o'], x=e['x']) for e in ent]
        return [ev] + (after(nb, rows, ent2, c, True) if ent and not c['grad'] else [])
    if op == 'list':
        lat.phones = torch.tensor([x[0] for r in X for x in r], dtype=torch.int32)
        del lat.aux_labels
        sampled = k2.random_paths(mk_vec(inf(S)), num_paths=c['n'], use_double_scores=True).tolist()
        names = sorted(n for n, _ in lat.named_tensor_attr())
        before = (fsa_json(lat)['f'], names)
        if c['again']:
            k2.nbest.generate_nbest_list(lat, 2)
        nb = k2.nbest.generate_nbest_list(lat, c['n'])
        rows, ent = rows_of(nb.shape), entries_of(nb, False)
        same = int(before == (fsa_json(lat)['f'], sorted(n for n, _ in lat.named_tensor_attr())) and lat.phones.tolist() == [x[0] for r in X for x in r])
        ev = [dict(op='list', lat=L, rows=rows, entries=ent, sampled=[[local(S, p) for p in u] for u in sampled], same=same)]
        return ev + (after(nb, rows, ent, c, False) if ent else [])
    if op == 'rescore':
        lat.lm_scores = torch.tensor([float(y) for r in c['lm'] for y in r])
        G = mk_vec([c['G']])
        G = k2.arc_sort(k2.add_epsilon_self_loops(G))
        g0 = fsa_json(G)
        out = k2.nbest.whole_lattice_rescoring(lat, G)
        f = fsa_json(out)
        xs = read_x(out)
        for l, m in zip(L, c['lm']):
            l['lm'] = m
        gg = lat_json([c['G']], [[]])[0]['f']
        return [dict(op='rescore', lat=L, G=gg, gsame=int(g0 == fsa_json(G)), out=[dict(f=a, x=x) for a, x in zip(f['f'], xs)])]
    # a list that is written down
    seqs = [w for row in c['list'] for w, _ in row]
    sc = [s for row in c['list'] for _, s in row]
    if not seqs:
        return []
    fs = [dict(n=len(w) + 2, a=[[k, k + 1, (w + [-1])[k], s[k]] for k in range(len(w) + 1)]) for w, s in zip(seqs, sc)]
    vec = mk_vec(fs)
    lx = [r for row in c['lx'] for r in row]
    aux = op == 'written'
    if aux:
        xs = [[([abs(y)] if y > 0 or not c['lrag'] else [] if y == 0 else [2, 3]) if y != -5 or c['lrag'] else [0] for y in r] + [[-1]] for r in lx]
        attach_x(vec, xs, c['lrag'])
    shape = k2.RaggedShape('[ ' + ' '.join('[ ' + 'x ' * len(row) + ']' for row in c['list']) + ' ]')
    nb = k2.Nbest(vec, shape)
    rows, ent = rows_of(shape), entries_of(nb, aux)
    if op == 'written':
        return after(nb, rows, ent, c, True)
    if not c['aux']:
        del lat.aux_labels
    b = (fsa_json(lat)['f'], ent)
    r = nb.intersect(lat)
    rr = entries_of(r, bool(c['aux']))
    same = int(b == (fsa_json(lat)['f'], entries_of(nb, aux)))
    ev = [dict(op='meet', lat=L, rows=rows, entries=ent, res=rr, rrows=rows_of(r.shape), aux=c['aux'], same=same)]
    if r.fsa.shape[0] == sum(rows):
        ev += after(r, rows, rr, c, False)[:1]
    return ev


def nontrivial(c, ev):
    return any((e['op'] in ('built', 'list', 'top') and max(e['rows'] + [0]) > 1) or (e['op'] == 'rescore' and any(o['f']['a'] for o in e['out'])) for e in ev)


def finding_match(f, case, ev, l):
    return False
