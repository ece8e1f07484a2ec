"""C27: batches behave as their elements."""
from common import *
import tlc
from drivers import c08, c17

TRACE_SPEC = 'T27'
RULE = ('programs of 8 batch operations drawn by TLC over up to four elements (small acyclic automata with epsilons, duplicates, dead ends, no path, no states; attributes dense and ragged): loading, fifteen unary operations, '
        'score queries, choosing by index (repeats, none), restacking, joining, intersections with dense scores, graph builders, losses; every result compared element by element with the operations applied to the element '
        'alone; non-trivial: a batch of at least two elements that are not all equal')
CASE_TIMEOUT = 60
OUTS = ('out',)
SKIP = ('c',)
UNIT = 50


def MODELS(tier):
    return [dict(module='MC27', cfg='MC27.cfg' if tier == 'quick' else 'MC27_deep.cfg', workers=4, actions=['Forward', 'Backward', 'Renumber'])]


C = 4


def element(rng):
    if rng.random() < .08:
        f = dict(n=0, a=[])
    else:
        while 1:
            f = c08.dag(rng, 'trop', 0, n=rng.choice([2, 3, 4, 4, 5]))
            if len(f['a']) <= 9:
                break
        for a in f['a']:
            a[3] = max(a[3], -9)
    e = dict(f=f, aux=[rng.choice([0, 1, 2, 3]) if a[2] != -1 else -1 for a in f['a']], i=[rng.randint(1, 9) for _ in f['a']], fa=[rng.randint(-3, 3) for _ in f['a']],
             rag=[[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))] + ([-1] if a[2] == -1 else []) for a in f['a']])
    e['seq'] = [rng.randint(1, C - 1) for _ in range(rng.randint(0, 3))]
    e['hyp'] = [rng.randint(1, C - 1) for _ in range(rng.randint(0, 3))]
    e['lp'] = [[rng.randint(-4, 3) for _ in range(C)] for _ in range(3)]
    e['px'] = [[rng.randint(-4, 2) for _ in range(4)] for _ in range(2)]
    e['py'] = [[rng.randint(-4, 2) for _ in range(3)] for _ in range(3)]
    s, t = rng.randint(0, 2), rng.randint(1, 3)
    e['b'] = [0, 0, s, t] if rng.random() < .7 else [0, 0, 2, 3]
    e['sym'] = [rng.randint(1, C - 1) for _ in range(2)]
    return e


def gen(rng, tier, ctx):
    hist = tlc.simulate('MC27S', 'MC27S.cfg', ctx['wd'], 3000 if tier == 'quick' else 20000, 9, ctx['seed'] + 5)
    for h in hist:
        els = [element(rng) for _ in range(4)]
        if rng.random() < .1:      # all without states, or all the same
            els = [dict(x) for x in ([els[0]] * 4)]
        yield dict(ops=h, e=els, ragged=rng.choice([0, 0, 1]), perm=rng.choice([0, 1]))


A_CONST = [[0, 0, 1, 1], [0, 1, 2, -1], [0, 2, -1, 0], [1, 0, 1, 2], [1, 1, 0, 0], [0, 0, 0, 0], [1, 2, -1, 3]]


def run(c):
    torch, k2, _k2 = k2mods()
    E = c['e']
    A = k2.arc_sort(mk_vec([dict(n=3, a=sorted(A_CONST, key=lambda a: a[0]))]))

    def topo(x):
        return k2.top_sort(k2.connect(x))

    def vec(x):
        return k2.create_fsa_vec([x]) if len(x.shape) == 2 else x

    def attrs(x, els):
        flat = lambda n: [v for e in els for v in e[n]]
        N = x.arcs.num_elements()
        if c['ragged']:
            r = flat('rag')
            x.aux_labels = k2.RaggedTensor(r, dtype=torch.int32) if r else k2.RaggedTensor('[ ]', dtype=torch.int32)
        else:
            x.aux_labels = torch.tensor(flat('aux'), dtype=torch.int32)
        x.i = torch.tensor(flat('i'), dtype=torch.int32)
        x.fa = torch.tensor(flat('fa'), dtype=torch.float32)
        return x

    def dense(els):
        lp = torch.tensor([e['lp'] for e in els], dtype=torch.float32)
        return k2.DenseFsaVec(lp, torch.tensor([[i, 0, 3] for i in range(len(els))], dtype=torch.int32))

    def load(kind, ids, alone=False):
        els = [E[i - 1] for i in ids]
        if kind == 'fsa':
            fs = [e['f'] for e in els]
            if alone:
                x = mk_fsa(fs[0])
            else:
                x = mk_vec(fs)
            return attrs(x, els)
        if kind in ('ctc', 'ctcmod'):
            return k2.ctc_graph([e['seq'] for e in els], modified=kind == 'ctcmod')
        if kind == 'lev':
            return k2.levenshtein_graph([e['seq'] for e in els])
        if kind == 'linear':
            return k2.linear_fsa([e['seq'] for e in els])
        g = k2.arc_sort(mk_vec([e['f'] for e in els]))
        g = attrs(mk_vec([dict(n=e['f']['n'], a=e['f']['a']) for e in els]), els)
        g = k2.arc_sort(g)
        if kind == 'dense':
            return k2.intersect_dense(g, dense(els), 12)
        return k2.intersect_dense_pruned(g, dense(els), 30, 12, 1, 10000)

    def apply(x, f):
        if f == 'sort':
            return k2.arc_sort(x)
        if f == 'connect':
            return k2.connect(x)
        if f == 'topsort':
            return topo(x)
        if f == 'rmeps':
            return k2.remove_epsilon(topo(x))
        if f == 'det':
            return k2.determinize(k2.connect(k2.remove_epsilon(topo(x))))
        if f == 'inv':
            return k2.invert(x) if hasattr(x, 'aux_labels') else x
        if f == 'loops':
            return k2.add_epsilon_self_loops(x)
        if f == 'noloops':
            return k2.remove_epsilon_self_loops(x)
        if f == 'best':
            return k2.shortest_path(topo(x), True)
        if f == 'prune':
            return vec2(lambda y: k2.prune_on_arc_post(y, .3, True), topo(x))
        if f == 'rev':
            return k2.reverse(x)
        if f == 'expand':
            return k2.expand_ragged_attributes(x)
        if f == 'meet':
            y = vec(x)
            return k2.intersect_device(A, k2.arc_sort(y), torch.zeros(y.shape[0], dtype=torch.int32), sorted_match_a=True)
        if f == 'rmloops':
            return k2.remove_epsilon_and_add_self_loops(topo(x))
        y = x.clone()
        y.scores = y.scores * 2
        return y

    def vec2(g, x):
        return g(vec(x))

    def one(x):
        return x[0] if len(x.shape) == 3 else x

    def fx(v):
        v = float(v)
        return NAN if v != v else NEGINF if v == -math.inf else POSINF if v == math.inf else int(max(-10**8, min(10**8, round(v * 1000))))

    def rec(n=0, a=(), x=(), v=()):
        return dict(n=n, a=list(a), x=list(x), v=list(v))

    def recs(x):
        """one record per element"""
        F = fsa_json(x)
        if not F['same']:
            raise RuntimeError('scores differ from arcs')
        X = []
        for name in ('aux_labels', 'i', 'fa'):
            if not hasattr(x, name):
                X.append(None)
                continue
            v = getattr(x, name)
            v = v.tolist() if isinstance(v, k2.RaggedTensor) else [[y] for y in v.tolist()]
            X.append([[si(z) for z in y if z != 0 and not (z == -1 and name == 'aux_labels')] for y in v])
        out, p = [], 0
        for f in F['f']:
            m = len(f['a'])
            out.append(rec(f['n'], f['a'], [[] if v is None else v[p:p + m] for v in X]))
            p += m
        if any(v is not None and len(v) != p for v in X):
            raise RuntimeError('attribute length')
        return out

    def ask(x, f):
        """values per element of a batch"""
        x = topo(vec(x))
        F = fsa_json(x)['f']
        B = len(F)
        if f == 'tot':
            cols = [x.get_tot_scores(d, s).tolist() for d in (True, False) for s in (True, False)]
            return [rec(v=[fx(q[i]) for q in cols]) for i in range(B)]
        if f == 'paths':
            P = k2.random_paths(x, True, 3).tolist()
            out, p = [], 0
            for i in range(B):
                out.append(rec(v=[y - p if y >= 0 else y for r in P[i] for y in r + [p - 1]]))
                p += len(F[i]['a'])
            return out
        if f == 'fwd':
            u = [x.get_forward_scores(True, s).tolist() for s in (True, False)] + [x.get_backward_scores(True, s).tolist() for s in (True, False)]
            size = [g['n'] for g in F]
        else:
            u = [x.get_arc_post(True, s).tolist() for s in (True, False)]
            size = [len(g['a']) for g in F]
        out, p = [], 0
        for m in size:
            out.append(rec(v=[fx(y) for q in u for y in q[p:p + m]]))
            p += m
        return out

    def generate(kind, ids):
        els = [E[i - 1] for i in ids]
        B = len(els)
        if kind == 'align':
            refs, hyps = k2.levenshtein_graph([e['seq'] for e in els]), k2.levenshtein_graph([e['hyp'] for e in els])
            return recs(k2.levenshtein_alignment(refs, hyps, torch.arange(B, dtype=torch.int32), sorted_match_ref=False))
        if kind == 'ctc_loss':
            g = k2.ctc_graph([e['seq'] for e in els])
            r = k2.ctc_loss(g, dense(els), output_beam=20, reduction='none', target_lengths=torch.tensor([len(e['seq']) for e in els]))
            return [rec(v=[fx(y)]) for y in r.tolist()]
        b = torch.tensor([e['b'] for e in els], dtype=torch.int64)
        px = torch.tensor([e['px'] for e in els], dtype=torch.float64)
        py = torch.tensor([e['py'] for e in els], dtype=torch.float64)
        if kind == 'mi':
            s, (gx, gy) = k2.mutual_information_recursion(px, py, b, return_grad=True)
            return [rec(v=[fx(s[i])] + [fx(y) for y in gx[i].flatten().tolist() + gy[i].flatten().tolist()]) for i in range(B)]
        if kind == 'joint':
            s = k2.joint_mutual_information_recursion((px, px * 2), (py, py - 1), b)
            return [rec(v=[fx(t[i]) for t in s]) for i in range(B)]
        sym = torch.tensor([e['sym'] for e in els], dtype=torch.int64)
        lp = torch.tensor([e['lp'] for e in els], dtype=torch.float64)      # T = 3, C = 4
        lm = torch.tensor([[e['lp'][0][:], e['lp'][1][::-1], e['lp'][2][:]] for e in els], dtype=torch.float64)      # S + 1 = 3
        if kind == 'simple':
            s, (gx, gy) = k2.rnnt_loss_simple(lm, lp, sym, 0, b, reduction='none', return_grad=True)
            return [rec(v=[fx(s[i])] + [fx(y) for y in gx[i].flatten().tolist() + gy[i].flatten().tolist()]) for i in range(B)]
        logits = lm.unsqueeze(1) + lp.unsqueeze(2) * lm.unsqueeze(1)
        if kind == 'full':
            return [rec(v=[fx(y)]) for y in k2.rnnt_loss(logits, sym, 0, b, reduction='none').tolist()]
        r = 2
        starts = torch.tensor([[min(1, t) for t in range(3)]] * B)
        ranges = torch.stack([starts, starts + 1], -1)
        lg = torch.gather(logits, 2, ranges.unsqueeze(-1).expand(B, 3, r, C))
        return [rec(v=[fx(y)]) for y in k2.rnnt_loss_pruned(lg, sym, ranges, 0, b, reduction='none').tolist()]

    # what every element gives alone
    table, objs = {}, {}

    def alone(i, h):
        """the element itself, as a single automaton"""
        k = (i, tuple(h))
        if k not in objs:
            objs[k] = one(load(h[0], [i], True)) if len(h) == 1 else one(apply(alone(i, h[:-1]), h[-1]))
        return objs[k]

    def alone_rec(i, h):
        k = (i, tuple(h))
        if k not in table:
            if h[0] in ('mi', 'joint', 'simple', 'full', 'pruned_loss', 'align', 'ctc_loss'):
                table[k] = generate(h[0], [i])[0]
            elif h[-1] in ('tot', 'post', 'paths', 'fwd'):
                table[k] = ask(alone(i, h[:-1]), h[-1])[0]
            else:
                table[k] = recs(alone(i, h))[0]
        return table[k]

    def small(x):
        return x.arcs.num_elements() <= 400

    def dense_attrs_alike(xs):
        """joining needs the same attribute types"""
        for n in ('aux_labels', 'i'):
            if any(isinstance(getattr(x, n, None), k2.RaggedTensor) for x in xs):
                for x in xs:
                    if isinstance(getattr(x, n, None), torch.Tensor):
                        x.convert_attr_to_ragged_(n, False)
        return xs

    regs, hists, events = [], [], []
    for step in c['ops']:
        e = dict(step)
        o = e['op']
        want = None
        before = None
        src = [e[k] - 1 for k in ('r', 's') if k in e]
        snap = [recs(regs[q]) for q in src]
        if o == 'gen':
            if e['kind'] == 'ranges':
                e['kind'] = 'mi'
            out = generate(e['kind'], e['ids'])
            want = [(i, [e['kind']]) for i in e['ids']]
        elif o == 'ask':
            out = ask(regs[src[0]], e['f'])
            want = [(i, h + [e['f']]) for i, h in hists[src[0]]]
        else:
            if o == 'load':
                x = load(e['kind'], e['ids'])
                want = [(i, [e['kind']]) for i in e['ids']]
            elif o == 'apply':
                x = apply(regs[src[0]], e['f'])
                want = [(i, h + [e['f']]) for i, h in hists[src[0]]]
            elif o == 'pick':
                b = regs[src[0]]
                ix = e['ix']
                if e['how'] == 'index':
                    x = k2.index_fsa(b, torch.tensor([q - 1 for q in ix], dtype=torch.int32))
                else:
                    x = k2.create_fsa_vec(dense_attrs_alike([b[q - 1] for q in ix]))
                want = [hists[src[0]][q - 1] for q in ix]
            else:
                if c['perm']:
                    x = k2.cat(dense_attrs_alike([regs[src[0]].clone(), regs[src[1]].clone()]))
                else:
                    x = k2.create_fsa_vec(dense_attrs_alike([regs[q][j] for q in src for j in range(regs[q].shape[0])])) if any(hists[q] for q in src) else regs[src[0]]
                want = hists[src[0]] + hists[src[1]]
            if len(x.shape) == 2:
                raise RuntimeError('a single automaton came out of a batch operation')
            regs.append(x)
            hists.append(want)
            out = recs(x)
        e['out'] = out
        e['same'] = int(snap == [recs(regs[q]) for q in src])
        for i, h in want:
            alone_rec(i, h)
        events.append(e)
        if regs and not small(regs[-1]):
            break
    return [dict(op='alone', table=[dict(id=i, h=list(h), rec=r) for (i, h), r in table.items()])] + events


def nontrivial(c, ev):
    return any(len(e.get('out', [])) > 1 and any(r != e['out'][0] for r in e['out']) for e in ev)


def finding_match(f, case, ev, l):
    return False
