"""C15: streaming transducer decoding, streams attached, detached and interleaved."""
from common import *
import tlc

TRACE_SPEC = 'T15'
RULE = ('histories of 4 sessions over 3 streams generated by TLC from MC15S (ordered subsets of the streams, 1-4 frames each, lattices of full and partial length in between), '
        'graphs with epsilon and final arcs, vocabularies up to 5000 with 1-3 symbols of context, beams, state and context limits, attributes with fillers, gradients; '
        'non-trivial: a lattice has an emitting transition')
CASE_TIMEOUT = 30
OUTS = ('f', 'ids', 'ff', 'rg', 'grad')


def MODELS(tier):
    return [dict(module='MC15', cfg='MC15.cfg' if tier == 'quick' else 'MC15_deep.cfg', workers=4, actions=['Frame'])]


def graph(rng, V):
    w = rng.choice([2, 30, 30])
    syms = rng.sample(range(1, V), min(V - 1, rng.choice([1, 2, 3, 3]))) if V > 1 else []
    n = rng.choice([2, 2, 3, 3, 4])
    a = []
    if rng.random() < .35:       # like the usual trivial graph
        a = [[0, 0, s, 0 if w == 2 else rng.randint(-w, w)] for s in syms] + [[0, n - 1, -1, 0]]
    for _ in range(rng.choice([1, 3, 5, 8])):
        s = rng.randrange(n - 1)
        if rng.random() < .2:
            a.append([s, n - 1, -1, rng.randint(-2, 1)])
        else:
            a.append([s, rng.randrange(n - 1), 0 if not syms or rng.random() < .15 else rng.choice(syms), rng.randint(-w, w)])
    if rng.random() < .7:
        for s in range(n - 1):
            a.append([s, n - 1, -1, rng.choice([0, 0, -1])])
    return arc_sorted(dict(n=n, a=sorted(a)))


def gen(rng, tier, ctx):
    N = 1500 if tier == 'quick' else 4000
    for hist in tlc.simulate('MC15S', 'MC15S.cfg', ctx['wd'], N, 5, ctx['seed']):
        V = rng.choice([2, 3, 3, 4, 6, 10, 500, 5000])
        H = rng.choice([1, 2, 2, 3])
        G = [graph(rng, V) for _ in range(3)]
        if rng.random() < .3:
            G = [G[0]] * 3
        lo, hi = rng.choice([(-4, 0), (-40, 0), (-300, 0), (-900, 900)])
        c = dict(beam=rng.choice([1, 3, 6, 40, 300, 3000]), ms=rng.choice([1, 2, 3, 4, 8, 20, 0]), mc=rng.choice([1, 2, 3, 4, 8, 0]), H=H, V=V,
                 fill=rng.choice([0, 0, -3, 1000]), fill2=rng.choice([0, 5, -7]), hasff=[rng.choice([0, 1, 1]) for _ in G], hasrg=[rng.choice([0, 1, 1]) for _ in G])
        yield dict(g=G, c=c, hist=hist, lo=lo, hi=hi, inf=rng.choice([0, 0, 0, .1]), seed=rng.randrange(1 << 30))


def run(case):
    torch, k2, _k2 = k2mods()
    rng = random.Random(case['seed'])
    c, G = case['c'], case['g']
    V, H = c['V'], c['H']
    conf = k2.RnntDecodingConfig(vocab_size=V, decoder_history_len=H, beam=float(c['beam']), max_states=c['ms'], max_contexts=c['mc'])
    fs = []
    for i, g in enumerate(G):
        f = mk_fsa(g)
        n = f.num_arcs
        f.aid = torch.arange(1, n + 1, dtype=torch.int32)
        f.aid_filler = c['fill']
        if c['hasff'][i]:
            f.ff = torch.arange(1, n + 1, dtype=torch.float32) / 2
            f.ff_filler = c['fill2'] / 2
        if c['hasrg'][i]:
            f.rg = k2.RaggedTensor([[j] * (j % 3) for j in range(1, n + 1)]) if n else k2.RaggedTensor('[]', dtype=torch.int32)
        fs.append(f)
    evs = [dict(op='open', c=c, g=[fsa_json(f)['f'][0] for f in fs])]
    S = [k2.RnntDecodingStream(f) for f in fs]
    length = [0] * 3
    labels = [sorted({0} | {a[2] for a in g['a'] if a[2] > 0}) for g in G]
    for order, k, fmt, part, nfs in case['hist']:
        obj = k2.RnntDecodingStreams([S[s - 1] for s in order], conf)
        fresh = all(length[s - 1] == 0 for s in order)
        log = []
        for _ in range(k):
            shape, ctx = obj.get_contexts()
            rs = tl(shape.row_splits(1))
            C = ctx.tolist()
            lp = torch.zeros((len(C), V), dtype=torch.float32)
            slots = []
            for i, s in enumerate(order):
                rows = []
                for r in range(rs[i], rs[i + 1]):
                    row = [[x, NEGINF if rng.random() < case['inf'] else rng.randint(case['lo'], case['hi'])] for x in labels[s - 1]]
                    for x, v in row:
                        lp[r, x] = -math.inf if v == NEGINF else v
                    rows.append(row)
                slots.append(dict(s=s, ctx=C[rs[i]:rs[i + 1]], rows=rows))
            log.append((lp, rs, C))
            obj.advance(lp.clone())
            evs.append(dict(op='advance', slots=slots))
        obj.terminate_and_flush_to_streams()
        for s in order:
            length[s - 1] += k
        if not fmt:
            continue
        kw = {}
        finite = all(bool(torch.isfinite(x[0]).all()) for x in log)
        if fresh and finite and fmt == 2:
            flat = torch.cat([x[0] for x in log]).requires_grad_(True)
            rs1 = [0]
            rs2 = [0]
            for lp, rs, C in log:
                rs1.append(rs1[-1] + len(order))
                base = rs2[-1]
                rs2 += [base + x for x in rs[1:]]
            sh = k2.ragged.create_ragged_shape2(torch.tensor(rs1, dtype=torch.int32)).compose(k2.ragged.create_ragged_shape2(torch.tensor(rs2, dtype=torch.int32)))
            kw = dict(log_probs=flat, t2s2c_shape=sh)
        o = obj.format_output(list(nfs), allow_partial=bool(part), **kw)
        f = fsa_json(o)
        n = o.arcs.num_elements()
        ev = dict(op='format', slots=[dict(s=s, nf=m) for s, m in zip(order, nfs)], f=f['f'], ids=tl(o.aid),
                  ff=[si(2 * x) for x in o.ff.tolist()] if hasattr(o, 'ff') else [c['fill2']] * n,
                  rg=(o.rg.tolist() if n else []) if hasattr(o, 'rg') else [[] for _ in range(n)], hasgrad=0, grad=[], part=part)
        if kw and n:
            ev['hasgrad'] = 1
            (o.scores * torch.arange(1, n + 1)).sum().backward()
            out = [[] for _ in order]
            r0 = 0
            for t, (lp, rs, C) in enumerate(log):
                for i in range(len(order)):
                    for r in range(rs[i], rs[i + 1]):
                        for x in flat.grad[r0 + r].nonzero().flatten().tolist():
                            out[i].append([t, C[r], x, si(flat.grad[r0 + r, x])])
                r0 += len(C)
            ev['grad'] = out
        evs.append(ev)
    return evs


def nontrivial(c, ev):
    return any(e.get('ids') for e in ev)


def finding_match(f, case, ev, l):
    return False
