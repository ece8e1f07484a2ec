"""C29: automata objects of the C++ decoding library."""
import os, struct
from common import *
import attrs as AT
import tlc, tcli
from tcli import call, value, attr, Refused
from drivers import c03, c05, c08, c15

TRACE_SPEC = 'T29'
RULE = ('histories of 4-9 operations on up to 3 named C++ objects (connect, top_sort, arc_sort, invert with tensor and ragged secondary labels, shortest path, intersection, '
        'linear automata with self-loops, copies, attribute setters and scaling, files written by Python) with int/float/double/ragged attributes; streaming decoding with '
        'attributes of several graphs (histories from MC15S); total scores; hypotheses; symbol tables; wave files; non-trivial: an automaton with arcs is handled')
CASE_TIMEOUT = 30
OUTS = ('all', 'out', 'f', 'ids', 'got')
NOTE = 'driven through harness/cpp/torch_cli.cc, which calls the public functions of k2/torch'
prepare = tcli.prepare


def MODELS(tier):
    return [dict(module='MC29', cfg='MC29.cfg' if tier == 'quick' else 'MC29_deep.cfg', workers=4, actions=['New', 'Alias', 'Invert', 'SetLabel'])]


def gen(rng, tier, ctx):
    N = 3000 if tier == 'quick' else 20000
    H = tlc.simulate('MC15S', 'MC15S.cfg', ctx['wd'], N // 12, 5, ctx['seed'])
    for i in range(N):
        r = rng.random()
        sd = rng.randrange(1 << 30)
        if r < .6:
            yield dict(kind='store', seed=sd, n=rng.choice([3, 4, 5, 7, 9]))
        elif r < .72 and i // 12 < len(H):
            V = rng.choice([2, 3, 3, 4])
            Hn = rng.choice([1, 2])
            G = [c15.graph(rng, V) for _ in range(3)]
            if rng.random() < .3:
                G = [G[0]] * 3
            lo, hi = rng.choice([(-4, 0), (-40, 0)])
            c = dict(beam=rng.choice([1, 3, 6, 40, 300]), ms=rng.choice([1, 2, 3, 8, 20]), mc=rng.choice([1, 2, 3, 8]), H=Hn, V=V, fill=0, fill2=0,
                     hasff=[rng.choice([0, 1, 1]) for _ in G], hasrg=[rng.choice([0, 1, 1]) for _ in G])
            yield dict(kind='rnnt', g=G, c=c, hist=H[i // 12], lo=lo, hi=hi, seed=sd)
        elif r < .78:
            V, mod = rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 1])
            yield dict(kind='topo', V=V, mod=mod, xs=[[rng.choice([0, 0, 1, rng.randint(0, V)]) if V else 0 for _ in range(rng.choice([0, 1, 2, 3, 5]))] for _ in range(3)])
        elif r < .85:
            mode = rng.choice(['trop', 'log'])
            S = [c08.dag(rng, mode, 0) for _ in range(rng.choice([1, 2, 3]))]
            if mode == 'log':
                for f in S:
                    while not c08.total(f):
                        for a in f['a']:
                            if a[3] > 1 and rng.random() < .5:
                                a[3] = 1
                        if not c08.total(f):
                            f['a'].pop(rng.randrange(len(f['a'])))
            yield dict(kind='tot', mode=mode, f=S)
        elif r < .9:
            norm = rng.choice([0, 1])
            pool = [[rng.randint(0, 11) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 2, 3, 4]))] + [[1, 11], [11, 1], [1, 1, 1], [111], [11]]
            yield dict(kind='hyps', norm=norm, h=[dict(ys=rng.choice(pool), p=rng.randint(1, 12)) for _ in range(rng.choice([1, 2, 4, 5]))])
        elif r < .95:
            syms = rng.sample(['a', 'b', '▁', '▁the', 'ab', 'é', '##x', '<eps>', '日本', 'x▁', '7', '-1', '▂y', '<unk>'], rng.choice([1, 3, 6]))
            ids = rng.sample(range(0, 12), len(syms))
            rows = [[s, k] for s, k in zip(syms, ids)]
            if rng.random() < .2:
                rows.append([rng.choice(syms + ['q']), rng.choice(ids + [99])])
            yield dict(kind='symbols', rows=rows, sep=rng.choice([' ', '\t', '   ']), end=rng.choice(['\n', '']), seed=sd)
        else:
            yield dict(kind='wave', seed=sd, n=rng.choice([0, 1, 2, 7, 30]), sr=rng.choice([8000, 16000, 44100]), lists=rng.choice([[], [], [4], [3], [26, 7], [1, 1, 2], [0]]),
                       bad=rng.choice([None] * 6 + ['channels', 'bits', 'short', 'riff', 'rate', 'nodata']))


# ---------------------------------------------------------------- the store
def upward(f):
    return all(a[0] < a[1] for a in f['a'])


def sortedf(f):
    return all(f['a'][k][0] != f['a'][k + 1][0] or f['a'][k][2:3] <= f['a'][k + 1][2:3] for k in range(len(f['a']) - 1))


def linear(f):
    return f['n'] >= 2 and len(f['a']) == f['n'] - 1 and all(a[0] == i and a[1] == i + 1 for i, a in enumerate(f['a']))


def rattrs(rng, S, ids='id', aux=None):
    arcs = c03.flat(S)
    d = {}
    N = len(arcs)
    d[ids] = ['int', list(range(1, N + 1))]
    for n, k in (('ia', 'int'), ('ib', 'int'), ('fa', 'float'), ('da', 'double'), ('ra', 'rag'), ('rb', 'rag')):
        if rng.random() < .45:
            d[n] = [k, [[rng.randint(1, 9) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in arcs] if k == 'rag' else [rng.randint(-9, 9) for _ in arcs]]
    if aux == 'dense':
        d['aux_labels'] = ['int', [-1 if a[2] == -1 else rng.choice([0, 1, 2, 3]) for a in arcs]]
    elif aux == 'rag':
        d['aux_labels'] = ['rag', [[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 3]))] + ([-1] if a[2] == -1 and rng.random() < .95 else []) for a in arcs]]
    return d


class Store:
    def __init__(self):
        call('clear')
        self.v, self.fam, self.ev = {}, {}, []

    def seen(self):
        self.v = {n: value(call('show', n)) for n in self.v}
        return [dict(name=n, v=x) for n, x in sorted(self.v.items())]

    def done(self, **ev):
        self.v.setdefault(ev['out'], None)
        ev['all'] = self.seen()
        self.ev.append(ev)

    def tag(self, n, name='id'):
        """numbers the arcs anew"""
        N = sum(len(f['a']) for f in self.v[n]['f'])
        call('tattr', n, name, 'int', N, list(range(1, N + 1)))
        self.done(op='set', on=n, out=n, v=dict(name=name, kind='int', filler=0, v=list(range(1, N + 1))))


def newv(S, vec, at):
    return dict(f=[dict(n=f['n'], a=f['a'], c=[sum(1 for a in f['a'] if a[0] == s) for s in range(f['n'])]) for f in S], vec=vec,
                attrs=sorted([dict(name=n, kind=k, filler=0, v=v) for n, (k, v) in at.items()], key=lambda x: x['name']))


def run_store(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    st = Store()
    fam = 0
    for step in range(c['n'] + 1):
        nm = rng.choice(['A', 'B', 'C'])
        live = [n for n in st.v]
        op = 'new' if not live else rng.choice(['new', 'new', 'load', 'alias', 'alias', 'arc_sort', 'connect', 'top_sort', 'invert', 'invert', 'shortest', 'intersect', 'linear', 'set', 'scale', 'scalescores', 'get'])
        if op in ('new', 'load'):
            ns = rng.choice([1, 1, 2, 3])
            vec = 0 if ns == 1 and rng.random() < .3 else 1
            if rng.random() < .3:
                S = [c08.dag(rng, 'trop', 0) for _ in range(ns)]
                S = [dict(n=f['n'], a=[a for a in f['a'] if a[3] != NEGINF]) for f in S]
            else:
                S = [c03.rfsa(rng, rng.random() < .6, empty=.06 if vec else 0) for _ in range(ns)]
            at = rattrs(rng, S, aux=rng.choice([None, 'dense', 'rag']))
            if op == 'new':
                tcli.put(nm, S, vec)
                for n, (k, v) in at.items():
                    tcli.put_attr(nm, n, k, v)
            else:
                if not vec and not any(a[2] == -1 for a in S[0]['a']) or not c03.flat(S):
                    continue
                f = mk_vec(S) if vec else mk_fsa(S[0])
                for n, (k, v) in at.items():
                    setattr(f, n, k2.RaggedTensor(v, dtype=torch.int32) if k == 'rag' else torch.tensor(v, dtype=dict(int=torch.int32, float=torch.float32, double=torch.float64)[k]))
                p = f'load{os.getpid()}.pt'
                torch.save(f.as_dict(), p)
                call('load', nm, tcli.hx(p))
                os.unlink(p)
            fam += 1
            st.fam[nm] = (fam, fam)
            st.done(op=op, out=nm, v=newv(S, vec, at))
            continue
        on = rng.choice(live)
        v = st.v[on]
        N = sum(len(f['a']) for f in v['f'])
        if op == 'alias':
            if nm == on:
                continue
            call('alias', nm, on)
            st.fam[nm] = st.fam[on]
            st.done(op='alias', on=on, out=nm)
        elif op in ('arc_sort', 'connect', 'top_sort', 'invert'):
            aux = next((a for a in v['attrs'] if a['name'] == 'aux_labels'), None)
            if op == 'invert' and (aux is None or aux['kind'] not in ('int', 'rag')):
                continue
            rel = 'invert_ragged' if op == 'invert' and aux['kind'] == 'rag' else op
            if rel == 'invert' and any(x == -1 and a[2] != -1 for x, a in zip(aux['v'], c03.flat(v['f']))):
                continue     # not the secondary labels of valid automata
            if rel == 'invert_ragged' and any((x[-1:] == [-1]) != (a[2] == -1) for x, a in zip(aux['v'], c03.flat(v['f']))):
                continue     # the list of a final arc, and no other, ends with -1
            if attr(v, 'id') != list(range(1, N + 1)):
                st.tag(on)
            fam += 1
            ev = dict(op='rewrite', rel=rel, on=on, out=on, mayfail=1 if op == 'top_sort' and any(c05.cyclic(f) for f in v['f']) else 0)
            try:
                call(dict(arc_sort='arcsort', top_sort='topsort').get(op, op), on)
            except Refused as e:
                ev.update(err='Refused', msg=str(e))
            st.fam[on] = (st.fam[on][0], fam)
            st.seen()
            o = st.v[on]
            ev['m'] = [x - 1 for x in attr(o, 'id')]
            ev['aux'] = []
            if op == 'invert' and 'err' not in ev:
                a = next(x for x in o['attrs'] if x['name'] == 'aux_labels')
                ev['aux'] = [(x[0] if x else 0) if isinstance(x, list) else x for x in a['v'] if not isinstance(x, list) or len(x) < 2]
                if a['kind'] == 'rag':
                    ev['aux'] = [0 if y == 0 else y for y in ev['aux']]
            st.done(**ev)
        elif op == 'shortest':
            if not v['vec'] or not all(upward(f) for f in v['f']):
                continue
            if attr(v, 'id') != list(range(1, N + 1)):
                st.tag(on)
            call('shortest', nm, on)
            fam += 1
            st.fam[nm] = (fam, fam)
            st.done(op='shortest', on=on, out=nm)
        elif op == 'linear':
            if not all(linear(f) for f in v['f']):
                continue
            call('linear', nm, on)
            fam += 1
            st.fam[nm] = (fam, fam)
            st.done(op='linear', on=on, out=nm)
        elif op == 'intersect':
            cand = [n for n in live if n != on and st.v[n]['vec']]
            if not cand or not v['vec']:
                continue
            on2 = rng.choice(cand)
            w = st.v[on2]
            if 'ARC_SORTED' not in v['flags'] or not v['f'] or sum(len(f['a']) for f in v['f']) * max([len(f['a']) for f in w['f']] + [0]) > 400:
                continue
            kinds = lambda x: {a['name']: a['kind'] == 'rag' for a in x['attrs']}
            if any(kinds(w).get(n, k) != k for n, k in kinds(v).items()):
                continue
            ida, idb = f'ida{step}', f'idb{step}'      # not the names of an earlier step: common names are not judged
            M = sum(len(f['a']) for f in w['f'])
            call('tattr', on, ida, 'int', N, list(range(1, N + 1)))
            st.done(op='set', on=on, out=on, v=dict(name=ida, kind='int', filler=0, v=list(range(1, N + 1))))
            call('tattr', on2, idb, 'int', M, list(range(1, M + 1)))
            st.done(op='set', on=on2, out=on2, v=dict(name=idb, kind='int', filler=0, v=list(range(1, M + 1))))
            ai = [rng.randrange(len(v['f'])) for _ in w['f']]
            call('intersect', nm, on, on2, len(ai), ai, 1)
            fam += 1
            st.fam[nm] = (fam, fam)
            o = value(call('show', nm))
            ev = dict(op='intersect', on=on, on2=on2, out=nm, ai=ai, lang=1 if all(x['n'] <= 6 and len(x['a']) <= 12 for x in v['f'] + w['f']) else 0,
                      ma=[x - 1 for x in attr(o, ida)], mb=[x - 1 for x in attr(o, idb)])
            st.v.setdefault(nm, None)
            ev['all'] = st.seen()
            st.ev.append(ev)
        elif op == 'set':
            k = rng.choice(['int', 'float', 'double'])
            name = rng.choice(['ia', 'new1', 'fa'])
            if any(a['name'] == name and a['kind'] == 'rag' for a in v['attrs']):
                continue
            x = [rng.randint(-9, 9) for _ in range(N)]
            call('tattr', on, name, k, N, x)
            st.done(op='set', on=on, out=on, v=dict(name=name, kind=k, filler=0, v=x))
        elif op == 'scale':
            cand = [a['name'] for a in v['attrs'] if a['kind'] in ('float', 'double') and all(abs(x) < 10 ** 6 for x in a['v'])]
            if not cand:
                continue
            name, k = rng.choice(cand), rng.choice([-1, 2, 3])
            call('scale', on, name, k)
            st.done(op='scale', on=on, out=on, name=name, k=k)
        elif op == 'scalescores':
            sh = [n for n in live if n != on and st.fam[n] == st.fam[on]]
            if any(n != on and st.fam[n][0] == st.fam[on][0] and n not in sh for n in live) or any(abs(a[3]) > 10 ** 6 for a in c03.flat(v['f'])):
                continue
            k = rng.choice([-1, 2, 3])
            call('scale', on, 'scores', k)
            st.done(op='scalescores', on=on, out=on, k=k, shared=sh)
        elif op == 'get':
            name = rng.choice(['labels', 'scores'] + [a['name'] for a in v['attrs'] if a['kind'] in ('int', 'float', 'double')])
            g = call('getattr', on, name)
            st.done(op='get', on=on, out=on, name=name, got=[si(tcli.num(x)) for x in g[2]])
    return st.ev


# ---------------------------------------------------------------- the rest
def run_rnnt(case):
    rng = random.Random(case['seed'])
    c, G = case['c'], case['g']
    V, H = c['V'], c['H']
    call('clear')
    fs = []
    for i, g in enumerate(G):
        n = len(g['a'])
        tcli.put(f'G{i}', [g], 0)
        tcli.put_attr(f'G{i}', 'aid', 'int', list(range(1, n + 1)))
        if c['hasff'][i]:
            tcli.put_attr(f'G{i}', 'ff', 'float', [x / 2 for x in range(1, n + 1)])
        if c['hasrg'][i]:
            tcli.put_attr(f'G{i}', 'rg', 'rag', [[j] * (j % 3) for j in range(1, n + 1)])
        fs.append(value(call('show', f'G{i}'))['f'][0])
    evs = []
    nc = V ** H
    for order, k, fmt, part, nfs in case['hist'][:3]:
        # a session of fresh streams: the C++ interface formats what the streams of one object decoded
        evs.append(dict(op='open', c=c, g=fs))
        tab = [[[[rng.randint(case['lo'], case['hi']) for _ in range(V)] for _ in range(nc)] for _ in range(k)] for _ in order]
        nf = [min(m, k) for m in nfs]
        r = call('rnnt', 'O', len(order), [f'G{s - 1}' for s in order], V, H, float(c['beam']), c['mc'], c['ms'], k, tab, len(nf) and nf, part)
        labels = [sorted({0} | {a[2] for a in g['a'] if a[2] > 0}) for g in G]
        for t in range(k):
            ids, ctx = r['ctx'][t]
            slots = []
            for i, s in enumerate(order):
                C = [ctx[q * H:(q + 1) * H] for q in range(len(ids)) if ids[q] == i]
                rows = []
                for x in C:
                    z = 0
                    for h in x:
                        z = z * V + h
                    rows.append([[y, tab[i][t][z][y]] for y in labels[s - 1]])
                slots.append(dict(s=s, ctx=C, rows=rows))
            evs.append(dict(op='advance', slots=slots))
        o = value(r['o'])
        n = sum(len(f['a']) for f in o['f'])
        sh = r['o']
        evs.append(dict(op='format', slots=[dict(s=s, nf=m) for s, m in zip(order, nf)], f=o['f'], ids=attr(o, 'aid') or [],
                        ff=[si(2 * tcli.num(x)) for x in sh['t']['ff'][2]] if 'ff' in sh['t'] else [0] * n,
                        rg=sh['r']['rg'] if 'rg' in sh['r'] else [[] for _ in range(n)], hasgrad=0, grad=[], part=part))
    return evs


def run(c):
    k = c['kind']
    if k == 'store':
        return run_store(c)
    if k == 'rnnt':
        return run_rnnt(c)
    if k == 'topo':
        call('clear')
        o = value(call('ctctopo', 'T', c['V'], c['mod']))
        e = value(call('trivial', 'U', c['V']))
        return [dict(op='topo', V=c['V'], mod=c['mod'], f=o['f'][0], aux=attr(o, 'aux_labels'), xs=c['xs']), dict(op='trivial', V=c['V'], f=e['f'][0], aux=attr(e, 'aux_labels'))]
    if k == 'tot':
        call('clear')
        lg = c['mode'] == 'log'
        sc = ei if lg else si
        tcli.put('A', c['f'], 1, (lambda x: math.log(x) if x else -math.inf) if lg else None)
        o = call('tot', 'A', 1 if lg else 0)
        v = value(call('show', 'A'), sc)
        return [dict(op='tot', mode=c['mode'], f=v['f'], out=[sc(tcli.num(x)) for x in o[0]], out32=[sc(tcli.num(x)) for x in o[1]])]
    if k == 'hyps':
        o = call('hyps', len(c['h']), [[len(h['ys']), h['ys'], math.log(h['p'])] for h in c['h']], c['norm'])
        return [dict(op='hyps', **{'in': c['h']}, out=[dict(ys=y, p=ei(tcli.num(p))) for y, p in o[0]], best=o[1], norm=c['norm'])]
    if k == 'symbols':
        rng = random.Random(c['seed'])
        p = f'sym{os.getpid()}.txt'
        with open(p, 'w') as f:
            f.write('\n'.join(s + c['sep'] + str(i) for s, i in c['rows']) + c['end'])
        rows = [[' ' + s[1:] if s[0] == '▁' else s, i] for s, i in c['rows']]
        ids = [r[1] for r in rows] + [77]
        syms = [r[0] for r in rows] + ['zz', '▁']
        ev = dict(op='symbols', rows=rows, ids=ids, syms=syms)
        try:
            o = call('symbols', tcli.hx(p), len(ids), ids, len(syms), [tcli.hx(s) for s in syms])
            ev.update(byid=['<none>' if x is None else tcli.unhx(x) for x in o['ids']], bysym=[-99 if x is None else x for x in o['syms']],
                      str=[[x.rsplit(' ', 1)[0], int(x.rsplit(' ', 1)[1])] for x in tcli.unhx(o['str']).split('\n') if x])
        except Refused as e:
            ev.update(err='Refused', msg=str(e))
        os.unlink(p)
        return [ev]
    if k == 'wave':
        rng = random.Random(c['seed'])
        x = [rng.choice([0, 1, -1, 32767, -32768, rng.randint(-32768, 32767)]) for _ in range(c['n'])]
        bad, sr = c['bad'], c['sr']
        ch, bits = (2 if bad == 'channels' else 1), (8 if bad == 'bits' else 16)
        fmt = b'fmt ' + struct.pack('<IHHIIHH', 16, 1, ch, sr, sr * ch * bits // 8, ch * bits // 8, bits)
        body = b''.join(b'LIST' + struct.pack('<I', n) + bytes(rng.randrange(256) for _ in range(n)) + (b'\0' if n % 2 else b'') for n in c['lists'])
        data = b''.join(struct.pack('<h', y) for y in x)
        d = (b'dato' if bad == 'nodata' else b'data') + struct.pack('<I', len(data) + (2 if bad == 'short' else 0)) + data
        w = b'WAVE' + fmt + body + d
        w = (b'RIFX' if bad == 'riff' else b'RIFF') + struct.pack('<I', len(w)) + w
        p = f'wave{os.getpid()}.wav'
        open(p, 'wb').write(w)
        ev = dict(op='wave', samples=x, sr=sr, bad=0 if bad is None else 1)
        try:
            if rng.random() < .5 or bad == 'rate':
                o = call('wavers', float(sr + (1 if bad == 'rate' else 0)), 2, tcli.hx(p), tcli.hx(p))
                ev.update(got=[si(tcli.num(y)) for y in o[0][2]] if o[0] == o[1] else [7777777], rate=sr)
            else:
                o = call('wave', tcli.hx(p))
                ev.update(got=[si(tcli.num(y)) for y in o[1][2]], rate=si(o[0]))
        except Refused as e:
            ev.update(err='Refused', msg=str(e)[:100])
        os.unlink(p)
        return [ev]


def nontrivial(c, ev):
    return c['kind'] != 'store' or any(f['a'] for e in ev for x in e.get('all', ()) for f in x['v']['f'])


def finding_match(f, case, ev, l):
    return False
