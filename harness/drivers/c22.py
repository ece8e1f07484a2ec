"""C22: text, tensor, dictionary and drawn forms of automata."""
import io, os, re, random, struct, sys
from common import *
import attrs as AT
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c05

TRACE_SPEC = 'T22'
RULE = ('texts in both conventions with 0-3 extra label columns and 0-2 list columns, every layout freedom (spaces, tabs, blank lines, omitted scores, any line order in '
        'OpenFst form, several final states) and every kind of damage (lost, doubled, replaced tokens, lines lost, swapped, doubled); written forms of random automata and batches; '
        'tensors and dictionaries, through files too; drawings; non-trivial: at least two arcs or lines')
OUTS = ('out', 'text', 'rows', 'head', 'after', 'attrs2', 'names2', 'edges', 'nodes')
NAMES = ['aux_labels', 'aux_labels2', 'aux_labels3']


def MODELS(tier):
    return [dict(module='MC22', cfg='MC22.cfg' if tier == 'quick' else 'MC22_deep.cfg', workers=6, min_states=10000)]      # (TLC's coverage statistics exhaust memory on the recursive reading operators)


# ------------------------------------------------------------------ generation
def sc8(rng):
    return rng.choice([0, 0, 8, -8, 4, -12, 1, -3, 80, 1001, -8000, 20, 16])


def itok(v):
    return [0, v]


def ntok(v):
    return [0, v // 8] if v % 8 == 0 else [1, v]


def table(rng, f, na, nr):
    aux = [[-1 if a[2] == -1 and rng.random() < .8 else rng.choice([0, 1, 5, 17, -1, -4, 90]) for a in f['a']] for _ in range(na)]
    rag = [[[rng.choice([0, 1, -1, 12, 200]) for _ in range(rng.choice([0, 0, 1, 2, 3]))] for a in f['a']] for _ in range(nr)]
    return aux, rag


def afsa(rng, big=False):
    f = rand_fsa(rng, n=rng.choice([0, 2, 2, 3, 4, 5] + ([12] if big else [])), nsym=rng.choice([2, 60]), eps=.2, acyclic=rng.random() < .3)
    for a in f['a']:
        a[3] = sc8(rng)
    return f


def lines_of(rng, f, aux, rag, fst):
    L = []
    for k, a in enumerate(f['a']):
        if fst and a[2] == -1:
            w = -a[3]
            L.append([itok(a[0])] + ([] if w == 0 and rng.random() < .5 else [ntok(w)]))
            continue
        t = [itok(a[0]), itok(a[1]), itok(a[2])] + [itok(x[k]) for x in aux]
        for x in rag:
            t += [[2, 0]] + [itok(v) for v in x[k]] + [[3, 0]]
        w = -a[3] if fst else a[3]
        if w or rng.random() < .5:
            t.append(ntok(w))
        L.append(t)
    if not fst and f['n'] > 0:
        L.append([itok(f['n'] - 1)])
    if fst:
        r = rng.random()
        if r < .5:
            rng.shuffle(L)
        if rng.random() < .15:
            L.insert(rng.randint(0, len(L)), [itok(rng.randrange(6)), [5, 0]])
        if rng.random() < .2:
            L.insert(rng.randint(0, len(L)), [itok(rng.randrange(6)), ntok(sc8(rng))])
        if rng.random() < .1:       # any state may have arcs with any label
            L.append([itok(rng.randrange(6)), itok(rng.randrange(6)), itok(rng.choice([0, 3, -1]))] + [itok(2) for _ in aux] + [y for _ in rag for y in ([2, 0], [3, 0])])
    return L


def damage(rng, L):
    L = [list(t) for t in L if t]
    if not L:
        return [[rng.choice([[0, 0], [0, -1], [4, 0], [1, 4], [0, 3]])]]
    k = rng.randrange(len(L))
    r = rng.choice(['tok', 'tok', 'tok', 'dup', 'rep', 'rep', 'rep', 'line', 'swap', 'dline', 'fin', 'num', 'num', 'ins'])
    if r == 'tok':
        del L[k][rng.randrange(len(L[k]))]
    elif r == 'dup':
        p = rng.randrange(len(L[k]))
        L[k].insert(p, list(L[k][p]))
    elif r == 'rep':
        L[k][rng.randrange(len(L[k]))] = rng.choice([[4, 0], [1, 12], [1, -4], [2, 0], [3, 0], [5, 0], [0, -1], [0, -2]])
    elif r == 'num':
        L[k][rng.randrange(len(L[k]))] = [0, rng.choice([-3, -1, 0, 1, 2, 3, 4, 7, 11])]
    elif r == 'line':
        del L[k]
    elif r == 'swap':
        j = rng.randrange(len(L))
        L[k], L[j] = L[j], L[k]
    elif r == 'dline':
        L.insert(rng.randint(0, len(L)), list(L[k]))
    elif r == 'fin':
        L.insert(rng.randint(0, len(L)), [itok(rng.randrange(6))])
    else:
        L[k].insert(rng.randint(0, len(L[k])), rng.choice([[0, 1], [1, 4], [4, 0], [2, 0], [3, 0]]))
    return L


def gen(rng, tier, ctx):
    N = 12000 if tier == 'quick' else 60000
    for i in range(N):
        kind = rng.choices(['read', 'write', 'writes', 'dict', 'tensor', 'tovec', 'badvec', 'dot'], [12, 5, 2, 5, 3, 2, 1, 1])[0]
        s = rng.randrange(10 ** 9)
        na, nr = rng.choice([0, 0, 1, 1, 2, 3]), rng.choice([0, 0, 0, 1, 2])
        fst = int(rng.random() < .5)
        if kind == 'read':
            f = afsa(rng, True)
            L = lines_of(rng, f, *table(rng, f, na, nr), fst)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                L = damage(rng, L)
            yield dict(kind=kind, text=L, na=na, nr=nr, fst=fst, seed=s)
        elif kind in ('write', 'dot'):
            f = afsa(rng, True)
            if kind == 'dot':
                for a in f['a']:
                    a[3] = a[3] // 4 * 4      # two decimals are drawn
                na, nr = rng.choice([(0, 0), (1, 0), (0, 1)])
            aux, rag = table(rng, f, na, nr)
            yield dict(kind=kind, f=f, aux=aux, rag=rag, fst=fst, seed=s)
        elif kind == 'writes':
            fs = [afsa(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
            tb = [table(rng, f, na, nr) for f in fs]
            yield dict(kind=kind, fs=fs, aux=[sum((t[0][i] for t in tb), []) for i in range(na)], rag=[sum((t[1][i] for t in tb), []) for i in range(nr)], fst=fst, seed=s)
        elif kind == 'dict':
            vec = int(rng.random() < .5)
            fs = [rand_fsa(rng, n=rng.choice([0, 2, 3, 4])) for _ in range(rng.choice([1, 2, 3]) if vec else 1)]
            if not vec and rng.random() < .7:
                coreach_fix(rng, fs[0])
            at = AT.rand_attrs(rng, [a for f in fs for a in f['a']], aux=rng.choice([None, 'dense', 'rag']))
            yield dict(kind=kind, fs=fs, vec=vec, attrs=at, how=rng.choice(['direct', 'bytes', 'file', 'twice']), seed=s)
        elif kind == 'tensor':
            f = rand_fsa(rng, n=rng.choice([0, 2, 3, 4]))
            if rng.random() < .7:
                coreach_fix(rng, f)
            if rng.random() < .5:
                f = c05.perturb(rng, f)
            yield dict(kind=kind, f=f, how=rng.choice(['plain', 'strided', 'slice', 'dtype', 'shape']), seed=s)
        else:
            yield dict(kind=kind, fs=[rand_fsa(rng, n=rng.choice([0, 2, 3, 4])) for _ in range(rng.choice([0, 1, 2, 3, 4]))], seed=s,
                       how=rng.choice(['trunc', 'extra', 'count', 'order', 'arcs', 'neg', 'dtype', 'empty']))


# ------------------------------------------------------------------ execution
JUNK = ['x', '-', 'abc', '1x', '.', '--1', '9' * 45, '5y5', '1.5.2', ',', '1;', 'a1']


def spell(rng, L):
    out = []
    for t in L:
        w = []
        for k, v in t:
            if k == 0:
                w.append(str(v))
            elif k == 1:
                x = v / 8
                w.append(rng.choice([repr(x), repr(x), '%.3f' % x, ('%.6e' % x), repr(x).replace('0.', '.') if abs(x) < 1 else repr(x)]))
            else:
                w.append({2: '[', 3: ']', 5: 'Inf', 4: None}[k] or rng.choice(JUNK))
        s = ''
        for i, x in enumerate(w):
            if i:
                a, b = t[i - 1][0], t[i][0]
                glue = (a == 2 and b in (0, 3)) or (a == 0 and b == 3)
                s += '' if glue and rng.random() < .5 else rng.choice([' ', ' ', '\t', '  ', ' \t'])
            s += x
        if rng.random() < .15:
            s = rng.choice([' ', '\t']) + s
        if rng.random() < .15:
            s += rng.choice([' ', '\t', '  ', '\r'])
        out.append(s)
        if rng.random() < .08:
            out.append(rng.choice(['', ' ', '\t']))
    return ('\n' if rng.random() < .1 else '') + '\n'.join(out) + rng.choice(['', '\n', '\n\n'])


def toks(text):
    """what was written, as tokens; anything but single spaces shows up as junk"""
    if text == '':
        return []
    if not text.endswith('\n'):
        return [[[4, 0]]]
    L = []
    for ln in text[:-1].split('\n'):
        t = []
        for w in ln.split(' '):
            if re.fullmatch(r'-?\d+', w):
                t.append([0, int(w)])
            elif w in '[]' and w:
                t.append([2 if w == '[' else 3, 0])
            else:
                try:
                    t.append(ntok(si(float(w) * 8)) if si(float(w) * 8) < POSINF else [4, 1])
                except ValueError:
                    t.append([4, 0])
        L.append(t)
    return L


def s8(x):
    return si(float(x) * 8)


def show(fsa, an, rn):
    torch, k2, _ = k2mods()
    out = dict(F=fsa_json(fsa, s8)['f'][0])
    out['aux'] = [tl(getattr(fsa, n)) if getattr(fsa, n).dtype == torch.int32 else ['dtype'] for n in an]
    out['rag'] = [getattr(fsa, n).tolist() for n in rn]
    return out


def build(fs, aux, rag, rng, vec):
    """the automaton, names of its label columns and list columns in the order of the names"""
    torch, k2, _ = k2mods()
    g = [dict(n=f['n'], a=[[a[0], a[1], a[2], a[3] / 8] for a in f['a']]) for f in fs]
    fsa = mk_vec(g) if vec else mk_fsa(g[0])
    pool = ['aux_labels', 'ia', 'zz', 'b2', 'm', 'Q']
    rng.shuffle(pool)
    an, rn = sorted(pool[:len(aux)]), sorted(pool[len(aux):len(aux) + len(rag)])
    todo = [(n, torch.tensor(v, dtype=torch.int32)) for n, v in zip(an, aux)]
    todo += [(n, k2.RaggedTensor(v, dtype=torch.int32) if v else k2.RaggedTensor('[ ]', dtype=torch.int32)) for n, v in zip(rn, rag)]
    if rng.random() < .3:
        todo.append(('fl', torch.ones(fsa.num_arcs)))
    rng.shuffle(todo)
    for n, v in todo:
        setattr(fsa, n, v)
    if rng.random() < .2:
        fsa.note = 'x 1 2 3'
    return fsa, an, rn


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    evs = []

    def read(text, toks_, na, nr, fst, an=None, rn=None):
        e = dict(op='read', text=toks_, na=na, nr=nr, fst=fst, ok=1)
        rn_ = rn if rn is not None else ['ra', 'rb', 'rc'][:nr]
        kw = dict(ragged_label_names=rn_) if nr or rng.random() < .3 else {}
        an_ = an if an is not None else NAMES[:na]
        if an is not None:
            kw['aux_label_names'] = an
        else:
            r = rng.random()
            if na == 1 and r < .4:
                kw['acceptor'] = False
            elif na == 0 and r < .3:
                kw['acceptor'] = True
            elif na == 0 and r < .5:
                pass
            elif r < .7:
                kw['num_aux_labels'] = na
            else:
                an_ = rng.sample(['p', 'q', 'aux_labels', 'r'], na)
                kw['aux_label_names'] = an_
        try:
            if fst:
                fsa = k2.Fsa.from_openfst(text, **kw) if rng.random() < .5 else k2.Fsa.from_str(text, openfst=True, **kw)
            else:
                fsa = k2.Fsa.from_str(text, **kw)
        except ValueError:
            e['ok'] = 0
            evs.append(e)
            return None
        e['out'] = show(fsa, an_, rn_)
        if sorted(n for n, _ in fsa.named_tensor_attr(False)) != sorted(an_ + rn_):
            e['out']['F'] = 'names'
        evs.append(e)
        return fsa

    kind = c['kind']
    if kind == 'read':
        read(spell(rng, c['text']), c['text'], c['na'], c['nr'], c['fst'])
        return evs
    if kind in ('write', 'writes'):
        fs = c['fs'] if kind == 'writes' else [c['f']]
        fsa, an, rn = build(fs, c['aux'], c['rag'], rng, kind == 'writes')
        x, off = [], 0
        J = fsa_json(fsa, s8)['f']
        for f in J:
            m = len(f['a'])
            x.append(dict(F=f, aux=[v[off:off + m] for v in c['aux']], rag=[v[off:off + m] for v in c['rag']]))
            off += m
        fst = c['fst']
        if kind == 'writes':
            s = fsa.to_str(openfst=bool(fst))
            s = s[len('k2.FsaVec: \n'):s.rindex('properties_str = ')]
            P = re.split(r'FsaVec\[(\d+)\]: ', s)
            good = P[0] == '' and P[1::2] == [str(i) for i in range(len(fs))]
            evs.append(dict(op='writes', x=x, fst=fst, text=[toks(p) for p in P[2::2]] if good else [[[[4, 0]]]]))
            i = rng.randrange(len(fs))
            fsa, x = fsa[i], [x[i]]
        r = rng.random()
        simple = False
        if r < .4:
            s = k2.to_str(fsa, openfst=bool(fst))
        elif r < .8:
            s = fsa.to_str(openfst=bool(fst)) if fst or rng.random() < .5 else str(fsa)
            s = s[len('k2.Fsa: '):s.index('properties_str = ')]
        else:
            s = k2.to_str_simple(fsa, openfst=bool(fst))
            simple = True
        w = x[0]
        if simple:
            w = dict(F=w['F'], aux=[w['aux'][an.index('aux_labels')]] if 'aux_labels' in an else [], rag=[])
            an, rn = (['aux_labels'] if 'aux_labels' in an else []), []
        evs.append(dict(op='write', x=w, fst=fst, text=toks(s)))
        read(s, toks(s), len(an), len(rn), fst, an, rn)
        return evs
    if kind == 'dot':
        fsa, an, rn = build([c['f']], [], [], rng, False)
        for n in ('fl', 'note'):
            if hasattr(fsa, n):
                delattr(fsa, n)
        k = 1 if c['aux'] else 2 if c['rag'] else 0
        if k == 1:
            fsa.aux_labels = torch.tensor(c['aux'][0], dtype=torch.int32)
        elif k == 2:
            fsa.aux_labels = k2.RaggedTensor(c['rag'][0], dtype=torch.int32) if c['rag'][0] else k2.RaggedTensor('[ ]', dtype=torch.int32)
        b = k2.to_dot(fsa).body
        ed, nodes, fin = [], [], []
        for ln in b:
            m = re.fullmatch(r'\s*(\d+) -> (\d+) \[label="?([^"]*)"?\]\s*', ln)
            if m:
                lab, w = m[3].rsplit('/', 1)
                aux = []
                if ':' in lab:
                    lab, a = lab.split(':')
                    aux = [int(y) for y in a.split(' ')] if a != 'ε' else []
                ed.append(dict(src=int(m[1]), dst=int(m[2]), lab=int(lab), w=0 if w in ('', '-') else s8(w), aux=aux))
            else:
                m = re.match(r'\s*(\d+) \[label=(\d+)', ln)
                nodes.append(int(m[1]) if m and m[1] == m[2] else -5)
                if 'doublecircle' in ln:
                    fin.append(nodes[-1])
        J = fsa_json(fsa, s8)['f'][0]
        evs.append(dict(op='dot', x=dict(F=J, aux=c['aux'], rag=c['rag']), kind=k, edges=ed, nodes=nodes, finals=fin))
        return evs
    if kind == 'dict':
        fsa = mk_vec(c['fs']) if c['vec'] else mk_fsa(c['fs'][0])
        AT.attach(fsa, c['attrs'])
        names = lambda f: sorted([n for n, _ in f.named_tensor_attr(False)] + [n for n, _ in f.named_non_tensor_attr()])
        before, at = fsa_json(fsa)['f'], AT.read(fsa, list(c['attrs']))
        e = dict(op='dict', vec=c['vec'], before=before, attrs=at, names=names(fsa), flags=int(fsa.properties))
        d = fsa.as_dict()
        h = c['how']
        if h == 'bytes':
            b = io.BytesIO()
            torch.save(d, b)
            b.seek(0)
            d = torch.load(b, weights_only=False)
        elif h == 'file':
            fn = 'c22.%d.pt' % os.getpid()
            torch.save(d, fn)
            d = torch.load(fn, map_location='cpu', weights_only=False)
            os.remove(fn)
        g = k2.Fsa.from_dict(d)
        if h == 'twice':
            g = k2.Fsa.from_dict(g.as_dict())
        e.update(after=fsa_json(g)['f'], attrs2=AT.read(g, list(c['attrs'])), names2=names(g), flags2=int(g.properties))
        if len(g.shape) != (3 if c['vec'] else 2):
            e['after'] = []
        e['kept'] = int(fsa_json(fsa)['f'] == before and AT.read(fsa, list(c['attrs'])) == at)
        evs.append(e)
        return evs
    if kind == 'tensor':
        t = mk_arcs_tensor(c['f'])
        h = c['how']
        if h in ('dtype', 'shape'):
            bad = 1
            t = t.to(rng.choice([torch.int64, torch.float32])) if h == 'dtype' else rng.choice([t[:, :3], t.unsqueeze(0), torch.cat((t, t[:, :1]), 1)])
            try:
                k2.Fsa(t)
                return [dict(op='accepted', bad=1)]
            except Exception:
                return [dict(op='refused', bad=1)]
        if h == 'strided':
            t = torch.stack((t, t + 1), 2)[:, :, 0] if rng.random() < .5 else t.t().contiguous().t()
        elif h == 'slice':
            t = torch.cat((torch.full((2, 4), 9, dtype=torch.int32), t, torch.full((1, 4), 9, dtype=torch.int32)))[2:-1]
        e = dict(op='tensor', arcs=c['f']['a'], ok=1)
        try:
            fsa = k2.Fsa(t)
        except (RuntimeError, ValueError):
            e['ok'] = 0
            return [e]
        e['out'] = fsa_json(fsa)['f'][0]
        evs.append(e)
        r = k2.to_tensor(fsa) if rng.random() < .5 else fsa.arcs_as_tensor()
        evs.append(dict(op='totensor', F=e['out'], rows=rows_of(r)))
        return evs
    # batches
    if not c['fs']:
        fsa = k2.Fsa(_k2.RaggedArc(mk_ragged_arc([]).shape(), torch.zeros((0, 4), dtype=torch.int32)))
    else:
        fsa = mk_vec(c['fs'])
    if kind == 'tovec':
        if len(c['fs']) > 1 and rng.random() < .3:     # arcs that do not start at the start of their memory
            a = rng.randrange(len(c['fs']))
            fsa = k2.create_fsa_vec([fsa[i] for i in range(a, len(c['fs']))])
        t = k2.to_tensor(fsa)
        t0 = t.clone()
        n = len(fsa_json(fsa)['f'])
        H = 2 * (n + 1) + 2
        src = t if rng.random() < .5 else torch.stack((t, t), 1)[:, 0] if rng.random() < .5 else torch.cat((t[:2], t))[2:]
        g = k2.Fsa(src)
        u = k2.to_tensor(g)
        evs.append(dict(op='tovec', S=fsa_json(fsa)['f'], head=tl(t[:H]), rows=rows_of(t[H:].reshape(-1, 4)), out=fsa_json(g)['f'], stable=int(bool((u == t0).all()) and u.shape == t0.shape)))
        return evs
    t = k2.to_tensor(fsa).clone()
    n = len(c['fs'])
    h = c['how']
    if h == 'trunc':
        t = t[:-1]
    elif h == 'extra':
        t = torch.cat((t, t[-1:]))
    elif h == 'count':
        t[0] = n + 1
    elif h == 'neg':
        t[0] = -rng.choice([1, 2, 7])
    elif h == 'order':
        t[2] = 1
    elif h == 'arcs':
        t = torch.cat((t, torch.zeros(4, dtype=torch.int32)))
    elif h == 'dtype':
        t = t.to(torch.int64)
    else:
        t = t[:rng.choice([1, 2, 3])]
    try:
        k2.Fsa(t)
        return [dict(op='accepted', bad=1)]
    except Exception:
        return [dict(op='refused', bad=1)]


def rows_of(t):
    return [[r[0], r[1], r[2], si(struct.unpack('<f', struct.pack('<i', r[3]))[0])] for r in t.tolist()]


def nontrivial(c, ev):
    return len(c.get('text', [])) > 1 or sum(len(f['a']) for f in c.get('fs', [c.get('f', dict(a=[]))])) > 1
