"""Attributes attached to automata and read back as values for the specification.

An attribute spec is {name: [kind, filler, values]} with kind in int/float/rag/obj, one value per arc
(rag: a list per arc; obj: a single string for the whole automaton)."""
from common import *


def rand_attrs(rng, arcs, names=('ia', 'ib', 'fa', 'ra', 'note'), p=0.6, aux=None, prefix='', i0=1):
    """arcs: flat list of [s,d,l,w].  Always has an 'id' attribute 1..N (filler 0)."""
    N = len(arcs)
    d = {prefix + 'id': ['int', 0, list(range(i0, i0 + N))]}
    for n in names:
        if rng.random() > p:
            continue
        if n == 'ia':
            d[prefix + n] = ['int', rng.choice([-7, 5, -1, 0, 9]), [rng.randint(1, 9) for _ in range(N)]]
        elif n == 'ib':
            d[prefix + n] = ['int', None, [rng.randint(-3, 9) for _ in range(N)]]
        elif n == 'fa':
            d[prefix + n] = ['float', None, [rng.randint(-9, 9) for _ in range(N)]]
        elif n == 'ra':
            d[prefix + n] = ['rag', None, [[rng.randint(1, 9) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(N)]]
        elif n == 'note':
            d[prefix + n] = ['obj', None, 'x' + str(rng.randint(0, 99))]
    if aux == 'dense':
        d['aux_labels'] = ['int', None, [-1 if a[2] == -1 else rng.choice([0, 1, 2, 3]) for a in arcs]]
    elif aux == 'rag':
        d['aux_labels'] = ['rag', None, [[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                                         + ([-1] if a[2] == -1 and rng.random() < .5 else []) for a in arcs]]
    return d


def attach(fsa, spec):
    torch, k2, _k2 = k2mods()
    for n, (kind, filler, v) in spec.items():
        if kind == 'int':
            if filler is not None:
                setattr(fsa, n + '_filler', filler)
            setattr(fsa, n, torch.tensor(v, dtype=torch.int32))
        elif kind == 'float':
            setattr(fsa, n, torch.tensor(v, dtype=torch.float32))
        elif kind == 'rag':
            if v:
                setattr(fsa, n, k2.RaggedTensor(v, dtype=torch.int32))
            else:
                setattr(fsa, n, k2.RaggedTensor(torch.zeros((0, 0), dtype=torch.int32)) if False else
                        k2.RaggedTensor('[ ]', dtype=torch.int32))
        else:
            setattr(fsa, n, v)


def spec_json(spec):
    """The attributes as handed in, in the form read() produces."""
    return [dict(name=n, kind=k, filler=(f if f is not None else (-1 if False else 0)), v=v)
            for n, (k, f, v) in sorted(spec.items())]


def read1(fsa, name):
    torch, k2, _k2 = k2mods()
    if not hasattr(fsa, name):
        return dict(name=name, kind='missing', filler=0, v=[])
    v = getattr(fsa, name)
    fl = 0
    try:
        fl = fsa.get_filler(name)
    except Exception:
        pass
    if isinstance(v, k2.RaggedTensor):
        if v.num_axes != 2:
            return dict(name=name, kind=f'rag{v.num_axes}', filler=0, v=[])
        k = 'rag' if v.dtype == torch.int32 else 'ragf'
        return dict(name=name, kind=k, filler=0, v=[[si(y) for y in x] for x in v.tolist()])
    if isinstance(v, torch.Tensor):
        k = {torch.int32: 'int', torch.float32: 'float', torch.float64: 'double'}.get(v.dtype, str(v.dtype))
        return dict(name=name, kind=k, filler=si(fl), v=[si(x) for x in v.tolist()])
    return dict(name=name, kind='obj', filler=0, v=str(v))


def read(fsa, names):
    return [read1(fsa, n) for n in sorted(names)]
