"""C31: transducer searches of the C++ library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from common import *
import tcli
from tcli import call, Refused

TRACE_SPEC = 'T31'
RULE = ('greedy and beam search of a batch of utterances of different lengths in any order with scripted models whose encoder output holds the weights of all tokens for all contexts '
        '(vocabularies of 2-6, contexts of 1-2, blank anywhere, with and without an unknown symbol, 1-6 active paths); non-trivial: something is decoded')
CASE_TIMEOUT = 30
OUTS = ('out',)
NOTE = 'driven through harness/cpp/torch_cli.cc, which calls GreedySearch and ModifiedBeamSearch'


def prepare(wd):
    tcli.prepare(wd)
    import subprocess
    p = subprocess.run(['/opt/venv/bin/python', os.path.abspath(__file__), wd], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])


def MODELS(tier):
    return [dict(module='MC31', cfg='MC31.cfg' if tier == 'quick' else 'MC31_deep.cfg', workers=4, actions=['Frame'])]


MODELS_P = [(V, H) for V in (2, 3, 4, 6) for H in (1, 2) if V ** H <= 16]


def make_models(wd):
    """scripted modules: one per vocabulary, context size, blank and unknown symbol"""
    import torch

    class Id(torch.nn.Module):
        def forward(self, x):
            return x

    class Decoder(torch.nn.Module):
        def __init__(self, V: int, H: int, blank: int):
            super().__init__()
            self.V, self.context_size, self.blank_id = V, H, blank

        def forward(self, y: torch.Tensor, need_pad: bool = True) -> torch.Tensor:
            z = torch.zeros(y.size(0), dtype=torch.int64)
            for i in range(self.context_size):
                z = z * self.V + y[:, i]
            return z.to(torch.float32).reshape(-1, 1, 1)

    class DecoderUnk(Decoder):
        def __init__(self, V: int, H: int, blank: int, unk: int):
            super().__init__(V, H, blank)
            self.unk_id = unk

    class Joiner(torch.nn.Module):
        def __init__(self, V: int):
            super().__init__()
            self.V = V
            self.encoder_proj = Id()
            self.decoder_proj = Id()

        def forward(self, e: torch.Tensor, d: torch.Tensor, project_input: bool = True) -> torch.Tensor:
            B = e.size(0)
            t = e.reshape(B, -1, self.V)
            i = d.reshape(B).to(torch.int64).reshape(B, 1, 1).expand(B, 1, self.V)
            return t.gather(1, i).unsqueeze(1)

    class Model(torch.nn.Module):
        def __init__(self, V: int, H: int, blank: int, unk: int):
            super().__init__()
            self.decoder = Decoder(V, H, blank) if unk == blank else DecoderUnk(V, H, blank, unk)
            self.joiner = Joiner(V)

        def forward(self, x):
            return x

    for V, H in MODELS_P:
        for blank in (0, V - 1):
            for unk in (blank, (blank + 1) % V):
                torch.jit.script(Model(V, H, blank, unk)).save(os.path.join(wd, f'm{V}_{H}_{blank}_{unk}.pt'))


def weights(rng, V, K):
    r = [1] * V
    for _ in range(K - V):
        r[rng.randrange(V)] += 1
    return r


def gen(rng, tier, ctx):
    N = 2500 if tier == 'quick' else 20000
    for i in range(N):
        V, H = rng.choice(MODELS_P)
        blank = rng.choice([0, 0, V - 1])
        unk = rng.choice([blank, blank, (blank + 1) % V])
        T = rng.choice([1, 2, 3, 3, 4, 5])
        K = V + rng.choice([3, 5, 7] if T == 5 else [5, 9, 13] if T == 4 else [11, 23, 31])
        nb = rng.choice([1, 1, 2, 3, 4, 5])
        lens = [rng.choice([T, rng.randint(1, T)]) for _ in range(nb)]
        lens[rng.randrange(nb)] = T
        greedy = rng.random() < .35
        yield dict(greedy=int(greedy), P=dict(V=V, H=H, blank=blank, unk=unk), K=K, k=rng.randint(1, V), lens=lens,
                   frames=[[[weights(rng, V, K) for _ in range(V ** H)] for _ in range(T)] for _ in lens])


def run(c):
    P = c['P']
    V, H = P['V'], P['H']
    T = max(c['lens'])
    m = f"m{V}_{H}_{P['blank']}_{P['unk']}.pt"
    try:
        out = call('search', tcli.hx(m), 'greedy' if c['greedy'] else 'beam', len(c['lens']), T, V ** H * V, [math.log(x) for u in c['frames'] for f in u for r in f for x in r], c['lens'], c['k'])
    except Refused as e:
        return [dict(op='Raised', err='Refused', msg=str(e))]
    return [dict(op='greedy' if c['greedy'] else 'beam', P=P, K=c['K'], k=c['k'], lens=c['lens'], frames=c['frames'], out=out)]


def nontrivial(c, ev):
    return any(any(o) for e in ev for o in e.get('out', ()))


def finding_match(f, case, ev, l):
    return False


if __name__ == '__main__':
    make_models(sys.argv[1])
