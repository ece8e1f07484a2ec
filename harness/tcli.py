"""Talks to harness/cpp/torch_cli.cc, which drives the C++ decoding library (k2/torch)."""
import os, subprocess, atexit, json
from common import *

T = '/opt/venv/lib/python3.12/site-packages/torch'
_P = None


class Died(Exception):
    pass


class Refused(Exception):
    """the library raised an exception"""


def prepare(wd):
    build_cli(wd, 'torch_cli', libs=('k2_torch_api', 'k2_torch', 'k2context', 'k2_log'),
              flags=('-O0', '-DK2_TORCH_VERSION_MAJOR=2', '-DK2_TORCH_VERSION_MINOR=0', '-I' + T + '/include', '-I' + T + '/include/torch/csrc/api/include'))


def proc():
    global _P
    if _P is None or _P.poll() is not None:
        _P = subprocess.Popen(['./torch_cli'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, preexec_fn=with_parent)
        atexit.register(_P.kill)
    return _P


def hx(s):
    return 'x' + (s if isinstance(s, bytes) else s.encode()).hex() + 'x'


def unhx(s):
    return bytes.fromhex(s).decode('utf8', 'replace')


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield fl(x)


def fl(x):
    if isinstance(x, float):
        return '-inf' if x == -math.inf else 'inf' if x == math.inf else repr(x)
    return str(x)


def call(*words):
    global _P
    p = proc()
    try:
        p.stdin.write(' '.join(flat(words)) + '\n')
        p.stdin.flush()
        r = p.stdout.readline()
        log = ''
        while r and r[:3] != '@@ ':     # log lines
            log = r if r[:3] in ('[F]', '[E]') else log
            r = p.stdout.readline()
    except BrokenPipeError:
        r = ''
    if not r:
        _P = None
        raise Died(str(words[0]))
    v = json.loads(r[3:])
    if isinstance(v, dict) and 'err' in v:
        raise Refused(log.strip()[-200:] or unhx(v['err'])[:200])
    return v


def num(x):
    return float(x) if isinstance(x, str) else x


def enc_fsa(S, w=lambda x: float('-inf') if x == NEGINF else x):
    return [len(S), [[f['n'], len(f['a']), [[a[0], a[1], a[2], w(a[3])] for a in f['a']]] for f in S]]


def put(name, S, vec=1, w=None):
    return call('fsa', name, 3 if vec else 2, *(enc_fsa(S, w) if w else enc_fsa(S)))


def put_attr(name, attr, kind, v):
    if kind == 'rag':
        call('rattr', name, attr, len(v), [[len(x), x] for x in v])
    else:
        call('tattr', name, attr, kind, len(v), v)


def value(sh, sc=si):
    """an object as printed by the tool -> value of the specification"""
    f = [dict(n=x['n'], c=x['c'], a=[[a[0], a[1], a[2], sc(num(a[3]))] for a in x['a']]) for x in sh['f']]
    at = [dict(name=n, kind=t[0] if len(t[1]) == 1 else f'{t[0]}{len(t[1])}', filler=0, v=[si(num(x)) for x in t[2]]) for n, t in sh['t'].items()]
    at += [dict(name=n, kind='rag' if isinstance(r, list) else r, filler=0, v=r if isinstance(r, list) else []) for n, r in sh['r'].items()]
    return dict(vec=1 if sh['axes'] == 3 else 0, f=f, attrs=sorted(at, key=lambda x: x['name']), flags=flag_names(sh['props']))


def attr(v, name):
    for a in v['attrs']:
        if a['name'] == name:
            return a['v']
    return None


def flag_names(p):
    import k2
    from drivers.c05 import NAMES
    return [n for n in NAMES if p & getattr(k2.fsa_properties, n)]
