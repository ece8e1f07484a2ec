"""worker.py <driver> <cases.jsonl> <out.ndjson> <start>: executes cases in order,
one output line per case; the line count tells the parent where a crash happened."""
import sys, os, json, importlib, signal, traceback, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    drv, cases, out, start = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    mod = importlib.import_module('drivers.' + drv)
    import torch
    torch.set_num_threads(1)
    limit = getattr(mod, 'CASE_TIMEOUT', 60)
    with open(out, 'a') as fo, open(cases) as fi:
        for i, line in enumerate(fi):
            if i < start:
                continue
            c = json.loads(line)
            signal.alarm(limit)   # default action: the process dies -> Hang event
            try:
                ev = mod.run(c)
            except Exception as e:   # noqa: an unexpected exception is an observation
                tb = traceback.extract_tb(e.__traceback__)
                where = [f'{os.path.basename(t.filename)}:{t.name}' for t in tb][-4:]
                ev = [dict(op='Raised', err=type(e).__name__,
                           msg=str(e).strip().split('\n')[0][:200], where=where)]
            signal.alarm(0)
            fo.write(json.dumps(dict(id=c['id'], ev=ev)) + '\n')
            fo.flush()


main()
