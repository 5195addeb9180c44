"""Replays solver assignments against the real code: python -m symx.replay IN.json OUT.json

IN: {"prop": .., "jobs": [{"harness":..,"cfg":..,"inputs":..}]}; OUT: list of results."""
import json
import multiprocessing as mp
import os
import sys
import traceback


def one(job):
    from symx import core, registry, loader
    E = core.ReplayEngine(job['inputs'])
    core.set_cur(E)
    res = dict(error=None)
    try:
        try:
            registry.HARNESSES[job['harness']](E, job['cfg'])
        finally:
            for c in reversed(E.cleanups):
                c()
    except core.ReplayMismatch as e:
        res['error'] = 'mismatch: %s' % e
    except core.PathAbort as e:
        res['error'] = 'abort: %s' % e
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e))[-3000:]
    res.update(failed=E.failed, obs=E.obs, missing=E.missing, passed=E.passed,
               functions=loader.functions())
    return json.dumps(res, default=str)


def main():
    inp, out = sys.argv[1:3]
    d = json.load(open(inp))
    from symx import loader, registry
    loader.setup('replay')
    registry.load(d['prop'])
    mp.set_start_method('fork')
    jobs = d['jobs']
    with mp.Pool(min(8, max(1, len(jobs))), maxtasksperchild=8) as p:
        rs = [json.loads(x) for x in p.imap(one, jobs)]
    json.dump(rs, open(out, "w"), default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
