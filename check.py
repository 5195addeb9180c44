#!/opt/veriftools/pyvenv/bin/python3
"""Entry point of every check: check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]

exit 0: held on everything explored; 1: VIOLATION (replayed on the real code); 2: inconclusive/error.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['PYTHONHASHSEED'] = '0'


def run_task(arg):
    (name, cfg, known, deadline, prop, sample_every) = arg
    from symx import core, registry, loader
    import gc
    t0 = time.monotonic()
    E = core.SymEngine(deadline=t0 + deadline, known=known, query_timeout_ms=int(deadline * 1000))
    E.sample_every = sample_every
    err = None
    fn = registry.HARNESSES[name]
    gc.disable()
    n = [0]

    def go(E):
        n[0] += 1
        if n[0] % 50 == 0:
            gc.collect()
        fn(E, cfg)
    try:
        E.explore(go)
    except core.Inconclusive as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = 'inconclusive: %s [%s]' % (e, ' < '.join(
            '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:])))
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))[-4000:]
    viol = [dict(label=v.label, inputs=v.inputs, detail=v.detail) for v in E.violations]
    return json.dumps(dict(name=name, cfg=cfg, stats=E.stats, violations=viol, samples=E.samples,
                           witnesses=E.witnesses, labels=E.labels, err=err,
                           functions=loader.functions(), wall=time.monotonic() - t0), default=str)


def replay(prop, jobs, tmp):
    if not jobs:
        return []
    i = os.path.join(tmp, 'replay-%d' % time.monotonic_ns())
    json.dump(dict(prop=prop, jobs=jobs), open(i, 'w'))
    r = subprocess.run([sys.executable, '-m', 'symx.replay', i, i + '.out'], cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if not os.path.exists(i + '.out'):
        raise RuntimeError('replay process failed: ' + r.stdout[-3000:])
    return json.load(open(i + '.out'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noreplay', action='store_true')
    a = ap.parse_args()
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix='symx-')
    os.environ['SYMX_TMP'] = tmp
    try:
        rc = main2(a, t0, tmp)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main2(a, t0, tmp):
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symx import loader, registry
    loader.setup('sym')
    registry.load(prop)
    P = registry.PROPS[prop]
    for f in P['pre']:
        f(tmp)
    tasks = [t for t in P['tasks'] if tier == 'thorough' or not t.thorough_only]
    if tier == 'thorough':
        # a thorough configuration replaces nothing: quick configurations are run as well
        pass
    if a.only:
        tasks = [t for t in tasks if a.only in t.key()]
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop
                 and k.get('status') != 'fixed']
    budget = a.budget or (780 if tier == 'quick' else 6 * 3600)

    def known_for(name, v):
        for k in known:
            if k['harness'] == name and k['label'] == v['label'] and all(
                    v['inputs'].get(x) == y for x, y in k.get('inputs', {}).items()):
                return k
        return None
    mp.set_start_method('fork')
    pool = mp.Pool(a.j, maxtasksperchild=1)
    args = [(t.name, t.cfg, [k['label'] for k in known if k['harness'] == t.name], budget, prop,
             t.cfg.get('_sample', 97)) for t in tasks]
    results, confirmed, unrepro, knownhits, errors = [], [], [], [], []
    for x in pool.imap_unordered(run_task, args, chunksize=1):
        r = json.loads(x)
        results.append(r)
        if a.v:
            print('%-70s %6.1fs paths=%d/%d q=%d viol=%d %s' % (
                '%s %s' % (r['name'], r['cfg']), r['wall'], r['stats']['feasible_paths'],
                r['stats']['paths'], r['stats']['queries'], len(r['violations']), r['err'] or ''),
                flush=True)
        if r['err']:
            errors.append('%s %s: %s' % (r['name'], r['cfg'], r['err']))
        if r['violations'] and not a.noreplay:
            rs = replay(prop, [dict(harness=r['name'], cfg=r['cfg'], inputs=v['inputs'])
                               for v in r['violations']], tmp)
            for v, q in zip(r['violations'], rs):
                if q['error'] is None and any(f[0] == v['label'] for f in q['failed']):
                    k = known_for(r['name'], v)
                    (knownhits if k else confirmed).append((r, v, q, k))
                elif q['error'] is None and q['failed']:
                    # a different assertion fails first when the real code runs
                    v2 = dict(v, label=q['failed'][0][0])
                    k = known_for(r['name'], v2)
                    (knownhits if k else confirmed).append((r, v2, q, k))
                else:
                    unrepro.append((r, v, q))
            if confirmed:
                break
        elif r['violations']:
            for v in r['violations']:
                print('  cex', v['label'], v['detail'], {k: x for k, x in v['inputs'].items() if not k.startswith('__')})
    if confirmed:
        pool.terminate()
    else:
        pool.close()
    # validate the encoding: the real code must show the same outcome on sampled models
    validated, mismatches, jobs, srcs = 0, [], [], []
    if not confirmed and not a.noreplay:
        cap = 64 if tier == 'quick' else 600
        pool_s = [(r, s) for r in results for s in r['samples']]
        step = max(1, -(-len(pool_s) // cap))
        for r, s in pool_s[::step]:
            jobs.append(dict(harness=r['name'], cfg=r['cfg'], inputs=s['inputs']))
            srcs.append((r, s))
        rs = replay(prop, jobs, tmp)
        for (r, s), q in zip(srcs, rs):
            kl = {k['label'] for k in known}
            fl = [f for f in q['failed'] if f[0] not in kl]
            if q['error'] or fl:
                mismatches.append('%s %s: real run differs: %s %s inputs=%s' % (
                    r['name'], r['cfg'], q['error'], fl, s['inputs']))
            elif json.loads(json.dumps(s['obs'])) != json.loads(json.dumps(q['obs'])):
                d = [(x, y) for x, y in zip(s['obs'], q['obs']) if json.loads(json.dumps(x)) != json.loads(json.dumps(y))]
                mismatches.append('%s %s: observation differs: %s (lens %d %d) inputs=%s' % (
                    r['name'], r['cfg'], str(d[:2])[:1500], len(s['obs']), len(q['obs']), s['inputs']))
            else:
                validated += 1
    tot = lambda k: sum(r['stats'][k] for r in results)
    wit = {}
    for r in results:
        for k, n in r['witnesses'].items():
            wit[k] = wit.get(k, 0) + n
        if not r['err'] and not r['violations'] and r['stats']['feasible_paths'] == 0:
            errors.append('vacuous: no feasible path in %s %s' % (r['name'], r['cfg']))
        if not r['err'] and not r['violations'] and r['stats']['checks'] == 0:
            errors.append('vacuous: no assertion reached in %s %s' % (r['name'], r['cfg']))
    labels = {}
    for r in results:
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
    wall = time.monotonic() - t0
    samples = [dict(harness=r['name'], cfg=r['cfg'], inputs={k: v for k, v in s['inputs'].items()
                                                              if not k.startswith('__')},
                    outcome=str(s['obs'])[:300]) for r, s in srcs[:4]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=len(confirmed),
        coverage=dict(
            states=tot('feasible_paths'), transitions=tot('branches'),
            traces_validated_against_impl=validated, samples=samples,
            explanation='bounded symbolic execution of the real functions; states = feasible symbolic '
                        'paths (each standing for all inputs satisfying its path condition), '
                        'transitions = symbolic branch decisions; every assertion on every path is '
                        'decided by z3',
            harness_runs=len(results), harnesses=sorted({r['name'] for r in results}),
            queries=tot('queries'), solver_s=round(tot('solver_s'), 2),
            paths_explored=tot('paths'), assertions_checked=tot('checks'),
            assertions_by_label=labels, reachability_witnesses=wit,
            functions_encoded=sorted({f for r in results for f in r['functions']}),
            source_sha=src_sha(results), bounds=P['bounds'], replay_mismatches=len(mismatches),
            known_findings=len(knownhits), inconclusive=len(errors)),
        assumptions=P['assumptions'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d harness runs, %d feasible paths of %d, %d queries (%.1fs solver), %d assertions, '
          '%d replays agree, %.1fs' % (prop, tier, len(results), tot('feasible_paths'), tot('paths'),
                                       tot('queries'), tot('solver_s'), tot('checks'), validated, wall))
    seen = set()
    for r, v, q, k in knownhits:
        if (k['harness'], k['label']) not in seen:
            seen.add((k['harness'], k['label']))
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if confirmed:
        r, v, q, k = confirmed[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(repr((r['name'], v['label'])).encode()).hexdigest()[:8]))
        json.dump(dict(prop=prop, jobs=[dict(harness=r['name'], cfg=r['cfg'], inputs=v['inputs'])],
                       label=v['label'], detail=v['detail'], failed=q['failed']), open(p, 'w'), indent=1)
        print('counterexample: harness=%s cfg=%s assertion=%s %s' % (r['name'], r['cfg'], v['label'], v['detail']))
        print('inputs: %s' % {k: x for k, x in v['inputs'].items() if not k.startswith('__')})
        print('real run: %s' % (q['failed'],))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    rc = 0
    for r, v, q in unrepro:
        print('NOT REPRODUCED: %s %s %s %s inputs=%s replay: %s missing=%s' % (
            r['name'], r['cfg'], v['label'], v['detail'],
            {k: x for k, x in v['inputs'].items() if not k.startswith('__')}, q['error'], q['missing'][:5]))
        rc = 2
    for m in mismatches[:5]:
        print('REPLAY MISMATCH: ' + m)
        rc = 2
    for e in errors[:6]:
        print('ERROR: ' + e)
        rc = 2
    return rc


def src_sha(results):
    from symx import loader
    h = {}
    for r in results:
        for f in r['functions']:
            h.setdefault(f.split(':')[0], None)
    out = {}
    for f in sorted(h):
        try:
            out[f] = hashlib.sha256(open(os.path.join(loader.REPO, f), 'rb').read()).hexdigest()[:16]
        except OSError:
            pass
    return out


if __name__ == '__main__':
    main()
