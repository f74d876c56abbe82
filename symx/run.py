"""python -m symx.run C06 [--tier quick|thorough] [--only REGEX] [--jobs N] [-v]
python -m symx.run --replay FILE
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def _work(args):
    pid, idx, seed, q = args
    from symx import harness
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    inst = load(pid).INSTANCES[idx]
    if os.environ.get('SYMX_TIME'):
        inst.time_s = float(os.environ['SYMX_TIME'])
    try:
        r = harness.run_symbolic(inst, seed=seed)
    except MemoryError:
        r = dict(instance=inst.name, status='error', note='memory')
    q.put((idx, r))


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'known']


def matches(k, v):
    if not re.fullmatch(k['instance'], v['instance']):
        return False
    if not re.fullmatch(k['label'], v['label']):
        return False
    return True


def run(pid, tier, seed, only=None, jobs=8, verbose=False):
    t0 = time.time()
    from symx import harness
    harness._real_import()
    m = load(pid)
    insts = [(i, x) for i, x in enumerate(m.INSTANCES) if x.tier == 'quick' or tier == 'thorough']
    if only:
        insts = [(i, x) for i, x in insts if re.search(only, x.name)]
    else:
        import random
    from symx import loader, core
    core.z3mod()
    harness._real_import()
    for n in ('mesh', 'mmio', 'mesh_clipper', 'hydrostatics', 'inertia', 'rotations', 'tools', 'densities'):
        try:
            importlib.import_module('meshmagick.' + n)
        except Exception:
            pass
        try:
            loader.get().load(n)
        except (Exception, core.Unsupported):
            pass
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = sorted(insts, key=lambda x: -x[1].time_s)
    running = {}
    results = {}
    ks = known(pid)
    limit = 800 if tier == 'quick' else 6 * 3600
    while todo or running:
        while todo and len(running) < jobs:
            i, x = todo.pop(0)
            p = ctx.Process(target=_work, args=((pid, i, seed, q),), daemon=False)
            p.start()
            running[i] = (p, time.time(), x)
        try:
            i, r = q.get(timeout=0.2)
            results[i] = r
            if any(not any(matches(k, v) for k in ks) for v in r.get('violations', [])):
                # the verdict is known: the instances that remain get one minute
                limit = min(limit, time.time() - t0 + 60)
            p = running.pop(i)[0]
            p.join(5)
            if p.is_alive():
                p.kill()
            if verbose:
                show(r)
            continue
        except Exception:
            pass
        for i, (p, ts, x) in list(running.items()):
            dead = not p.is_alive()
            if dead and p.exitcode is not None:
                # its result may still be in the queue
                try:
                    while True:
                        j, r = q.get(timeout=0.3)
                        results[j] = r
                        pj = running.pop(j, None)
                        if verbose:
                            show(r)
                except Exception:
                    pass
                if i in running:
                    running.pop(i)
                    results[i] = dict(instance=x.name, status='error', note='worker ended (exit %s)' % p.exitcode)
            elif time.time() - ts > x.time_s * 1.5 + 60 or time.time() - t0 > limit:
                p.kill()
                running.pop(i)
                results[i] = dict(instance=x.name, status='budget', note='killed: over time')
                if verbose:
                    show(results[i])
        if time.time() - t0 > limit:
            for i, x in todo:
                results[i] = dict(instance=x.name, status='budget', note='not started: over time')
            todo = []
    return finish(pid, tier, seed, m, insts, results, time.time() - t0, only)


def show(r):
    print('  [%s] %s paths=%s obl=%s (nf %s, solver %s) q=%s %.1fs/%.1fs wit=%s und=%s unconf=%s mism=%s %s' % (
        r.get('status'), r['instance'], r.get('explored'), r.get('obligations'), r.get('by_normal_form'),
        r.get('by_solver'), r.get('queries'), r.get('solver_s', 0), r.get('wall_s', 0), r.get('witnesses'),
        len(r.get('undecided', [])), len(r.get('unconfirmed', [])), len(r.get('mismatches', [])), r.get('note') or ''))
    for v in r.get('violations', []):
        print('      VIOL', v['label'], '|', v['detail'], '| solver:', v['solver_label'])
        print('          ', json.dumps(v['inputs'])[:600])
    for v in r.get('unconfirmed', [])[:3]:
        print('      unconfirmed', v['label'], v['replay'], json.dumps(v['inputs'])[:300])
    for v in r.get('mismatches', [])[:2]:
        print('      mismatch', v['what'], json.dumps(v['inputs'])[:300])
    if r.get('undecided'):
        print('      undecided', sorted(set(r['undecided']))[:5])
    sys.stdout.flush()


def finish(pid, tier, seed, m, insts, results, wall, only):
    rs = [results[i] for i, _ in insts]
    ks = known(pid)
    viol, knownseen = [], {}
    for r in rs:
        for v in r.get('violations', []):
            hit = None
            for n, k in enumerate(ks):
                if matches(k, v):
                    hit = n
                    break
            if hit is None:
                viol.append(v)
            else:
                knownseen.setdefault(hit, v)
    s = lambda k: sum(r.get(k) or 0 for r in rs)
    funcs = sorted(set(f for r in rs for f in r.get('functions', [])))
    undecided = []
    for r in rs:
        if r.get('status') != 'ok':
            undecided.append('%s: %s: %s' % (r['instance'], r['status'], (r.get('note') or '')[:300]))
        if not r.get('reached') and r.get('status') == 'ok':
            undecided.append('%s: no obligation reached' % r['instance'])
        for u in sorted(set(r.get('undecided', []))):
            undecided.append('%s: solver unknown: %s' % (r['instance'], u))
        for u in r.get('unconfirmed', []):
            undecided.append('%s: counterexample not reproduced on the real code: %s' % (r['instance'], u['label']))
        for u in r.get('mismatches', []):
            undecided.append('%s: encoding and real code differ on a witness: %s' % (r['instance'], u['what']))
    samples = []
    for r in rs:
        for x in r.get('samples', [])[:1]:
            samples.append(dict(instance=r['instance'], inputs=x))
    samples = samples[:6]
    rep = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    lines = []
    for n, v in enumerate(viol):
        p = os.path.join(rep, '%s-%d.json' % (pid, n))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, **v), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    decided = s('by_solver') + s('by_normal_form')
    cov = dict(
        states=s('explored'), transitions=s('decisions'), traces_validated_against_impl=s('witnesses'),
        samples=samples or [dict(note='no witness')],
        obligations=s('obligations'), discharged=decided, discharged_by_solver=s('by_solver'),
        discharged_by_exact_normal_form=s('by_normal_form'), queries=s('queries'), queries_sat=s('sat'),
        queries_unsat=s('unsat'), queries_unknown=s('unknown'), solver_s=round(s('solver_s'), 2),
        longest_query_s=max([r.get('max_query_s') or 0 for r in rs] or [0]),
        functions_encoded=funcs, instances=[dict(name=r['instance'], bound=r.get('bound'), status=r['status'],
                                                 paths=r.get('explored'), obligations=r.get('obligations'),
                                                 wall_s=r.get('wall_s')) for r in rs],
        bounds=getattr(m, 'BOUNDS', ''), outside=getattr(m, 'OUTSIDE', ''),
        assumptions=getattr(m, 'ASSUMPTIONS', []),
        not_decided=undecided, known_findings=[ks[i]['what'] for i in sorted(knownseen)],
        encoded_from=harness_repo())
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2))
    if only is None:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d instances, %d paths, %d obligations discharged (%d by the solver), %d queries, solver %.1f s, '
          '%d path witnesses replayed on the real code, %.1f s' % (
              pid, tier, len(rs), cov['states'], decided, s('by_solver'), cov['queries'], cov['solver_s'],
              cov['traces_validated_against_impl'], wall))
    for u in undecided[:20]:
        print('NOT-DECIDED %s' % u)
    for i in sorted(knownseen):
        print('KNOWN-FINDING: property=%s %s' % (pid, ks[i]['what']))
    for v, l in zip(viol, lines):
        print('  %s / %s: %s' % (v['instance'], v['label'], v['detail']))
        print(l)
    if viol:
        return 1
    if not decided:
        print('nothing was decided')
        return 2
    return 0


def harness_repo():
    from symx import loader
    return loader.REPO


def replay(path):
    from symx import harness
    with open(path) as f:
        v = json.load(f)
    m = load(v['property'])
    inst = [x for x in m.INSTANCES if x.name == v['instance']][0]
    r = harness.run_concrete(inst, v['inputs'], seed=v.get('seed', 1))
    print(r[:3])
    return 1 if r[0] == 'fail' else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pid', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--only')
    a.add_argument('--jobs', type=int, default=8)
    a.add_argument('-v', action='store_true')
    a.add_argument('--replay')
    o = a.parse_args()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if o.replay:
        sys.exit(replay(o.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(run(o.pid, o.tier, seed, o.only, o.jobs, o.v))


if __name__ == '__main__':
    main()
