#!/usr/bin/env python3
"""check.py --property Pxx [--tier quick|thorough] [--seed N]   (see DESIGN.md)

Generates the proof obligations of every contract that carries the property from the current
source of /repo, discharges them, replays counter-models and runs the same contracts on concrete
inputs against the real code."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
PYVENV = '/opt/venv/bin/python'
if os.path.exists(PYVENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('VF_REEXEC'):
    os.environ['VF_REEXEC'] = '1'
    os.execv(PYVENV, [PYVENV] + sys.argv)
sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
EVDIR = os.environ.get('VF_EVIDENCE_DIR', os.path.join(HERE, 'evidence'))     # development only: checks of scratch copies write elsewhere
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def load_contracts():
    import importlib
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.startswith('c_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    from vf import api
    return api.CONTRACTS


TIERS = {
    'quick': dict(sym_budget=45, num_budget=12, hard=150, ncases=1.0, search=300, search_budget=20, deadline=560),
    'thorough': dict(sym_budget=200, num_budget=90, hard=420, ncases=12.0, search=3000, search_budget=90, deadline=820),
}


def task_run(task, tier, seed):
    """executed in a child process"""
    from vf import api, prover
    kind, ci, cfg, only, extra = task
    c = api.CONTRACTS[ci]
    T = TIERS[tier]
    if kind == 'sym':
        for k in prover.STATS:
            prover.STATS[k] = 0
        r = api.run_sym(c, cfg, only, budget=T['sym_budget'] * c.weight)
        r['assumed'] = sorted(r['assumed'])
        r['stats'] = dict(prover.STATS)
        return r
    if kind == 'num':
        n = max(4, int(c.ncases * T['ncases']))
        seeds = [seed * 100003 + i for i in range(n)]
        v, st = api.run_num(c, cfg, only, seeds, budget=T['num_budget'] * c.weight)
        return {'violation': v, 'stats': st}
    if kind == 'replay':
        overs, n = extra
        for over in overs:
            v, st = api.run_num(c, cfg, only, [seed * 7 + i for i in range(40)], over=over, budget=T['search_budget'] / 2 / max(1, len(overs)))
            if v:
                return {'violation': v, 'stats': st}
        v, st = api.run_num(c, cfg, only, [seed * 100003 + 50000 + i for i in range(n)], budget=T['search_budget'], search=True)
        return {'violation': v, 'stats': st}


FNS = set()


def watch():
    """record which functions of the package this process enters (one event per code object)"""
    mon = sys.monitoring
    root = os.path.join(os.path.realpath(REPO), 'pyproximal') + os.sep

    def start(code, off):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root) and '<' not in code.co_qualname.replace('.<locals>', ''):
            FNS.add(f[len(root):-3].replace(os.sep, '.') + ':' + code.co_qualname.replace('.<locals>', ''))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.PROFILER_ID, 'vf')
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
    except ValueError:
        pass


def _child(conn, task, tier, seed):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        watch()
        r = task_run(task, tier, seed)
        r['fns'] = sorted(FNS)
        conn.send(('ok', r))
    except MemoryError:
        conn.send(('err', 'out of memory'))
    except BaseException:
        conn.send(('err', traceback.format_exc()))
    conn.close()


def run_pool(tasks, tier, seed, njobs, deadline, stop=None):
    """process per task, killed when over its time"""
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    run = {}
    ctx = mp.get_context('fork')
    hard = TIERS[tier]['hard']
    while todo or run:
        while todo and len(run) < njobs and time.time() < deadline:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, tasks[i], tier, seed), daemon=True)
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        if time.time() >= deadline:
            for i in todo:
                res[i] = ('err', 'time limit of the check')
            todo = []
        for i, (p, a, t0) in list(run.items()):
            done = None
            if a.poll(0):
                try:
                    done = a.recv()
                except EOFError:
                    done = ('err', 'worker died')
            elif not p.is_alive():
                done = a.recv() if a.poll(0) else ('err', 'worker died')
            elif time.time() - t0 > hard or time.time() > deadline + 30:
                p.kill()
                done = ('err', 'killed after %ds' % (time.time() - t0))
            if done is not None:
                res[i] = done
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del run[i]
        time.sleep(0.005)
    return res


def findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                out.append((key[len('key='):], what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        from vf import selftest
        return selftest.main()
    pid, tier, seed = a.property, a.tier if a.tier in TIERS else 'quick', a.seed
    t0 = time.time()
    deadline = t0 + TIERS[tier]['deadline']
    import warnings
    warnings.simplefilter('ignore')
    cs = load_contracts()
    import numpy  # noqa
    import pylops  # noqa
    import_error = None
    try:
        import pyproximal  # noqa
    except Exception:
        import_error = traceback.format_exc()
    os.makedirs(os.path.join(EVDIR, 'replay'), exist_ok=True)
    nreplay = 0
    viol_lines = []

    def replay_file(kind, payload):
        nonlocal nreplay
        nreplay += 1
        path = os.path.join(EVDIR, 'replay', '%s-%d.json' % (pid, nreplay))
        payload = dict(payload, property=pid, kind=kind, rerun='cd /verif && VERIF_SEED=%d ./check --property %s' % (seed, pid))
        with open(path, 'w') as f:
            json.dump(payload, f, indent=1, default=str)
        return os.path.relpath(path, HERE)

    for f in os.listdir(os.path.join(EVDIR, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(EVDIR, 'replay', f))
    if import_error:
        path = replay_file('import', {'error': import_error})
        print(import_error)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        write_evidence(pid, tier, seed, t0, {'obligations': 1, 'discharged': 0, 'checker_cmd': 'import', 'trusted_base': ['CPython']}, [], 1)
        return 1
    load_err = None
    try:
        from vf import loader
        loader.loader()
    except BaseException:
        load_err = traceback.format_exc()
    tasks, meta = [], []
    sel = [(i, c) for i, c in enumerate(cs) if pid in c.props and (not a.only or any(s in c.name for s in a.only.split(',')))]
    order = sorted(sel, key=lambda ic: -ic[1].weight)
    for i, c in order:
        for cfg in c.cfgs:
            if cfg.get('_thorough') and tier == 'quick':
                continue
            if not c.num_only and not cfg.get('_num') and load_err is None:
                tasks.append(('sym', i, cfg, {pid}, None))
                meta.append((c, cfg, 'sym'))
            if not c.sym_only:
                tasks.append(('num', i, cfg, {pid}, None))
                meta.append((c, cfg, 'num'))
    res = run_pool(tasks, tier, seed, a.jobs, deadline)
    obl = {}           # (contract, cfg, label) -> dict
    covers, undecided, bounded, funcs, assumed = {}, [], {}, set(), set()
    be = {}
    stats = {'solver_s': 0.0, 'queries': 0, 'paths': 0, 'branch_queries': 0}
    ncases = nclaims = nsk = 0
    samples, numviol, replays = [], [], []
    symfuncs, numfuncs = set(), set()
    for (c, cfg, kind), t, r in zip(meta, tasks, res):
        key = c.name + (json.dumps(cfg, sort_keys=True, default=str) if cfg else '')
        if kind == 'sym':
            if r[0] != 'ok':
                undecided.append('%s: %s' % (key, r[1].strip().splitlines()[-1]))
                if a.verbose:
                    print(key, r[1])
                continue
            r = r[1]
            stats['solver_s'] += r['stats']['time'] + r['stats']['branch_time']
            stats['queries'] += r['stats']['queries']
            stats['branch_queries'] += r['stats']['branch_queries']
            stats['paths'] += r['paths']
            assumed |= set(r['assumed'])
            covers[key] = sorted(r['covers'])
            for u in sorted(set(r['undecided'])):
                undecided.append('%s: %s' % (key, u))
            if r['obls']:
                symfuncs |= set(r['fns'])
            for (label, prop, status, backend, note, junk, model) in r['obls']:
                if prop != pid:
                    continue
                o = obl.setdefault((key, label), {'n': 0, 'proved': 0, 'refuted': [], 'unknown': 0, 'maybe': [], 'notes': set(), 'task': t})
                o['n'] += 1
                if status == 'proved':
                    o['proved'] += 1
                    be[backend or 'structural'] = be.get(backend or 'structural', 0) + 1
                elif status == 'refuted' and not junk:
                    o['refuted'].append(model)
                    o['notes'].add(note)
                else:
                    o['unknown'] += 1
                    if model:
                        o['maybe'].append(model)
                    o['notes'].add('%s%s %s' % (status, ' (over-approximated state)' if junk else '', note))
        else:
            if r[0] != 'ok':
                undecided.append('%s (concrete): %s' % (key, r[1].strip().splitlines()[-1]))
                if a.verbose:
                    print(key, r[1])
                continue
            st = r[1]['stats']
            ncases += st['cases']
            nclaims += st['claims']
            nsk += st['skipped']
            numfuncs |= set(r[1]['fns'])
            bounded[key] = st['cases']
            if st['sample'] is not None and len(samples) < 6:
                samples.append({'contract': key, 'inputs': st['sample']})
            if r[1]['violation']:
                numviol.append((c, cfg, key, r[1]['violation']))
    # counter-models are replayed on the real code
    todo, stands_in = [], {}
    for (key, label), o in sorted(obl.items()):
        if o['refuted']:
            from vf import api
            overs = [api.model_to_over(m) for m in o['refuted'] if m][:6]
            t = o['task']
            if cs[t[1]].replay:
                for j, d in enumerate(cs):
                    if d.name == cs[t[1]].replay:
                        for cfg in d.cfgs:
                            todo.append((d.name + (json.dumps(cfg, sort_keys=True, default=str) if cfg else ''), None, o, ('replay', j, cfg, t[3], ([], TIERS[tier]['search']))))
                            stands_in.setdefault(key, []).append(todo[-1][0])
                continue
            todo.append((key, label, o, ('replay', t[1], t[2], t[3], (overs, TIERS[tier]['search']))))
    violated_keys = {k for _, _, k, _ in numviol}
    todo = [x for x in todo if x[0] not in violated_keys]
    uniq = {}
    for x in todo:
        uniq.setdefault(x[0], []).append(x)
    # obligations that are neither discharged nor refuted: more concrete inputs; only a failing input is reported
    for (key, label), o in sorted(obl.items()):
        if o['unknown'] and key not in uniq and key not in violated_keys and not cs[o['task'][1]].replay:
            t = o['task']
            from vf import api
            uniq[key] = [(key, None, o, ('replay', t[1], t[2], t[3], ([api.model_to_over(m) for m in o['maybe']][:4], TIERS[tier]['search'])))]
    for t, (c, cfg, kind) in zip(tasks, meta):
        key = c.name + (json.dumps(cfg, sort_keys=True, default=str) if cfg else '')
        if kind == 'sym' and not c.sym_only and key not in uniq and key not in violated_keys and any(u.startswith(key + ':') for u in undecided):
            uniq[key] = [(key, None, None, ('replay', t[1], t[2], t[3], ([], TIERS[tier]['search'])))]
    rt = [v[0][3] for v in uniq.values()]
    rr = run_pool(rt, tier, seed, a.jobs, deadline + 100) if rt else []
    nffi = []
    for (key, xs), r in zip(uniq.items(), rr):
        c = cs[xs[0][3][1]]
        v = r[1]['violation'] if r[0] == 'ok' else None
        if v:
            numviol.append((c, xs[0][3][2], key, v))
            violated_keys.add(key)
        else:
            for x in xs:
                if x[1] is not None:
                    nffi.append((key, x[1], x[2]))
    for (key, label), o in sorted(obl.items()):
        if key in stands_in and o['refuted'] and not violated_keys & set(stands_in[key]):
            nffi.append((key, label, o))
    known = findings(pid)
    nviol = 0
    for c, cfg, key, v in numviol:
        kf = [w for k, w in known if k == '%s/%s' % (c.name, v['label'].replace(' ', '-'))]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]))
            continue
        failed = [l for (k, l), o in obl.items() if k == key and o['refuted']]
        path = replay_file('real-code', {'contract': key, 'violation': v, 'failed_obligations': failed})
        nviol += 1
        print('  %s: [%s] %s' % (key, v['label'], v['detail'][:300]))
        viol_lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    for key, label, o in nffi:
        path = replay_file('obligation', {'contract': key, 'obligation': label, 'counter_models': o['refuted'][:3], 'notes': sorted(o['notes'])})
        nviol += 1
        print('  %s: obligation [%s] refuted by the verifier' % (key, label))
        viol_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    nobl = sum(o['n'] for o in obl.values())
    nproved = sum(o['proved'] for o in obl.values())
    und = ['%s [%s]: %d of %d undischarged (%s)' % (k, l, o['n'] - o['proved'], o['n'], '; '.join(sorted(o['notes']))) for (k, l), o in sorted(obl.items()) if o['n'] != o['proved']]
    if load_err:
        undecided.append('loader: ' + load_err.strip().splitlines()[-1])
    vac = [k for k, v in covers.items() if not v and not any(u.startswith(k) for u in undecided)]
    from vf import trust
    cov = {
        'obligations': nobl, 'discharged': nproved,
        'checker_cmd': './check --property %s' % pid,
        'trusted_base': trust.TRUSTED + sorted(assumed),
        'named_obligations': len(obl),
        'named_obligations_fully_discharged': sum(1 for o in obl.values() if o['n'] == o['proved']),
        'discharged_by_backend': be,
        'solver_time_s': round(stats['solver_s'], 2), 'solver_queries': stats['queries'], 'feasibility_queries': stats['branch_queries'],
        'paths': stats['paths'],
        'functions_under_contract': sorted(symfuncs),
        'functions_bounded_only': sorted(numfuncs - symfuncs),
        'undischarged': und, 'undecided': undecided,
        'contracts_with_reached_end': sum(1 for v in covers.values() if v), 'contracts_vacuous': vac,
        'bounded_concrete_runs': {'label': 'bounded, never counted as proved', 'evaluations': ncases, 'claims_evaluated': nclaims, 'skipped_by_precondition': nsk,
                                  'sizes': 'arrays up to about 6 entries per dimension unless the contract says otherwise', 'per_contract': bounded},
        'samples': samples,
    }
    write_evidence(pid, tier, seed, t0, cov, trust.ASSUMPTIONS, nviol)
    print('%s %s: %d obligations (%d named), %d discharged, %d concrete runs (%d claims), %d undecided, %.1fs' % (
        pid, tier, nobl, len(obl), nproved, ncases, nclaims, len(undecided) + len(und), time.time() - t0))
    if a.verbose:
        for u in und + undecided:
            print('   -', u)
        for k in vac:
            print('   vacuous', k)
    for l in viol_lines:
        print(l)
    if nviol:
        return 1
    if nobl == 0 and nclaims == 0:
        print('no obligation was generated: nothing was decided')
        return 2
    return 0


def write_evidence(pid, tier, seed, t0, cov, assumptions, nviol):
    level = 'proof' if cov.get('obligations') else 'exploration'
    try:
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        level = [c['level'] for c in man['checks'] if c['property'] == pid][0]
    except Exception:
        pass
    if level != 'proof':
        b = cov.get('bounded_concrete_runs', {})
        cov['evaluations'] = b.get('evaluations', 0)
        cov['distinct_nontrivial'] = b.get('evaluations', 0)
        cov['rule'] = 'random inputs per contract and configuration; a run counts when its precondition holds and at least one claim was evaluated'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(EVDIR, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
