#!/usr/bin/env python
'''run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0 held on everything explored, 1 violation, 2 inconclusive or error.'''
import argparse
import importlib
import json
import os
import pickle
import subprocess
import sys
import time
import threading
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

MODULES = {}
for _m, _ids in (('mon.fn_conv', 'C01 C02 C03 C04'),
                 ('mon.fn_anom', 'C05 C06'),
                 ('mon.fn_pack', 'C07 C08 C09'),
                 ('mon.fn_misc', 'C10 C11 C12 C13 C14 C15 C16 C17'),
                 ('mon.orb_checks', 'O01 O02 O03 O04 O05 O06 O07 O08 O09 O10 O11 O12 O13 O14'),
                 ('mon.orb_more', 'O15')):
    for _i in _ids.split():
        MODULES[_i] = _m


def watchdog(seconds):
    def fire():
        print('INCONCLUSIVE: wall-clock watchdog', flush=True)
        for _, _, p in CHILDREN:
            p.kill()
        os._exit(2)
    t = threading.Timer(seconds, fire)
    t.daemon = True
    t.start()


# Besides the run that must finish, further processes run the same monitors
# on workloads from other random streams; each that finishes in time counts.
JOBS = dict(quick=6, thorough=8)
LIMIT = dict(quick=300, thorough=6300)
STREAM = 1000003
CHILDREN = []


def start_more(a):
    jobs = int(os.environ.get('PYORB_JOBS') or min(JOBS.get(a.tier, 1), os.cpu_count() or 1))
    scratch = os.environ.get('PYORB_SCRATCH')
    out = CHILDREN
    if not scratch:
        return out
    for w in range(1, jobs):
        f = os.path.join(scratch, f'stream-{w}')
        with open(f + '.out', 'w') as o:
            out.append((w, f, subprocess.Popen([sys.executable, os.path.abspath(__file__), a.prop, '--tier', a.tier, '--seed', str(a.seed + w*STREAM), '--result', f],
                                               stdout=o, stderr=subprocess.STDOUT)))
    return out


def collect(ctx, more, t0, limit, stop):
    '''Adds what the other processes observed; returns an error text or None.'''
    err, done = None, 0
    for w, f, p in more:
        try:
            if stop:
                raise subprocess.TimeoutExpired('', 0)
            rc = p.wait(max(1, t0 + limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            # the lines of a violation are written before the process ends
            rc = 1 if any(x.startswith('VIOLATION') for x in open(f + '.out')) else None
        if rc == 1:
            sys.stdout.write(open(f + '.out').read())
            sys.stdout.flush()
            ctx.nviol += 1
        elif rc == 2:
            err = open(f + '.out').read()
        if rc in (0, 1) and os.path.exists(f):
            with open(f, 'rb') as g:
                ctx.merge(pickle.load(g))
            done += 1
    ctx.extra['random_streams'] = done + 1
    return err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--result')
    a = ap.parse_args()
    t0 = time.time()
    more = start_more(a) if not a.replay and not a.result else []
    watchdog(7200 if a.tier == 'thorough' else 850)

    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from mon import core, inst
    pyorb = inst.load()
    mod = importlib.import_module(MODULES[a.prop])
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.tier, a.seed = rep['tier'], rep['seed']
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    bus = inst.Bus(pyorb)
    bus.install()
    ctx.bus = bus
    ctx.pyorb = pyorb
    err = None
    try:
        chk = mod.CHECKS[a.prop](ctx, pyorb, bus)
        if rep is not None:
            ctx.replaying = True
            chk.begin(rep['case'])
            chk.execute(rep['case'])
        else:
            chk.run()
    except core.StopRun:
        pass
    except Exception:
        err = traceback.format_exc()
    if rep is not None:
        if err:
            print(err)
        print('replay:', 'violated' if ctx.nviol else 'held')
        return 1 if ctx.nviol else (2 if err else 0)
    ctx.extra['library_calls_observed'] = dict(sorted(bus.count.items()))
    if a.result:
        if err:
            print(err)
        with open(a.result + '.tmp', 'wb') as f:
            pickle.dump(ctx.export(), f)
        os.replace(a.result + '.tmp', a.result)
        return 1 if ctx.nviol else 2 if err else 0
    found = ctx.nviol
    e2 = collect(ctx, more, t0, LIMIT.get(a.tier, 300), bool(found or err))
    err = err or e2
    ctx.write_evidence()
    if ctx.nviol:
        return 1
    if err:
        print('INCONCLUSIVE: the check itself failed')
        print(err)
        return 2
    low = ctx.inconclusive()
    if low or ctx.evals == 0:
        print(f'INCONCLUSIVE: monitors not reached: {low}')
        return 2
    print(f'OK property={a.prop} tier={a.tier} seed={a.seed} evaluations={ctx.evals} '
          f'distinct={len(ctx.distinct)} wall={ctx.evidence_wall():.1f}s')
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
