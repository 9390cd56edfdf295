'''Developer tool, not a check: runs checks on scratch copies of /repo with each
planted bug applied and prints which checks report it.

usage: matrix.py own|all [bug ...]'''
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f'C{i:02}' for i in range(1, 18)] + [f'O{i:02}' for i in range(1, 15)]
mode, only = sys.argv[1], sys.argv[2:]
bugs = sorted(os.path.basename(d) for d in glob.glob(f'{HERE}/seeded/*'))
bugs = [b for b in bugs if not only or b in only]
base = '/tmp/pyorb-matrix'
shutil.rmtree(base, ignore_errors=True)


def run(job):
    bug, prop = job
    d = f'{base}/{bug}/repo'
    r = subprocess.run(['bash', f'{HERE}/check.sh', prop, 'quick'], text=True, capture_output=True,
                       env=dict(os.environ, PYORB_REPO=d, PYORB_EVIDENCE_DIR=f'{base}/{bug}/ev-{prop}',
                                VERIF_SEED=os.environ.get('VERIF_SEED', '1'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))
    return bug, prop, r.returncode


jobs = []
for b in bugs:
    d = f'{base}/{b}/repo'
    os.makedirs(d)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
    subprocess.run(['git', 'apply', '--unsafe-paths', f'--directory={d}', f'{HERE}/seeded/{b}/patch.diff'], check=True, cwd='/')
    own = json.load(open(f'{HERE}/seeded/{b}/meta.json'))['property']
    jobs += [(b, p) for p in (ALL if mode == 'all' else [own])]
res = {}
with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    for b, p, rc in ex.map(run, jobs):
        res.setdefault(b, {})[p] = rc
        own = json.load(open(f'{HERE}/seeded/{b}/meta.json'))['property']
        if p == own and rc != 1:
            print('MISSED', b, p, rc, flush=True)
for b in bugs:
    print(b, ' '.join(p if rc == 1 else f'{p}:{rc}' for p, rc in res[b].items() if rc), flush=True)
shutil.rmtree(base, ignore_errors=True)
