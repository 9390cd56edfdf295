import json
import os
import traceback

import numpy as np

from . import core, inst

ANOMS = ('true', 'eccentric', 'mean')


class Check:
    rule = ''
    assumptions = []

    def __init__(self, ctx, pyorb, bus):
        self.ctx, self.pyorb, self.bus = ctx, pyorb, bus
        self.K = pyorb.kepler
        ctx.rule = self.rule
        ctx.assumptions = list(self.assumptions)
        self.setup()

    def setup(self):
        pass

    def cases(self):
        raise NotImplementedError

    def execute(self, case):
        raise NotImplementedError

    def finish(self):
        pass

    def run(self):
        for case in self.cases():
            self.do(case)
        self.finish()

    def begin(self, case):
        self.ctx.case = case
        # the spelling of calls belongs to the case, so that a replay repeats it
        self.bus.spelling.seed(json.dumps(core.jsonable(case), sort_keys=True))

    def do(self, case):
        self.begin(case)
        self.ctx.count('cases')
        try:
            self.execute(case)
        except core.StopRun:
            raise
        except inst.BudgetExceeded:
            raise
        except Exception as e:
            if self.from_library(e):
                self.ctx.violate('exception', f'{type(e).__name__}: {e}',
                                 where=traceback.format_exc()[-1200:])
            else:
                # the library returned something that cannot be read as the
                # property requires (a wrong shape, type or size)
                self.ctx.violate('unusable', f'{type(e).__name__}: {e}',
                                 where=traceback.format_exc()[-1200:])

    @staticmethod
    def from_library(e):
        tb = e.__traceback__
        root = os.path.join(inst.REPO, 'pyorb') + os.sep
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
                return True
            tb = tb.tb_next
        return False


def arr(x):
    return np.array(x, dtype=np.float64)


def cols(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def bcast_mu(mu, n):
    return np.broadcast_to(np.asarray(mu, dtype=np.longdouble), (n,))


def regime(e):
    e = float(e)
    if not np.isfinite(e):
        return 'undefined'
    if e == 0:
        return 'e=0'
    if e <= 1e-9:
        return 'e<=limit'
    if e < 1e-6:
        return 'e<1e-6'
    if e < 1:
        return 'elliptic' if e < 0.99 else 'e->1-'
    if e == 1:
        return 'e=1'
    return 'e->1+' if e < 1.01 else 'hyperbolic'
