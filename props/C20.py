"""Every observable evaluates to a finite real number, at any parameter point and for any new physics."""
import numpy as np
from harness import Sweep, expect, fail, Skip
import phys

RULE = ('A case is one observable, a parameter point (central values or a random draw from all parameter constraints, displaced by a factor up to 1), '
        'arguments inside the phase space and a set of Wilson coefficients (none, or every coefficient of every sector drawn independently, '
        'real or complex). Non-trivial: the parameters are displaced or at least one Wilson coefficient is non-zero; distinct by all of these.')
ASSUMPTIONS = ['dilepton observables (R_13) are not evaluated: they need parton distributions that cannot be downloaded offline',
               'ln C of K->pi l nu is only defined where the argument of the logarithm is positive']
LEVEL_NOTE = 'Every registered observable is visited in each run; parameters, arguments and coefficients are sampled.'

def finite(v):
    return np.ndim(v) == 0 and np.isrealobj(v) and not isinstance(v, str) and bool(np.isfinite(v))


def check(c, ctx):
    n = c['obs']
    par, args, wc = phys.setup_point(c)
    if not c['size'] and not (c['seed'] and c['t']):
        ctx.trivial()
    ctx.label((phys.Observable[n].prediction.function.__module__ + '...').split('.')[2] or 'composite')
    try:
        v = phys.ev(n, par, wc, args)
    except ValueError as e:
        if n.startswith('lnC(') and 'math domain' in str(e) and c['size']:
            raise Skip()
        raise
    expect(finite(v), '%s%r is %r: not a finite real number', n, args, v)


def build():
    return [Sweep('finite', phys.names(), phys.point_strategy, check, quick=1, thorough=12, shards=32)]
