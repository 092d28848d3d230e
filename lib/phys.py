"""Shared machinery of the physics checks: catalogue of observables with their
phase space, parameter points, and Wilson coefficient objects without RG running."""
import functools
import re
import numpy as np
import flavio
from flavio.classes import Observable
from wilson import wcxf

LEP = {'e': 'm_e', 'mu': 'm_mu', 'tau': 'm_tau'}


# --------------------------------------------------------------------------
class StubWilson(flavio.WilsonCoefficients):
    """Wilson coefficients that have the given values at every scale, in every EFT and
    basis (no RG evolution): a linear stand-in for wilson.Wilson."""

    def __init__(self, values, scale=100.):
        super().__init__()
        self.vals = dict(values)
        self.seen = set()
        self.touched = set()
        if self.vals:
            self.wc = wcxf.WC('WET', 'flavio', scale, {k: {'Re': 1.0} for k in ['C7_bs']})

    def match_run(self, scale, eft, basis, sectors='all'):
        b = wcxf.Basis[eft, basis]
        names = b.all_wcs if sectors == 'all' else [n for s in sectors for n in b.sectors[s]]
        self.seen.add((scale, eft, basis, sectors))
        self.touched.update(names)
        return _WC(eft, basis, scale, {n: self.vals[n] for n in names if self.vals.get(n)})

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class _WC:
    def __init__(self, eft, basis, scale, d):
        self.eft, self.basis, self.scale, self.dict = eft, basis, scale, d
        self.values = d

    def __getitem__(self, k):
        return self.dict.get(k, 0)


def is_real(eft, basis, name):
    b = wcxf.Basis[eft, basis]
    for s in b.sectors.values():
        if name in s:
            return bool(s[name] and s[name].get('real'))
    return False


# --------------------------------------------------------------------------
@functools.lru_cache(None)
def central():
    return flavio.default_parameters.get_central_all()


@functools.lru_cache(64)
def _random_par(seed):
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        return flavio.default_parameters.get_random_all()
    finally:
        np.random.set_state(state)


def par_point(seed, t=1.0):
    """parameters: central for seed 0, else t * random displacement"""
    c = central()
    if not seed or t == 0:
        return dict(c)
    r = _random_par(seed)
    return {k: c[k] + t * (float(r[k]) - c[k]) for k in c}


# --------------------------------------------------------------------------
# phase space
_M = {'B0': 'm_B0', 'B+': 'm_B+', 'Bs': 'm_Bs', 'B': 'm_B0', 'Bc': 'm_Bc', 'Lambdab': 'm_Lambdab', 'D+': 'm_D+', 'D0': 'm_D0', 'D': 'm_D+'}


def _lep(s):
    m = re.match(r'^(K\*0|K\*|K|pi|rho|omega|phi|D\*|D|Xs|Xd|Xc|Lambda\(1520\)|Lambda|)(tautau|mumu|ee|ll|nunu|taunu|munu|enu|lnu)(gamma)?$', s)
    return (m.group(1), m.group(2), m.group(3) or '') if m else None


def _final(parent, F):
    """mass parameter name of the final-state meson"""
    t = {('B0', 'K*'): 'm_K*0', ('B+', 'K*'): 'm_K*+', ('B0', 'K'): 'm_K0', ('B+', 'K'): 'm_K+', ('B0', 'pi'): 'm_pi0', ('B+', 'pi'): 'm_pi+',
         ('Bs', 'phi'): 'm_phi', ('Bs', 'K*0'): 'm_K*0', ('Lambdab', 'Lambda'): 'm_Lambda', ('Lambdab', 'Lambda(1520)'): 'm_Lambda(1520)'}
    cc = {('B0', 'D*'): 'm_D*+', ('B+', 'D*'): 'm_D*0', ('B', 'D*'): 'm_D*+', ('B0', 'rho'): 'm_rho+', ('B+', 'rho'): 'm_rho0', ('B', 'rho'): 'm_rho+',
          ('B+', 'omega'): 'm_omega', ('B', 'omega'): 'm_omega', ('Bs', 'K*'): 'm_K*+',
          ('B+', 'D'): 'm_D0', ('B0', 'D'): 'm_D+', ('B', 'D'): 'm_D+', ('B', 'pi'): 'm_pi+', ('B0', 'pi'): 'm_pi+', ('B+', 'pi'): 'm_pi0',
          ('D+', 'K'): 'm_K0', ('D0', 'K'): 'm_K+', ('D+', 'pi'): 'm_pi0', ('D0', 'pi'): 'm_pi+', ('D', 'K'): 'm_K+', ('D', 'pi'): 'm_pi+'}
    return t, cc


def q2limits(name, par):
    """(q2min, q2max) of the phase space of an observable with q2 arguments (common to all leptons involved), or None"""
    m = re.search(r'\(((?:B0|B\+|Bs|B|Bc|Lambdab|D\+|D0|D)->.*)\)$', name)
    if not m:
        return None
    P, rest = m.group(1).split('->', 1)
    F, lp, g = _lep(rest)
    fccc = lp.endswith('nu') and lp != 'nunu'
    t, cc = _final(P, F)
    if F in ('Xs', 'Xd'):
        mF = 0.0
        mP = 4.6        # pole-mass like; see the caller
    elif g:
        mF, mP = 0.0, par[_M[P]]
    else:
        key = (cc if fccc else t).get((P, F)) or (cc.get((P, F)))
        if lp == 'nunu' and key and F == 'rho':
            key = 'm_rho0' if P == 'B0' else 'm_rho+'
        if key is None:
            raise KeyError((name, P, F))
        mF, mP = par[key], par[_M[P]]
    if lp == 'nunu':
        lo = 0.0
    elif fccc:
        ls = {'enu': 'e', 'munu': 'mu', 'taunu': 'tau'}.get(lp)
        if ls is None:
            ls = 'tau' if 'tau' in name.split('(')[0] else 'mu'
        lo = par[LEP[ls]]**2
    else:
        ls = {'ee': 'e', 'mumu': 'mu', 'tautau': 'tau'}.get(lp)
        if ls is None:
            ls = 'tau' if 'tau' in name.split('(')[0] else 'mu'
        lo = 4 * par[LEP[ls]]**2
    return lo, (mP - mF)**2


def names():
    return [n for n in Observable.instances if not n.startswith('R_13')]


def ev(name, par, wc=None, args=()):
    o = Observable[name]
    if wc is None:
        wc = flavio.physics.eft._wc_sm
    return o.prediction_par(par, wc, *args)


# --------------------------------------------------------------------------
# arguments inside the domain of an observable
WWBINS = [-1, -0.8, -0.6, -0.4, -0.2, 0.0, 0.2, 0.4, 0.6, 0.8, 1.0]
EE = [161.3, 172.1, 182.7, 188.6, 191.6, 195.5, 199.5, 201.6, 204.9, 206.6]
EED = [182.66, 189.09, 198.38, 205.92]


def args_for(name, par, u):
    """arguments in the domain of the observable; u: list of at least 4 numbers in (0, 1)"""
    a = tuple(Observable[name].arguments or ())
    if not a:
        return ()
    if a in (('q2',), ('q2min', 'q2max')):
        lo, hi = q2limits(name, par)
        pt = lambda x: lo + (0.002 + 0.996 * x) * (hi - lo)
        if len(a) == 1:
            return (pt(u[0]),)
        x, y = sorted(u[:2])
        if y - x < 0.02:
            x, y = (x, x + 0.02) if x < 0.5 else (y - 0.02, y)
        return (pt(x), pt(y))
    rng = {('cl',): (-1, 1), ('cV',): (-1, 1), ('phi',): (0, 2 * np.pi), ('clmin', 'clmax'): (-1, 1), ('cVmin', 'cVmax'): (-1, 1),
           ('phimin', 'phimax'): (0, 2 * np.pi), ('me_E',): (0.2, 0.95)}.get(a)
    if rng:
        v = sorted(rng[0] + x * (rng[1] - rng[0]) for x in u[:len(a)])
        return tuple(v)
    if a == ('E',):
        return (EE[int(u[0] * len(EE)) % len(EE)],)
    if a == ('E', 'thetamin', 'thetamax'):
        i = int(u[1] * 10) % 10
        return (EED[int(u[0] * 4) % 4], WWBINS[i], WWBINS[i + 1])
    if a[0].startswith('Ce'):
        return tuple(1e-9 * (2 * x - 1) for x in (list(u) * 4)[:len(a)])
    raise KeyError((name, a))


# --------------------------------------------------------------------------
_DIM = {'sbsb': 1e-11, 'dbdb': 1e-12, 'sdsd': 1e-16, 'cucu': 1e-13, 'sb': .3, 'db': .3, 'sd': 1e-4, 'cu': .3}


@functools.lru_cache(None)
def _mag(eft, basis, name):
    """typical size of a coefficient whose effects compete with the SM"""
    if eft == 'SMEFT':
        d6 = name in ('G', 'Gtilde', 'W', 'Wtilde')
        return 1e-8 if d6 else 3e-8
    b = wcxf.Basis[eft, basis]
    for sname, s in b.sectors.items():
        if name in s:
            tex = (s[name] or {}).get('tex', '')
            if sname in _DIM:
                return _DIM[sname]
            if sname == 'dF=0':
                return 1e-3 if 'G_F' in tex else 1e-9
            if 'G_F' in tex:
                return .3
            return 1e-9
    return 1e-9


class RandWilson(StubWilson):
    """each coefficient gets an independent pseudo-random value determined by (seed, name)"""

    def __init__(self, seed, size=1.0, density=1.0, phase=1.0, only=None):
        super().__init__({'x': 1.0})
        self.seed, self.size, self.density, self.phase, self.only = seed, size, density, phase, only
        self.cache = {}
        if not size:
            self.wc = None

    def value(self, eft, basis, n):
        # the same operator in different EFTs has the same value
        k = (eft == 'SMEFT', n)
        if k not in self.cache:
            import zlib
            r = np.random.RandomState(zlib.crc32(('%d|%s|%s' % (self.seed, k[0], n)).encode()))
            x = r.uniform(-1, 1, 3)
            v = 0
            if (x[2] + 1) / 2 <= self.density and (self.only is None or n in self.only):
                m = self.size * _mag(eft, basis, n)
                v = m * x[0] if is_real(eft, basis, n) else m * (x[0] + 1j * self.phase * x[1])
            self.cache[k] = v
        return self.cache[k]

    def match_run(self, scale, eft, basis, sectors='all'):
        b = wcxf.Basis[eft, basis]
        names = list(b.all_wcs) if sectors == 'all' else [n for s in sectors for n in b.sectors[s]]
        self.seen.add((scale, eft, basis, sectors))
        self.touched.update(names)
        d = {}
        for n in names:
            v = self.value(eft, basis, n)
            if v:
                d[n] = v
        return _WC(eft, basis, scale, d)


class ScaledWilson(StubWilson):
    """linear combination of other coefficient objects"""

    def __init__(self, terms):
        super().__init__({'x': 1.0})
        self.terms = terms

    def match_run(self, scale, eft, basis, sectors='all'):
        d = {}
        for c, w in self.terms:
            for n, v in w.match_run(scale, eft, basis, sectors).dict.items():
                d[n] = d.get(n, 0) + c * v
        return _WC(eft, basis, scale, d)


class ConjWilson(StubWilson):
    def __init__(self, w):
        super().__init__({'x': 1.0})
        self.w = w

    def match_run(self, scale, eft, basis, sectors='all'):
        d = {n: (v.conjugate() if isinstance(v, complex) else v) for n, v in self.w.match_run(scale, eft, basis, sectors).dict.items()}
        return _WC(eft, basis, scale, d)


# --------------------------------------------------------------------------
# Hypothesis strategy for an evaluation point
def point_strategy(n, sizes=(1.0, 0.1, 3.0, 0.0), **extra):
    """evaluation point of the observable n; unlike plain Hypothesis strategies the first example is a generic point"""
    import os
    from hypothesis import strategies as st
    import harness
    base = harness.seed_for(int(os.environ.get('VERIF_SEED', '1') or 1), n)
    seed = st.integers(0, 10**6).map(lambda k: (k + base) % 1000003)
    # few parameter points per run, so that the caches of the code are shared
    base0 = harness.seed_for(int(os.environ.get('VERIF_SEED', '1') or 1), 'par') % 100000
    pseed = st.integers(0, 5).map(lambda k: base0 + k)
    us = st.lists(st.integers(0, 10**4), min_size=4, max_size=4).map(
        lambda l: [round(((x + base // 7**i) % 10007) / 10007., 5) for i, x in enumerate(l)])
    d = {'obs': st.just(n), 'seed': pseed, 't': st.sampled_from([1.0, 0.5, 0.0]), 'wc': seed, 'size': st.sampled_from(list(sizes)),
         'density': st.sampled_from([1.0, 0.2]), 'phase': st.sampled_from([1.0, 0.0]), 'u': us}
    d.update(extra)
    return st.fixed_dictionaries(d)


def setup_point(c):
    par = par_point(c['seed'], c['t'])
    return par, args_for(c['obs'], par, c['u']), RandWilson(c['wc'], c['size'], c['density'], c['phase'])


def _sm():
    return flavio.physics.eft._wc_sm
