"""C25: forbidden processes vanish in the Standard Model; rates are positive and asymmetries, polarisations bounded."""
import os
import re
import sys
import importlib.util
import numpy as np
import flavio
from flavio.classes import Observable
from hypothesis import strategies as st
import phys
from harness import Sweep, Skip, expect, fail

LEVEL_NOTE = 'every rate, ratio, asymmetry, polarisation and lepton flavour violating observable is visited at generated parameter points and coefficients.'
RULE = 'a case is non-trivial if the observable is not zero (bounds) or if new physics makes it non-zero (forbidden processes)'
ASSUMPTIONS = ['electroweak and Higgs observables are expanded to first order in the coefficients and thus not bounded for large ones',
               'bounds on optimised angular observables hold for massless leptons without scalar and tensor operators']

LFV = re.compile(r'(emu|mue|etau|taue|mutau|taumu|nuemu)(gamma)?\)|emu,mue|etau,taue|mutau,taumu|mue,emu|taue,etau|taumu,mutau|^BR\(tau->|^BR\(mu->|^CR\(')


def forbidden(n):
    if 'nu' in n.split('->')[-1] and not re.match(r'BR\(mu->eee', n):
        return False
    return bool(LFV.search(n)) and '->' in n


HIGGS = re.compile(r'^mu_|ee->WW|\(Z->|\(W->|^GammaZ|^GammaW|^sigma_had|^R_[a-z]|^m_W|\(h->')
RATE = re.compile(r'^(BR|BR_[LT]|<BR>|<BR_[LT]>|dBR(_[LT])?/d\w+|<BR>/<\w+>|<dBR/dq2>|CR|Gamma|BR_LHCb|BR_incl|BR_Belle|R|Rmue|Rtaumu|Rtaul|<R\w+>|RKpi|Remu|Ft|tau_\w+|DeltaM_[ds]|x12_D|y12_D|q/p_D)(\(|$)')
UNIT = re.compile(r'^<?(FL|FLtot)>?\(')
ASYM = re.compile(r'^<?(FLttot|AFB|AFBtot|AFBh|AFBl|AFBlh|ACP|A\d\w*|S\d\w*|A|ADeltaGamma|S_K\*gamma|S_phigamma|S_psiK|S_psiphi|A_n|a_n)>?(\(|$)')
HALF = re.compile(r'^<?(P2|P3)>?\((?!.*tau)')
ROOT = re.compile(r'^<?(P4p|P5p|P6p|P8p|P1|ATIm)>?\((?!.*tau)')
OPT = re.compile(r'^<?(P\d\w*|ATIm)>?\(')


def kind(n):
    if HIGGS.search(n):
        return 'sm'
    for k, r in (('rate', RATE), ('unit', UNIT), ('half', HALF), ('optimised', ROOT), ('asym', ASYM)):
        if r.match(n):
            return k


class NoScalar(phys.RandWilson):
    def value(self, eft, basis, n):
        if eft != 'SMEFT' and re.match(r'C[STP]', n):
            return 0
        return super().value(eft, basis, n)


def check_bounds(c, ctx):
    n = c['obs']
    k = kind(n)
    par = phys.par_point(c['seed'], c['t'])
    cls = NoScalar if OPT.match(n) else phys.RandWilson
    w = cls(c['wc'], c['size'] if k != 'sm' else 0, c['density'], c['phase'])
    args = phys.args_for(n, par, c['u'])
    if 'AFB' in n and 'B->X' in n:       # the expansion in 1/m_b breaks down near the endpoint
        args = tuple(min(x, 8 - 2. * (len(args) - i)) for i, x in enumerate(args))
    if 'B->X' in n and args and args[-1] > 20:
        raise Skip()
    v = phys.ev(n, par, w, args)
    if v == 0:
        ctx.trivial()
    lo, hi = {'rate': (0, np.inf), 'sm': (-1 if re.match(r'A(FB)?\(', n) else 0, np.inf), 'unit': (0, 1), 'half': (-.5, .5), 'optimised': (-1, 1) if re.match('<?(P1|ATIm)', n) else (-1.42, 1.42), 'asym': (-1, 1)}[k]
    ctx.label(k)
    tol = 1e-9
    if n.startswith('<') and k != 'rate':
        tol = 1e-3
    if k in ('half', 'optimised') and 'mumu' in n:      # corrections of the muon mass
        q2 = args[0]
        tol += 4 * par['m_mu']**2 / q2
    expect(lo - (tol if k != 'rate' else 0) <= v <= hi + tol, '%s%s = %r is outside of the interval [%s, %s]', n, args, v, lo, hi)


def check_forbidden(c, ctx):
    n = c['obs']
    par = phys.par_point(c['seed'], c['t'])
    args = phys.args_for(n, par, c['u'])
    if args and Observable[n].arguments[0].startswith('Ce'):
        args = (0.,) * len(args)
    v = phys.ev(n, par, None, args)
    expect(v == 0, '%s%s = %r in the Standard Model, where lepton flavour is conserved', n, args, v)
    w = phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    x = phys.ev(n, par, w, args)
    if x == 0:
        ctx.trivial()
        # only a combination with zero coefficients may vanish
        expect(not any(w.value('WET', 'flavio', y) for y in w.touched) if c['density'] == 1 else True, '%s%s vanishes for arbitrary coefficients', n, args)
    expect(x >= 0, '%s%s = %r is negative', n, args, x)


def check_conserving(c, ctx):
    """coefficients conserving lepton flavour do not induce violating processes"""
    charges = _charges()
    n = c['obs']
    par = phys.par_point(c['seed'], c['t'])
    args = phys.args_for(n, par, c['u'])
    if args and Observable[n].arguments[0].startswith('Ce'):
        args = (0.,) * len(args)

    class Cons(phys.RandWilson):
        def value(self, eft, basis, name):
            q = charges(name)
            if q is None or sorted(q[0]) != sorted(q[1]):
                return 0
            return super().value(eft, basis, name)
    w = Cons(c['wc'], c['size'], 1.0, c['phase'])
    v = phys.ev(n, par, w, args)
    if not any(w.value('WET', 'flavio', y) for y in w.touched):
        ctx.trivial()
    expect(v == 0, '%s%s = %r although all coefficients conserve lepton flavour', n, args, v)


def _charges():
    if 'props_C26' not in sys.modules:
        spec = importlib.util.spec_from_file_location('props_C26', os.path.join(os.path.dirname(__file__), 'C26.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules['props_C26'] = m
        spec.loader.exec_module(m)
    return sys.modules['props_C26'].charges


def build():
    b = sorted(n for n in phys.names() if kind(n))
    f = sorted(n for n in phys.names() if forbidden(n))
    return [Sweep('bounds', b, lambda n: phys.point_strategy(n, sizes=(1.0, 3.0, 0.1)), check_bounds, quick=2, thorough=30),
            Sweep('forbidden', f, lambda n: phys.point_strategy(n, sizes=(1.0, 0.1), density=st.just(1.0)), check_forbidden, quick=2, thorough=20),
            Sweep('flavour conserving', f, lambda n: phys.point_strategy(n, sizes=(1.0, 0.1)), check_conserving, quick=2, thorough=20)]
