"""C26: rates are positive quadratic (Hermitian) forms in the Wilson coefficients; unphysical phases do not matter."""
import re
import cmath
import functools
import numpy as np
import flavio
from flavio.classes import Observable
from hypothesis import strategies as st
import phys
from harness import Sub, Sweep, Skip, expect, fail

LEVEL_NOTE = 'every rate, every observable normalised to a rate and all observables (lepton phases) are visited at generated parameter points and coefficients.'
RULE = 'a case is non-trivial if the new-physics coefficients change the observable'
ASSUMPTIONS = ['coefficients of meson mixing are zero where interference of mixing and decay is part of the definition of a rate (Bs, KS, KL)',
               'numerical integration of rates (bins, totals) is accurate to 0.2% of the rate, differential rates are exact to 1e-6',
               'neutrino flavours rotate with the charged lepton of the same flavour']

TOK = re.compile(r'nue|numu|nutau|tau|mu|e|u|d|s|c|b')
FLAV = {'e': 'e', 'mu': 'mu', 'tau': 'tau', 'nue': 'e', 'numu': 'mu', 'nutau': 'tau'}


@functools.lru_cache(None)
def charges(name):
    """(lepton flavours created, lepton flavours annihilated) by the operator of a WET coefficient in the flavio basis; None: not a WET flavio name"""
    if '_' not in name:
        return (), ()
    t = TOK.findall(name.split('_')[1])
    if ''.join(t) != name.split('_')[1]:
        return None
    if len(t) == 2:
        pairs = [t]
    elif len(t) == 4:
        pairs = [t[:2], t[2:]]
    else:
        return None
    cr, an = [], []
    for p in pairs:
        a, c = (p[1], p[0]) if p[1].startswith('nu') and not p[0].startswith('nu') else p     # charged current: lepton first
        if c in FLAV:
            cr.append(FLAV[c])
        if a in FLAV:
            an.append(FLAV[a])
    return tuple(cr), tuple(an)


class NoMix(phys.RandWilson):
    def value(self, eft, basis, n):
        if eft == 'SMEFT' or re.search(r'_(bsbs|bdbd|sdsd|ucuc|cucu)$', n):
            return 0
        return super().value(eft, basis, n)


class LepRot(phys.StubWilson):
    """coefficients after a redefinition of the phases of the lepton fields"""

    def __init__(self, w, ph):
        super().__init__({'x': 1.0})
        self.w, self.ph = w, ph

    def match_run(self, scale, eft, basis, sectors='all'):
        d = {}
        for n, v in self.w.match_run(scale, eft, basis, sectors).dict.items():
            q = charges(n)
            if q is None:
                raise Skip()
            f = sum(self.ph[x] for x in q[0]) - sum(self.ph[x] for x in q[1])
            d[n] = v * cmath.exp(1j * f) if f else v
        return phys._WC(eft, basis, scale, d)


class Rot(LepRot):
    """all coefficients of flavour-changing amplitudes multiplied by one phase; Hermitian operators stay what they are"""

    def __init__(self, w, z):
        phys.StubWilson.__init__(self, {'x': 1.0})
        self.w, self.z = w, z

    def match_run(self, scale, eft, basis, sectors='all'):
        d = {n: v * self.z for n, v in self.w.match_run(scale, eft, basis, sectors).dict.items()}
        return phys._WC(eft, basis, scale, d)


# --- observables
RATE = re.compile(r'^(BR|BR_[LT]|<BR>|<BR_[LT]>|dBR/d\w+|<dBR/dq2>|<BR>/<\w+>|CR|Gamma|GammaW?|BR_LHCb|BR_incl|R)\(')
LINEAR = {'epsp/eps', 'a_e', 'a_mu', 'a_tau', 'd_Tl', 'omega_HfF', 'omega_ThO', 'omega_YbF', 'R_trident'}
MUNU = re.compile(r'_(numunueemu|numunuemue|nutaunueetau|nutaunumumutau|\w*nu\w*nu\w*)$')


def factor(n):
    """observable whose product with n is quadratic in the coefficients ('' : n itself); None: not known to be quadratic"""
    if n in LINEAR:
        return ''
    if ')/' in n:
        return None
    head, proc = n.split('(', 1) if '(' in n else (n, '')
    if RATE.match(n) and head != 'R' and not re.search(r'->(W|Z|h)|^.*\((W|Z|h)->', n):
        return ''
    if n == 'ACP(Bs->phigamma)':         # the rate is the time-integrated one
        return None
    if re.match(r'^<?(FL|AFB|AFBh|AFBl|AFBlh|ACP|A\d\w*|S\d\w*|S_\d\w+|A_\d\w+|FH|FLtot|AFBtot|I3tot)>?$', head):
        args = tuple(Observable[n].arguments or ())
        for r in {('q2',): ['dBR/dq2(', 'dBR/dq2('], ('q2min', 'q2max'): ['<dBR/dq2>(', '<BR>('], (): ['BR(']}.get(args, []):
            if r + proc in Observable.instances:
                return r + proc
    return None


@functools.lru_cache(None)
def quad():
    out = []
    for n in phys.names():
        f = factor(n)
        if f is None or (f and '->X' in n):       # inclusive asymmetries are not normalised to the corrected rate
            continue
        if f and n.startswith('<') and re.sub(r'^<(.*?)>', r'\1', n) in Observable.instances:     # bins: see C22
            continue
        out.append(n)
    return sorted(out)


def par_wc(c):
    par = phys.par_point(c['seed'], c['t'])
    if c['wc'] is None:
        raise Skip()
    return par, NoMix(c['wc'], c['size'], c['density'], c['phase'])


def tol(n, scale):
    """integrals are adaptive with a relative accuracy of 1e-3 to 1e-2"""
    if Observable[n].arguments == ['q2']:
        return 1e-6 * scale
    return (2e-3 if re.match(r'<|(BR|BR_\w|BR_\w+|FLtot|AFBtot|I3tot|d\w+/d\w+)\(', n) and re.search(r'->\S+(ee|mu|tau|nu|ll|gamma)\)', n) else 1e-6) * scale


def skip(n):
    # constants of the muon decay enter GF in these: not polynomial
    return bool(re.match(r'(BR|Gamma)\((pi\+|tau|K\+|KL|KS)', n)) and not n.startswith(('BR(tau->mu', 'BR(tau->e', 'BR(tau->3', 'BR(tau->rho', 'BR(tau->phi', 'BR(KL', 'BR(KS', 'BR(K+->pi')) or 'lnC' in n


def check_quad(c, ctx):
    n = c['obs']
    par, w = par_wc(c)
    args = phys.args_for(n, par, c['u'])
    z = cmath.exp(1j * c['arg'])
    f = factor(n)
    vals, sc = {}, 0.
    for k, x in {'0': 0., '1': 1., '-1': -1., '2': 2., 'z': z, '-z': -z}.items():
        if 'z' in k and not hermitian(n):
            continue
        wx = Rot(w, x)
        v = phys.ev(n, par, wx, args)
        if f:
            r = phys.ev(f, par, wx, args)
            v *= r
            sc = max(sc, abs(r))
        vals[k] = v
        sc = max(sc, abs(v))
    f0, f1, fm, f2 = (vals[k] for k in ('0', '1', '-1', '2'))
    if sc == 0 or max(abs(f1 - f0), abs(fm - f0)) < 1e-6 * sc:
        ctx.trivial()
    d = f2 - 3 * f1 + 3 * f0 - fm
    name = n + (' * ' + f if f else '')
    expect(abs(d) <= tol(n, sc), '%s%s is not a quadratic function of the coefficients: at -1, 0, 1, 2 times the coefficients it is %r, %r, %r, %r (third difference %.3g)',
           name, args, fm, f0, f1, f2, d)
    if 'z' in vals:
        ctx.label('phase of all coefficients')
        a, b = f1 + fm - 2 * f0, vals['z'] + vals['-z'] - 2 * f0
        expect(abs(a - b) <= tol(n, sc), '%s%s: the part quadratic in the coefficients is %r, but %r after multiplying all of them by the phase exp(%.3g i)', name, args, a, b, c['arg'])


def check_lep(c, ctx):
    n = c['obs']
    par = phys.par_point(c['seed'], c['t'])
    w = phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    args = phys.args_for(n, par, c['u'])
    try:
        a = phys.ev(n, par, w, args)
    except ValueError as e:
        if n.startswith('lnC(') and 'math domain' in str(e):        # not defined if new physics exceeds the Standard Model
            raise Skip()
        raise
    if not np.isfinite(a):
        raise Skip()
    b = phys.ev(n, par, LepRot(w, dict(zip(('e', 'mu', 'tau'), c['ph']))), args)
    if any(charges(x) and sorted(charges(x)[0]) != sorted(charges(x)[1]) for x in w.touched if '_' in x):
        ctx.label('lepton flavour violating coefficients')
    elif not w.touched:
        ctx.trivial()
    expect(abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-30, '%s%s is %r, but %r after a change of the phases of the lepton fields by %r', n, args, a, b, c['ph'])


# not Hermitian in all coefficients: mixing or both flavours contribute
def hermitian(n):
    if re.search(r'Bs->(K\*0|phi)|\(Bs->|KL|KS', n) and not re.search(r'Bs->K\*\w+nu', n):
        return False
    if factor(n) and re.search(r'gamma', n):
        return False
    if n in LINEAR:
        return False
    # sums over or conjugates of opposite lepton flavours
    if re.search(r'tau->|CR\(mu|mu->|J/psi|psi\(|Upsilon|eta_|chi_|phi->|emu|mue|etau|taue|mutau|taumu', n):
        return False
    return True


def build():
    ang = st.floats(0.3, 6.0).map(lambda x: round(x, 3))
    q = [n for n in quad() if not skip(n)]
    return [Sweep('quadratic', q, lambda n: phys.point_strategy(n, sizes=(1.0, 0.3), phase=st.just(1.0), density=st.just(1.0), arg=ang), check_quad, quick=1, thorough=8),
            Sweep('lepton phases', sorted(phys.names()), lambda n: phys.point_strategy(n, sizes=(1.0, 0.3), phase=st.just(1.0), density=st.just(1.0), ph=st.lists(ang, min_size=3, max_size=3)),
                  check_lep, quick=1, thorough=6)]
