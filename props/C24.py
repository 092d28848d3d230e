"""C24: observables defined in terms of other observables (ratios, averages, sums, differences) agree with their definition."""
import re
import numpy as np
import flavio
from flavio.classes import Observable
from hypothesis import strategies as st
import phys
from harness import Sweep, Skip, expect, fail, expect_close

LEVEL_NOTE = 'every composite observable is visited and compared with the combination of the registered observables it is made of.'
RULE = 'a case is non-trivial if the Wilson coefficients distinguish the components (lepton flavours, charges)'
ASSUMPTIONS = ['the components are the registered observables with the same arguments; charge-generic ratios B->X use B0, D->P use D0',
               'ratios are taken between numbers of the same quadrature, agreement 0.3%']

MESONS = r'(?:J/psi|psi\(2S\)|Upsilon\(\dS\)|eta_\w\(1S\)|chi_\w0\(\dP\))'
LEPS = ('ee', 'mumu', 'tautau')


def lep_sub(n, l):
    return re.sub(r'lnu\)$', l + 'nu)', n)


def relation(n):
    """-> (kind, f) with f(V, args) -> expected value, or None"""
    b = '<' if n.startswith('<') else ''
    # --- averages over e and mu
    m = re.match(r'^(<?(?:BR|BR_L|BR_T|dBR/dq2|dBR_L/dq2|dBR_T/dq2|dBR/dcl|dBR/dcV|dBR/dphi|RT)>?(?:/<(?:cl|cV|phi)>)?)\((.*lnu|K->pilnu)\)$', n)
    if m:
        return 'average', lambda V, a: (V(lep_sub(n, 'e'), a) + V(lep_sub(n, 'mu'), a)) / 2
    if n == 'lnC(K->pilnu)':
        return None
    m = re.match(r'^(<BR>|dBR/dq2)\(B->X([sd])ll\)$', n)
    if m:
        return 'average', lambda V, a: (V(n.replace('ll)', 'ee)'), a) + V(n.replace('ll)', 'mumu)'), a)) / 2
    # --- longitudinal fraction
    m = re.match(r'^(<?)FL(>?)(tot)?\((.*nu)\)$', n)
    if m and 'nunu' not in n:
        br, brl = {('<', None): ('<BR>', '<BR_L>'), ('', None): ('dBR/dq2', 'dBR_L/dq2'), ('', 'tot'): ('BR', 'BR_L')}[m.group(1), m.group(3)]
        return 'ratio', lambda V, a: V('%s(%s)' % (brl, m.group(4)), a) / V('%s(%s)' % (br, m.group(4)), a)
    # --- total = longitudinal + transverse
    m = re.match(r'^(<BR>|BR|dBR/dq2)\((B0|B\+|Bs)->(D\*|rho|omega|K\*)(enu|munu|taunu)\)$', n)
    if m:
        h = n.split('(')[0]
        L, T = (h.replace('BR', 'BR_' + x, 1) for x in 'LT')
        return 'L+T', lambda V, a: V(n.replace(h, L, 1), a) + V(n.replace(h, T, 1), a)
    # --- lepton universality ratios
    m = re.match(r'^(<?)R(mue|taumu|taul)(>?)\((.*?)->(.*?)(ll|lnu)\)$', n)
    if m:
        bb, r, _, P, F, e = m.groups()
        if P == 'W':
            x, y = {'mue': ('mu', 'e'), 'taumu': ('tau', 'mu'), 'taue': ('tau', 'e')}[r]
            return 'ratio', lambda V, a: V('BR(W->%snu)' % x, a) / V('BR(W->%snu)' % y, a)
        if e == 'll':
            x, y = {'mue': ('mumu', 'ee'), 'taumu': ('tautau', 'mumu')}[r]
            head = ('<BR>' if F in ('Xs', 'Xd') else '<dBR/dq2>') if bb else 'dBR/dq2'
        else:
            x, y = {'mue': ('munu', 'enu'), 'taumu': ('taunu', 'munu'), 'taul': ('taunu', 'lnu')}[r]
            head = '<BR>' if bb else 'BR'
            P = {'B': 'B0', 'D': 'D0'}.get(P, P) if F != 'Xc' else P
        return 'ratio', lambda V, a: V('%s(%s->%s%s)' % (head, P, F, x), a) / V('%s(%s->%s%s)' % (head, P, F, y), a)
    if n == 'Rtaue(W->lnu)':
        return 'ratio', lambda V, a: V('BR(W->taunu)', a) / V('BR(W->enu)', a)
    if n == 'Remu(K+->lnu)':
        return 'ratio', lambda V, a: V('BR(K+->enu)', a) / V('BR(K+->munu)', a)
    # --- differences
    m = re.match(r'^(<?)Dmue_(P4p|P5p|AFB)(>?)\((.*)ll\)$', n)
    if m:
        q = m.group(1) + m.group(2) + m.group(3)
        return 'difference', lambda V, a: V('%s(%smumu)' % (q, m.group(4)), a) - V('%s(%see)' % (q, m.group(4)), a)
    # --- LFV charge sums
    m = re.match(r'^(BR|R)\((.*->.*?)(emu|mue|etau|taue|mutau|taumu),(emu|mue|etau|taue|mutau|taumu)(gamma)?\)$', n)
    if m:
        h, d, x, y, g = m.groups()
        g = g or ''
        if x in ('mue', 'taue', 'taumu'):      # both orders of the name are the same observable, with arguments referring to the first one
            x, y = y, x
        if re.match('K[LS]', d):
            return None
        return 'charge sum', lambda V, a: sum(V('%s(%s%s%s)' % (h, d, z, g), aa) for z, aa in ((x, a), (y, swap(a))))
    # --- ratios of specific modes
    special = {
        'BR(B0->K*gamma)/BR(Bs->phigamma)': ('BR(B0->K*gamma)', 'BR(Bs->phigamma)'),
        'DeltaM_d/DeltaM_s': ('DeltaM_d', 'DeltaM_s')}
    if n in special:
        x, y = special[n]
        return 'ratio', lambda V, a: V(x, a) / V(y, a)
    m = re.match(r'^<BR>/BR\((.*)\)$', n)
    if m:
        x = m.group(1).replace('B->', 'B0->')
        return 'ratio', lambda V, a: V('<BR>(%s)' % x, a) / V('BR(%s)' % x, ())
    m = re.match(r'^R\((J/psi|psi\(2S\)|Upsilon\(\dS\))->(emu|mue|etau|taue|mutau|taumu)\)$', n)
    if m:
        return 'ratio', lambda V, a: V('BR' + n[1:], a) / V('BR(%s->ee)' % m.group(1), a)
    # --- effective lifetimes
    m = re.match(r'^tau_(ee|mumu|tautau)$', n)
    if m:
        def f(V, a):
            A, dG = V('ADeltaGamma(Bs->%s)' % m.group(1), a), V.par['DeltaGamma/Gamma_Bs']
            y = dG / 2
            t = V.par['tau_Bs']
            return t / (1 - y**2) * (1 + 2 * A * y + y**2) / (1 + A * y)
        return 'lifetime', f
    # --- Z pole
    m = re.match(r'^AFB\(Z->(.*?)\1\)$', n)
    if m:
        return 'Z', lambda V, a: 3 / 4 * V('A(Z->ee)', a) * V('A(Z->%s%s)' % (m.group(1), m.group(1)), a)
    G = lambda V, f: V('Gamma(Z->%s%s)' % (f, f), ())
    had = lambda V: sum(G(V, q) for q in 'udscb')
    if n == 'GammaZ':
        # the invisible width observable is per neutrino flavour; the hadronic width is not a registered observable of its own
        return 'Z', lambda V, a: G(V, 'e') + G(V, 'mu') + G(V, 'tau') + 3 * G(V, 'nu') + had(V)
    m = re.match(r'^R_(e|mu|tau)$', n)
    if m:
        return 'Z', lambda V, a: had(V) / G(V, m.group(1))
    m = re.match(r'^R_(u|d|s|c|b)$', n)
    if m:
        return 'Z', lambda V, a: G(V, m.group(1)) / had(V)
    if n == 'R_l':
        return 'Z', lambda V, a: had(V) / ((G(V, 'e') + G(V, 'mu') + G(V, 'tau')) / 3)
    if n == 'R_uc':
        return 'Z', lambda V, a: (G(V, 'u') + G(V, 'c')) / (2 * had(V))
    if n == 'sigma_had':
        return 'Z', lambda V, a: 12 * np.pi / V.par['m_Z']**2 / V('GammaZ', ())**2 * G(V, 'e') * had(V)
    # --- Higgs signal strengths factorise into production and decay
    m = re.match(r'^mu_(\w+)\(h->(\w+)\)$', n)
    if m and m.group(2) != 'bb':
        return 'Higgs', None
    # --- leptonic branching ratio from the width
    if n == 'Gamma(pi+->munu)':
        return None
    return None


def swap(a):
    return tuple(x for i in range(0, len(a), 2) for x in (a[i:i + 2][::-1] if len(a[i:i + 2]) == 2 else a[i:i + 2])) if a else ()


class DiagWilson(phys.RandWilson):
    # the hadronic width also contains Z->q q' with different flavours, which are not registered observables
    def value(self, eft, basis, n):
        m = re.search(r'_(\d)(\d)$', n)
        return 0 if m and m.group(1) != m.group(2) else super().value(eft, basis, n)


class V:
    def __init__(self, par, wc):
        self.par, self.wc, self.vals = par, wc, []

    def __call__(self, n, a=()):
        v = phys.ev(n, self.par, self.wc, tuple(a))
        self.vals.append(v)
        return v


def check(c, ctx):
    n = c['obs']
    kind, f = relation(n)
    par = phys.par_point(c['seed'], c['t'])
    w = DiagWilson(c['wc'], c['size'] * .3, c['density'], c['phase']) if kind in ('Z', 'Higgs') else phys.RandWilson(c['wc'], c['size'], c['density'], c['phase'])
    args = phys.args_for(n, par, c['u'])
    if n.startswith(('<BR>(B->X', 'dBR/dq2(B->X', '<Rmue>(B->X', '<Rtaumu>(B->X')):
        lo, hi = (1.0, 7.9) if (c['u'][2] < .5 and 'tau' not in n) else (14.5, 19.5)
        args = tuple(lo + x * (hi - lo) for x in sorted(c['u'][:len(args)]))
        if len(args) == 2 and args[1] - args[0] < .2:
            args = (lo + .1, hi - .1)
    v = V(par, w)
    if kind == 'Higgs':
        prod, dec = re.match(r'^mu_(\w+)\(h->(\w+)\)$', n).groups()
        x = v(n) * v('mu_gg(h->bb)')
        y = v('mu_%s(h->bb)' % prod) * v('mu_gg(h->%s)' % dec)
        if not np.isfinite(x * y):
            raise Skip()
        expect_close(x, y, n + ' times mu_gg(h->bb) versus the crossed product', rtol=1e-8)
        if not c['size']:
            ctx.trivial()
        return
    got = v(n, args)
    try:
        with np.errstate(all='ignore'):
            exp = f(v, args)
    except ZeroDivisionError:
        raise Skip()
    if not np.isfinite(exp) or not np.isfinite(got):
        raise Skip()
    rt = 1e-9 if kind in ('Z', 'charge sum', 'lifetime') or not args else 3e-3
    if kind in ('average', 'L+T', 'ratio'):
        rt = 3e-3
    scale = max([abs(x) for x in v.vals[1:]] or [1])
    at = 3e-5 * scale if kind in ('difference', 'average', 'L+T') else 3e-5 if n.lstrip('<').startswith('FL') else 0
    expect_close(got, exp, '%s(%s) versus its components' % (n, ', '.join('%.4g' % x for x in args)), rtol=rt, atol=at)
    if not c['size']:
        ctx.trivial()
    ctx.label(kind)


def build():
    items = [n for n in phys.names() if relation(n)]
    return [Sweep('definition', items, lambda n: phys.point_strategy(n), check, quick=3, thorough=20)]
