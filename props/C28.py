"""C28: angular distributions and rates of semileptonic decays follow from the squared amplitude."""
import re
import numpy as np
import flavio
from flavio.classes import Observable, AuxiliaryQuantity
from flavio.physics.running import running
from hypothesis import strategies as st
import phys
import semilep as sl
from harness import Sub, Sweep, Skip, expect, fail

LEVEL_NOTE = 'every B->V l nu, P l nu, V l l, P l l (lepton flavour conserving and violating) observable is visited with generated masses, form factors and coefficients.'
RULE = 'a case is non-trivial if at least two kinds of coefficients (vector, scalar, tensor) or a right-handed current contribute'
ASSUMPTIONS = ['form factors, CKM elements and running masses/couplings are inputs, taken from the code (their own checks: C18, C19, C30)',
               'flavour-changing neutral currents: large coefficients, so that the Standard Model part and non-local effects are smaller than the tolerance',
               'B_s -> phi: phase of q/p equal to the one of the SM box diagram']

ckm = lambda par: flavio.physics.ckm.get_ckm(par)
LEPS = ['e', 'mu', 'tau']
CC_V = {('B0', 'D*'): ('D*+', 'bc', 'B->D*'), ('B+', 'D*'): ('D*0', 'bc', 'B->D*'), ('B0', 'rho'): ('rho+', 'bu', 'B->rho'),
        ('B+', 'rho'): ('rho0', 'bu', 'B->rho'), ('B+', 'omega'): ('omega', 'bu', 'B->omega'), ('Bs', 'K*'): ('K*+', 'bu', 'Bs->K*')}
CC_P = {('B0', 'D'): ('D+', 'bc', 'B->D'), ('B+', 'D'): ('D0', 'bc', 'B->D'), ('B0', 'pi'): ('pi+', 'bu', 'B->pi'), ('B+', 'pi'): ('pi0', 'bu', 'B->pi'),
        ('D+', 'pi'): ('pi0', 'dc', 'D->pi'), ('D0', 'pi'): ('pi+', 'dc', 'D->pi'), ('D+', 'K'): ('K0', 'sc', 'D->K'), ('D0', 'K'): ('K+', 'sc', 'D->K'),
        ('KL', 'pi'): ('pi+', 'su', 'K->pi'), ('KS', 'pi'): ('pi+', 'su', 'K->pi'), ('K+', 'pi'): ('pi0', 'su', 'K->pi')}
FC_V = {('B0', 'K*'): ('K*0', 'bs'), ('B+', 'K*'): ('K*+', 'bs'), ('Bs', 'phi'): ('phi', 'bs'), ('B0', 'rho'): ('rho0', 'bd'), ('B+', 'rho'): ('rho+', 'bd')}
FC_P = {('B0', 'K'): ('K0', 'bs'), ('B+', 'K'): ('K+', 'bs'), ('B0', 'pi'): ('pi0', 'bd'), ('B+', 'pi'): ('pi+', 'bd')}
LPAT = r'(?:e|mu|tau|l)'
NAME = re.compile(r'^(?P<o>[^(]+)\((?P<B>B0|B\+|Bs|D\+|D0|KL|KS|K\+)->(?P<M>D\*|D|rho|omega|K\*|K|phi|pi)(?P<l>[a-z]+)\)$')


def ff_of(tr, q2, par):
    return AuxiliaryQuantity[tr + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=q2)


def nodes(a, b, n, root=False):
    """Gauss-Legendre nodes on [a, b]; root: square-root substitution at both ends"""
    x, w = np.polynomial.legendre.leggauss(n)
    t = (x + 1) / 2
    s, ds = t * t * (3 - 2 * t), 6 * t * (1 - t)
    return a + (b - a) * s, (b - a) * w / 2 * ds


def cc_coeffs(sec, lep, nu, par, scale, vals):
    k = sec + lep + 'nu' + nu
    if sec == 'su':
        sm = np.sqrt(1.0232)
    else:
        sm = 1 + running.get_alpha(par, scale)['alpha_e'] / np.pi * np.log(par['m_Z'] / scale)
    c = {'VL': vals.get('CVL_' + k, 0) + (sm if lep == nu else 0), 'VR': vals.get('CVR_' + k, 0), 'SR': vals.get('CSR_' + k, 0),
         'SL': vals.get('CSL_' + k, 0), 'T': vals.get('CT_' + k, 0)}
    return c if any(c.values()) else None


def ops_hc(c, N):
    """operators of c -> d l+ nu as hermitian conjugates of (cbar d)(lbar nu); first lepton: neutrino"""
    g = {k: np.conj(v) * N for k, v in c.items()}
    return [('V', 'L', 'L', g['VL']), ('V', 'R', 'L', g['VR']), ('S', 'L', 'R', g['SR']), ('S', 'R', 'R', g['SL']), ('T', 'R', 'R', g['T'])]


class CC:
    """charged-current decay: reference distributions"""

    def __init__(self, B, M, par, vals):
        self.par = par
        self.V = (B, M) in CC_V
        self.meson, self.sec, self.tr = (CC_V if self.V else CC_P)[B, M]
        self.mB, self.mM, self.B = par['m_' + B], par['m_' + self.meson], B
        self.vals = vals
        V = ckm(par)
        self.Vq = {'bc': V[1, 2], 'bu': V[0, 2], 'dc': V[1, 0], 'sc': V[1, 1], 'su': V[0, 1]}[self.sec]
        r = flavio.config['renormalization scale']
        self.scale = r['bvll'] if self.V else {'b': r['bpll'], 'd': r['dpll'], 's': par['m_rho0'] if self.sec == 'su' else r['dpll']}[self.sec[0]]
        m = {'b': running.get_mb, 'c': running.get_mc, 's': running.get_ms, 'd': running.get_md}
        if self.sec in ('dc', 'sc'):
            self.mQ, self.mq = running.get_mc(par, self.scale), m[self.sec[0]](par, self.scale)
        else:
            self.mQ = m[self.sec[0]](par, self.scale)
            self.mq = running.get_mc(par, self.scale) if self.sec == 'bc' else 0
        self.fac = par['tau_' + B] * (0.5 if self.meson in ('pi0', 'rho0', 'omega') else 1)
        self.N = 4 * par['GF'] / np.sqrt(2) * self.Vq

    def ff(self, q2):
        return ff_of(self.tr, q2, self.par)

    def em(self, lep):
        if self.sec != 'su':
            return 1
        f = (1 + self.par[('K+' if self.B == 'K+' else 'K0') + lep + '3 delta_EM'])**2
        return f * ((1 + self.par['K->pi delta_K+pi0'])**2 if self.B == 'K+' else 1)

    def J(self, lep, q2):
        """sum over neutrino flavours, in units of d(BR)"""
        ml = self.par['m_' + lep]
        if not ml**2 < q2 <= (self.mB - self.mM)**2:
            return None
        ff, tot = self.ff(q2), None
        for nu in LEPS:
            c = cc_coeffs(self.sec, lep, nu, self.par, self.scale, self.vals)
            if c is None:
                continue
            if self.V:
                x = sl.J_V(ff, self.mB, self.mM, self.mQ, self.mq, ml, 0, q2, sl.fccc_ops(c, self.N))
                x = np.array([x[k] for k in sl.KEYS])
            elif self.sec in ('dc', 'sc'):
                x = np.array(sl.abc_P(ff, self.mB, self.mM, self.mQ, self.mq, 0, ml, q2, ops_hc(c, self.N)))
            else:
                x = np.array(sl.abc_P(ff, self.mB, self.mM, self.mQ, self.mq, ml, 0, q2, sl.fccc_ops(c, self.N)))
            tot = x if tot is None else tot + x
        return tot * self.fac * self.em(lep)

    def integ(self, lep, a, b, n=26):
        a, b = max(a, self.par['m_' + lep]**2), min(b, (self.mB - self.mM)**2)
        x, w = nodes(a, b, n)
        return sum(wi * self.J(lep, xi) for xi, wi in zip(x, w))


K = {k: i for i, k in enumerate(sl.KEYS)}
G = lambda J: 3 / 4 * (2 * J[K['1s']] + J[K['1c']]) - 1 / 4 * (2 * J[K['2s']] + J[K['2c']])
GL = lambda J: 3 / 4 * J[K['1c']] - 1 / 4 * J[K['2c']]
GT = lambda J: 3 / 2 * J[K['1s']] - 1 / 2 * J[K['2s']]
GP = lambda J: 2 * (J[0] + J[2] / 3)


# one-dimensional distributions by direct integration of the basis functions
def _proj():
    n = 24
    x, w = np.polynomial.legendre.leggauss(n)
    ph = (np.arange(32) + 0.5) * 2 * np.pi / 32
    return x, w, ph


def ang_density(J, which, val):
    x, w, ph = _proj()
    if which == 'cl':
        f = sum(wv * np.mean([sl._basis(val, cv, p) for p in ph], axis=0) * 2 * np.pi for cv, wv in zip(x, w))
    elif which == 'cV':
        f = sum(wl * np.mean([sl._basis(cl, val, p) for p in ph], axis=0) * 2 * np.pi for cl, wl in zip(x, w))
    else:
        f = sum(wl * wv * sl._basis(cl, cv, val) for cl, wl in zip(x, w) for cv, wv in zip(x, w))
    return 9 / 32 / np.pi * float(J @ f)


def cc_names():
    out = []
    for n in phys.names():
        m = NAME.match(n)
        if m and m['l'].endswith('nu') and m['l'] in ('enu', 'munu', 'taunu', 'lnu') and ((m['B'], m['M']) in CC_V or (m['B'], m['M']) in CC_P):
            if not re.match(r'R|<R|lnC', m['o']):
                out.append(n)
    return sorted(out)


def values(c, names_, kinds=None):
    """coefficients by name: kinds switched on by the case"""
    r = np.random.RandomState(c['wc'])
    d = {}
    for n in names_:
        x, y = r.uniform(0.2, 1, 2) * r.choice([-1, 1], 2)
        v = c['size'] * (x + 1j * c['phase'] * y)
        on = r.uniform() < c['density'] and (kinds is None or any(n.startswith(k + '_') for k in kinds))
        if on:
            d[n] = complex(v)
    return d


def cmp(n, args, got, want, rtol, atol=0.0, what=''):
    expect(abs(got - want) <= rtol * abs(want) + atol, '%s%r = %.10g, but the squared amplitude gives %.10g %s', n, args, got, want, what)


KINDS = ['CVL', 'CVR', 'CSR', 'CSL', 'CT']


def check_cc(c, ctx):
    n = c['obs']
    m = NAME.match(n)
    o, lep = m['o'], m['l'][:-2]
    leps = ['e', 'mu'] if lep == 'l' else [lep]
    par = phys.par_point(c['seed'], c['t'])
    sec = (CC_V if (m['B'], m['M']) in CC_V else CC_P)[m['B'], m['M']][1]
    wn = ['%s_%s%snu%s' % (k, sec, l, nu) for k in KINDS for l in leps for nu in LEPS]
    kinds = None if c['only'] >= 6 else [KINDS[c['only']]] if c['only'] < 5 else ['CVL', 'CT']
    if sec == 'su' and c['size'] > 0.3:
        c = dict(c, size=0.3)
    vals = values(c, wn, kinds)
    wc = phys.StubWilson(vals)
    if len({k.split('_')[0] for k in vals} - {'CVL'}) == 0:
        ctx.trivial()
    r = CC(m['B'], m['M'], par, vals)
    ctx.label(r.tr)
    u = c['u']
    q2max = (r.mB - r.mM)**2
    lo = max(par['m_' + l] for l in leps)**2
    av = lambda f: sum(f(l) for l in leps) / len(leps)
    g = G if r.V else GP
    fct = {'L': GL, 'T': GT}.get((re.search(r'BR_([LT])', o) or [None, None])[1], g)
    if o in ('dBR/dq2', 'dBR_L/dq2', 'dBR_T/dq2'):
        q2 = lo + (q2max - lo) * (0.001 + 0.998 * u[0])
        cmp(n, (q2,), phys.ev(n, par, wc, (q2,)), av(lambda l: fct(r.J(l, q2))), 1e-8)
    elif o == 'FL':
        q2 = lo + (q2max - lo) * (0.001 + 0.998 * u[0])
        J = av(lambda l: r.J(l, q2))
        cmp(n, (q2,), phys.ev(n, par, wc, (q2,)), GL(J) / G(J), 1e-8)
    elif o in ('BR', 'BR_L', 'BR_T', 'FL', 'FLtot', 'FLttot', 'AFBtot', 'I3tot', '<BR>', '<BR_L>', '<BR_T>', '<FL>') or o in ('<BR>/BR', '<BR_L>/BR_L', '<BR_T>/BR_T'):
        if o.startswith('<'):
            a, b = sorted([lo + (q2max - lo) * u[0], lo + (q2max - lo) * u[1]])
            if b - a < 0.02 * (q2max - lo):
                b = a + 0.02 * (q2max - lo)
            args = (a, min(b, q2max))
        else:
            args = ()
        J = av(lambda l: r.integ(l, *(args or (0, q2max))))
        got = phys.ev(n, par, wc, args)
        if o in ('FLtot', '<FL>'):
            cmp(n, args, got, GL(J) / G(J), 0.004, 1e-4)
        elif o == 'FLttot':
            cmp(n, args, got, -J[K['2c']] / G(J), 0.004, 2e-3)
        elif o == 'AFBtot':
            cmp(n, args, got, -3 / 8 * (2 * J[K['6s']] + J[K['6c']]) / G(J), 0.004, 2e-3)
        elif o == 'I3tot':
            cmp(n, args, got, J[K['3']] / G(J), 0.004, 2e-3)
        elif o.startswith('<') and '>/BR' in o:
            T = av(lambda l: r.integ(l, 0, q2max))
            cmp(n, args, got, fct(J) / fct(T), 0.006)
        else:
            cmp(n, args, got, fct(J), 0.006)
    elif re.match(r'dBR/d(cl|cV|phi)$', o):
        w = o[5:]
        v = 2 * np.pi * u[0] if w == 'phi' else 2 * u[0] - 1
        J = av(lambda l: r.integ(l, 0, q2max))
        R = theory_signs(J)
        val = conv_angle(R, w, v)
        cmp(n, (v,), phys.ev(n, par, wc, (v,)), val, 0.008, 0.002 * G(J))
    elif re.match(r'<BR>/<(cl|cV|phi)>$', o):
        w = re.match(r'<BR>/<(cl|cV|phi)>', o)[1]
        a, b = sorted(((2 * np.pi * x) if w == 'phi' else 2 * x - 1) for x in u[:2])
        b = max(b, a + 0.05)
        J = av(lambda l: r.integ(l, 0, q2max))
        x, wt = np.polynomial.legendre.leggauss(12)
        R = theory_signs(J)
        val = sum(wi * conv_angle(R, w, a + (b - a) * (xi + 1) / 2) for xi, wi in zip(x, wt)) * (b - a) / 2
        cmp(n, (a, b), phys.ev(n, par, wc, (a, b)), val, 0.008, 0.002 * G(J))
    else:
        raise Skip(o)


def theory_signs(J):
    """to the conventions of flavio: sign of J_5, J_6, J_7 (opposite direction of theta_l)"""
    return np.array([-x if k in ('5', '6s', '6c', '7') else x for k, x in zip(sl.KEYS, J)])


def conv_angle(J, w, v):
    return ang_density(J, w, v)


# neutral currents
FN = ['C9', 'C9p', 'C10', 'C10p', 'CS', 'CSp', 'CP', 'CPp']
NET = {'3': 1, '4': -1, '5': -1, '6s': 1, '6c': 1, '7': 1, '8': 1, '9': -1}     # LHCb conventions in terms of the reference


def fc_names():
    out = []
    for n in phys.names():
        m = NAME.match(n)
        if m and m['l'] in ('ee', 'mumu', 'tautau') and ((m['B'], m['M']) in FC_V or (m['B'], m['M']) in FC_P):
            if re.match(r'dBR/dq2|<dBR/dq2>|<?(FL|AFB|FH|ACP|S\d.?|A\d.?|P\dp?|ATIm)>?$', m['o']) and m['B'] + m['M'] != 'BsK*':
                out.append(n)
    return sorted(out)


def short(c):
    return {k[1:]: v for k, v in c.items()}


class FC:
    def __init__(self, B, M, lep, par, vals):
        self.par, self.B, self.lep = par, B, lep
        self.V = (B, M) in FC_V
        self.meson, self.sec = (FC_V if self.V else FC_P)[B, M]
        self.mB, self.mM, self.ml = par['m_' + B], par['m_' + self.meson], par['m_' + lep]
        self.scale = flavio.config['renormalization scale']['bvll' if self.V else 'bpll']
        self.mb = running.get_mb(par, self.scale)
        V = ckm(par)
        xi = V[2, 2] * V[2, {'s': 1, 'd': 0}[self.sec[1]]].conjugate()
        self.N = 4 * par['GF'] / np.sqrt(2) * abs(xi) * running.get_alpha(par, self.scale)['alpha_e'] / 4 / np.pi
        self.c = {k: vals.get('%s_%s%s%s' % (k, self.sec, lep, lep), 0) for k in FN}
        self.cb = {k: np.conj(v) for k, v in self.c.items()}
        self.tr = {'K*': 'B->K*', 'phi': 'Bs->phi', 'rho': 'B->rho', 'K': 'B->K', 'pi': 'B->pi'}[M]
        self.fac = par['tau_' + B] * (0.5 if self.meson in ('pi0', 'rho0') else 1)

    def both(self, q2):
        ff = ff_of(self.tr, q2, self.par)
        f = (lambda c, *a: (lambda x: np.array([x[k] for k in sl.KEYS]))(sl.J_V(ff, self.mB, self.mM, self.mb, 0, self.ml, self.ml, q2, sl.fcnc_ops(short(c), self.mb, self.N), *a))) if self.V \
            else (lambda c: np.array(sl.abc_P(ff, self.mB, self.mM, self.mb, 0, self.ml, self.ml, q2, sl.fcnc_ops(short(c), self.mb, self.N))))
        J, Jb = f(self.c), f(self.cb)
        if self.B == 'Bs':
            y = self.par['DeltaGamma/Gamma_Bs'] / 2
            # CP conjugate amplitude for the same final state: left- and right-handed quark currents with opposite intrinsic parities
            g = self.cb
            t = {'C9': g['C9p'], 'C9p': g['C9'], 'C10': g['C10p'], 'C10p': g['C10'], 'CS': g['CSp'], 'CSp': g['CS'], 'CP': g['CPp'], 'CPp': g['CPp']}
            t = {k: -g[k + 'p' if not k.endswith('p') else k[:-1]] for k in FN}     # parity: V -> V, A -> -A
            for k in ('CS', 'CSp'):
                t[k] = -t[k]
            Jh = f(t, sl.fcnc_ops(short(self.c), self.mb, self.N))
            return (J + Jb - y * Jh) / (1 - y * y), None
        return J + Jb, J - Jb


def fc_value(o, S, A, V):
    """observable in terms of (possibly q2-integrated) sums and differences"""
    if not V:
        Gm = GP(S)
        return {'FH': 2 * (S[0] + S[2]) / Gm, 'AFB': S[1] / Gm, 'ACP': GP(A) / Gm}[o]
    Gm = G(S)
    s = lambda k: NET[k] * S[K[k]]
    a = lambda k: NET[k] * A[K[k]]
    if o == 'FL':
        return -S[K['2c']] / Gm
    if o == 'ACP':
        return G(A) / Gm
    if o == 'AFB':
        return 3 / 4 * s('6s') / Gm
    if re.match(r'S\d', o):
        return s(o[1:]) / Gm
    if re.match(r'A\d', o):
        return a(o[1:]) / Gm
    S2s, S2c = S[K['2s']], S[K['2c']]
    if o in ('P1', 'P2', 'P3'):
        return {'P1': s('3') / 2, 'P2': s('6s') / 8, 'P3': -s('9') / 4}[o] / S2s
    if o == 'ATIm':
        return a('9') / 2 / S2s
    return {'P4p': s('4'), 'P5p': s('5'), 'P6p': s('7'), 'P8p': s('8')}[o] / (2 * np.sqrt(-S2s * S2c))


def check_fc(c, ctx):
    n = c['obs']
    m = NAME.match(n)
    lep = m['l'][:len(m['l']) // 2]
    o = m['o']
    par = phys.par_point(c['seed'], c['t'])
    V = (m['B'], m['M']) in FC_V
    sec = (FC_V if V else FC_P)[m['B'], m['M']][1]
    only = None if c['only'] >= 4 else [['C9', 'C10'], ['C9', 'C9p', 'C10', 'C10p'], ['C9', 'C10', 'CS', 'CP'], ['C10p', 'CSp', 'CPp', 'CS']][c['only']]
    vals = values(dict(c, size=1e7), ['%s_%s%s%s' % (k, sec, lep, lep) for k in FN], only)
    for k in vals:
        if k.startswith(('CS', 'CP')):
            vals[k] *= c['scal']
    if not vals:
        raise Skip('all coefficients vanish')
    if not any('p_' in k or k[1] in 'SP' for k in vals):
        ctx.trivial()
    wc = phys.StubWilson(vals)
    r = FC(m['B'], m['M'], lep, par, vals)
    ctx.label(r.tr)
    u = c['u']
    lo, hi = 4 * r.ml**2, (r.mB - r.mM)**2
    lo2 = max(lo, 0.3)
    if '<' in o:
        a = lo2 + (hi - lo2) * u[0] * 0.9
        b = a + (hi - a) * (0.03 + 0.97 * u[1])
        x, w = np.polynomial.legendre.leggauss(10)
        S = A = 0
        for xi, wi in zip(a + (b - a) * (x + 1) / 2, w * (b - a) / 2):
            s, d = r.both(xi)
            S = S + wi * s
            A = A + wi * d if d is not None else None
        args = (a, b)
        tol, at = 0.01, 4e-3
    else:
        q = lo2 + (hi - lo2) * (0.002 + 0.996 * u[0])
        S, A = r.both(q)
        args = (q,)
        tol, at = 1e-3, 1e-3
    got = phys.ev(n, par, wc, args)
    oo = o.strip('<>') if 'dBR' not in o else 'dBR'
    if oo == 'dBR':
        want = (G(S) if V else GP(S)) / 2 * r.fac
        if '<' in o:
            want /= args[1] - args[0]
        cmp(n, args, got, want, tol if '<' in o else 1e-4)
    else:
        want = fc_value(oo, S, A, V)
        if oo.startswith('P') or oo == 'ATIm':
            if abs(S[K['2s']]) < 1e-3 * G(S) or abs(S[K['2c']]) < 1e-3 * G(S):
                raise Skip('denominator small')
            at *= 3 + 0.3 * max(abs(want), G(S) / abs(S[K['2s']]), G(S) / abs(S[K['2c']]))
        cmp(n, args, got, want, tol, at)


# lepton flavour violation
LFV = re.compile(r'^BR\((?P<B>B0|B\+|Bs)->(?P<M>rho|K\*|K|phi|pi)(?P<l>(?:e|mu|tau)(?:e|mu|tau)(?:,[a-z]+)?)\)$')


def lfv_names():
    out = []
    for n in phys.names():
        m = LFV.match(n)
        if m and m['l'] not in ('ee', 'mumu', 'tautau'):
            out.append(n)
    return sorted(out)


def split2(s):
    for a in LEPS:
        if s.startswith(a) and s[len(a):] in LEPS:
            return a, s[len(a):]


def check_lfv(c, ctx):
    n = c['obs']
    m = LFV.match(n)
    B, M = m['B'], m['M']
    par = phys.par_point(c['seed'], c['t'])
    V = (B, M) in FC_V
    meson, sec = (FC_V if V else FC_P)[B, M]
    pairs = [split2(x) for x in m['l'].split(',')]
    if len(pairs) == 1 and pairs[0] is None:
        fail('cannot parse %s', n)
    only = None if c['only'] >= 4 else [['C9', 'C9p'], ['C9', 'CS'], ['C10', 'CP'], ['C9p', 'CSp', 'CPp', 'CS']][c['only']]
    allp = pairs + [p[::-1] for p in pairs]
    vals = values(dict(c, size=5.0), sorted({'%s_%s%s%s' % (k, sec, a, b) for k in FN for a, b in allp}), only)
    for k in vals:
        if k.startswith(('CS', 'CP')):
            vals[k] *= c['scal']
    wc = phys.StubWilson(vals)
    got = phys.ev(n, par, wc)
    scale = flavio.config['renormalization scale']['bvll' if V else 'bpll']
    mb = running.get_mb(par, scale)
    Vc = ckm(par)
    xi = abs(Vc[2, 2] * Vc[2, {'s': 1, 'd': 0}[sec[1]]])
    N = 4 * par['GF'] / np.sqrt(2) * xi * running.get_alpha(par, scale)['alpha_e'] / 4 / np.pi
    mB, mM = par['m_' + B], par['m_' + meson]
    tr = {'K*': 'B->K*', 'phi': 'Bs->phi', 'rho': 'B->rho', 'K': 'B->K', 'pi': 'B->pi'}[M]
    want = 0
    for l1, l2 in pairs:
        g = {k: vals.get('%s_%s%s%s' % (k, sec, l1, l2), 0) for k in FN}
        if not any(g.values()):
            continue
        # the operator C_{bs l1 l2} is (sbar b)(l2bar l1): particle l2, antiparticle l1
        m1, m2 = par['m_' + l2], par['m_' + l1]
        x, w = nodes((m1 + m2)**2, (mB - mM)**2, 24)
        ops = sl.fcnc_ops(short(g), mb, N)
        for q, wi in zip(x, w):
            ff = ff_of(tr, q, par)
            if V:
                J = sl.J_V(ff, mB, mM, mb, 0, m1, m2, q, ops)
                want += wi * G(np.array([J[k] for k in sl.KEYS]))
            else:
                want += wi * GP(sl.abc_P(ff, mB, mM, mb, 0, m1, m2, q, ops))
    if not want:
        ctx.trivial()
    want *= par['tau_' + B] * (0.5 if meson in ('pi0', 'rho0') else 1)
    ctx.label(tr)
    cmp(n, (), got, want, 0.006, 1e-30)


def strat(**extra):
    return lambda n: phys.point_strategy(n, sizes=(1.0, 0.3, 2.0), only=st.integers(0, 8).map(lambda k: 8 - k), scal=st.sampled_from([1.0, 0.2, 0.05]), **extra)


def build():
    return [Sweep('charged-current', cc_names(), strat(), check_cc, quick=2, thorough=30),
            Sweep('neutral-current', fc_names(), strat(), check_fc, quick=2, thorough=30),
            Sweep('lepton-flavour-violating', lfv_names(), strat(), check_lfv, quick=3, thorough=40)]
