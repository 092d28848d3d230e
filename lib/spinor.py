"""Independent numerical references: Dirac algebra and tree-level decay rates.

Nothing in here is taken from flavio: matrices in the chiral representation,
traces evaluated numerically, phase space by Gauss-Legendre quadrature."""
import numpy as np

I2 = np.eye(2, dtype=complex)
S = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]], complex), np.array([[1, 0], [0, -1]], complex)]
Z = np.zeros((2, 2), complex)
G = [np.block([[Z, I2], [I2, Z]])] + [np.block([[Z, s], [-s, Z]]) for s in S]
G5 = np.diag([-1, -1, 1, 1]).astype(complex)
ONE = np.eye(4, dtype=complex)
PL, PR = (ONE - G5) / 2, (ONE + G5) / 2
MET = np.diag([1., -1., -1., -1.])
SIG = [[0.5j * (G[m] @ G[n] - G[n] @ G[m]) for n in range(4)] for m in range(4)]
G0 = G[0]


def slash(p):
    return p[0] * G[0] - p[1] * G[1] - p[2] * G[2] - p[3] * G[3]


def bar(m):
    return G0 @ m.conj().T @ G0


def lam(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def four_fermi_terms(wc):
    """Pairs (quark vertex, lepton vertex, coefficient) of
    VL,VR: (q g^mu P_{L,R} Q)(l g_mu P_L nu); SR, SL: (q P_{R,L} Q)(l P_L nu); T: (q sig P_L Q)(l sig P_L nu)."""
    out = []
    for k, P in (('VL', PL), ('VR', PR)):
        if wc.get(k, 0):
            for m in range(4):
                out.append((G[m] @ P, MET[m, m] * G[m] @ PL, wc[k]))
    for k, P in (('SR', PR), ('SL', PL)):
        if wc.get(k, 0):
            out.append((P, PL, wc[k]))
    if wc.get('T', 0):
        for m in range(4):
            for n in range(4):
                if m != n:
                    out.append((SIG[m][n] @ PL, MET[m, m] * MET[n, n] * SIG[m][n] @ PL, wc['T']))
    return out


def msq(terms, p, mQ, k, mq, q1, ml, q2):
    """spin-summed |M|^2 for Q(p) -> q(k) l(q1) antinu(q2)"""
    A, B = slash(p) + mQ * ONE, slash(k) + mq * ONE
    L, N = slash(q1) + ml * ONE, slash(q2)
    tot = 0
    for (a, x, c) in terms:
        for (b, y, d) in terms:
            tot += c * np.conj(d) * np.trace(B @ a @ A @ bar(b)) * np.trace(L @ x @ N @ bar(y))
    return tot.real


def momenta(mQ, mq, ml, q2, c):
    """Q at rest; angle between l and -q in the lepton-neutrino rest frame"""
    E = (mQ**2 + mq**2 - q2) / 2 / mQ
    pk = np.sqrt(max(E * E - mq * mq, 0.))
    p = np.array([mQ, 0, 0, 0.])
    k = np.array([E, 0, 0, -pk])
    Q = p - k
    rq = np.sqrt(q2)
    el, pl = (q2 + ml**2) / 2 / rq, (q2 - ml**2) / 2 / rq
    s = np.sqrt(1 - c * c)
    ga, be = Q[0] / rq, Q[3] / Q[0]
    def boost(e, x, z):
        return np.array([ga * (e + be * z), x, 0, ga * (z + be * e)])
    return p, k, boost(el, pl * s, pl * c), boost(pl, -pl * s, -pl * c)


_GL = {n: np.polynomial.legendre.leggauss(n) for n in (2, 3, 4, 24, 40, 60)}


def inclusive_rate(wc, xq, xl, nq=40):
    """rate of Q -> q l nu for four-fermion coefficients wc, in units in which
    the one for VL=1 and massless decay products is 1 (GF^2 mQ^5/192 pi^3)."""
    mq, ml = np.sqrt(xq), np.sqrt(xl)
    terms = four_fermi_terms(wc)
    lo, hi = xl, (1 - mq)**2
    x, w = _GL[nq]
    tot = 0
    # substitution q2 = lo + (hi-lo) * sin^2 regularises the square roots at the ends
    for xi, wi in zip((x + 1) / 2, w / 2):
        t = xi * np.pi / 2
        q2 = lo + (hi - lo) * np.sin(t)**2
        jac = (hi - lo) * 2 * np.sin(t) * np.cos(t) * np.pi / 2
        pk = np.sqrt(max(lam(1, xq, q2), 0)) / 2
        pl = (q2 - xl) / 2 / np.sqrt(q2)
        ang = 0
        for c, wc_ in zip(*_GL[3]):
            ang += wc_ * msq(terms, *_args(mq, ml, q2, c))
        tot += wi * jac * pk * pl / np.sqrt(q2) * ang
    return tot * _NORM


def _args(mq, ml, q2, c):
    p, k, q1, n = momenta(1., mq, ml, q2, c)
    return p, 1., k, mq, q1, ml, n


_NORM = 1.
_NORM = 1. / inclusive_rate({'VL': 1.}, 0., 0.)
