"""Independent reference for semileptonic and rare decays B -> P l1 l2, B -> V(-> P1 P2) l1 l2.

The hadronic matrix elements of all quark currents are written as explicit Lorentz vectors/tensors in terms of the
standard form factors (hep-ph/9812358, 1503.05534), contracted numerically with explicit lepton spinor matrices; the
angular distribution follows from |M|^2 at generic angles.  Nothing is taken from flavio."""
import itertools
import numpy as np
import spinor as sp

# eps^{0123} = +1
EPS = np.zeros((4, 4, 4, 4))
for _p in itertools.permutations(range(4)):
    EPS[_p] = np.linalg.det(np.eye(4)[list(_p)])
MET = sp.MET
GU = np.array(sp.G)
SU = np.array(sp.SIG)
low = lambda v: MET @ v
# sigma^{mu nu} gamma5 = t i/2 eps^{mu nu a b} sigma_{ab}
_SL = np.einsum('ma,nb,abij->mnij', MET, MET, SU)
_rhs = 0.5j * np.einsum('mnab,abij->mnij', EPS, _SL)
_lhs = SU @ sp.G5
TSIGN = float((np.sum(_lhs * _rhs.conj()) / np.sum(abs(_rhs)**2)).real)
assert np.allclose(_lhs, TSIGN * _rhs)
X = {'1': sp.ONE, '5': sp.G5, 'L': sp.PL, 'R': sp.PR}


def kin(mB, mM, m1, m2, q2, cl):
    """B at rest, meson along +z; l1 at angle theta_l to -z ... in the dilepton rest frame with azimuth 0"""
    E = (mB**2 + mM**2 - q2) / 2 / mB
    pk = np.sqrt(max(E * E - mM * mM, 0))
    k = np.array([E, 0, 0, pk])
    p = np.array([mB, 0, 0, 0.])
    q = p - k
    rq = np.sqrt(q2)
    e1 = (q2 + m1**2 - m2**2) / 2 / rq
    pl = np.sqrt(max(sp.lam(q2, m1**2, m2**2), 0)) / 2 / rq
    s = np.sqrt(max(1 - cl * cl, 0))
    ga, be = q[0] / rq, q[3] / q[0]
    def boost(e, v):
        return np.array([ga * (e + be * v[2]), v[0], v[1], ga * (v[2] + be * e)])
    d = pl * np.array([s, 0, -cl])
    return p, k, q, boost(e1, d), boost(rq - e1, -d), pk, pl


def polvec(mM, k, pk, cV, phi):
    """unit vector of the direction of P1 in the rest frame of V, boosted to the B rest frame (replaces eps*)"""
    s = np.sqrt(max(1 - cV * cV, 0))
    n = np.array([s * np.cos(phi), s * np.sin(phi), cV])
    ga, gb = k[0] / mM, pk / mM
    return np.array([gb * n[2], n[0], n[1], ga * n[2]])


def currents_V(ff, mB, mV, mQ, mq, p, k, q, e):
    """<V|q Gamma b|B> with upper indices; e = eps*"""
    q2 = q @ low(q)
    la = sp.lam(mB**2, mV**2, q2)
    P, D = p + k, mB**2 - mV**2
    eq = e @ low(q)
    A2 = ((mB + mV)**2 * (D - q2) * ff['A1'] - 16 * mB * mV**2 * (mB + mV) * ff['A12']) / la
    T3 = (D * (mB**2 + 3 * mV**2 - q2) * ff['T2'] - 8 * mB * mV**2 * (mB - mV) * ff['T23']) / la
    el, pl_, kl = low(e), low(p), low(k)
    s = TSIGN     # sign of the Levi-Civita tensor in the form factor definitions, fixed by T1(0) = T2(0)
    V = -s * 2 * ff['V'] / (mB + mV) * np.einsum('mabc,a,b,c->m', EPS, el, pl_, kl)
    A = 1j * (2 * mV * ff['A0'] * eq / q2 * q + (mB + mV) * ff['A1'] * (e - eq / q2 * q) - A2 * eq / (mB + mV) * (P - D / q2 * q))
    Ps = -1j * 2 * mV * ff['A0'] * eq / (mQ + mq)
    # sigma gamma5: antisymmetric tensor Y with i Y^{mu nu} q_nu = i T2 (...) + i T3 (...)
    asy = lambda a, b: np.outer(a, b) - np.outer(b, a)
    a_, b_ = ff['T1'], (ff['T2'] - ff['T1']) * D / q2
    c_ = (ff['T1'] - ff['T2']) / q2 - T3 / D
    Y = a_ * asy(e, P) + b_ * asy(e, q) + c_ * eq * asy(P, q)
    # sigma = sigma gamma5 gamma5: sigma^{mu nu} = t i/2 eps sigma_{ab} gamma5
    T = TSIGN * 0.5j * np.einsum('mnab,ab->mn', EPS, MET @ Y @ MET)
    return {'V': V, 'A': A, 'S': 0, 'P': Ps, 'T': T, 'T5': Y}


def currents_P(ff, mB, mP, mQ, mq, p, k, q):
    q2 = q @ low(q)
    P, D = p + k, mB**2 - mP**2
    V = ff['f+'] * (P - D / q2 * q) + ff['f0'] * D / q2 * q
    S = ff['f0'] * D / (mQ - mq)
    # <P|q sigma^{mu nu} q_nu b|B> = i fT/(mB+mP) (q2 P - D q)
    T = -1j * ff['fT'] / (mB + mP) * (np.outer(P, q) - np.outer(q, P)) * -1
    T5 = TSIGN * 0.5j * np.einsum('mnab,ab->mn', EPS, MET @ T @ MET)
    return {'V': V, 'A': 0 * V, 'S': S, 'P': 0, 'T': T, 'T5': T5}


def lepton_matrix(h, ops):
    """ops: list of (quark structure, chirality 'L'/'R', lepton structure '1','5','L','R', coefficient)"""
    M = np.zeros((4, 4), complex)
    for kind, ch, x, c in ops:
        if not c:
            continue
        sg = -1 if ch == 'L' else 1
        if kind == 'V':
            v = low((h['V'] + sg * h['A']) / 2)
            M += c * np.einsum('m,mij->ij', v, GU) @ X[x]
        elif kind == 'S':
            M += c * (h['S'] + sg * h['P']) / 2 * X[x]
        elif kind == 'T':
            t = MET @ ((h['T'] + sg * h['T5']) / 2) @ MET
            M += c * np.einsum('mn,mnij->ij', t, SU) @ X[x]
        elif kind == 'D':      # dipole: c/q2 * q^nu (q sigma_{mu nu} P b)(l gamma^mu l) with factor i
            t = (h['T'] + sg * h['T5']) / 2
            v = low(1j * t @ low(h['q'])) / (h['q'] @ low(h['q']))
            M += c * np.einsum('m,mij->ij', v, GU) @ X[x]
    return M


def msq(M, q1, m1, q2, m2):
    A = sp.slash(q1) + m1 * sp.ONE
    B = sp.slash(q2) - m2 * sp.ONE
    return np.trace(A @ M @ B @ sp.bar(M)).real


def inter(M, N, q1, m1, q2, m2):
    A = sp.slash(q1) + m1 * sp.ONE
    B = sp.slash(q2) - m2 * sp.ONE
    return np.trace(A @ M @ B @ sp.bar(N)).real + np.trace(A @ N @ B @ sp.bar(M)).real


def _basis(cl, cV, ph):
    s2V, c2V = 1 - cV**2, cV**2
    sV, sl = np.sqrt(s2V), np.sqrt(1 - cl**2)
    s_2V, s_2l, c_2l = 2 * sV * cV, 2 * sl * cl, 2 * cl**2 - 1
    return np.array([s2V, c2V, s2V * c_2l, c2V * c_2l, s2V * sl**2 * np.cos(2 * ph), s_2V * s_2l * np.cos(ph), s_2V * sl * np.cos(ph),
                     s2V * cl, c2V * cl, s_2V * sl * np.sin(ph), s_2V * s_2l * np.sin(ph), s2V * sl**2 * np.sin(2 * ph)])


KEYS = ['1s', '1c', '2s', '2c', '3', '4', '5', '6s', '6c', '7', '8', '9']
_rng = np.random.RandomState(7)
_PTS = [(a, b, c) for a, b, c in zip(_rng.uniform(-.95, .95, 26), _rng.uniform(-.95, .95, 26), _rng.uniform(0, 2 * np.pi, 26))]
_PINV = np.linalg.pinv(np.array([_basis(*x) for x in _PTS]))


def J_V(ff, mB, mV, mQ, mq, m1, m2, q2, ops, ops2=None, check=False):
    """angular coefficients: d4Gamma/dq2 dcl dcV dphi = 9/(32 pi) sum_i J_i f_i.
    ops2: interference of the two sets of operators instead."""
    I = []
    for cl, cV, ph in _PTS:
        p, k, q, q1, q2v, pk, pl = kin(mB, mV, m1, m2, q2, cl)
        # rotating the meson decay plane instead of the lepton plane
        e = polvec(mV, k, pk, cV, ph)
        h = currents_V(ff, mB, mV, mQ, mq, p, k, q, e)
        h['q'] = q
        M = lepton_matrix(h, ops)
        I.append(msq(M, q1, m1, q2v, m2) if ops2 is None else inter(M, lepton_matrix(h, ops2), q1, m1, q2v, m2))
    I = np.array(I)
    # 1/(2 mB) dPhi3: dq2/2pi pk/(4 pi mB) pl/(4 pi sqrt q2) dcl dcV dphi/(8 pi) * 3 (polarisations averaged over directions)
    ps = 1 / (2 * mB) / (2 * np.pi) * pk / (4 * np.pi * mB) * pl / (4 * np.pi * np.sqrt(q2)) / (8 * np.pi) * 3
    J = _PINV @ I * ps * 32 * np.pi / 9
    if check:
        r = np.array([_basis(*x) for x in _PTS]) @ (_PINV @ I) - I
        assert abs(r).max() < 1e-9 * abs(I).max(), abs(r).max() / abs(I).max()
    return dict(zip(KEYS, J))


def dGamma(J):
    return 3 / 4 * (2 * J['1s'] + J['1c']) - 1 / 4 * (2 * J['2s'] + J['2c'])


def abc_P(ff, mB, mP, mQ, mq, m1, m2, q2, ops):
    """d2Gamma/dq2 dcl = a + b cl + c cl^2"""
    I = []
    for cl in (-.8, 0., .8):
        p, k, q, q1, q2v, pk, pl = kin(mB, mP, m1, m2, q2, cl)
        h = currents_P(ff, mB, mP, mQ, mq, p, k, q)
        h['q'] = q
        I.append(msq(lepton_matrix(h, ops), q1, m1, q2v, m2))
    ps = 1 / (2 * mB) / (2 * np.pi) * pk / (4 * np.pi * mB) * pl / (4 * np.pi * np.sqrt(q2)) / 2
    y = np.array(I) * ps
    return y[1], (y[2] - y[0]) / 1.6, ((y[2] + y[0]) / 2 - y[1]) / .64


def fccc_ops(c, N=1):
    return [('V', 'L', 'L', N * c.get('VL', 0)), ('V', 'R', 'L', N * c.get('VR', 0)), ('S', 'R', 'L', N * c.get('SR', 0)),
            ('S', 'L', 'L', N * c.get('SL', 0)), ('T', 'L', 'L', N * c.get('T', 0))]


def fcnc_ops(c, mQ, N=1):
    return [('V', 'L', '1', N * c.get('9', 0)), ('V', 'R', '1', N * c.get('9p', 0)), ('V', 'L', '5', N * c.get('10', 0)), ('V', 'R', '5', N * c.get('10p', 0)),
            ('S', 'R', '1', N * mQ * c.get('S', 0)), ('S', 'L', '1', N * mQ * c.get('Sp', 0)), ('S', 'R', '5', N * mQ * c.get('P', 0)), ('S', 'L', '5', N * mQ * c.get('Pp', 0))]
