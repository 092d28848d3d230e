"""CKM matrix."""
import cmath
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, expect_close, fail, Skip
import gen_dist as gd
import phys
import flavio
from flavio.classes import AuxiliaryQuantity
from flavio.physics import ckm
from flavio.physics.common import conjugate_par

RULE = ('A case is a CKM matrix given by three mixing angles and a phase (log-uniform over two decades around the measured values, phase such that 0 < gamma < 90 degrees), '
        'expressed in each of the four parametrisations, or a history of up to 8 changes of parametrisation and evaluations. '
        'Non-trivial: complex phase not 0; distinct by the parameters.')
ASSUMPTIONS = ['0 < gamma < 90 degrees and 0 < beta (the branch chosen by the installed ckmutil package), and the CP conjugates of these points',
               'the parameters of the four parametrisations are computed by the check from the exact matrix, independently of ckmutil']
LEVEL_NOTE = 'An independently computed matrix in the standard phase convention is the reference for all four parametrisations.'

IMPL = ['Standard', 'Tree', 'Wolfenstein', 'beta gamma']


def reference(t12, t13, t23, d):
    """product of three rotations, R23 . U13(delta) . R12"""
    c, s = np.cos, np.sin
    R23 = np.array([[1, 0, 0], [0, c(t23), s(t23)], [0, -s(t23), c(t23)]], dtype=complex)
    U13 = np.array([[c(t13), 0, s(t13) * cmath.exp(-1j * d)], [0, 1, 0], [-s(t13) * cmath.exp(1j * d), 0, c(t13)]])
    R12 = np.array([[c(t12), s(t12), 0], [-s(t12), c(t12), 0], [0, 0, 1]], dtype=complex)
    return R23 @ U13 @ R12


def apex(V):
    return -V[0, 0] * V[0, 2].conjugate() / (V[1, 0] * V[1, 2].conjugate())


def all_params(t12, t13, t23, d):
    V = reference(t12, t13, t23, d)
    z = apex(V)
    gamma = cmath.phase(z)
    beta = cmath.phase(-V[1, 0] * V[1, 2].conjugate() / (V[2, 0] * V[2, 2].conjugate()))
    lam = math.sin(t12)
    return V, {'t12': t12, 't13': t13, 't23': t23, 'delta': d, 'Vus': V[0, 1].real, 'Vub': abs(V[0, 2]), 'Vcb': V[1, 2].real, 'gamma': gamma, 'beta': beta,
               'laC': lam, 'A': math.sin(t23) / lam**2, 'rhobar': z.real, 'etabar': z.imag}


NEEDS = {'Standard': ['t12', 't13', 't23', 'delta'], 'Tree': ['Vus', 'Vub', 'Vcb', 'gamma'], 'Wolfenstein': ['laC', 'A', 'rhobar', 'etabar'],
         'beta gamma': ['Vus', 'Vcb', 'beta', 'gamma']}


def point(case):
    t12, t13, t23, d = case['t12'], case['t13'], case['t23'], case['delta']
    V, p = all_params(t12, t13, t23, d)
    if not (0.02 < p['gamma'] < math.pi / 2 - 0.02) or p['beta'] < 1e-3 or d > math.pi / 2 - 0.01:
        raise Skip()
    return V, p


class configured:
    def __init__(self, impl):
        self.impl = impl

    def __enter__(self):
        self.old = flavio.config['implementation'].get('CKM matrix')
        flavio.config['implementation']['CKM matrix'] = self.impl

    def __exit__(self, *a):
        flavio.config['implementation']['CKM matrix'] = self.old


def check_param(case, ctx):
    V, p = point(case)
    if case['conj']:
        V = V.conj()
        p = {**p, 'gamma': -p['gamma'], 'delta': -p['delta'], 'beta': -p['beta'], 'etabar': -p['etabar']}
    impl = case['impl']
    with configured(impl):
        par = {k: p[k] for k in NEEDS[impl]}      # the other parameters are not needed
        G = ckm.get_ckm(par)
        what = 'CKM matrix (%s, %r)' % (impl, par)
        expect(G.shape == (3, 3), '%s has shape %r', what, G.shape)
        expect(np.max(np.abs(G @ G.conj().T - np.eye(3))) < 1e-12, '%s is not unitary', what)
        # in the beta-gamma parametrisation, sin^2(theta13) comes from a cancellation in the solution of a cubic equation
        bg = 3e-9 / p['Vub'] if impl == 'beta gamma' else 0.
        tol = 1e-10
        for i in range(3):
            for j in range(3):
                expect(abs(G[i, j] - V[i, j]) <= tol * abs(V[i, j]) + bg + 1e-14,
                       '%s: V[%d,%d] = %r, expected %r', what, i, j, G[i, j], V[i, j])
        # and the CP conjugate
        Gc = ckm.get_ckm(conjugate_par(par))
        expect(np.max(np.abs(Gc - G.conj())) <= 1e-12, '%s: CP conjugation gives %r instead of the complex conjugate', what, Gc)
        expect(conjugate_par(conjugate_par(par)) == par, 'conjugating twice changes the parameters')
        atol = 10 * bg / min(p['Vub'], p['t12'] * p['t23']) + 1e-9
        sgn = -1 if case['conj'] else 1
        al, be, ga = ckm.get_ckmangle_alpha(par), ckm.get_ckmangle_beta(par), ckm.get_ckmangle_gamma(par)
        expect_close(be, p['beta'], 'angle beta', rtol=1e-6, atol=atol)
        expect_close(ga, p['gamma'], 'angle gamma', rtol=1e-6, atol=atol)
        expect_close(al, sgn * (math.pi - abs(p['beta']) - abs(p['gamma'])), 'angle alpha', rtol=1e-6, atol=atol)
        # xi combinations
        U, D = 'uct', 'dsb'
        for a in U + D:
            o = D if a in U else U
            for b in o:
                for c in o:
                    x = ckm.xi(a, b + c)(par)
                    r = G[U.index(a), D.index(b)] * G[U.index(a), D.index(c)].conj() if a in U else G[U.index(b), D.index(a)] * G[U.index(c), D.index(a)].conj()
                    expect_close(complex(x), complex(r), 'xi(%r, %r)' % (a, b + c), rtol=1e-13, atol=1e-18)
        for o, s in ((D, U), (U, D)):
            for b in o:
                for c in o:
                    tot = sum(ckm.xi(a, b + c)(par) for a in s)
                    expect(abs(tot - (b == c)) < 1e-12, 'sum of xi(a, %r) = %r', b + c, tot)
    ctx.label(impl, 'CP conjugate' if case['conj'] else 'direct')


def check_wolf(case, ctx):
    V, p = point(case)
    rows = [p]
    for f in (1.1, 0.8):
        V2, p2 = all_params(p['t12'] * f, p['t13'] / f, p['t23'] * f, p['delta'] * 0.9)
        rows.append(p2)
    one = ckm.tree_to_wolfenstein(*[p[k] for k in NEEDS['Tree']])
    for k, g in zip(NEEDS['Wolfenstein'], one):
        expect_close(float(g), p[k], 'tree_to_wolfenstein: %s' % k, rtol=1e-9, atol=1e-13)
    if all(0.02 < r['gamma'] < math.pi / 2 - .02 for r in rows):
        arr = ckm.tree_to_wolfenstein(*[np.array([r[k] for r in rows]) for k in NEEDS['Tree']])
        for k, g in zip(NEEDS['Wolfenstein'], arr):
            for x, r in zip(g, rows):
                expect_close(float(x), r[k], 'tree_to_wolfenstein for arrays: %s' % k, rtol=1e-9, atol=1e-13)


def check_history(case, ctx):
    V, p0 = point(case)
    pts = [p0]
    for i in range(1, 4):
        V2, p2 = all_params(p0['t12'] * (1 - .05 * i), p0['t13'] * (1 - .07 * i), p0['t23'] * (1 - .03 * i), p0['delta'] * (1 - .1 * i))
        pts.append(p2)
    old = flavio.config['implementation'].get('CKM matrix')
    try:
        cur = old
        for op in case['ops']:
            k, i, j = op
            if k == 'config':
                cur = IMPL[i % 4]
                flavio.config['implementation']['CKM matrix'] = cur
            else:
                par = dict(pts[i % 4])
                if j % 3 == 1:
                    par = conjugate_par(par)
                # parameters of the other parametrisations must not matter
                if j % 3 == 2:
                    for q in set(par) - set(NEEDS[cur]):
                        par[q] *= 1.3
                ref = reference(*[all_for(pts[i % 4], cur)[q] for q in ('t12', 't13', 't23', 'delta')])
                if j % 3 == 1:
                    ref = ref.conj()
                G = ckm.get_ckm(par) if k == 'ckm' else AuxiliaryQuantity['CKM matrix'].prediction(par, None)
                expect(np.max(np.abs(G - ref)) <= (1e-8 / p0['Vub'] if cur == 'beta gamma' else 1e-10), 'after %r: %s matrix %r, expected %r', case['ops'], cur, G, ref)
                if k == 'mod':
                    # scribbling on a copy of the result must not matter; the dictionary of parameters is not changed either
                    par2 = dict(par)
                    ckm.get_ckm(par)
                    expect(par2 == par, 'get_ckm modified its parameters')
            ctx.label(k)
    finally:
        flavio.config['implementation']['CKM matrix'] = old


def all_for(p, impl):
    return p


ang = dict(t12=gd.fl(math.log(.02), math.log(.6)).map(lambda x: gd.sig(math.exp(x))), t13=gd.fl(math.log(2e-4), math.log(.03)).map(lambda x: gd.sig(math.exp(x))),
           t23=gd.fl(math.log(2e-3), math.log(.2)).map(lambda x: gd.sig(math.exp(x))), delta=gd.fl(.05, 1.5))
near = dict(t12=gd.fl(.2, .25), t13=gd.fl(.003, .005), t23=gd.fl(.035, .045), delta=gd.fl(.9, 1.4))


def both(extra):
    return st.one_of(st.fixed_dictionaries({**ang, **extra}), st.fixed_dictionaries({**near, **extra}))


def build():
    return [
        Sub('parametrisations', both({'impl': st.sampled_from(IMPL), 'conj': st.booleans()}), check_param, quick=2000, thorough=30000, shards=6),
        Sub('wolfenstein', both({}), check_wolf, quick=300, thorough=5000, shards=2),
        Sub('history', both({'ops': st.lists(st.tuples(st.sampled_from(['config', 'ckm', 'aux', 'mod']), st.integers(0, 3), st.integers(0, 2)).map(list),
                                             min_size=2, max_size=8)}), check_history, quick=500, thorough=8000, shards=4)]
