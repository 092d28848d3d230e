"""Wilson coefficients: initial values, running, SM + NP totals."""
import zlib
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, expect_close, fail, Skip
import gen_dist as gd
import phys
import flavio
import wilson
from wilson import wcxf
from flavio.physics.eft import WilsonCoefficients, sectors_flavio2wcxf
from flavio.physics.bdecays import wilsoncoefficients as bwc
from flavio.physics.running import running
from flavio.physics.common import conjugate_wc

RULE = ('A case is a set of up to 6 new-physics coefficients (names from all sectors of WET, WET-4 and WET-3 in the flavio or JMS basis, complex values), input and '
        'output scale, EFT and sector, or a history of up to 8 predictions / direct evaluations / option changes with one set of coefficients at '
        'different CKM parameters. Non-trivial: a coefficient of the requested sector is non-zero; distinct by the case.')
ASSUMPTIONS = ['the installed wilson package (translation and running of Wilson coefficients) is taken as given: a fresh instance of it is the oracle',
               'the tabulated SM coefficients are read from the data file of the package']
LEVEL_NOTE = 'Comparison with a fresh wilson.Wilson instance, linearity in the coefficients, and independent formulas for the SM + NP totals.'

EFTS = ['WET', 'WET-4', 'WET-3']
PAIRS = [(4.8, 4.8), (160., 160.), (160., 4.8), (91.1876, 4.2), (4.8, 2.), (2., 4.8), (5., 1.5)]


def basis(eft, b='flavio'):
    return wcxf.Basis[eft, b]


def legacy(sector):
    return [k for k, v in sectors_flavio2wcxf.items() if v == sector]


def names_of(eft, sector, b='flavio'):
    return list(basis(eft, b).sectors[sector])


# ------------------------------------------------------------------ names
def check_names(case, ctx):
    eft, sector = case['eft'], case['sector']
    want = set(names_of(eft, sector)) if sector != 'all' else set(basis(eft).all_wcs)
    sm = WilsonCoefficients()
    par = phys.central()
    for s in [sector] + legacy(sector):
        for nf in (None, {'WET': 5, 'WET-4': 4, 'WET-3': 3}[eft]):
            d = sm.get_wc(s, case['scale'], par, eft=eft, nf_out=nf)
            expect(set(d) == want, 'SM coefficients of sector %s in %s: %r instead of %r', s, eft, sorted(d), sorted(want))
            expect(all(v == 0 for v in d.values()), 'SM coefficients of sector %s are not all zero', s)
            x = sm.get_wcxf(s, case['scale'], par, eft=eft, nf_out=nf)
            expect((x.eft, x.basis, x.scale) == (eft, 'flavio', case['scale']) and not any(x.dict.values()), 'get_wcxf of the SM: %r', x)
    # the names used before v0.27 are those of the coefficients
    for s in (legacy(sector) if eft == 'WET' else []):
        sub = {k for k in want if k.endswith('_' + s)}
        expect(sub, 'sector %s (%s) does not contain any coefficient of %s: %r', s, sector, s, sorted(want))
    for k in want:
        if sector != 'all' and '_' in k and len(sector) > 2:
            q = k.split('_', 1)[1]
            if q in sectors_flavio2wcxf:
                expect(sectors_flavio2wcxf[q] == sector, 'sector %s of coefficient %s is translated to %s', q, k, sectors_flavio2wcxf[q])
    for nf in (2, 6, 0, '5'):
        for m in (sm.get_wcxf,):
            try:
                m(sector, 5., par, nf_out=nf)
            except ValueError:
                continue
            fail('nf_out=%r was accepted', nf)
    try:
        sm.get_initial_wcxf
    except ValueError:
        pass
    else:
        fail('initial values of an instance without initial values')
    ctx.label(eft)


def name_items():
    return [(e, s) for e in EFTS for s in list(basis(e).sectors) + ['all']]


# ------------------------------------------------------------------ values
def build_wc(case):
    """dictionary of coefficient values of the case"""
    b = basis(case['eft_in'], case.get('basis', 'flavio'))
    d = {}
    for i, (s, j, re, im) in enumerate(case['wc']):
        secs = sorted(b.sectors)
        sec = case['sector'] if s == 0 and case['sector'] in secs else secs[s % len(secs)]
        ns = sorted(b.sectors[sec])
        if not ns:
            continue
        n = ns[j % len(ns)]
        x = b.sectors[sec][n]
        d[n] = (re if x and x.get('real') else complex(re, im))
    return d


EFTOF = {'WET': EFTS, 'WET-4': ['WET-4', 'WET-3'], 'WET-3': ['WET-3']}


def full(d, coeffs):
    r = dict.fromkeys(coeffs, 0)
    r.update(d)
    return r


def same_wc(a, b, what, tol=1e-9, scale=None):
    expect(set(a) == set(b), '%s: coefficients %r instead of %r', what, sorted(set(a) ^ set(b)), 'none missing or extra')
    m = scale or max([abs(v) for v in b.values()] + [1e-300])
    for k in b:
        expect(abs(a[k] - b[k]) <= tol * (abs(b[k]) + 1e-6 * m), '%s: %s = %r, expected %r', what, k, a[k], b[k])


def check_values(case, ctx):
    par = phys.central()
    vals = build_wc(case)
    b = case.get('basis', 'flavio')
    eft, eout, (si, so) = case['eft_in'], case['eft_out'], case['scales']
    if eout not in EFTOF[eft]:
        eout = eft
    secs = sorted(basis(eout).sectors)
    sector = case['sector'] if case['sector'] in secs else secs[case['so'] % len(secs)]
    w = WilsonCoefficients()
    if case['twice']:
        # the first values are forgotten entirely
        w.set_initial({'C9_bsmumu': 1.0, 'CVLL_sdsd': 1e-3}, 160.)
        w.get_wc('sb', 4.8, par)
    if case['wcxf'] or b != 'flavio':
        w.set_initial_wcxf(wcxf.WC(eft, b, si, wcxf.WC.dict2values(vals)))
    else:
        w.set_initial(vals, si, eft=eft, basis=b)
    ini = w.get_initial_wcxf
    expect((ini.eft, ini.basis, ini.scale) == (eft, b, si), 'initial values: %r', (ini.eft, ini.basis, ini.scale))
    same_wc(full(ini.dict, vals), vals, 'initial values')
    ref = wilson.Wilson(vals, si, eft, b)
    nz = False
    alln = names_of(eout, sector)
    r = full(ref.match_run(so, eout, 'flavio', sectors=(sector,)).dict, alln)
    r = {k: r[k] for k in alln}
    qs = [sector] + legacy(sector)[:3]
    nf = {'WET': 5, 'WET-4': 4, 'WET-3': 3}[eout]
    for q in qs * 2:
        g = w.get_wc(q, so, par, eft=eout)
        same_wc({k: g[k] for k in alln if k in g}, r, 'get_wc(%r, %r, eft=%r) of %r at %r' % (q, so, eout, vals, si))
        x = w.get_wcxf(q, so, par, nf_out=nf)
        expect((x.eft, x.basis, x.scale) == (eout, 'flavio', so), 'get_wcxf(nf_out=%d) is in %r', nf, (x.eft, x.basis, x.scale))
        same_wc({k: x.dict.get(k, 0) for k in alln}, r, 'get_wcxf(%r, %r, nf_out=%r)' % (q, so, nf))
    if (si, eft, b) == (so, eout, 'flavio'):
        same_wc(g, {k: vals.get(k, 0) for k in g}, 'coefficients at the initial scale')
        ctx.label('initial scale')
    if case['lin'] and any(vals.values()):
        f = case['f']
        w2, w3 = WilsonCoefficients(), WilsonCoefficients()
        keys = sorted(vals)
        h1 = {k: vals[k] for k in keys[::2]}
        h2 = {k: vals[k] for k in keys[1::2]}
        w2.set_initial_wcxf(wcxf.WC(eft, b, si, wcxf.WC.dict2values({k: f * v for k, v in h1.items()})))
        w3.set_initial_wcxf(wcxf.WC(eft, b, si, wcxf.WC.dict2values(h2)))
        g2 = w2.get_wc(sector, so, par, eft=eout)
        g3 = w3.get_wc(sector, so, par, eft=eout) if h2 else dict.fromkeys(g2, 0)
        m = max(abs(v) for v in vals.values())
        # |C|<1e-10-ish numbers may be dropped by the WCxf format, hence the absolute tolerance
        for k in alln:
            expect(abs(g2[k] / f + g3[k] - g[k]) <= 1e-7 * (abs(g2[k] / f) + abs(g3[k]) + 1e-6 * m),
                   'running is not linear: %s = %r instead of %r for %r', k, g[k], g2[k] / f + g3[k], vals)
        ctx.label('linearity')
    if not any(r.values()):
        ctx.trivial()
    ctx.label(eft + '->' + eout, b)


val = st.tuples(st.integers(0, 40), st.integers(0, 60), gd.fl(-2, 2), gd.fl(-2, 2)).map(list)
sectors5 = sorted(basis('WET').sectors)
values_case = st.fixed_dictionaries({
    'eft_in': st.sampled_from(['WET', 'WET', 'WET-4', 'WET-3']), 'eft_out': st.sampled_from(EFTS), 'basis': st.sampled_from(['flavio', 'flavio', 'JMS']),
    'scales': st.sampled_from(PAIRS).map(list), 'sector': st.sampled_from(sectors5), 'so': st.integers(0, 40),
    'wc': st.lists(st.one_of(val, val.map(lambda v: [0] + v[1:])), min_size=1, max_size=6), 'twice': st.booleans(), 'wcxf': st.booleans(),
    'lin': st.booleans(), 'f': st.sampled_from([0.5, -2.0, 3.0])})


# ------------------------------------------------------------------ histories with one wilson.Wilson instance
CKMK = ['Vus', 'Vcb', 'Vub', 'gamma']
OBS = {}


def setup_hist():
    if 'o' in OBS:
        return

    def f(wc_obj, par, *a):
        d = wc_obj.get_wc(a[0], a[1], par, eft=a[2])
        return d
    OBS['o'] = flavio.classes.Observable('verif wc', arguments=['sector', 'scale', 'eft'])
    flavio.classes.Prediction('verif wc', f)


def hist_par(i):
    p = dict(phys.central())
    if i:
        r = np.random.RandomState(i)
        for k, rel in zip(CKMK, (.02, .2, .3, .4)):
            p[k] *= 1 + rel * r.uniform(-1, 1)
    return p


HSEC = ['sb', 'db', 'sbsb', 'sd', 'cbmunu', 'sdnunu', 'cu']


def check_hist(case, ctx):
    setup_hist()
    vals = build_wc(case)
    if not vals:
        raise Skip()
    eft, b, si = 'WET', case['basis'], 160.
    w = wilson.Wilson(vals, si, eft, b)
    opts = {}
    for op in case['ops']:
        k, i, j, l = op
        sector = HSEC[j % len(HSEC)]
        so, eo = [(160., 'WET'), (4.8, 'WET'), (2., 'WET-4')][l % 3]
        if eo != 'WET' and sector not in basis(eo).sectors:
            so, eo = 4.8, 'WET'
        alln = names_of(eo, sector)
        if k == 'opt':
            o = [('qcd_order', 0), ('qcd_order', 1), ('qed_order', 0), ('qed_order', 1), ('parameters', {'m_b': 4.0}), ('parameters', {})][i % 6]
            w.set_option(*o)
            opts[o[0]] = o[1]
            continue
        ref = wilson.Wilson(vals, si, eft, b)
        for o, v in opts.items():
            ref.set_option(o, v)
        if k == 'pred':
            par = hist_par(i % 4)
            ref.set_option('parameters', {q: par[q] for q in CKMK})
            got = OBS['o'].prediction_par(par, w, sector, so, eo)
            what = 'prediction with CKM parameters %r' % {q: par[q] for q in CKMK}
        else:
            got = w.match_run(so, eo, 'flavio', sectors=(sector,)).dict
            what = 'wilson instance itself'
        r = full(ref.match_run(so, eo, 'flavio', sectors=(sector,)).dict, alln)
        same_wc({n: full(got, alln)[n] for n in alln}, {n: r[n] for n in alln}, '%s (history %r): sector %s at %r' % (what, case['ops'], sector, so))
        expect(w._options == {**wilson.Wilson._default_options, **opts}, 'options of the wilson instance changed to %r', w._options)
        ctx.label(k)
    if len([o for o in case['ops'] if o[0] == 'pred']) < 2:
        ctx.trivial()


hist_case = st.fixed_dictionaries({
    'eft_in': st.just('WET'), 'basis': st.sampled_from(['JMS', 'JMS', 'flavio']), 'sector': st.sampled_from(HSEC),
    'wc': st.lists(st.one_of(val, val.map(lambda v: [0] + v[1:])), min_size=1, max_size=5),
    'ops': st.lists(st.tuples(st.sampled_from(['pred', 'pred', 'pred', 'run', 'opt']), st.integers(0, 5), st.integers(0, 6), st.integers(0, 2)).map(list),
                    min_size=2, max_size=8)})


# ------------------------------------------------------------------ SM + NP totals
YI = np.array([-1 / 3., -4 / 9., -20 / 3., -80 / 9.])
ZI = np.array([1, -1 / 6., 20, -10 / 3.])
SCALES = np.array([2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5])


def check_total(case, ctx):
    q, l, mu = case['q'], case['l'], case['mu']
    par = phys.par_point(case['seed'])
    if case['mt']:
        par['m_t'] = case['mt']
    W = phys.RandWilson(case['wc'], case['size'])
    tot = bwc.wctot_dict(W, q + l, mu, par)
    np_ = W.get_wc(q + l, mu, par)
    data = DATA()
    i = min(int(np.searchsorted(SCALES, mu, side='right')) - 1, 6)
    t = (mu - SCALES[i]) / (SCALES[i + 1] - SCALES[i])
    sm = (1 - t) * data[:, i] + t * data[:, i + 1]
    C = dict(zip(['C1', 'C2', 'C3', 'C4', 'C5', 'C6', 'C7eff', 'C8eff', 'C9', 'C10', 'C3Q', 'C4Q', 'C5Q', 'C6Q', 'Cb'], sm))
    C['C10'] *= (par['m_t'] / 173.1)**1.53
    p = np.array([C['C3'], C['C4'], C['C5'], C['C6']])
    C['C7'], C['C8'] = C['C7eff'] - YI @ p, C['C8eff'] - ZI @ p
    e = {}
    for k, v in C.items():
        if not k.endswith('eff'):
            e[k + '_' + q + (l if k in ('C9', 'C10') else '')] = v
    if q == 'bs':
        eps = running.get_ms(par, mu) / running.get_mb(par, mu)
        e['C7p_bs'], e['C8p_bs'] = eps * C['C7'], eps * C['C8']
    keys = set(np_) | set(e)
    for k in keys:
        r = e.get(k, 0) + np_.get(k, 0)
        expect_close(complex(tot.get(k, 0)), complex(r), 'total coefficient %s at %r' % (k, mu), rtol=1e-10, atol=1e-14)
    for s in ('', 'p'):
        x = np.array([e.get('C%d%s_%s' % (n, s, q), 0) + np_.get('C%d%s_%s' % (n, s, q), 0) for n in (3, 4, 5, 6)])
        for n, v in (('7', YI), ('8', ZI)):
            r = e.get('C%s%s_%s' % (n, s, q), 0) + np_.get('C%s%s_%s' % (n, s, q), 0) + v @ x
            expect_close(complex(tot['C%seff%s_%s' % (n, s, q)]), complex(r), 'C%seff%s_%s' % (n, s, q), rtol=1e-10, atol=1e-13)
    extra = set(tot) - keys - {'C%seff%s_%s' % (n, s, q) for n in '78' for s in ('', 'p')}
    expect(all(tot[k] == 0 for k in extra), 'unexpected coefficients %r', sorted(extra))
    # it is not cumulative
    tot2 = bwc.wctot_dict(W, q + l, mu, par)
    expect(all(tot2[k] == tot[k] for k in tot), 'evaluating the total coefficients twice gives different results')
    if case['size']:
        c = conjugate_wc(np_)
        for k in np_:
            expect(complex(c[k]) == complex(np_[k]).conjugate(), 'conjugate_wc: %s = %r from %r', k, c[k], np_[k])
    ctx.label(q, l, 'NP' if case['size'] else 'SM')


_D = []


def DATA():
    if not _D:
        import os
        _D.append(np.load(os.path.join(os.path.dirname(flavio.__file__), 'physics', 'data', 'wcsm', 'wc_sm_dB1_2_55.npy')))
    return _D[0]


total_case = st.fixed_dictionaries({
    'q': st.sampled_from(['bs', 'bd']), 'l': st.sampled_from(['ee', 'mumu', 'tautau']), 'mu': st.one_of(gd.fl(2, 5.5), st.sampled_from([4.8, 2.0, 5.5, 4.2])),
    'seed': st.integers(0, 20), 'mt': st.sampled_from([None, 170., 176.]), 'wc': st.integers(0, 10**6), 'size': st.sampled_from([1.0, 0.1, 0.0])})


# ------------------------------------------------------------------ effective coefficients
def check_eff(case, ctx):
    k, mu, q2 = case['kind'], case['mu'], case['q2']
    par = phys.par_point(case['seed'])
    W = phys.RandWilson(case['wc'], case['size'])
    lep = ['e', 'mu', 'tau']
    l1, l2 = lep[case['l1']], lep[case['l2']]
    mb = running.get_mb(par, mu)
    if k == 'fccc':
        qq, nf = [('bc', 5), ('bu', 5), ('dc', 4), ('sc', 4), ('su', 3), ('du', 3)][case['i'] % 6]
        s = qq + l1 + 'nu' + l2
        eft = {5: 'WET', 4: 'WET-4', 3: 'WET-3'}[nf]
        if sectors_flavio2wcxf[s] not in basis(eft).sectors:
            raise Skip()
        wc = W.get_wc(s, mu, par, eft=eft)
        if nf >= 4:
            sm = 1 + running.get_alpha_e(par, mu) / np.pi * np.log(par['m_Z'] / mu)
        else:
            sm = 1.0232**0.5
        sm *= (l1 == l2)
        c = bwc.get_wceff_fccc_std(W, par, qq, l1, l2, None, mu, nf=nf)
        e = {'VL': sm + wc['CVL_' + s], 'VR': wc['CVR_' + s], 'SR': wc['CSR_' + s], 'SL': wc['CSL_' + s], 'T': wc['CT_' + s]}
        expect(set(c) == set(e), 'keys of get_wceff_fccc_std: %r', c)
        for n in e:
            expect_close(complex(c[n]), complex(e[n]), '%s of %s at %r' % (n, s, mu), rtol=1e-12, atol=1e-15)
        # general angular distribution: v/a are the (axial-)vector projections of the current, s/p those of the scalar one
        g = bwc.get_wceff_fccc(W, par, qq, l1, l2, None, mu, nf=nf)
        r = {'v': e['VL'] / 2, 'a': -e['VL'] / 2, 'vp': e['VR'] / 2, 'ap': -e['VR'] / 2, 's': e['SR'] / 2, 'p': -e['SR'] / 2,
             'sp': e['SL'] / 2, 'pp': -e['SL'] / 2, '7': 0, '7p': 0, 't': 0, 'tp': e['T']}
        for n in r:
            expect_close(complex(g[n]), complex(r[n]), '%s of %s at %r' % (n, s, mu), rtol=1e-12, atol=1e-15)
    elif k in ('lfv', 'nunu', 'll'):
        B, M, q = [('B0', 'K*0', 'bs'), ('B+', 'K+', 'bs'), ('Bs', 'phi', 'bs'), ('B+', 'pi+', 'bd'), ('B0', 'rho0', 'bd'), ('B+', 'rho+', 'bd')][case['i'] % 6]
        if k == 'lfv' and l1 == l2:
            raise Skip()
        if k == 'nunu':
            s = q + 'nu' + l1 + 'nu' + l2
            wc = W.get_wc(s, mu, par)
            c = bwc.get_wceff_nunu(q2, wc, par, B, M, 'nu' + l1, 'nu' + l2, mu)
            L, R = wc['CL_' + s], wc['CR_' + s]
            r = {'v': L, 'a': -L, 'vp': R, 'ap': -R}
        elif k == 'lfv':
            s = q + l1 + l2
            wc = W.get_wc(s, mu, par)
            c = bwc.get_wceff_lfv(q2, wc, par, B, M, l1, l2, mu)
            r = {n: wc[v + '_' + s] for n, v in (('v', 'C9'), ('vp', 'C9p'), ('a', 'C10'), ('ap', 'C10p'))}
            r.update({n: mb * wc[v + '_' + s] for n, v in (('s', 'CS'), ('sp', 'CSp'), ('p', 'CP'), ('pp', 'CPp'))})
        else:
            s = q + l1 + l1
            wc = bwc.wctot_dict(W, s, mu, par)
            sm = bwc.wctot_dict(phys.StubWilson({}), s, mu, par)
            c = bwc.get_wceff(q2, wc, par, B, M, l1, mu)
            # semi-leptonic and dipole coefficients enter additively on top of the matrix elements of four-quark operators
            wc2 = dict(wc)
            d9, d7, d7p, d9p = 0.3 + 0.1j, -0.05 + 0.02j, 0.07j, -0.2
            wc2['C9_' + s] += d9
            wc2['C7eff_' + q] += d7
            wc2['C7effp_' + q] += d7p
            wc2['C9p_' + s] += d9p
            c2 = bwc.get_wceff(q2, wc2, par, B, M, l1, mu)
            for n, v in (('v', d9), ('7', d7), ('7p', d7p), ('vp', d9p)):
                expect_close(complex(c2[n] - c[n]), complex(v), 'change of effective coefficient %s' % n, rtol=1e-9, atol=1e-12)
            r = {'a': wc['C10_' + s], 'ap': wc['C10p_' + s], 'vp': wc['C9p_' + s], '7p': wc['C7effp_' + q]}
            r.update({n: mb * wc[v + '_' + s] for n, v in (('s', 'CS'), ('sp', 'CSp'), ('p', 'CP'), ('pp', 'CPp'))})
            r.update({'7': c['7'], 'v': c['v']})
        for n in ('7', '7p', 'v', 'vp', 'a', 'ap', 's', 'sp', 'p', 'pp', 't', 'tp'):
            expect_close(complex(c[n]), complex(r.get(n, 0)), 'effective coefficient %s of %s' % (n, s), rtol=1e-12, atol=1e-15)
    else:
        a = bwc.CL_SM(par, mu) * running.get_alpha_e(par, mu)
        ref = -par['Xt_di->djnunu'] / par['s2w'] * par['alpha_e']
        expect_close(a, ref, 'C_L^SM * alpha_e at %r' % mu, rtol=1e-10)
    ctx.label(k)
    if case['size'] == 0 and k != 'CL':
        ctx.trivial()


eff_case = st.fixed_dictionaries({
    'kind': st.sampled_from(['fccc', 'fccc', 'lfv', 'nunu', 'll', 'CL']), 'i': st.integers(0, 5), 'l1': st.integers(0, 2), 'l2': st.integers(0, 2),
    'mu': gd.fl(2, 5.5), 'q2': gd.fl(1., 18.), 'seed': st.integers(0, 20), 'wc': st.integers(0, 10**6), 'size': st.sampled_from([1.0, 0.1, 0.0])})


def build():
    return [
        Sweep('names', name_items(), lambda it: st.fixed_dictionaries({'eft': st.just(it[0]), 'sector': st.just(it[1]), 'scale': st.sampled_from([4.8, 160., 2.])}),
              check_names, quick=1, thorough=3, shards=1),
        Sub('values', values_case, check_values, quick=300, thorough=6000, shards=8),
        Sub('history', hist_case, check_hist, quick=100, thorough=2000, shards=8),
        Sub('totals', total_case, check_total, quick=250, thorough=4000, shards=4),
        Sub('effective', eff_case, check_eff, quick=400, thorough=6000, shards=4)]
