"""Measurement files: all notations, round trips, the shipped data, queries and combinations."""
import json
import math
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
import scipy.stats
import yaml
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, fail, Skip
import gen_dist as gd
import C11

RULE = ('A case is a measurement file with one to four measurements in any of the documented notations (texts, distribution dictionaries, lists with '
        'observable arguments, correlated values with full, triangular or common correlation, multivariate distributions), or a set of '
        'measurements to be combined, or one entry of the shipped measurement file. Non-trivial: at least one measured observable; distinct by case.')
ASSUMPTIONS = ['the meaning of the texts and the distributions themselves are checked in C01 to C08',
               'the shipped file is read with an independent small parser of its notation']
LEVEL_NOTE = 'Generated measurement files against an independent reading of them; round trips; every entry of the shipped data.'

KEYS = C11.KEYS
META = ['inspire', 'hepdata', 'experiment', 'url', 'description']
ARGS = {'vobs c': ['q2'], 'vobs d': ['q2min', 'q2max']}


def nz(d, lo=1, hi=999):
    return st.integers(lo, hi).map(lambda k: '%.*f' % (d, k / 10.0**d))


@st.composite
def text(draw, sym_only=False):
    d = draw(st.integers(0, 3))
    cv = ('-' if draw(st.booleans()) else '') + draw(nz(d, 0))
    if not sym_only and draw(st.integers(0, 4)) == 0:
        return {'t': 'limit', 'lim': draw(nz(d)), 'cl': draw(st.sampled_from([90, 95, 68])), 'exp': draw(st.sampled_from([None, -9, 3]))}
    sym = [draw(nz(d)) for _ in range(draw(st.integers(0, 2)))]
    asym = [[draw(nz(d)), draw(nz(d))] for _ in range(draw(st.integers(0 if sym else 1, 1)))]
    return {'t': 'val', 'cv': cv, 'sym': sym, 'asym': asym, 'exp': draw(st.sampled_from([None, None, -10, 2]))}


def text_str(t):
    e = '' if t['exp'] is None else ' e%d' % t['exp']
    if t['t'] == 'limit':
        return '< ' + t['lim'] + ('e%d' % t['exp'] if e else '') + ' @ %d%% CL' % t['cl']
    return t['cv'] + ''.join(' +%s -%s' % tuple(a) for a in t['asym']) + ''.join(' \u00b1 ' + s for s in t['sym']) + e


def text_vals(t):
    f = 10.0**(t['exp'] or 0)
    return float(t['cv']) * f, [float(s) * f for s in t['sym']], [(float(a) * f, float(b) * f) for a, b in t['asym']]


def text_dist(t):
    import flavio.statistics.probability as p
    if t['t'] == 'limit':
        return p.GaussianUpperLimit(float(t['lim']) * 10.0**(t['exp'] or 0), t['cl'] / 100.)
    cv, sym, asym = text_vals(t)
    if not asym:
        return p.NormalDistribution(cv, math.sqrt(sum(s * s for s in sym)))
    a = p.AsymmetricNormalDistribution(cv, *asym[0])
    if not sym:
        return a
    return p.convolve_distributions([p.NormalDistribution(cv, s) for s in sym] + [a])


@st.composite
def one(draw):
    """constraint on one observable"""
    k = draw(st.sampled_from(['text', 'text', 'dict', 'dicts']))
    if k == 'text':
        return ['text', draw(text())]
    if k == 'dict':
        return ['dict', draw(gd.spec(['normal', 'asymmetric_normal', 'uniform', 'half_normal', 'gaussian_upper_limit', 'gamma_upper_limit',
                                     'gamma_counting_process', 'numerical']))]
    c = draw(gd.fl(-5, 5))
    return ['dicts', c, draw(st.lists(gd.fl(0.1, 3), min_size=2, max_size=3))]


def one_yaml(o):
    if o[0] == 'text':
        return text_str(o[1])
    if o[0] == 'dict':
        return dict({k: v for k, v in o[1]['args'].items()}, distribution=o[1]['dist'])
    return [{'distribution': 'normal', 'central_value': o[1], 'standard_deviation': s} for s in o[2]]


def one_dist(o):
    import flavio.statistics.probability as p
    if o[0] == 'text':
        return text_dist(o[1])
    if o[0] == 'dict':
        return gd.make(o[1])
    return p.NormalDistribution(o[1], math.sqrt(sum(s * s for s in o[2])))


@st.composite
def meas(draw):
    kind = draw(st.sampled_from(['dict', 'list', 'corrdict', 'corrlist', 'multi', 'multi']))
    m = {'kind': kind, 'meta': {k: 'x%d' % draw(st.integers(0, 99)) for k in draw(st.lists(st.sampled_from(META), unique=True))},
         'pseudo': draw(st.integers(0, 4)) == 0}
    if kind == 'dict':
        ks = draw(st.sampled_from([[0], [1], [0, 1]]))
        m['val'] = [[k, draw(one())] for k in ks]
    elif kind == 'list':
        ks = draw(st.lists(st.integers(2, 5), min_size=1, max_size=4))
        m['val'] = [[k, draw(one().filter(lambda o: o[0] != 'dicts'))] for k in ks]
    elif kind in ('corrdict', 'corrlist'):
        ks = [0, 1] if kind == 'corrdict' else list(draw(st.permutations(range(2, 6))))[:draw(st.integers(2, 4))]
        if kind == 'corrdict' and draw(st.booleans()):
            ks = [1, 0]
        m['val'] = [[k, draw(text(sym_only=True))] for k in ks]
        m['form'] = draw(st.sampled_from(['full', 'tri', 'half', 'number']))
        m['corr'] = draw(gd.corr_matrix(len(ks)))
        m['rho'] = draw(gd.fl(-.9 / (len(ks) - 1), .9))
    else:
        n = draw(st.integers(2, 4))
        m['keys'] = list(draw(st.permutations(range(6))))[:n]
        s = draw(gd.mvn_spec(2, 4))
        s2 = [draw(gd.fl(.1, 3)) for _ in range(n)]
        m['cv'] = [draw(gd.fl(-5, 5)) for _ in range(n)]
        m['sd'] = [draw(gd.fl(.1, 3)) for _ in range(n)]
        m['corr'] = draw(gd.corr_matrix(n))
        m['second'] = s2 if draw(st.booleans()) else None
        m['form'] = draw(st.sampled_from(['cov', 'corr', 'listone']))
    return m


@st.composite
def case(draw):
    return {'meas': draw(st.lists(meas(), min_size=1, max_size=4)), 'write': draw(st.sampled_from(['names', 'instances', 'mixed', 'yaml'])),
            'alias': draw(st.booleans()), 'u': draw(st.lists(gd.fl(.05, .95), min_size=6, max_size=6))}


def mname(i, m):
    return ('Pseudo-measurement ' if m['pseudo'] else 'Verif ') + 'measurement %d' % i


def obs_dict(k):
    key = KEYS[k]
    if isinstance(key, str):
        return {'name': key}
    return dict({'name': key[0]}, **dict(zip(ARGS[key[0]], key[1:])))


def doc_of(m):
    """(YAML document, [(keys, distribution)])"""
    import flavio.statistics.probability as p
    d = dict(m['meta'])
    if m['kind'] == 'dict':
        d['values'] = {KEYS[k]: one_yaml(o) for k, o in m['val']}
        return d, [([KEYS[k]], one_dist(o)) for k, o in m['val']]
    if m['kind'] == 'list':
        d['values'] = [dict(obs_dict(k), value=one_yaml(o)) for k, o in m['val']]
        last = {}
        for k, o in m['val']:
            last[k] = o
        return d, [([KEYS[k]], one_dist(o)) for k, o in last.items()]
    if m['kind'] in ('corrdict', 'corrlist'):
        n = len(m['val'])
        corr = np.array(m['corr'])
        if m['form'] == 'number':
            corr = np.full((n, n), m['rho'])
            np.fill_diagonal(corr, 1)
        d['correlation'] = {'full': corr.tolist(), 'tri': [corr[i, i:].tolist() for i in range(n)], 'half': np.triu(corr).tolist(), 'number': m['rho']}[m['form']]
        if m['kind'] == 'corrdict':
            d['values'] = {KEYS[k]: text_str(t) for k, t in m['val']}
        else:
            d['values'] = [dict(obs_dict(k), value=text_str(t)) for k, t in m['val']]
        vals = [text_vals(t) for k, t in m['val']]
        sd = np.array([math.sqrt(sum(s * s for s in v[1]) + sum(a * b for a, b in v[2])) for v in vals])
        return d, [([KEYS[k] for k, t in m['val']], p.MultivariateNormalDistribution([v[0] for v in vals], np.outer(sd, sd) * corr))]
    d['observables'] = [KEYS[k] if isinstance(KEYS[k], str) else obs_dict(k) for k in m['keys']]
    sd = np.array(m['sd'])
    corr = np.array(m['corr'])
    cov = np.outer(sd, sd) * corr
    v = {'distribution': 'multivariate_normal', 'central_value': m['cv']}
    if m['form'] == 'cov':
        v['covariance'] = cov.tolist()
    else:
        v.update(standard_deviation=m['sd'], correlation=m['corr'])
    d['values'] = [v] if m['form'] == 'listone' else v
    if m['second']:
        d['values'] = [v, {'distribution': 'multivariate_normal', 'central_value': m['cv'], 'standard_deviation': m['second'], 'correlation': 0}]
        cov = cov + np.diag(np.square(m['second']))
    return d, [([KEYS[k] for k in m['keys']], p.MultivariateNormalDistribution(m['cv'], cov))]


def points(cons, u):
    """an observable value per key inside the support"""
    x = {}
    for keys, d in cons:
        for i, k in enumerate(keys):
            c = float(np.ravel(d.central_value)[i])
            if len(keys) == 1:
                l, r = float(np.ravel(d.error_left)[i]), float(np.ravel(d.error_right)[i])
            else:
                l = r = math.sqrt(d.covariance[i, i])
            v = u[KEYS.index(k)]
            x[k] = c + (r * (v - .5) if v > .5 else l * (v - .5))
    return x


def compare(M, cons, meta, u, what, rtol=1e-7):
    keys = [k for ks, d in cons for k in ks]
    expect(len(M.all_parameters) == len(keys) and set(M.all_parameters) == set(keys), '%s: observables %r, expected %r', what, list(M.all_parameters), keys)
    for k in META:
        expect(getattr(M, k, '') == meta.get(k, ''), '%s: %s is %r, expected %r', what, k, getattr(M, k, None), meta.get(k, ''))
    cen = M.get_central_all()
    err = M.get_1d_errors_rightleft()
    for ks, d in cons:
        for i, k in enumerate(ks):
            c = float(np.ravel(d.central_value)[i])
            expect(abs(float(cen[k]) - c) <= 1e-9 * abs(c), '%s: central value of %r is %r, expected %r', what, k, cen[k], c)
            want = [math.sqrt(d.covariance[i, i])] * 2 if len(ks) > 1 else [float(d.error_right), float(d.error_left)]
            expect(np.allclose(np.array(err[k], float), want, rtol=1e-4, atol=1e-6 * max(want)), '%s: errors of %r are %r, expected %r', what, k, err[k], want)
    x = points(cons, u)
    lp = M.get_logprobability_all(x)
    tot = sum(float(v) for v in lp.values())
    want = sum(float(np.ravel(d.logpdf(x[ks[0]] if len(ks) == 1 else [x[k] for k in ks]))[0]) for ks, d in cons)
    mag = 1 + sum(abs(float(v)) for v in lp.values())
    expect(len(lp) == len(cons) and (tot == want or abs(tot - want) <= rtol * mag), '%s: log-probability %r, expected %r', what, tot, want)
    # correlations: single log-probability and joint covariance are seen in the total above


def with_measurements(f):
    def g(c, ctx):
        import flavio
        C11.register()
        saved = flavio.Measurement.instances
        flavio.Measurement.instances = type(saved)()
        d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return f(c, ctx, d)
        finally:
            flavio.Measurement.instances = saved
            shutil.rmtree(d)
    return g


@with_measurements
def check_file(c, ctx, d):
    import flavio
    from flavio import measurements as fm
    docs, model = {}, {}
    for i, m in enumerate(c['meas']):
        n = mname(i, m)
        docs[n], cons = doc_of(m)
        model[n] = (cons, m['meta'])
        ctx.label(m['kind'])
    f = os.path.join(d, 'in.yml')
    with open(f, 'w') as fh:
        yaml.safe_dump(docs, fh, sort_keys=False, allow_unicode=True)
    names = (fm.load if c['alias'] else fm.read_file)(f)
    expect(list(names) == list(docs), 'names %r, expected %r', names, list(docs))
    expect(list(flavio.Measurement.instances) == list(docs), 'measurements %r, expected %r', list(flavio.Measurement.instances), list(docs))
    for n, (cons, meta) in model.items():
        compare(flavio.Measurement[n], cons, meta, c['u'], n)
        check_markdown(flavio.Measurement[n], cons, meta)
    check_queries(model)
    # round trip
    g = os.path.join(d, 'out.yml')
    arg = {'names': names, 'instances': [flavio.Measurement[n] for n in names],
           'mixed': [n if i % 2 else flavio.Measurement[n] for i, n in enumerate(names)], 'yaml': names}[c['write']]
    if c['write'] == 'yaml':
        arg = names = names[:1]
        with open(g, 'w') as fh:
            fh.write(flavio.Measurement[names[0]].get_yaml(pname='observables'))
    else:
        fm.write_file(g, arg)
    for n in names:
        compare(flavio.Measurement[n], *model[n], c['u'], n + ' after writing')
    flavio.Measurement.clear_all()
    back = fm.read_file(g)
    expect(list(back) == list(names) and list(flavio.Measurement.instances) == list(names), 'names after round trip %r, expected %r', back, names)
    for n in names:
        compare(flavio.Measurement[n], *model[n], c['u'], n + ' after round trip', rtol=1e-5)


def check_markdown(M, cons, meta):
    md = M._repr_markdown_()
    for k in ('inspire', 'experiment', 'url', 'description'):
        if k in meta:
            expect(meta[k] in md, 'markdown of a measurement lacks its %s: %r', k, md)
    lines = [l for l in md.split('\n') if l.startswith('- ')]
    expect(M.name in md and len(lines) == sum(len(k) for k, d in cons), 'markdown lists %r', lines)


def check_queries(model):
    import flavio
    for o in ('vobs a', 'vobs b', 'vobs c', 'vobs d'):
        want = [n for n, (cons, meta) in model.items() if any(k == o or k[0] == o for ks, d in cons for k in ks)]
        got = flavio.Observable[o].get_measurements()
        expect(list(got) == want, 'measurements of %s: %r, expected %r', o, got, want)


# ---------------------------------------------------------------- combinations
@st.composite
def case_comb(draw):
    return {'meas': draw(st.lists(C11.meas(), min_size=1, max_size=5)), 'obs': draw(st.integers(0, 5)),
            'include': draw(st.one_of(st.none(), st.lists(st.integers(0, 4), unique=True, max_size=4))), 'tuple': draw(st.booleans()), 'x': draw(gd.fl(-3, 3)),
            'container': draw(st.sampled_from(['list', 'set', 'tuple']))}


@with_measurements
def check_comb(c, ctx, d):
    import flavio
    import flavio.statistics.probability as p
    W = C11.World()
    names = [W.add(i, m) for i, m in enumerate(c['meas'])]
    key = KEYS[c['obs']]
    inc = None if c['include'] is None else [names[i] for i in c['include'] if i < len(names)]
    parts, nmult = [], 0
    for n in names:
        if n.startswith('Pseudo-measurement') or (inc is not None and n not in inc):
            continue
        for con, keys, own in W.meas[n].active():
            for k, i in own:
                if k == key:
                    if 'd' in con:
                        parts.append(C11.mk(con))
                    else:
                        parts.append(p.NormalDistribution(con['mvn']['c'][i], con['mvn']['s'][i]))
                        nmult += 1
    kw = {} if inc is None else {'include_measurements': {'list': list, 'set': set, 'tuple': tuple}[c['container']](inc)}
    if isinstance(key, str) or c['tuple']:
        call = lambda: flavio.combine_measurements(key, **kw)
    else:
        call = lambda: flavio.combine_measurements(key[0], **kw, **obs_dict_args(key))
    ctx.label(len(parts), 'mult%d' % min(nmult, 2))
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter('always')
        if not parts:
            ctx.trivial()
            try:
                call()
            except ValueError:
                return
            fail('combination of %r without measurements', key)
        if len(parts) > 1:
            lo = max(float(np.ravel(q.support[0])[0]) for q in parts)
            hi = min(float(np.ravel(q.support[1])[0]) for q in parts)
            # combinations of (nearly) incompatible distributions are outside the domain of the combination itself
            if hi <= lo or spread(parts) > 4:
                raise Skip()
        r = call()
    w = len([w for w in wl if 'multivariate' in str(w.message)])
    expect((w > 0) == (nmult > 1), '%d warnings for %d multivariate measurements', w, nmult)
    if len(parts) == 1:
        q = parts[0]
        expect(abs(float(r.central_value) - float(q.central_value)) <= 1e-9 * abs(float(q.central_value)), 'central value %r, expected %r', r.central_value, q.central_value)
        s = max(float(q.error_right), float(q.error_left))
        x = float(q.central_value) + s * c['x'] * .5
        a, b = float(np.ravel(r.logpdf(x))[0]), float(np.ravel(q.logpdf(x))[0])
        expect(a == b or abs(a - b) < 1e-7 * (1 + abs(b)), 'log-density %r, expected %r', a, b)
        return
    if all(isinstance(q, p.NormalDistribution) for q in parts):
        wt = np.array([1 / q.standard_deviation**2 for q in parts])
        mu = float(np.sum(wt * [q.central_value for q in parts]) / wt.sum())
        s = float(1 / np.sqrt(wt.sum()))
        expect(abs(float(r.central_value) - mu) < 1e-7 * (abs(mu) + s), 'central value %r, expected %r', r.central_value, mu)
        expect(abs(float(r.error_right) / s - 1) < 1e-7 and abs(float(r.error_left) / s - 1) < 1e-7, 'error %r, expected %r', r.error_right, s)
        ctx.label('normal')
        return
    q = p.combine_distributions(parts)
    mu, s = float(q.central_value), max(float(q.error_right), float(q.error_left))
    expect(abs(float(r.central_value) - mu) < 1e-3 * s, 'central value %r, expected %r', r.central_value, mu)
    expect(abs(float(r.error_right) - float(q.error_right)) < 1e-2 * s and abs(float(r.error_left) - float(q.error_left)) < 1e-2 * s, 'errors %r %r expected %r %r',
           r.error_right, r.error_left, q.error_right, q.error_left)


def obs_dict_args(key):
    return dict(zip(ARGS[key[0]], key[1:]))


def spread(parts):
    t = 0
    for a in parts:
        for b in parts:
            s = max(float(a.error_right), float(a.error_left)) + max(float(b.error_right), float(b.error_left))
            t = max(t, abs(float(a.central_value) - float(b.central_value)) / s)
    return t


# ---------------------------------------------------------------- shipped file
NUM = r'\d+\.?\d*(?:e[-+]?\d+)?'


def parse_text(t):
    """independent reading of the notation used in the shipped file: ('limit', x, cl) or ('val', cv, sym, asym)"""
    t = t.replace('\u00b1', '+-').strip()
    m = re.match(r'^<\s*(%s)\s*@\s*(\d+)\s*%%\s*CL$' % NUM, t)
    if m:
        return 'limit', float(m.group(1)), float(m.group(2)) / 100
    s = re.sub(r'\s+', '', t)
    f = 1.0
    # trailing power of ten
    m = re.match(r'^\((.*[^(].*)\)(1?e[-+]?\d+)$', s)
    if m and '+' in m.group(1):
        s, f = m.group(1), float('1' + m.group(2).lstrip('1'))
    else:
        t2 = re.sub(r'([-+])\s+', r'\1', t)
        t2 = re.sub(r'\s+([-+(])', r'\1', t2)
        m = re.match(r'^(.*\S)\s+(1?e[-+]?\d+)$', t2) or re.match(r'^(.*\d|.*\d\.|.*\))(e[-+]?\d+)$', t2)
        if m:
            s, f = m.group(1).replace(' ', ''), float('1' + m.group(2).lstrip('1'))
    m = re.match(r'^(-?\d+\.?\d*)((?:\(\d+\))*)((?:\+-\d+\.?\d*|\+\d+\.?\d*-\d+\.?\d*)*)$', s)
    if not m:
        return None
    cv = float(m.group(1)) * f
    dg = len(m.group(1).split('.')[1]) if '.' in m.group(1) else 0
    sym = [float(x) * 10.0**-dg * f for x in re.findall(r'\((\d+)\)', m.group(2))]
    sym += [float(x) * f for x in re.findall(r'\+-(\d+\.?\d*)', m.group(3))]
    asym = [(float(a) * f, float(b) * f) for a, b in re.findall(r'\+(\d+\.?\d*)-(\d+\.?\d*)', m.group(3))]
    return 'val', cv, sym, asym


_DATA = {}


def data():
    if not _DATA:
        import pkgutil
        _DATA.update(yaml.safe_load(pkgutil.get_data('flavio', 'data/measurements.yml')))
    return _DATA


def as_key(v):
    import flavio
    if isinstance(v, str):
        return v
    a = flavio.Observable[v['name']].arguments
    return v['name'] if not a else tuple([v['name']] + [v[x] for x in a])


def check_default(c, ctx):
    import flavio
    n = c['name']
    d = data()[n]
    expect(n in flavio.Measurement.instances, 'measurement %r is missing', n)
    M = flavio.Measurement[n]
    for k in META:
        if k in d:
            expect(getattr(M, k, None) == d[k], '%s: %s is %r', n, k, getattr(M, k, None))
    unknown = set(d) - set(META) - {'values', 'observables', 'correlation'}
    expect(not unknown, '%s: unknown entries %r', n, unknown)
    cen = M.get_central_all()
    if 'observables' in d:
        keys = [as_key(o) for o in d['observables']]
        vals = d['values'] if isinstance(d['values'], list) else [d['values']]
        expect(set(M.all_parameters) == set(keys), '%s: observables %r', n, M.all_parameters)
        if all(v['distribution'] == 'multivariate_normal' for v in vals):
            cov = sum(np.array(v['covariance'], float) if 'covariance' in v else
                      np.outer(v['standard_deviation'], v['standard_deviation']) * full_corr(v.get('correlation', 0), len(keys)) for v in vals)
            cov = np.triu(cov) + np.triu(cov, 1).T
            mu = [float(x) for x in vals[0]['central_value']]
            compare_mvn(M, n, keys, mu, cov, c['u'])
        else:
            for i, k in enumerate(keys):
                if 'central_value' in vals[0]:
                    expect(abs(float(cen[k]) - float(vals[0]['central_value'][i])) <= 1e-6 * abs(cen[k]), '%s: central value of %r is %r', n, k, cen[k])
        ctx.label('multivariate')
        return
    err = M.get_1d_errors_rightleft()
    items = [(as_key(v), v['value']) for v in d['values']] if isinstance(d['values'], list) else list(d['values'].items())
    expect(set(M.all_parameters) == {k for k, v in items} and len(M.all_parameters) == len(dict(items)), '%s: observables %r', n, list(M.all_parameters))
    parsed = [parse_text(v) if isinstance(v, str) else None for k, v in items]
    for (k, v), p in zip(items, parsed):
        expect(p or not isinstance(v, str), 'shipped text %r is not understood by the reference', v)
    if 'correlation' in d:
        mu = [p[1] for p in parsed]
        sd = np.array([math.sqrt(sum(s * s for s in p[2]) + sum(a * b for a, b in p[3])) for p in parsed])
        compare_mvn(M, n, [k for k, v in items], mu, np.outer(sd, sd) * full_corr(d['correlation'], len(mu)), c['u'])
        ctx.label('correlated')
        return
    lastp = dict(zip([k for k, v in items], parsed))
    lastv = dict(items)
    for k, v in lastv.items():
        p = lastp[k]
        if p is None:
            vs = v if isinstance(v, list) else [v]
            for q in vs:
                ctx.label(q['distribution'])
            q = vs[0]
            if 'limit' in q:
                cl = cdf_single(M, k, float(q['limit']))
                expect(abs(cl - float(q['confidence_level'])) < 2e-3, '%s: probability of %r below its limit is %r, expected %r', n, k, cl, q['confidence_level'])
            continue
        if p[0] == 'limit':
            x = p[1]
            s = x / scipy.stats.norm.ppf(.5 + p[2] / 2)
            lp = float(M.get_logprobability_single(k, x))
            want = scipy.stats.halfnorm.logpdf(x, 0, s)
            expect(abs(lp - want) < 1e-6 * (1 + abs(want)), '%s: log-probability of %r at its limit %r, expected %r', n, k, lp, want)
            continue
        _, cv, sym, asym = p
        expect(abs(float(cen[k]) - cv) <= 1e-9 * abs(cv), '%s: central value of %r is %r, expected %r', n, k, cen[k], cv)
        if not asym or all(a == b for a, b in asym):
            s = math.sqrt(sum(e * e for e in sym) + sum(a * b for a, b in asym))
            tol = 1e-9 if not asym else 5e-3
            expect(abs(err[k][0] / s - 1) < tol and abs(err[k][1] / s - 1) < tol, '%s: errors of %r are %r, expected %r', n, k, err[k], s)
            x = cv + s * (c['u'] - .5)
            lp = float(M.get_logprobability_single(k, x))
            want = scipy.stats.norm.logpdf(x, cv, s)
            expect(abs(lp - want) < (1e-6 if not asym else 1e-2) * (1 + abs(want)), '%s: log-probability of %r is %r, expected %r', n, k, lp, want)
        elif len(asym) == 1 and not sym:
            expect(np.allclose(err[k], asym[0], rtol=1e-9), '%s: errors of %r are %r, expected %r', n, k, err[k], asym[0])
        else:
            # orderly: between the largest component and the sum of all
            for i in (0, 1):
                comp = sym + [a[i] for a in asym]
                expect(.7 * max(comp) < err[k][i] < sum(sym) + sum(max(a) for a in asym), '%s: errors of %r are %r from %r', n, k, err[k], v)
        ctx.label('text')


def cdf_single(M, k, x):
    """probability below x by integrating the exponential of the log-probability"""
    hi = x * 40
    lo = 0.0
    t = np.concatenate([np.linspace(lo, x, 4001), np.linspace(x, 4 * x, 8001)[1:], np.linspace(4 * x, hi, 8001)[1:]])
    lp = np.array([float(np.ravel(M.get_logprobability_single(k, v))[0]) for v in t[::20]])
    t = t[::20]
    y = np.exp(lp - np.nanmax(lp[np.isfinite(lp)]))
    y[~np.isfinite(y)] = 0
    c = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(t))])
    return float(np.interp(x, t, c) / c[-1])


def full_corr(corr, n):
    if not isinstance(corr, list):
        m = np.full((n, n), float(corr))
        np.fill_diagonal(m, 1)
        return m
    m = np.zeros((n, n))
    for i, row in enumerate(corr):
        r = row if len(row) == n - i else row[i:]
        for j, v in enumerate(r):
            m[i, i + j] = m[i + j, i] = v
    return m


def compare_mvn(M, n, keys, mu, cov, u):
    cen, err = M.get_central_all(), M.get_1d_errors_rightleft()
    for i, k in enumerate(keys):
        s = math.sqrt(cov[i, i])
        expect(abs(float(cen[k]) - mu[i]) <= 1e-9 * abs(mu[i]), '%s: central value of %r is %r, expected %r', n, k, cen[k], mu[i])
        expect(abs(err[k][0] / s - 1) < 1e-6 and abs(err[k][1] / s - 1) < 1e-6, '%s: errors of %r are %r, expected %r', n, k, err[k], s)
    try:
        r = np.random.RandomState(int(u * 1e6))
        x = np.array(mu) + np.sqrt(np.diag(cov)) * r.uniform(-1, 1, len(mu)) * .3
        ev = np.linalg.eigvalsh(cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov))))
        if ev[0] < 1e-4:
            return
        want = gd.ref_mvn_logpdf(x, mu, cov)
    except np.linalg.LinAlgError:
        return
    lp = M.get_logprobability_all(dict(zip(keys, x)))
    tot = sum(float(v) for v in lp.values())
    expect(abs(tot - want) < 1e-5 * (1 + abs(want)), '%s: log-probability %r, expected %r', n, tot, want)


def build():
    names = list(data())
    return [
        Sub('file', case(), check_file, quick=320, thorough=12000, shards=8),
        Sub('combine', case_comb(), check_comb, quick=400, thorough=8000, shards=8),
        Sweep('default', names, lambda n: st.fixed_dictionaries({'name': st.just(n), 'u': st.integers(1, 99).map(lambda k: k / 100.)}), check_default,
              quick=1, thorough=5, shards=4),
    ]
