"""Distributions survive being written out and read back."""
import inspect
import json
import math
import numpy as np
import yaml
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip, close
import gen_dist as gd

RULE = ('A case is a distribution of any of the 20 classes with drawn parameters (including every way of giving event counts, '
        'covariances and grids) and one of the output forms (keyword dictionary, dictionary with the distribution name, YAML text, '
        'printed representation). Non-trivial: more than one parameter; distinct by parameters and form.')
ASSUMPTIONS = ['printed representations are evaluated for distributions specified by numbers only (arrays are abbreviated by numpy)']
LEVEL_NOTE = 'Generated-input search with a round-trip oracle: same density, central value and uncertainties before and after.'

ALL = gd.ANALYTIC + gd.NUMERIC + gd.DISCRETE
SCALAR = gd.ANALYTIC + gd.DISCRETE + ['general_gamma_positive', 'general_gamma_counting_process', 'general_gamma_upper_limit']


def P():
    import flavio.statistics.probability as p
    return p


def build_any(sp):
    if sp['dist'] == 'multivariate_normal':
        return gd.make_mvn(sp['mv'])
    if sp['dist'] == 'multivariate_numerical':
        return gd.make_mvnum(sp['mv'])
    return gd.make(sp)


def any_spec(kinds):
    return st.one_of(gd.spec(kinds), gd.spec(kinds), gd.spec(kinds),
                     gd.mvn_spec().map(lambda s: {'dist': 'multivariate_normal', 'mv': s}),
                     gd.mvnum_spec().map(lambda s: {'dist': 'multivariate_numerical', 'mv': s}))


def same(d, e, what):
    expect(type(d) is type(e), '%s: %r became %r', what, type(d).__name__, type(e).__name__)
    c1, c2 = np.asarray(d.central_value, float), np.asarray(e.central_value, float)
    expect(c1.shape == c2.shape, '%s: central value %r became %r', what, d.central_value, e.central_value)
    lo, hi = (np.asarray(v, float) for v in d.support)
    lo2, hi2 = (np.asarray(v, float) for v in e.support)
    w = hi - lo
    w = np.where(w > 0, w, np.maximum(1e-300, np.abs(c1)))
    expect(np.all(np.abs(c1 - c2) <= 1e-9 * w), '%s: central value %r became %r', what, d.central_value, e.central_value)
    expect(np.all(np.abs(lo - lo2) <= 1e-9 * w) and np.all(np.abs(hi - hi2) <= 1e-9 * w), '%s: support %r became %r', what, d.support, e.support)
    t = np.array([0.013, 0.11, 0.27, 0.43, 0.5, 0.61, 0.78, 0.93])
    if c1.ndim == 0:
        x = lo + t * w
        x = np.concatenate([x, c1 + t[:5] * 0.1 * w, [float(c1)]])
        if type(d).__name__.startswith('Discrete'):
            x = np.arange(float(lo) - 1, float(hi) + 2)
        x = np.clip(x, lo, hi) if not type(d).__name__.startswith('D') else x
    else:
        x = lo + t[:, None] * w * (1 - 0.05 * np.arange(len(c1)))
    a, b = np.asarray(d.logpdf(x), float), np.asarray(e.logpdf(x), float)
    ok = (a == b) | (np.abs(a - b) <= 1e-6 * (1 + np.abs(a)) ) | ((a < np.max(a) - 25) & (b < np.max(b) - 25))
    expect(np.all(ok), '%s: log-density %r became %r at %r', what, a[~ok], b[~ok], x[~ok])
    if type(d).__name__ in ('MultivariateNumericalDistribution',):
        return
    for n in ('error_left', 'error_right'):
        try:
            a = np.asarray(getattr(d, n), float)
        except ValueError:
            continue        # mode at the edge of the domain: no error defined before either
        b = np.asarray(getattr(e, n), float)
        expect(np.all((np.abs(a - b) <= 1e-6 * np.maximum(np.abs(a), np.abs(b)) + 1e-8 * w) | (np.isnan(a) & np.isnan(b))), '%s: %s %r became %r', what, n, a, b)


@st.composite
def case(draw):
    return {'spec': draw(any_spec(ALL)), 'form': draw(st.sampled_from(['kwargs', 'dict', 'yaml', 'json', 'twice']))}


def freeze(d):
    def f(v):
        if isinstance(v, np.ndarray):
            return ('array', str(v.dtype), v.tolist())
        if isinstance(v, (list, tuple)):
            return [f(u) for u in v]
        if isinstance(v, dict):
            return {k: f(u) for k, u in v.items()}
        if hasattr(v, 'get_dict'):
            return freeze(v)
        return v
    keys = [k for k in inspect.signature(type(d)).parameters if k in d.__dict__] + ['central_value', 'support']
    return repr({k: f(d.__dict__[k]) for k in keys})


def check(c, ctx):
    p = P()
    sp, form = c['spec'], c['form']
    d = build_any(sp)
    ctx.label(sp['dist'], form)
    if sp['dist'] == 'delta':
        ctx.trivial()
    before = freeze(d)
    name = sp['dist']
    if form == 'kwargs':
        kw = d.get_dict()
        expect('distribution' not in kw, 'get_dict() contains the name without being asked: %r', list(kw))
        e = type(d)(**kw)
        same(d, e, 'keyword arguments')
    else:
        if form == 'yaml' or form == 'twice':
            txt = d.get_yaml()
            expect(isinstance(txt, str), 'get_yaml returned %r', type(txt))
            dd = yaml.safe_load(txt)
        else:
            dd = d.get_dict(distribution=True, iterate=True, arraytolist=True)
            if form == 'json':
                dd = json.loads(json.dumps(dd))
        expect(p.class_from_string[dd['distribution']] is type(d), 'name %r does not stand for %r', dd['distribution'], type(d))
        orig = json.dumps(dd, sort_keys=True)
        out = p.dict2dist(dd)
        expect(isinstance(out, list) and len(out) == 1, 'dict2dist of one dictionary gives %r', out)
        expect(json.dumps(dd, sort_keys=True) == orig, 'dict2dist modifies its argument')
        same(d, out[0], form)
        if form == 'twice':
            out2 = p.dict2dist([yaml.safe_load(out[0].get_yaml()), dd])
            expect(len(out2) == 2, 'dict2dist of two dictionaries gives %r', out2)
            same(d, out2[0], 'second round trip')
            same(d, out2[1], 'list of dictionaries')
    expect(freeze(d) == before, 'writing out the distribution changed it: %s -> %s', before, freeze(d))


def check_repr(c, ctx):
    import flavio
    d = build_any(c)
    ctx.label(c['dist'])
    try:
        e = eval(repr(d), {'flavio': flavio})
    except (SyntaxError, NameError) as err:
        fail('repr %r cannot be evaluated: %s', repr(d), err)
    same(d, e, 'repr ' + repr(d))
    expect(repr(e) == repr(d), 'repr changes in a round trip: %r -> %r', repr(d), repr(e))


def check_names(c, ctx):
    p = P()
    seen = {}
    for cls in p.ProbabilityDistribution.get_subclasses():
        s = cls.class_to_string()
        expect(s not in seen, 'name %r stands for two classes', s)
        seen[s] = cls
        for n in (s, cls.__name__):
            expect(p.string_to_class(n) is cls, 'name %r does not give %r', n, cls)
        expect(p.class_from_string.get(s) is cls, 'name %r does not give %r', s, cls)
    # spelled-out names used in data files
    for k, v in gd.CLS.items():
        expect(getattr(p, v) in seen.values(), 'class %s is not registered', v)
    for n in ('normal', 'asymmetric_normal', 'uniform', 'delta', 'half_normal', 'gaussian_upper_limit', 'gamma_upper_limit',
              'numerical', 'multivariate_normal', 'multivariate_numerical', 'log_normal', 'gamma', 'gamma_positive',
              'discrete_uniform', 'gamma_counting_process', 'general_gamma_positive', 'general_gamma_upper_limit',
              'general_gamma_counting_process', 'kernel_density_estimate'):
        expect(n in seen and seen[n].__name__ == gd.CLS.get(n, seen[n].__name__), 'no distribution named %r', n)
    try:
        p.string_to_class('no_such_' + c)
    except NameError:
        return
    fail('unknown name accepted')


@st.composite
def case_strings(draw):
    """numbers given as text, as in YAML files (1e-3 is a string there)"""
    sp = draw(gd.spec([k for k in SCALAR if not k.startswith('general')]))
    keys = sorted(sp['args'])
    return {'spec': sp, 'text': draw(st.lists(st.sampled_from(keys), unique=True, min_size=1)), 'order': list(draw(st.permutations(keys)))}


def check_strings(c, ctx):
    p = P()
    sp = c['spec']
    ctx.label(sp['dist'])
    d = gd.make(sp)
    dd = {k: ('%r' % sp['args'][k] if k in c['text'] else sp['args'][k]) for k in c['order']}
    dd['distribution'] = type(d).class_to_string()
    same(d, p.dict2dist(dd)[0], 'dictionary with numbers as text')
    same(d, p.dict2dist(yaml.safe_load(yaml.dump(dd)))[0], 'YAML with numbers as text')


def build():
    return [
        Sub('roundtrip', case(), check, quick=1600, thorough=30000, shards=8),
        Sub('repr', gd.spec(SCALAR), check_repr, quick=700, thorough=12000, shards=8),
        Sub('text', case_strings(), check_strings, quick=600, thorough=8000, shards=4),
        Sub('names', st.sampled_from(['a', 'b']), check_names, quick=2, thorough=2, shards=1),
    ]
