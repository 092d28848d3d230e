"""A collection of constraints reflects the history of what was put into it."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd
import C07

RULE = ('A case is a history of up to 14 operations (set from text or dictionary, add univariate/multivariate/tabulated constraint, '
        're-use a distribution object, remove, copy-and-modify, YAML round trip, failing operation) on parameter constraints or a '
        'measurement, followed by queries compared with a reference model. Non-trivial: at least one parameter was overridden or '
        'removed or is part of a multivariate constraint; distinct by history.')
ASSUMPTIONS = ['distributions themselves are checked in C01 to C07; here freshly built copies serve as reference']
LEVEL_NOTE = 'Model-based generation of histories against an independent reference container.'

NAMES = ['p%d' % i for i in range(6)]


@st.composite
def op(draw):
    k = draw(st.sampled_from(['set', 'setdict', 'add1', 'add1', 'mvn', 'mvn', 'mvnum', 'remove', 'remove', 'copy', 'yaml', 'yaml', 'reuse', 'bad']))
    if k == 'set':
        return [k, draw(st.sampled_from(NAMES)), draw(st.floats(-9, 9).map(lambda x: round(x, 3))), draw(st.integers(1, 900)) / 1000.0]
    if k == 'setdict':
        return [k, draw(st.sampled_from(NAMES)), draw(gd.spec(['normal', 'asymmetric_normal', 'uniform', 'half_normal', 'gaussian_upper_limit'])),
                draw(st.booleans())]
    if k == 'add1':
        return [k, draw(st.sampled_from(NAMES)), draw(gd.spec(['normal', 'asymmetric_normal', 'uniform', 'delta', 'half_normal', 'log_normal',
                                                                'gamma_upper_limit', 'numerical']))]
    if k == 'mvn':
        s = draw(gd.mvn_spec(2, 4))
        return [k, list(draw(st.permutations(NAMES)))[:s['n']], s]
    if k == 'mvnum':
        s = draw(gd.mvnum_spec())
        return [k, list(draw(st.permutations(NAMES)))[:len(s['xi'])], s]
    if k == 'reuse':
        return [k, list(draw(st.permutations(NAMES)))[:2], draw(gd.spec(['normal', 'uniform', 'asymmetric_normal']))]
    if k == 'bad':
        return [k, draw(st.sampled_from(NAMES)), draw(st.sampled_from(['both', 'none', 'text', 'dist']))]
    return [k, draw(st.sampled_from(NAMES))]


@st.composite
def case(draw):
    return {'cls': draw(st.sampled_from(['ParameterConstraints', 'ParameterConstraints', 'Measurement', 'WilsonCoefficientPriors'])),
            'ops': draw(st.lists(op(), min_size=1, max_size=14)), 'u': draw(st.lists(gd.fl(0.05, 0.95), min_size=6, max_size=6)),
            'exclude': draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4)), 'extra': draw(st.booleans()),
            'tuples': draw(st.booleans())}


class Model:
    """constraints in order; each parameter belongs to the last constraint put on it"""

    def __init__(self):
        self.cons = []       # [spec-builder, names]
        self.owner = {}      # name -> (constraint index, position)

    def add(self, names, mk):
        for n in names:
            self.owner.pop(n, None)
        self.cons.append((mk, list(names)))
        for i, n in enumerate(names):
            self.owner[n] = (len(self.cons) - 1, i)

    def remove(self, n):
        self.owner.pop(n, None)

    def active(self):
        """[(distribution, [(name, position)...])] with at least one owned name"""
        out = []
        for k, (mk, names) in enumerate(self.cons):
            own = [(n, i) for i, n in enumerate(names) if self.owner.get(n) == (k, i)]
            if own:
                out.append((mk, names, own))
        return out

    def copy(self):
        m = Model()
        m.cons, m.owner = list(self.cons), dict(self.owner)
        return m


def maker(sp, kind):
    if kind == 'mvn':
        return lambda: gd.make_mvn(sp)
    if kind == 'mvnum':
        return lambda: gd.make_mvnum(sp)
    return lambda: gd.make(sp)


def key(n, tup):
    # measurements also constrain observables with arguments, written as tuples
    return ('obs' + n, 1.0, float(n[1:]) + 2) if tup and int(n[1:]) % 2 else n


def compare(pc, mod, c, what, full=True):
    tup = c['tup']
    K = lambda n: key(n, tup)
    names = sorted(mod.owner)
    got = list(pc.all_parameters)
    expect(len(got) == len(set(map(str, got))) and sorted(map(str, got)) == sorted(str(K(n)) for n in names), '%s: constrained parameters %r expected %r', what, got, [K(n) for n in names])
    act = mod.active()
    dists = [(mk(), nm, own) for mk, nm, own in act]
    cen = pc.get_central_all()
    expect(len(cen) == len(names), '%s: central values for %r', what, list(cen))
    sup = {}
    for d, nm, own in dists:
        for n, i in own:
            want = float(np.ravel(d.central_value)[i])
            lo, hi = float(np.ravel(d.support[0])[i]), float(np.ravel(d.support[1])[i])
            sup[n] = (lo, hi)
            v = cen[K(n)]
            tol = 1e-12 * max(abs(want), hi - lo)
            expect(np.ndim(v) == 0 and abs(float(v) - want) <= tol, '%s: central value of %s is %r expected %r', what, n, v, want)
            expect(abs(float(pc.get_central(K(n))) - want) <= tol, '%s: get_central(%s)=%r', what, n, pc.get_central(K(n)))
    for n in NAMES:
        if n not in mod.owner:
            try:
                r = pc.get_central(K(n))
            except ValueError:
                pass
            else:
                fail('%s: central value %r for the unconstrained parameter %s', what, r, n)
    if not full or not names:
        return
    par = {}
    for n, u in zip(NAMES, c['u']):
        lo, hi = sup.get(n, (0, 1))
        par[n] = lo + u * (hi - lo)
    # total log-probability, with and without excluded parameters
    for ex in ([], c['exclude']):
        pd = {K(n): par[n] for n in NAMES if n in mod.owner and (n not in ex or c['extra'])}
        if c['extra']:
            pd['unrelated'] = 3.0
        for delta in (False, True):
            lp = pc.get_logprobability_all(pd, exclude_parameters=[K(n) for n in ex], delta=delta) if ex or delta else pc.get_logprobability_all(pd)
            tot, mag, cnt = 0.0, 1.0, 0
            for d, nm, own in dists:
                keep = [i for n, i in own if n not in ex]
                if not keep:
                    continue
                cnt += 1
                x = [par[nm[i]] for i in keep]
                drop = tuple(i for i in range(len(nm)) if i not in keep)
                r = d.reduce_dimension(drop) if drop else d
                cv = [float(np.ravel(d.central_value)[i]) for i in keep]
                f = (lambda v: float(np.ravel(r.logpdf(v[0] if len(v) == 1 else v))[0]))
                v = f(x) - f(cv) if delta else f(x)
                tot += v
                mag += abs(v)
            got = float(sum(float(np.ravel(v)[0]) for v in lp.values()))
            expect(len(lp) == cnt, '%s: %d contributions to the probability, expected %d (excluding %r)', what, len(lp), cnt, ex)
            expect(got == tot or abs(got - tot) <= 1e-6 * mag or (math.isnan(got) and math.isnan(tot)),
                   '%s: log-probability %r expected %r (excluding %r, delta=%r)', what, got, tot, ex, delta)
    # single parameter
    for d, nm, own in dists:
        for n, i in own:
            drop = tuple(j for j in range(len(nm)) if j != i)
            r = d.reduce_dimension(drop) if drop else d
            cv = float(np.ravel(d.central_value)[i])
            a = float(np.ravel(r.logpdf(par[n]))[0])
            b = float(np.ravel(r.logpdf(cv))[0])
            g = float(np.ravel(pc.get_logprobability_single(K(n), par[n]))[0])
            gd_ = float(np.ravel(pc.get_logprobability_single(K(n), par[n], delta=True))[0])
            expect(g == a or abs(g - a) <= 1e-6 * (1 + abs(a)), '%s: log-probability of %s=%r is %r expected %r', what, n, par[n], g, a)
            expect(gd_ == a - b or abs(gd_ - a + b) <= 1e-6 * (1 + abs(a) + abs(b)) or (math.isnan(gd_) and math.isnan(a - b)), '%s: delta log-probability of %s is %r expected %r', what, n, gd_, a - b)
    # errors
    if not any(type(d).__name__ == 'MultivariateNumericalDistribution' for d, _, _ in dists) and not c['hasnum']:
        e = pc.get_1d_errors_rightleft()
        expect(len(e) == len(names), '%s: errors for %r', what, list(e))
        for d, nm, own in dists:
            r, l = np.ravel(d.error_right), np.ravel(d.error_left)
            for n, i in own:
                a, b = float(e[K(n)][0]), float(e[K(n)][1])
                expect(abs(a - r[i]) <= 1e-9 * abs(r[i]) and abs(b - l[i]) <= 1e-9 * abs(l[i]),
                       '%s: errors of %s (+%r, -%r) expected (+%r, -%r)', what, n, a, b, r[i], l[i])
    for size in (None, 3):
        rnd = pc.get_random_all(size=size) if size else pc.get_random_all()
        expect(sorted(map(str, rnd)) == sorted(str(K(n)) for n in names), '%s: random numbers for %r', what, list(rnd))
        for n, v in rnd.items():
            expect(np.shape(v) == (() if size is None else (3,)), '%s: random numbers of %s have shape %r', what, n, np.shape(v))


def check(c, ctx):
    import flavio
    from flavio.classes import ParameterConstraints, Measurement, WilsonCoefficientPriors
    cls = {'ParameterConstraints': ParameterConstraints, 'Measurement': Measurement, 'WilsonCoefficientPriors': WilsonCoefficientPriors}[c['cls']]
    ismeas = c['cls'] == 'Measurement'
    c = dict(c, tup=ismeas and c['tuples'], hasnum=False)
    K = lambda n: key(n, c['tup'])
    meta = {}
    if ismeas:
        pc = cls('verif measurement')
        meta = {'experiment': 'VERIF', 'inspire': 'Verif:2026abc', 'url': 'https://example.org/a?b=1', 'description': 'a test'}
        for k, v in list(meta.items())[:len(c['ops']) % 5]:
            setattr(pc, k, v)
        meta = dict(list(meta.items())[:len(c['ops']) % 5])
    else:
        pc = cls()
    pname = 'observables' if ismeas else 'parameters'
    mod = Model()
    try:
        over = False
        for o in c['ops']:
            k = o[0]
            ctx.label(k)
            if k in ('mvnum',):
                c['hasnum'] = True
            if k == 'set':
                if o[1] in mod.owner:
                    over = True
                if ismeas:
                    pc.set_constraint(K(o[1]), '%.3f \u00b1 %.3f' % (o[2], o[3]))
                else:
                    pc.set_constraint(o[1], constraint_string='%.3f \u00b1 %.3f' % (o[2], o[3]))
                mod.add([o[1]], maker({'dist': 'normal', 'args': dict(central_value=o[2], standard_deviation=o[3])}, '1'))
            elif k == 'setdict':
                dd = dict(o[2]['args'], distribution=o[2]['dist'])
                mk = maker(o[2], '1')
                if o[3] and o[2]['dist'] == 'normal':
                    # two contributions are convolved
                    a = o[2]['args']
                    s = a['standard_deviation']
                    dd = [dd, dict(dd, standard_deviation=2 * s)]
                    mk = maker({'dist': 'normal', 'args': dict(a, standard_deviation=s * math.sqrt(5))}, '1')
                pc.set_constraint(K(o[1]), constraint_dict=dd)
                mod.add([o[1]], mk)
            elif k == 'add1':
                pc.add_constraint([K(o[1])], gd.make(o[2]))
                over = over or o[1] in mod.owner
                mod.add([o[1]], maker(o[2], '1'))
            elif k in ('mvn', 'mvnum'):
                over = True
                pc.add_constraint([K(n) for n in o[1]], maker(o[2], k)())
                mod.add(o[1], maker(o[2], k))
            elif k == 'reuse':
                d = gd.make(o[2])
                for n in o[1]:
                    pc.add_constraint([K(n)], d)
                    mod.add([n], maker(o[2], '1'))
            elif k == 'remove':
                over = over or o[1] in mod.owner
                pc.remove_constraint(K(o[1]))
                mod.remove(o[1])
            elif k == 'copy':
                new = pc.copy()
                new.remove_constraint(K(o[1]))
                new.add_constraint([K(NAMES[0])], gd.make({'dist': 'normal', 'args': dict(central_value=77, standard_deviation=1)}))
                compare(pc, mod, c, 'original after modifying a copy', full=False)
                m2 = mod.copy()
                m2.remove(o[1])
                m2.add([NAMES[0]], maker({'dist': 'normal', 'args': dict(central_value=77, standard_deviation=1)}, '1'))
                compare(new, m2, c, 'modified copy', full=False)
                pc = pc.copy()
            elif k == 'yaml':
                kw = {'pname': pname} if ismeas or len(c['ops']) % 2 else {}
                txt = pc.get_yaml(**kw)
                if ismeas:
                    flavio.Measurement.instances.pop('verif measurement', None)
                pc = cls.from_yaml(txt, **kw)
                expect(type(pc) is cls, 'from_yaml returns %r', type(pc))
                if ismeas:
                    expect(pc.name == 'verif measurement', 'name lost: %r', pc.name)
                    expect(flavio.Measurement.instances.get('verif measurement') is pc, 'measurement not registered')
                    for a, v in meta.items():
                        expect(getattr(pc, a) == v, 'attribute %s is %r expected %r', a, getattr(pc, a), v)
                    for a in ('experiment', 'inspire', 'url', 'description'):
                        expect(a in meta or getattr(pc, a) == '', 'attribute %s is %r', a, getattr(pc, a))
                compare(pc, mod, c, 'after YAML round trip', full=False)
            elif k == 'bad':
                try:
                    if o[2] == 'both':
                        pc.set_constraint(K(o[1]), constraint_string='1 +- 2', constraint_dict={'distribution': 'delta', 'central_value': 1})
                    elif o[2] == 'none':
                        pc.set_constraint(K(o[1]))
                    elif o[2] == 'text':
                        pc.set_constraint(K(o[1]), 'about one')
                    else:
                        pc.set_constraint(K(o[1]), constraint_dict={'distribution': 'no_such', 'central_value': 1})
                except (ValueError, TypeError, KeyError):
                    pass
                else:
                    fail('invalid constraint (%s) accepted', o[2])
                compare(pc, mod, c, 'after a rejected constraint', full=False)
        if not over:
            ctx.trivial()
        compare(pc, mod, c, 'at the end')
        before = repr(pc.get_yaml_dict(pname=pname))
        compare(pc, mod, c, 'queried twice')
        expect(repr(pc.get_yaml_dict(pname=pname)) == before, 'queries changed the constraints')
    finally:
        if ismeas:
            flavio.Measurement.instances.pop('verif measurement', None)


@st.composite
def case_forms(draw):
    n = draw(st.integers(1, 3))
    return {'form': draw(st.sampled_from(['list', 'dict', 'dict_meta', 'dict_all', 'instance'])),
            'vals': [[draw(st.integers(-900, 900)) / 100, draw(st.integers(1, 300)) / 100] for _ in range(n)],
            'notation': [draw(st.sampled_from(['text', 'values', 'list'])) for _ in range(n)], 'wrong': draw(st.booleans())}


def check_forms(c, ctx):
    import yaml
    from flavio.classes import ParameterConstraints
    ctx.label(c['form'], *c['notation'])
    cons, want = [], {}
    for i, ((m, s), nt) in enumerate(zip(c['vals'], c['notation'])):
        v = {'distribution': 'normal', 'central_value': m, 'standard_deviation': s}
        if nt == 'text':
            cons.append({NAMES[i]: '%r \u00b1 %r' % (m, s)})
        else:
            cons.append({'parameters': [NAMES[i]], 'values': v if nt == 'values' else [v, v]})
        want[NAMES[i]] = (m, s if nt != 'list' else s * math.sqrt(2))
    meta = {'note': 'xyz'}
    data = {'list': cons, 'dict': {'constraints': cons}, 'dict_meta': {'constraints': cons, 'metadata': meta},
            'dict_all': {'constraints': cons, 'metadata': meta, 'arguments': {}}, 'instance': cons}[c['form']]
    kw = {}
    if c['form'] == 'instance':
        inst = ParameterConstraints()
        inst.set_constraint('old', '5 +- 1')
        want['old'] = (5.0, 1.0)
        kw['instance'] = inst
    txt = yaml.dump(data)
    pc = ParameterConstraints.from_yaml(txt, **kw)
    if kw:
        expect(pc is inst, 'constraints not added to the given instance')
    if 'meta' in c['form'] or c['form'] == 'dict_all':
        expect(getattr(pc, 'note', None) == 'xyz', 'metadata lost')
    expect(sorted(pc.all_parameters) == sorted(want), 'parameters %r', pc.all_parameters)
    e = pc.get_1d_errors_rightleft()
    for k, (m, s) in want.items():
        expect(pc.get_central(k) == m and abs(e[k][0] / s - 1) < 1e-9 and abs(e[k][1] / s - 1) < 1e-9, '%s: %r %r expected %r', k, pc.get_central(k), e[k], (m, s))
    again = ParameterConstraints.from_yaml(pc.get_yaml())
    expect(again.get_central_all() == pc.get_central_all(), 'YAML round trip: %r', again.get_central_all())
    np.random.seed(3)
    er = pc.get_1d_errors(N=200)
    expect(isinstance(er, dict) and sorted(er) == sorted(want) and all(0.6 < er[k] / want[k][1] < 1.5 for k in want), 'errors from random numbers %r expected %r', er, want)
    if c['wrong'] and any(nt != 'text' for nt in c['notation']):
        try:
            ParameterConstraints.from_yaml(txt, pname='quantities')
        except ValueError:
            return
        fail('constraints read with the wrong key')


def build():
    return [Sub('history', case(), check, quick=1500, thorough=30000, shards=8),
            Sub('forms', case_forms(), check_forms, quick=150, thorough=2000, shards=2)]
