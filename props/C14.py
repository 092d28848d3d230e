"""Named objects, observables as data, auxiliary quantities and the configuration."""
import copy
import math
import re
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a history of creating, replacing, deleting, finding and clearing named objects; an observable with up to four arguments in any input format; '
        'an observable defined as function of others; auxiliary quantities with several implementations and a history of configuration changes; '
        'a set of taxonomy strings; or a history of configuration changes of the real physics code. Non-trivial: at least two objects, arguments or changes; distinct by case.')
ASSUMPTIONS = ['implementations that need parameters without default values are left out of the configuration histories']
LEVEL_NOTE = 'Model-based histories on the registries and on the configuration, compared with a dictionary model and with evaluations in a cold state.'

NM = ['x', 'xy', 'BR(B0->mumu)', 'a b', 'X', 'dBR/dq2(a)', 'x.y', 'x+']


# ---------------------------------------------------------------- registries
@st.composite
def case_reg(draw):
    op = st.one_of(st.tuples(st.just('new'), st.sampled_from(NM), st.integers(0, 1)), st.tuples(st.just('del'), st.sampled_from(NM), st.integers(0, 1)),
                   st.tuples(st.just('delitem'), st.sampled_from(NM), st.integers(0, 1)), st.tuples(st.just('desc'), st.sampled_from(NM), st.integers(0, 1)),
                   st.tuples(st.just('find'), st.sampled_from(['x', '^x', 'B0', r'\(', '.', 'y$', '^$', 'x|X']), st.integers(0, 1)),
                   st.tuples(st.just('clear'), st.just(''), st.integers(0, 1)))
    return {'kind': draw(st.sampled_from(['fresh', 'Parameter', 'Observable', 'AuxiliaryQuantity', 'Measurement'])),
            'ops': [list(o) for o in draw(st.lists(op, min_size=1, max_size=20))]}


def check_reg(c, ctx):
    import flavio.classes as fc
    if c['kind'] == 'fresh':
        A = type('A', (fc.NamedInstanceClass,), {})
        B = type('B', (fc.NamedInstanceClass,), {})
        cls = [A, B]
    else:
        cls = [getattr(fc, c['kind']), type('B', (fc.NamedInstanceClass,), {})]
    saved = [(k, k.__dict__.get('instances')) for k in cls]
    try:
        for k in cls:
            if 'instances' in k.__dict__:
                k.instances = type(k.instances)()
        mod = [{}, {}]
        for o, n, w in c['ops']:
            K, M = cls[w], mod[w]
            if o == 'new':
                obj = K(n)
                M[n] = [obj, '']
                expect(obj.name == n and obj.description == '', 'new object has name %r and description %r', obj.name, obj.description)
            elif o in ('del', 'delitem'):
                if n in M:
                    if o == 'del':
                        K.del_instance(n)
                    else:
                        del K[n]
                    del M[n]
                elif hasattr(K, 'instances'):
                    try:
                        K.del_instance(n)
                    except KeyError:
                        pass
                    else:
                        fail('deleting the unknown %r is not an error', n)
            elif o == 'desc':
                if n in M:
                    K[n].set_description('d' + n)
                    M[n][1] = 'd' + n
            elif o == 'find':
                if hasattr(K, 'instances'):
                    got = K.find(n)
                    want = [m for m in M if re.search(n, m)]
                    expect(list(got) == want, 'find(%r) gives %r, expected %r', n, got, want)
            else:
                K.clear_all()
                M.clear()
            for K2, M2 in zip(cls, mod):
                if not hasattr(K2, 'instances'):
                    expect(not M2, 'objects lost')
                    continue
                expect(list(K2.instances) == list(M2), 'names %r, expected %r', list(K2.instances), list(M2))
                for m, (obj, d) in M2.items():
                    expect(K2[m] is obj and K2.get_instance(m) is obj and obj.description == d, 'object %r is not the one created last', m)
        if len(c['ops']) < 3:
            ctx.trivial()
        ctx.label(c['kind'])
    finally:
        for k, i in saved:
            if i is not None:
                k.instances = i


def swap_observables(f):
    def g(c, ctx):
        import flavio.classes as fc
        s = {k: k.instances for k in (fc.Observable, fc.Parameter, fc.AuxiliaryQuantity, fc.Implementation)}
        tax = fc.Observable.taxonomy
        conf = copy.deepcopy(fc.config)
        for k in s:
            k.instances = type(s[k])()
        fc.Observable.taxonomy = fc.tree()
        try:
            return f(c, ctx)
        finally:
            for k in s:
                k.instances = s[k]
            fc.Observable.taxonomy = tax
            fc.config.clear()
            fc.config.update(conf)
    return g


# ---------------------------------------------------------------- argument formats
@st.composite
def case_args(draw):
    n = draw(st.integers(0, 4))
    names = list(draw(st.permutations(['q2', 'q2min', 'q2max', 'E', 'cl', 'z', 'aa'])))[:n]
    vals = [draw(st.one_of(st.integers(-9, 20), gd.fl(-5, 20))) for _ in names]
    return {'names': names, 'vals': vals, 'order': draw(st.permutations(range(n + 1))), 'none': draw(st.booleans()),
            'mode': draw(st.sampled_from(['ok', 'ok', 'ok', 'short', 'long', 'string', 'missing'])), 'drop': draw(st.integers(0, 3))}


@swap_observables
def check_args(c, ctx):
    import flavio
    from flavio.classes import Observable, Prediction
    from flavio.io.instanceio import coerce_observable_tuple, coerce_observable_dict
    names, vals = c['names'], c['vals']
    o = Observable('vobs', arguments=(names or None))
    Prediction('vobs', lambda wc, par, *a, **k: sum((i + 1) * x for i, x in enumerate(list(a) + [k[n] for n in names[len(a):]])) + par['p'])
    par = {'p': .25}
    t = tuple(['vobs'] + vals) if names else 'vobs'
    d = dict([('name', 'vobs')] + list(zip(names, vals)))
    l = list(t) if names else 'vobs'
    items = list(d.items())
    din = dict(items[i] for i in c['order'])
    ctx.label(len(names), c['mode'])
    if not names:
        ctx.trivial()
    if c['mode'] == 'ok':
        for inp in ([t, l, din, d] if names else [t, d]):
            keep = copy.deepcopy(inp)
            for fmt, want in (('tuple', t), ('list', l), ('dict', d)):
                r = Observable.argument_format(inp, fmt)
                expect(r == want and type(r) is type(want), 'argument_format(%r, %r) gives %r, expected %r', inp, fmt, r, want)
                if isinstance(r, (dict, list)):
                    r.clear()
                expect(inp == keep, 'argument_format(%r, %r) modifies its input', keep, fmt)
            expect(Observable.argument_format(inp) == t and coerce_observable_tuple(inp) == t and coerce_observable_dict(inp) == d, 'default format of %r', inp)
        want = sum((i + 1) * x for i, x in enumerate(vals)) + .25
        expect(o.prediction_par(par, flavio.physics.eft._wc_sm, *vals) == want, 'prediction with positional arguments')
        expect(o.prediction_par(par, flavio.physics.eft._wc_sm, **dict(zip(names, vals))) == want, 'prediction with named arguments')
        return
    if c['mode'] == 'short':
        bad = tuple(t[:-1]) if names else ('vobs',)
    elif c['mode'] == 'long':
        bad = (tuple(t) if names else ('vobs',)) + (1.0,)
    elif c['mode'] == 'string':
        if not names:
            raise Skip()
        bad = 'vobs'
    else:
        if not names:
            raise Skip()
        bad = dict(d)
        del bad[names[c['drop'] % len(names)]]
    for b in ([bad, list(bad)] if isinstance(bad, tuple) else [bad]):
        try:
            r = Observable.argument_format(b)
        except (ValueError, KeyError):
            continue
        fail('argument_format(%r) of an observable with arguments %r is accepted: %r', b, names, r)


# ---------------------------------------------------------------- functions of observables
@st.composite
def case_func(draw):
    nargs = draw(st.integers(0, 2))
    return {'n': draw(st.integers(1, 4)), 'nargs': nargs, 'coef': draw(st.lists(gd.fl(-3, 3), min_size=4, max_size=4)),
            'f': draw(st.sampled_from(['sum', 'diff', 'ratio', 'last', 'poly'])), 'bad': draw(st.sampled_from([None, None, None, 'missing', 'noprediction', 'arguments'])),
            'pos': draw(st.integers(0, 3)), 'par': draw(gd.fl(-2, 2)), 'c9': draw(gd.fl(-1, 1)), 'a': draw(st.lists(gd.fl(1, 5), min_size=2, max_size=2)),
            'same': draw(st.booleans()), 'nested': draw(st.booleans())}


@swap_observables
def check_func(c, ctx):
    import flavio
    from flavio.classes import Observable, Prediction
    args = [None, ['q2'], ['q2min', 'q2max']][c['nargs']]
    a = c['a'][:c['nargs']]
    n = c['n']
    names = ['vo%d' % i for i in range(n)]
    if c['same'] and n > 1:
        names[1] = names[0]
    par = {'p': c['par']}
    wc = flavio.WilsonCoefficients()
    wc.set_initial({'C9_bsmumu': c['c9']}, 4.8)

    def val(i, q, p, c9):
        return c['coef'][i] * p + sum(q) * (i + 1) + c9 * c9 + 7
    for i in range(n):
        Observable('vo%d' % i, arguments=args)
        Prediction('vo%d' % i, lambda w, p, *q, i=i, **k: val(i, list(q) + [k[x] for x in (args or [])[len(q):]], p['p'], w.wc.dict['C9_bsmumu'].real if w.wc else 0))
    F = {'sum': lambda *x: sum(x), 'diff': lambda *x: x[0] - sum(x[1:]), 'ratio': lambda *x: x[0] / x[-1], 'last': lambda *x: x[-1],
         'poly': lambda *x: sum((k + 1) * v**(k + 1) for k, v in enumerate(x))}[c['f']]
    ctx.label(n, c['f'], str(c['bad']))
    if c['bad']:
        i = c['pos'] % n
        if c['bad'] == 'missing':
            names[i] = 'nonexistent'
        elif c['bad'] == 'noprediction':
            Observable('vnop', arguments=args)
            names[i] = 'vnop'
        else:
            if n < 2:
                raise Skip()
            Observable('vother', arguments=['E'])
            Prediction('vother', lambda w, p, E: 1)
            names[i] = 'vother'
        before = list(Observable.instances)
        try:
            Observable.from_function('vnew', names, F)
        except (ValueError, AssertionError):
            expect(list(Observable.instances) == before, 'a rejected observable is registered')
            return
        fail('from_function(%r) with %s is accepted', names, c['bad'])
    o = Observable.from_function('vnew', names, F)
    expect(Observable['vnew'] is o and o.arguments == args, 'new observable has arguments %r', o.arguments)
    sm = flavio.physics.eft._wc_sm
    for w, c9 in ((sm, 0), (wc, c['c9'])):
        x = [val(int(m[2:]), a, c['par'], c9) for m in names]
        want = F(*x)
        for k in range(2):
            got = o.prediction_par(par, w, *a) if k == 0 else o.prediction_par(par, w, **dict(zip(args or [], a)))
            expect(abs(got - want) <= 1e-12 * sum(abs(v) for v in x + [want]), 'combination %r, expected %r', got, want)
    if c['nested']:
        o2 = Observable.from_function('vnew2', ['vnew', 'vo0'], lambda x, y: 2 * x - y)
        got = o2.prediction_par(par, sm, *a)
        w2 = 2 * F(*[val(int(m[2:]), a, c['par'], 0) for m in names]) - val(0, a, c['par'], 0)
        expect(abs(got - w2) <= 1e-9 * (1 + abs(w2) + abs(got)), 'nested combination %r, expected %r', got, w2)


# ---------------------------------------------------------------- auxiliary quantities
@st.composite
def case_aux(draw):
    return {'quant': [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))],
            'ops': [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(['conf', 'conf', 'redef', 'eval', 'central', 'random', 'unset']), st.integers(0, 2), st.integers(0, 2), gd.fl(-3, 3)),
                                                   min_size=2, max_size=10))]}


@swap_observables
def check_aux(c, ctx):
    import flavio
    import flavio.classes as fc
    sm = flavio.physics.eft._wc_sm
    conf = fc.config['implementation']
    table = {}
    for q, n in enumerate(c['quant']):
        fc.AuxiliaryQuantity('vq%d' % q, arguments=['q2'])
        for i in range(n):
            table[q, i] = 10.0 * q + i
            im = fc.Implementation('vi%d%d' % (q, i), 'vq%d' % q, lambda wc_obj, par_dict, q2, v=table[q, i]: v * par_dict['p'] + q2)
            im.set_description('impl %d%d' % (q, i))
    sel = {}
    po = flavio.ParameterConstraints()
    po.add_constraint(['p'], flavio.statistics.probability.DeltaDistribution(1.5))
    sa = fc.Implementation.show_all()
    want = {}
    for (q, i) in table:
        want.setdefault('vq%d' % q, {})['vi%d%d' % (q, i)] = 'impl %d%d' % (q, i)
    expect({k: dict(v) for k, v in sa.items()} == want, 'show_all gives %r, expected %r', sa, want)
    try:
        fc.Implementation('vbad', 'nonexistent', lambda *a: 0)
    except ValueError:
        pass
    else:
        fail('implementation of an unknown quantity is accepted')
    for o, q, i, x in c['ops']:
        q = q % len(c['quant'])
        i = i % c['quant'][q]
        A = fc.AuxiliaryQuantity['vq%d' % q]
        if o == 'conf':
            conf['vq%d' % q] = 'vi%d%d' % (q, i)
            sel[q] = i
        elif o == 'unset':
            conf.pop('vq%d' % q, None)
            sel.pop(q, None)
        elif o == 'redef':
            table[q, i] = x
            fc.Implementation('vi%d%d' % (q, i), 'vq%d' % q, lambda wc_obj, par_dict, q2, v=x: v * par_dict['p'] + q2)
        else:
            p = {'eval': 2.5}.get(o, 1.5)
            call = {'eval': lambda: A.prediction({'p': 2.5}, sm, q2=x), 'central': lambda: A.prediction_central(po, sm, x),
                    'random': lambda: A.get_implementation().get_random(po, sm, q2=x)}[o]
            if q not in sel:
                try:
                    call()
                except KeyError:
                    continue
                fail('quantity without implementation can be evaluated')
            expect(abs(call() - (table[q, sel[q]] * p + x)) < 1e-12 * (1 + abs(x) + abs(table[q, sel[q]])), 'quantity %d with implementation %d gives %r', q, sel[q], call())
            ctx.label(o)


# ---------------------------------------------------------------- taxonomy
@st.composite
def case_tax(draw):
    w = st.sampled_from(['Animal', 'Cat', 'Pet', r'$B\to X$', 'Process', 'X'])
    return {'items': draw(st.lists(st.tuples(st.integers(0, 3), st.lists(w, min_size=1, max_size=4).map(list)).map(list), min_size=1, max_size=8))}


@swap_observables
def check_tax(c, ctx):
    from flavio.classes import Observable
    for i in range(4):
        Observable('vt%d' % i)
    want = {}
    for i, path in c['items']:
        Observable['vt%d' % i].add_taxonomy(' :: '.join(path))
        t = want
        for p in path + ['vt%d' % i]:
            t = t.setdefault(p, {})
        expect(Observable.taxonomy_dict() == want, 'taxonomy %r, expected %r', Observable.taxonomy_dict(), want)
    Observable.taxonomy_dict().clear()
    expect(Observable.taxonomy_dict() == want, 'the returned taxonomy is not a copy')
    if len(c['items']) < 2:
        ctx.trivial()


# ---------------------------------------------------------------- the real configuration
# quantity: observables that use it (with arguments)
USERS = {
    'CKM matrix': [('BR(B0->mumu)',), ('BR(B+->taunu)',), ('eps_K',), ('DeltaM_s',), ('BR(B->Xsgamma)',), ('BR(KL->pinunu)',)],
    'B->K* form factor': [('dBR/dq2(B0->K*nunu)', 5.0), ('FL(B0->K*mumu)', 17.0), ('BR(B0->K*gamma)',)],
    'B->rho form factor': [('dBR/dq2(B0->rhonunu)', 5.0), ('dBR/dq2(B+->rhomunu)', 6.0)],
    'B->omega form factor': [('dBR/dq2(B+->omegamunu)', 6.0)],
    'Bs->phi form factor': [('FL(Bs->phimumu)', 17.0), ('BR(Bs->phigamma)',)],
    'Bs->K* form factor': [('dBR/dq2(Bs->K*munu)', 6.0)],
    'B->D* form factor': [('dBR/dq2(B0->D*munu)', 6.0)],
    'B->K form factor': [('dBR/dq2(B+->Kmumu)', 17.0), ('dBR/dq2(B+->Knunu)', 5.0)],
    'B->pi form factor': [('dBR/dq2(B0->pimunu)', 9.0), ('dBR/dq2(B0->pinunu)', 9.0)],
    'B->D form factor': [('dBR/dq2(B0->Dmunu)', 6.0)],
    'Lambdab->Lambda form factor': [('dBR/dq2(Lambdab->Lambdamumu)', 17.0)],
    'Lambdab->Lambda(1520) form factor': [('dBR/dq2(Lambdab->Lambda(1520)mumu)', 16.0)],
    'D->pi form factor': [('dBR/dq2(D0->pimunu)', 1.0), ('BR(D+->pimunu)',)],
    'D->K form factor': [('dBR/dq2(D0->Kmunu)', 1.0)],
    'B0->K*0ll spectator scattering': [('FL(B0->K*mumu)', 3.0)],
    'Bs->phill spectator scattering': [('FL(Bs->phimumu)', 3.0), ('BR(Bs->phigamma)',)],
    'B0->K0ll subleading effects at low q2': [('dBR/dq2(B0->Kmumu)', 3.0)],
    'B+->K+ll subleading effects at low q2': [('dBR/dq2(B+->Kmumu)', 3.0)],
}
SCALES = {'bll': [('BR(Bs->mumu)',), ('BR(B+->taunu)',)], 'bpll': [('dBR/dq2(B+->Kmumu)', 17.0), ('dBR/dq2(B0->Dtaunu)', 6.0)],
          'bvll': [('FL(B0->K*mumu)', 17.0), ('dBR/dq2(B0->D*taunu)', 6.0)], 'bxgamma': [('BR(B->Xsgamma)',)], 'bxlnu': [('BR(B->Xcenu)',)],
          'B0 mixing': [('DeltaM_d',), ('S_psiK',)], 'Bs mixing': [('DeltaM_s',)], 'K0 mixing': [('eps_K',)], 'lambdab': [('dBR/dq2(Lambdab->Lambdamumu)', 17.0)],
          'bvgamma': [('BR(B0->K*gamma)',)], 'bxll': [('dBR/dq2(B->Xsmumu)', 3.0)]}
_IMPL = {}
WCV = {'C9_bsmumu': .4, 'CVL_bcmunu': .1, 'CSR_bctaunu': .2, 'CVLL_bsbs': 1e-6, 'CVLL_bdbd': 1e-7, 'CVL_bumunu': .1, 'C7_bs': .03}


def impls():
    import flavio
    if not _IMPL:
        for n, i in flavio.classes.Implementation.instances.items():
            if n != 'Standard' and n != 'Wolfenstein' and n != 'beta gamma':
                _IMPL.setdefault(i.quantity, []).append(n)
        for q in list(_IMPL):
            _IMPL[q].sort()
    return _IMPL


@st.composite
def case_conf(draw):
    qs = list(draw(st.permutations(sorted(USERS))))[:draw(st.integers(1, 2))]
    scs = list(draw(st.permutations(sorted(SCALES))))[:draw(st.integers(0, 1))]
    obs = [list(draw(st.sampled_from(USERS[q]))) for q in qs] + [list(draw(st.sampled_from(SCALES[s]))) for s in scs]
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(['impl', 'impl', 'scale', 'ckm', 'wc'] if scs else ['impl', 'impl', 'ckm', 'wc']))
        if k == 'impl':
            ops.append([k, draw(st.sampled_from(qs)), draw(st.integers(0, 9))])
        elif k == 'scale':
            ops.append([k, scs[0], draw(st.sampled_from([1.0, 1.05, 1.1]))])
        elif k == 'ckm':
            ops.append([k, 'CKM matrix', draw(st.sampled_from(['Tree', 'Standard', 'Wolfenstein', 'beta gamma']))])
        else:
            ops.append([k])
    return {'obs': obs, 'ops': ops}


def check_conf(c, ctx):
    import flavio
    import C21
    import phys
    from flavio.config import config
    par = dict(phys.central())
    par.update(t12=.2265, t13=.0037, t23=.0415, delta=1.2, laC=.2255, A=.82, rhobar=.14, etabar=.35, beta=.39)
    saved = copy.deepcopy(config)
    wc = [phys._sm(), phys.StubWilson(WCV)]
    use = 0
    log = []

    def run(o, w):
        try:
            return phys.ev(o[0], par, wc[w], o[1:])
        except KeyError as e:
            if str(e.args[0]) in par:
                raise
            return 'missing ' + str(e)

    def state():
        return {k: dict(config[k]) for k in ('implementation', 'renormalization scale')}

    def set_state(s):
        for k in s:
            config[k].clear()
            config[k].update(s[k])
    try:
        C21.clear_caches()
        seen = []
        for op in [['none']] + c['ops'] + [['back']]:
            if op[0] == 'impl':
                l = impls().get(op[1], [])
                if l:
                    config['implementation'][op[1]] = l[op[2] % len(l)]
            elif op[0] == 'scale':
                config['renormalization scale'][op[1]] = saved['renormalization scale'][op[1]] * op[2]
            elif op[0] == 'ckm':
                config['implementation']['CKM matrix'] = op[2]
            elif op[0] == 'wc':
                use = 1 - use
            elif op[0] == 'back':
                set_state({k: dict(saved[k]) for k in ('implementation', 'renormalization scale')})
            s = state()
            for o in c['obs']:
                seen.append((s, o, use, run(o, use)))
        done = {}
        for s, o, w, v in seen:
            k = (str(s), str(o), w)
            if k not in done:
                C21.clear_caches()
                set_state(s)
                done[k] = run(o, w)
            r = done[k]
            if isinstance(r, str) or isinstance(v, str):
                expect(r == v, '%r: %r after configuration changes, %r in a cold state', o, v, r)
                ctx.label('missing')
                continue
            expect(C21.same(v, r), '%r: %r after configuration changes, %r in a cold state with the same configuration', o, v, r)
        vals = {str(v) for s, o, w, v in seen if o == c['obs'][0]}
        if len(vals) < 2:
            ctx.trivial()
        ctx.label('changed' if len(vals) > 1 else 'unchanged')
    finally:
        for k in saved:
            config[k] = saved[k] if not isinstance(config[k], dict) else config[k]
            if isinstance(config[k], dict):
                config[k].clear()
                config[k].update(saved[k])
        C21.clear_caches()


# ---------------------------------------------------------------- all registered implementations
def check_impl(c, ctx):
    import flavio
    from flavio.classes import Implementation, AuxiliaryQuantity, Observable
    from flavio.config import config
    q = c['quantity']
    if q not in config['implementation']:
        ctx.trivial()
        return
    n = config['implementation'][q]
    expect(n in Implementation.instances, 'configured implementation %r of %r does not exist', n, q)
    expect(Implementation[n].quantity == q, 'configured implementation %r of %r is one of %r', n, q, Implementation[n].quantity)
    expect(AuxiliaryQuantity[q].get_implementation() is Implementation[n], 'get_implementation of %r', q)


def build():
    import flavio
    return [
        Sub('registry', case_reg(), check_reg, quick=800, thorough=20000, shards=4),
        Sub('arguments', case_args(), check_args, quick=1200, thorough=20000, shards=4),
        Sub('function', case_func(), check_func, quick=600, thorough=10000, shards=4),
        Sub('auxiliary', case_aux(), check_aux, quick=600, thorough=10000, shards=4),
        Sub('taxonomy', case_tax(), check_tax, quick=300, thorough=5000, shards=4),
        Sub('config', case_conf(), check_conf, quick=48, thorough=1500, shards=12),
        Sweep('configured', sorted(flavio.classes.AuxiliaryQuantity.instances), lambda n: st.just({'quantity': n}), check_impl, shards=2),
    ]
