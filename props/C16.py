"""YAML input with includes; list of papers to cite."""
import os
import shutil
import tempfile
import warnings
from collections import OrderedDict
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Sweep, expect, fail, Skip
import phys
import flavio
import flavio.citations
import flavio.io.yaml as fy
import yaml

RULE = ('A case is a tree of YAML files with includes (nested folders, relative and absolute paths, merged lists), or a history of registrations of '
        'papers with nested scopes, or an observable evaluated with cold and warm caches. Non-trivial: at least one include or at least one paper '
        'cited; distinct by tree, history or evaluation point.')
ASSUMPTIONS = ['the YAML parser itself', 'relative includes are relative to the file that contains them']
LEVEL_NOTE = 'Generated file trees and histories against reference constructions; metamorphic relations for citations.'

# ------------------------------------------------------------------ YAML
scalar = st.one_of(st.integers(-1000, 1000), st.floats(-1e3, 1e3).map(lambda x: round(x, 3)), st.booleans(), st.none(),
                   st.sampled_from(['a', 'BR(B->K*mumu)', 'x y', 'ä', '', 'e+', '1e5x']))
key = st.sampled_from(['z', 'a', 'name', 'values', 'k1', 'B0->K*mumu', 'm', 'b'])
plain = st.recursive(scalar, lambda c: st.one_of(st.lists(c, max_size=3).map(lambda l: ['list', l]),
                                                 st.lists(st.tuples(key, c), max_size=3, unique_by=lambda t: t[0]).map(
                                                     lambda l: ['dict', [list(t) for t in l]])), max_leaves=6)


def node(depth):
    base = plain
    if depth == 0:
        return base
    c = st.deferred(lambda: node(depth - 1))
    file_ = st.tuples(st.sampled_from(['', 'sub', 'sub/deep', '..']), c, st.booleans()).map(lambda t: ['file', t[0], t[1], t[2]])
    listfile = st.tuples(st.sampled_from(['', 'sub', '..']), st.lists(c, max_size=3).map(lambda l: ['list', l]), st.booleans()).map(
        lambda t: ['file', t[0], t[1], t[2]])
    merge = st.lists(st.one_of(listfile, st.sampled_from(['nofile.yml', 'text', 5, True])), max_size=3).map(lambda l: ['merge', l])
    return st.one_of(base, file_, merge,
                     st.lists(st.one_of(base, file_, merge), min_size=1, max_size=3).map(lambda l: ['list', l]),
                     st.lists(st.tuples(key, st.one_of(base, file_, merge)), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(
                         lambda l: ['dict', [list(t) for t in l]]))


def expected(n):
    if isinstance(n, list):
        if n[0] == 'list':
            return [expected(x) for x in n[1]]
        if n[0] == 'dict':
            return OrderedDict((k, expected(v)) for k, v in n[1])
        if n[0] == 'file':
            return expected(n[2])
        out = []
        for x in n[1]:
            if isinstance(x, list):
                out += expected(x)
            else:
                out.append(x)
        return out
    return n


def flow(n, d, count, force_abs):
    """flow-style YAML text of a node; writes included files relative to folder d"""
    if isinstance(n, list):
        if n[0] == 'list':
            return '[' + ', '.join(flow(x, d, count, force_abs) for x in n[1]) + ']'
        if n[0] == 'dict':
            return '{' + ', '.join('"%s": %s' % (k, flow(v, d, count, force_abs)) for k, v in n[1]) + '}'
        if n[0] == 'file':
            return '!include "%s"' % write(n, d, count, force_abs)
        return '!include_merge_list [' + ', '.join(
            '"%s"' % write(x, d, count, force_abs) if isinstance(x, list) else yaml_scalar(x) for x in n[1]) + ']'
    return yaml_scalar(n)


def yaml_scalar(x):
    if isinstance(x, str):
        return '"%s"' % x
    if x is None:
        return 'null'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    return repr(x)


def write(n, d, count, force_abs):
    _, rel, content, absolute = n
    count[0] += 1
    name = 'f%d.yml' % count[0]
    sub = os.path.join(d, rel) if rel else d
    os.makedirs(sub, exist_ok=True)
    path = os.path.join(sub, name)
    text = flow(content, sub, count, False)
    with open(path, 'w') as f:
        f.write(text + '\n')
    return os.path.abspath(path) if absolute or force_abs else os.path.join(rel, name)


def same(a, b):
    if isinstance(b, OrderedDict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def relative_includes(n):
    """are there includes, and merges of relative names, in the text itself"""
    if isinstance(n, list):
        if n[0] == 'list':
            return any(relative_includes(x) for x in n[1])
        if n[0] == 'dict':
            return any(relative_includes(v) for k, v in n[1])
        return n[0] == 'file' and not n[3]
    return False


def check_yaml(case, ctx):
    tmp = tempfile.mkdtemp(prefix='verif_c16_')
    cwd = os.getcwd()
    try:
        d = os.path.join(tmp, 'x', 'y', 'z', 'w')
        os.makedirs(d)
        n = case['tree']
        exp = expected(n)
        count = [0]
        how = case['how']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if how == 'string':
                text = flow(n, d, count, True)
                got = fy.load_include(text)
            else:
                text = flow(n, d, count, False)
                p = os.path.join(d, 'main.yml')
                with open(p, 'w') as f:
                    f.write(text + '\n')
                if how == 'cwd':
                    os.chdir(d)
                    with open('main.yml') as f:
                        got = fy.load_include(f)
                else:
                    with open(p) as f:
                        got = fy.load_include(f)
        expect(same(got, exp), 'loading %s gives %r, expected %r', text, got, exp)
        ctx.label('%d includes' % min(count[0], 4), how)
        if count[0] == 0:
            ctx.trivial()
        # a string with a relative include is rejected
        if relative_includes(n):
            text = flow(n, d, [100], False)
            os.chdir(d)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    fy.load_include(text)
            except ValueError:
                pass
            else:
                fail('a YAML string with a relative include is accepted: %s', text)
        if case['dump'] and isinstance(exp, (list, dict)):
            again = yaml.load(yaml.dump(exp), Loader=fy.SafeIncludeLoader)
            expect(same(again, exp), 'dumping and loading %r gives %r', exp, again)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


yaml_case = st.fixed_dictionaries({'tree': node(3), 'how': st.sampled_from(['file', 'cwd', 'string']), 'dump': st.booleans()})

# ------------------------------------------------------------------ registration history
KEYS = sorted(yaml.safe_load(open(os.path.join(os.path.dirname(flavio.__file__), 'data', 'citations.yml'))))
DEFAULT = 'Straub:2018kue'


@st.composite
def hist_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['reg', 'reg', 'reg', 'regdef', 'clear', 'reset', 'open', 'close', 'closeexc', 'bad']))
        ops.append([k, draw(st.integers(0, len(KEYS) - 1))])
    return {'ops': ops}


def check_hist(case, ctx):
    orig = flavio.citations
    if 'test' not in orig.__class__.__name__.lower():
        pass
    base = type(orig)([DEFAULT])
    flavio.citations = base
    stack = []
    models = [({DEFAULT}, {DEFAULT})]        # (initial, current)
    n = 0
    try:
        for k, i in case['ops']:
            ini, cur = models[-1]
            c = flavio.citations
            if k in ('reg', 'regdef'):
                kk = KEYS[i] if k == 'reg' or len(models) > 1 else DEFAULT
                c.register(kk)
                models[-1] = (ini, cur | {kk})
                n += 1
            elif k == 'clear':
                c.clear()
                models[-1] = (ini, set())
            elif k == 'reset':
                c.reset()
                models[-1] = (ini, set(ini))
            elif k == 'open':
                s = c.collect()
                new = s.__enter__()
                expect(new is flavio.citations, 'the citations collected are not the ones in use')
                stack.append((s, new, c))
                models.append((set(), set()))
            elif k in ('close', 'closeexc'):
                if not stack:
                    continue
                s, new, before = stack.pop()
                exc = ValueError('x') if k == 'closeexc' else None
                r = s.__exit__(type(exc) if exc else None, exc, None)
                expect(not r, 'exceptions inside a citation scope are swallowed')
                expect(flavio.citations is before, 'citations are not restored after a scope')
                m = models.pop()
                expect(new.set == m[1], 'collected in the scope: %r instead of %r', new.set, m[1])
            else:
                try:
                    c.register('nobody:2031zzz')
                except KeyError:
                    pass
                else:
                    fail('an unknown key is accepted')
            c = flavio.citations
            cur = models[-1][1]
            expect(c.set == cur, 'after %s: citations are %r instead of %r', k, c.set, cur)
            expect(sorted(c) == sorted(cur), 'iteration over the citations gives %r instead of %r', list(c), cur)
            parts = [x for x in c.string.split(',') if x]
            expect(sorted(parts) == sorted(cur) and str(c) == c.string or set(parts) == cur, 'string of citations %r for %r', c.string, cur)
    finally:
        flavio.citations = orig
    if not n:
        ctx.trivial()
    ctx.label('depth%d' % len(models))


# ------------------------------------------------------------------ observables
def clear_caches():
    import functools
    import gc
    for o in gc.get_objects():
        if isinstance(o, functools._lru_cache_wrapper) and (getattr(o, '__module__', '') or '').startswith('flavio.'):
            if not o.__module__.startswith('flavio.physics.dileptons'):
                o.cache_clear()


def check_obs(case, ctx):
    name = case['obs']
    par = phys.central()
    args = phys.args_for(name, par, case['u'])
    o = flavio.Observable[name]
    orig = flavio.citations
    glob = type(orig)([DEFAULT])
    flavio.citations = glob
    try:
        if case['cold']:
            clear_caches()
        first = set(o.theory_citations(*args))
        expect(glob.set == {DEFAULT}, 'theory_citations adds papers to the citations in use: %r', glob.set)
        second = set(o.theory_citations(*args))
        expect(first == second, 'papers cited for %s%r differ when it is evaluated again: %r', name, args, first ^ second)
        kw = dict(zip(o.arguments or [], args))
        third = set(o.theory_citations(**kw))
        expect(first == third, 'papers cited for %s differ for keyword arguments: %r', name, first ^ third)
        flavio.sm_prediction(name, *args)
        expect(glob.set == first | {DEFAULT}, 'after a prediction of %s the citations are %r instead of %r and the default', name, glob.set, first)
        other = case['other']
        oargs = phys.args_for(other, par, case['u'])
        flavio.sm_prediction(other, *oargs)
        flavio.sm_prediction(name, *args)
        fo = set(flavio.Observable[other].theory_citations(*oargs))
        expect(glob.set == first | fo | {DEFAULT}, 'after predictions of %s and %s the citations are %r', name, other, glob.set)
        expect(first <= set(KEYS), 'unknown papers %r', first - set(KEYS))
    finally:
        flavio.citations = orig
    if not first:
        ctx.trivial()
    ctx.label('%d papers' % min(len(first), 8))


def obs_strategy(n):
    d = phys.point_strategy(n)
    return st.fixed_dictionaries({'obs': st.just(n), 'u': st.lists(st.integers(1, 99).map(lambda k: k / 100.), min_size=4, max_size=4),
                                  'cold': st.just(True), 'other': st.sampled_from(OTHERS)})


OTHERS = ['DeltaGamma_s', 'm_W', 'BR(Bs->mumu)', 'BR(B->Xsgamma)', 'BR(B->Xcenu)', 'BR(K+->pinunu)', 'Br_Zbb' if False else 'R_l']


def build():
    global OTHERS
    OTHERS = [o for o in OTHERS if o in flavio.Observable.instances]
    names = phys.names()
    return [Sub('yaml', yaml_case, check_yaml, 1000, 15000, 4),
            Sub('history', hist_case(), check_hist, 600, 6000, 4),
            Sweep('observables', names, obs_strategy, check_obs, 1, 2, 16, subset=420)]
