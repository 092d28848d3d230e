"""Numbers with uncertainties written as text mean what they say."""
import math
import os
import tempfile
import numpy as np
import scipy.stats
import yaml
from hypothesis import strategies as st
from harness import Sub, expect, fail, Skip
import gen_dist as gd

RULE = ('A case is a structured value (number; central value with one to three symmetric, asymmetric or bracketed errors; '
        'lognormal; range; upper limit) together with a choice of notation (sign symbols, blanks, parentheses, power-of-ten suffix) '
        'that is rendered to text. Non-trivial: at least one uncertainty; distinct by rendered text. Malformed texts are derived '
        'from well-formed ones by dropping or swapping a piece.')
ASSUMPTIONS = ['the notation is the one documented next to the parser and in the data files']
LEVEL_NOTE = 'Generated-input search: the generator knows the numbers, the parser has to recover them.'


@st.composite
def dec(draw, lo=0, hi=999, digits=(0, 4), neg=False):
    """decimal number as text"""
    nd = draw(st.integers(*digits))
    n = draw(st.integers(lo, hi * 10**min(nd, 2)))
    s = str(n).rjust(nd + 1, '0')
    t = s if nd == 0 else s[:-nd] + '.' + s[-nd:]
    if neg and draw(st.booleans()):
        t = '-' + t
    return t


WS = st.sampled_from(['', '', ' ', '  '])
# suffix text -> power
SUFFIX = ['', '', 'e%d', 'E%d', ' 1e%d', '1E%d', ' * 1e%d', '*10^%d', ' 10^(%d)', '*1e%+d', '* 10^(%d)', ' e%d']


@st.composite
def suffix(draw):
    f = draw(st.sampled_from(SUFFIX))
    n = draw(st.integers(-15, 15))
    return (f % n if f else ''), (n if f else 0)


def nonzero(t):
    return float(t) != 0


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['number', 'brackets', 'brackets', 'pm', 'pm', 'timesby', 'range', 'limit']))
    w = [draw(WS) for _ in range(8)]
    minus = draw(st.sampled_from(['-', '-', '-', '\u2212']))
    out = []
    power = 0
    if kind == 'number':
        t = draw(dec(neg=True)) + draw(st.sampled_from(['', 'e3', 'E-7', 'e+2', 'e-12']))
        out = [['delta', float(t)]]
        text = w[0] + t + w[1]
    elif kind == 'brackets':
        cv = draw(dec(neg=True))
        nd = len(cv.split('.')[1]) if '.' in cv else 0
        errs, errtext = [], ''
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 2)):
                e = str(draw(st.integers(1, 99)))
                v = int(e) * 10.0**(-nd)
            else:
                e = draw(dec(lo=1, digits=(1, 4)).filter(nonzero))
                v = float(e)
            errs.append(v)
            errtext += '(' + w[2] + e + w[3] + ')' + w[4]
        suf, power = draw(suffix())
        o, cl = draw(st.sampled_from([('', ''), ('(', ')')]))
        text = w[0] + o + cv + w[1] + errtext + cl + suf
        f = 10.0**power
        out = [['normal', float(cv) * f, e * f] for e in errs]
    elif kind == 'pm':
        cv = draw(dec(neg=True))
        sym, asym, errtext = [], [], ''
        pm = draw(st.sampled_from(['\u00b1', '+-', '\\pm ', '\u00b1']))
        for _ in range(draw(st.integers(1, 3))):
            e1 = draw(dec(lo=1).filter(nonzero))
            if draw(st.booleans()):
                errtext += w[2] + pm + w[3] + e1
                sym.append(float(e1))
            else:
                e2 = draw(dec(lo=1).filter(nonzero))
                errtext += w[2] + '+' + w[4] + e1 + w[5] + '-' + w[6] + e2
                asym.append([float(e1), float(e2)])
        suf, power = draw(suffix())
        o, cl = draw(st.sampled_from([('', ''), ('(', ')')]))
        if suf and not o:
            # without parentheses the factor would only apply to the last error
            suf = ' * ' + suf.strip(' *') if draw(st.booleans()) or suf[0] == '1' else suf
        text = w[0] + o + cv + errtext + w[7] + cl + suf
        f = 10.0**power
        out = [['normal', float(cv) * f, e * f] for e in sym] + [['asymmetric_normal', float(cv) * f, a * f, b * f] for a, b in asym]
    elif kind == 'timesby':
        cv = draw(dec(lo=1, neg=True).filter(nonzero))
        ex = draw(st.sampled_from(['', 'e-3', 'E+5', 'e12']))
        fac = draw(st.integers(101, 999))
        ft = '%d.%02d' % divmod(fac, 100)
        text = w[0] + cv + ex + w[1] + draw(st.sampled_from(['*/', '/*'])) + w[2] + ft
        out = [['log_normal', float(cv + ex), float(ft)]]
    elif kind == 'range':
        a, b = draw(dec(neg=True)), draw(dec(neg=True))
        ex = [draw(st.sampled_from(['', '', 'e2', 'E-4'])) for _ in range(2)]
        a, b = a + ex[0], b + ex[1]
        if float(a) > float(b):
            a, b = b, a
        if float(a) == float(b):
            b = a.split('e')[0].split('E')[0].lstrip('-') + '5e9'
            if '.' not in b:
                b = '7e9'
            if float(b) <= float(a):
                b = '9e30'
        suf, power = draw(suffix())
        text = w[0] + '[' + w[1] + a + w[2] + ',' + w[3] + b + w[4] + ']' + suf
        f = 10.0**power
        out = [['uniform', (float(a) + float(b)) / 2 * f, (float(b) - float(a)) / 2 * f]]
    elif kind == 'limit':
        l = draw(dec(lo=1).filter(nonzero)) + draw(st.sampled_from(['', 'e-9', 'E3', 'e+1']))
        cl = draw(st.sampled_from(['90', '95', '68', '99.7', '32.2', '5']))
        text = w[0] + '<' + w[1] + l + w[2] + '@' + w[3] + cl + w[4] + '%' + w[5] + draw(st.sampled_from(['CL', 'C.L.', 'C L', 'C. L.'])) + w[6]
        out = [['gaussian_upper_limit', float(l), float(cl) / 100]]
    if minus != '-' and kind != 'number' or kind == 'number':
        text = text.replace('-', minus) if not (kind == 'pm' and '+-' in text and minus != '-') else text
    return {'text': text, 'kind': kind, 'out': out}


ARGS = {'delta': ['central_value'], 'normal': ['central_value', 'standard_deviation'],
        'asymmetric_normal': ['central_value', 'right_deviation', 'left_deviation'], 'log_normal': ['central_value', 'factor'],
        'uniform': ['central_value', 'half_range'], 'gaussian_upper_limit': ['limit', 'confidence_level']}


def near(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def check(c, ctx):
    import flavio
    from flavio._parse_errors import constraints_from_string, errors_from_string, limit_from_string, range_from_string
    t, out = c['text'], c['out']
    ctx.label(c['kind'])
    if c['kind'] == 'number':
        ctx.trivial()
    pds = constraints_from_string(t)
    expect(isinstance(pds, list) and all(hasattr(p, 'logpdf') for p in pds), '%r: result %r is not a list of distributions', t, pds)
    got = [[p.class_to_string()] + [float(getattr(p, a)) for a in ARGS.get(p.class_to_string(), [])] for p in pds]

    def match(g, o):
        sc = max(abs(v) for v in o[1:]) if o[0] == 'uniform' else 0.0
        return g[0] == o[0] and len(g) == len(o) and all(near(x, y) or abs(x - y) <= 1e-12 * sc for x, y in zip(g[1:], o[1:]))
    rest = list(got)
    for o in out:
        hit = [g for g in rest if match(g, o)]
        expect(hit, '%r is read as %r, expected %r', t, got, out)
        rest.remove(hit[0])
    expect(not rest, '%r is read as %r, expected %r', t, got, out)
    # total constraint set from the text
    pc = flavio.classes.ParameterConstraints()
    pc.set_constraint('x', t)
    expect(pc.all_parameters == ['x'], 'parameters %r', pc.all_parameters)
    cv = pc.get_central('x')
    want = {'gaussian_upper_limit': 0.0}.get(out[0][0], out[0][1])
    sc = max([abs(v) for o in out for v in o[1:]])
    expect(near(cv, want) or abs(cv - want) <= 1e-12 * sc, '%r: central value %r expected %r', t, cv, want)
    if c['kind'] in ('brackets', 'pm'):
        ad = errors_from_string(t.replace('\u2212', '-'))
        expect(near(ad['central_value'], out[0][1]), '%r: central value %r', t, ad)
        r, l = pc.get_1d_errors_rightleft()['x']
        if all(o[0] == 'normal' for o in out):
            s = math.sqrt(sum(o[2]**2 for o in out))
            expect(abs(r / s - 1) < 1e-9 and abs(l / s - 1) < 1e-9, '%r: total error +%r -%r expected %r', t, r, l, s)
            x = cv + 0.7 * s
            lp = float(pc.get_logprobability_single('x', x))
            wl = scipy.stats.norm.logpdf(0.7) - math.log(s)
            tol = 1e-9 * (1 + abs(wl)) + 1e-13 * abs(cv) / s * 4
            expect(abs(lp - wl) < tol, '%r: log-probability %r expected %r', t, lp, wl)
            ctx.label('gauss')
        elif len(out) == 1:
            expect(near(r, out[0][2]) and near(l, out[0][3]), '%r: errors +%r -%r', t, r, l)


# ---------------------------------------------------------------- malformed
@st.composite
def case_bad(draw):
    cv = draw(dec(neg=True))
    e1, e2 = draw(dec(lo=1).filter(nonzero)), draw(dec(lo=1).filter(nonzero))
    k = draw(st.sampled_from(['word', 'plus', 'plusplus', 'minusplus', 'onesided', 'bracket', 'nocl', 'norange', 'reversed', 'clbig', 'neglimit',
                              'factor', 'two', 'empty', 'dangling', 'mixed', 'partial']))
    t = {'word': 'about ' + cv, 'plus': cv + ' + ' + e1, 'plusplus': cv + '+' + e1 + '+' + e2, 'minusplus': cv + ' -' + e1 + ' +' + e2,
         'onesided': cv + ' - ' + e1, 'bracket': cv + '(' + e1, 'nocl': '< ' + e1, 'norange': '[' + cv + ']',
         'reversed': '[%s, %s]' % (float(cv) + 1, cv), 'clbig': '< ' + e1 + ' @ 120% CL', 'neglimit': '< -' + e1 + ' @ 90% CL',
         'factor': e1 + ' */ 0.5', 'two': cv + ' ' + e1, 'empty': '', 'dangling': cv + ' +- ', 'mixed': cv + '(' + '3' + ')+-' + e1,
         'partial': cv + '+-' + e1 + '+' + e2}[k]
    return {'kind': k, 'text': t}


def check_bad(c, ctx):
    import flavio
    ctx.label(c['kind'])
    pc = flavio.classes.ParameterConstraints()
    try:
        pc.set_constraint('x', c['text'])
    except ValueError:
        expect(pc.all_parameters == [], 'a rejected text leaves a constraint')
        return
    fail('%r accepted: %r', c['text'], {p: (pc.get_central(p), pc.get_1d_errors_rightleft()) for p in pc.all_parameters})


# ---------------------------------------------------------------- parameter files
NAMES = ['m_b', 'm_c', 'alpha_s', 'Vub', 'Vcb', 'f_B0', 'm_W', 'tau_B0']


@st.composite
def case_file(draw):
    n = draw(st.integers(2, 4))
    names = list(draw(st.permutations(NAMES)))[:n]
    vals = []
    for _ in range(n):
        cv = draw(dec(neg=True, digits=(1, 3)))
        sym = [draw(dec(lo=1).filter(nonzero)) for _ in range(draw(st.integers(0, 2)))]
        asym = [[draw(dec(lo=1).filter(nonzero)), draw(dec(lo=1).filter(nonzero))] for _ in range(draw(st.integers(0 if sym else 1, 1)))]
        vals.append({'cv': cv, 'sym': sym, 'asym': asym})
    form = draw(st.sampled_from(['full', 'upper', 'number']))
    corr = draw(gd.corr_matrix(n))
    rho = draw(gd.fl(-0.9 / (n - 1), 0.9))
    singles = list(draw(st.permutations([x for x in NAMES if x not in names])))[:2]
    return {'names': names, 'vals': vals, 'form': form, 'corr': corr, 'rho': rho, 'singles': singles, 'again': draw(st.booleans())}


def check_file(c, ctx):
    import flavio
    from flavio.parameters import read_file_values_correlated, read_file_values
    n = len(c['names'])
    ctx.label(c['form'], n)
    corr = np.array(c['corr'])
    if c['form'] == 'number':
        corr = np.full((n, n), c['rho'])
        np.fill_diagonal(corr, 1)
    entry = {'full': corr.tolist(), 'upper': [corr[i, i:].tolist() for i in range(n)], 'number': c['rho']}[c['form']]
    doc, mu, sg = [], [], []
    for nm, v in zip(c['names'], c['vals']):
        t = v['cv'] + ''.join(' \u00b1 ' + e for e in v['sym']) + ''.join(' +%s-%s' % tuple(a) for a in v['asym'])
        doc.append({nm: t})
        mu.append(float(v['cv']))
        sg.append(math.sqrt(sum(float(e)**2 for e in v['sym']) + sum(float(a) * float(b) for a, b in v['asym'])))
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    f1, f2 = os.path.join(d, 'a.yml'), os.path.join(d, 'b.yml')
    with open(f1, 'w') as f:
        yaml.dump([{'values': doc, 'correlation': entry}], f)
    with open(f2, 'w') as f:
        yaml.dump({c['singles'][0]: '1.25(5)', c['singles'][1]: {'distribution': 'uniform', 'central_value': 2, 'half_range': '1e-1'}}, f)
    pc = flavio.classes.ParameterConstraints()
    read_file_values(f2, pc)
    read_file_values_correlated(f1, pc)
    if c['again']:
        read_file_values_correlated(f1, pc)
    os.remove(f1)
    os.remove(f2)
    os.rmdir(d)
    expect(sorted(pc.all_parameters) == sorted(c['names'] + c['singles']), 'parameters %r', pc.all_parameters)
    ca = pc.get_central_all()
    for nm, m in zip(c['names'], mu):
        expect(ca[nm] == m, 'central value of %s is %r expected %r', nm, ca[nm], m)
    expect(ca[c['singles'][0]] == 1.25 and ca[c['singles'][1]] == 2, 'central values %r', ca)
    e = pc.get_1d_errors_rightleft()
    for nm, s in zip(c['names'], sg):
        expect(abs(e[nm][0] / s - 1) < 1e-9 and abs(e[nm][1] / s - 1) < 1e-9, 'errors of %s %r expected %r', nm, e[nm], s)
    x = {nm: m + s * t for nm, m, s, t in zip(c['names'], mu, sg, [0.3, -0.8, 1.1, 0.2])}
    lp = pc.get_logprobability_all(dict(x, **{c['singles'][0]: 1.3, c['singles'][1]: 2.05}))
    want = gd.ref_mvn_logpdf([x[nm] for nm in c['names']], mu, np.outer(sg, sg) * corr)
    tot = float(sum(float(v) for v in lp.values()))
    want = float(want) + scipy.stats.norm.logpdf(1.3, 1.25, 0.05) - math.log(0.2)
    expect(len(lp) == 3 and abs(tot - want) < 1e-7 * (1 + abs(want)), 'total log-probability %r expected %r', tot, want)


def build():
    return [
        Sub('parse', case(), check, quick=3000, thorough=60000, shards=8),
        Sub('malformed', case_bad(), check_bad, quick=800, thorough=8000, shards=4),
        Sub('files', case_file(), check_file, quick=400, thorough=6000, shards=4),
    ]
