"""C14: models survive the round trip through JSON."""
import json, math, re
import numpy
import build, ref, p_c06
from core import check, check_close, Discard
from p_c02 import feats
from sppl.compilers.spe_to_dict import spe_from_dict, spe_to_dict
from sppl.transforms import Id

TIGHT = dict(rel=1e-9, abs_=1e-11)
MAP = {'X': 'X[0]', 'Y': 'X[1]', 'Z': 'Z_0', 'U': 'U[2]'}


def rename_model(m, f):
    """The model with its variables renamed."""
    if isinstance(m, dict):
        m = {k: rename_model(v, f) if k in ('m', 'c', 'x', 'e') else v for k, v in m.items()}
        if 'v' in m:
            m['v'] = f(m['v'])
        if m.get('t') == 'trans':
            m['x'] = [f(m['x'][0]), rename_ev(m['x'][1], f)]
        if m.get('t') == 'cond':
            m['e'] = rename_ev(m['e'], f)
        if m.get('t') == 'constr':
            m['a'] = {f(k): v for k, v in m['a'].items()}
        return m
    if isinstance(m, list):
        return [rename_model(x, f) for x in m]
    return m


def rename_ev(e, f):
    if isinstance(e, list):
        if e and e[0] == 'lit':
            return ['lit', f(e[1])] + [rename_ev(x, f) for x in e[2:]]
        return [rename_ev(x, f) for x in e]
    return e


def trip(spe):
    data = spe_to_dict(spe)
    text = json.dumps(data)
    return json.loads(text), spe_from_dict(json.loads(text))


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


NUM = re.compile(r'-?\d+\.\d+(e[-+]?\d+)?')


def normal(d):
    """Serialised data with one spelling of each number."""
    return NUM.sub(lambda x: '%.12g' % float(x.group()), json.dumps(d, sort_keys=True))


def definitions(m):
    if isinstance(m, dict):
        return ([m['x'][1]] if m.get('t') == 'trans' else []) + [x for k in ('m', 'c') for x in definitions(m.get(k))]
    return [x for y in m for x in definitions(y)] if isinstance(m, list) else []


def in_event_partial(e, inside=False):
    if not isinstance(e, list) or not e:
        return False
    if inside and e[0] in ('log', 'logb', 'sqrt', 'root', 'rdiv'):
        return True
    return any(in_event_partial(x, inside or e[0] in ('ind', 'pw')) for x in e[1:])


def sample_key(s):
    return {str(k): v for k, v in s.items()}


def answers_alike(what, spe, back, evs, assigns):
    check(back.get_symbols() == spe.get_symbols(), '%s: variables %s become %s', what, spe.get_symbols(), back.get_symbols())
    for e in evs:
        check_close(float(back.prob(e)), float(spe.prob(e)), '%s: P(%s) after the round trip' % (what, e), **TIGHT)
    for a in assigns:
        p, q = float(spe.logpdf(a)), float(back.logpdf(a))
        check(same(p, q), '%s: log density of %s is %r, after the round trip %r', what, a, p, q)


def run(case, ctx):
    if case['kind'] == 'named':
        return named(case, ctx)
    m, evs, cond, a = case['m'], case['evs'], case['cond'], case['a']
    ref.validate(m)
    if case['arr']:
        f = lambda v: MAP.get(v, v)
        m, evs, cond = rename_model(m, f), rename_ev(evs, f), rename_ev(cond, f)
        a = {f(k): v for k, v in a.items()}
    spe = build.model(m, case['style'])
    events = [build.ev(e) for e in evs]
    asg = build.assignment(a)
    assigns = [asg, dict(list(asg.items())[:1])]
    h = hash(spe)
    data, back = trip(spe)
    check(hash(spe) == h and spe == spe, 'the model changed by serialisation')
    for x in feats(m):
        ctx.tag('model:' + x)
    answers_alike('model', spe, back, events, assigns)
    for e, p in zip(evs, ref.probs(m, evs)):
        check_close(float(back.prob(build.ev(e))), p, 'P(%s) after the round trip' % build.ev(e), rel=5e-6, abs_=5e-7)
        if 1e-4 < p < 1 - 1e-4:
            ctx.nt = True
    data2, back2 = trip(back)
    check(normal(data2) == normal(data), 'serialised again:\n%s\nbut first:\n%s', json.dumps(data2)[:1500], json.dumps(data)[:1500])
    # Drawn values need every part of every definition to be defined.
    # The same seed gives the same samples (where every derived variable is
    # defined with probability one).
    partial = any(in_event_partial(x) for x in definitions(m))
    derived = sorted(v for v in ref.variables(m) if v in ('U', 'V', MAP['U']))
    if not partial and all(ref.prob(m, ['or', [['lit', u, ['x'], ['lt', 0]], ['lit', u, ['x'], ['ge', 0]]]]) > 1 - 1e-12 for u in derived):
        same_samples(spe, back, case['seed'])
        ctx.tag('sampled')
    # Further conditioning and observation, before and after.
    if ref.prob(m, cond) > 1e-4:
        c = build.ev(cond)
        p1, p2 = spe.condition(c), back.condition(c)
        answers_alike('posterior given %s' % c, p1, p2, events, [])
        _, p3 = trip(p1)
        answers_alike('serialised posterior given %s' % c, p1, p3, events, [])
        ctx.tag('posterior')
    d, w = ref.density(m, a)
    if d is not None and w > 1e-9:
        o1, o2 = spe.constrain(asg), back.constrain(asg)
        answers_alike('observing %s' % asg, o1, o2, events, [asg])
        _, o3 = trip(o1)
        answers_alike('serialised, observing %s' % asg, o1, o3, events, [asg])
        ctx.tag('observed')


def same_samples(spe, back, seed):
    draws = []
    for s in (spe, back):
        r = s.sample(5, prng=numpy.random.RandomState(seed))
        draws.append([sample_key(x) for x in r])
    for x, y in zip(*draws):
        check(set(x) == set(y), 'samples %s and %s', x, y)
        for k in x:
            ok = x[k] == y[k] if isinstance(x[k], str) or isinstance(y[k], str) else same(float(x[k]), float(y[k]))
            check(ok, 'sampling with one seed: %s and after the round trip %s', x, y)


def named(case, ctx):
    leaf, what, f, discrete, lo, hi, loc, scale = p_c06.make(case['c'])
    X, Y = Id('X'), Id('Y')
    qs = [float(f.ppf(u / 32)) for u in case['us']]
    if not all(math.isfinite(q) for q in qs) or len(set(qs)) < 2:
        raise Discard('no quantiles')
    spe = leaf
    if case['shape'] in (1, 3):
        c = (X >= qs[0]) if len(qs) < 4 else ((X >= qs[0]) & (X <= qs[1])) | (X > qs[2])
        if not spe.prob(c) > 1e-6:
            raise Discard('unlikely condition')
        spe = spe.condition(c)
    if case['shape'] >= 2:
        spe = spe.transform(Y, build.expr(case['x'], X))
    if case['shape'] == 4:
        v = qs[0]
        if not math.isfinite(float(leaf.logpdf({X: v}))):
            raise Discard('no density')
        spe = spe.constrain({X: v})
    data, back = trip(spe)
    evs = [X <= q for q in qs] + [(X > qs[0]) & (X < qs[-1])]
    if case['shape'] >= 2:
        y = ref.ev_expr(case['x'], qs[0])
        if y is not None:
            evs += [Y <= float(y) + 0.25, Y > float(y) - 0.25]
    answers_alike(what, spe, back, evs, [{X: q} for q in qs[:2]])
    data2, _ = trip(back)
    check(normal(data2) == normal(data), '%s serialised again: %s but first %s', what, data2, data)
    ctx.tag('family:' + case['c']['name'], 'shape:%d' % case['shape'])
    ctx.nt = True
