from hypothesis import strategies as st
from gen import common as g

NAMES = ['alpha', 'anglit', 'arcsine', 'argus', 'bernoulli', 'beta', 'betabinom', 'betaprime', 'binom', 'boltzmann',
 'bradford', 'burr', 'burr12', 'cauchy', 'chi', 'chi2', 'cosine', 'crystalball', 'dgamma', 'dlaplace', 'dweibull',
 'erlang', 'expon', 'exponnorm', 'exponpow', 'exponweib', 'f', 'fatiguelife', 'fisk', 'foldcauchy', 'foldnorm',
 'gamma', 'gausshyper', 'genexpon', 'genextreme', 'gengamma', 'genhalflogistic', 'geninvgauss', 'genlogistic',
 'gennorm', 'genpareto', 'geom', 'gilbrat', 'gompertz', 'gumbel_l', 'gumbel_r', 'halfcauchy', 'halfgennorm',
 'halflogistic', 'halfnorm', 'hypergeom', 'hypsecant', 'invgamma', 'invgauss', 'invweibull', 'johnsonsb',
 'johnsonsu', 'kappa3', 'kappa4', 'ksone', 'kstwobign', 'laplace', 'levy', 'levy_l', 'levy_stable', 'loggamma',
 'logistic', 'loglaplace', 'lognorm', 'logser', 'loguniform', 'lomax', 'maxwell', 'mielke', 'moyal', 'nakagami',
 'nbinom', 'ncf', 'nct', 'ncx2', 'norm', 'normal', 'norminvgauss', 'pareto', 'pearson3', 'planck', 'poisson',
 'powerlaw', 'powerlognorm', 'powernorm', 'randint', 'rayleigh', 'rdist', 'recipinvgauss', 'rice',
 'semicircular', 'skellam', 'skewnorm', 't', 'trapz', 'triang', 'truncexpon', 'truncnorm', 'tukeylambda',
 'uniform', 'vonmises', 'vonmises_line', 'wald', 'weibull_max', 'weibull_min', 'wrapcauchy', 'yulesimon', 'zipf']

mult = st.sampled_from([1, 1, 1, 0.5, 0.75, 1.5, 2, -1])
us = st.integers(1, 31).map(lambda k: k / 32)


@st.composite
def query(draw):
    """Sets described by quantiles: resolved by the worker."""
    k = draw(st.sampled_from(['lt', 'le', 'gt', 'ge', 'iv', 'iv', 'pt', 'un', 'out', 'edge']))
    n = {'iv': 2, 'un': 4, 'pt': 2, 'out': 1, 'edge': 1}.get(k, 1)
    return [k, [draw(us) for _ in range(n)], draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from([0, 0.5, 1, 10]))]


@st.composite
def named(draw, name):
    qs = [draw(query()) for _ in range(4)]
    return {'t': 'named', 'name': name, 'pi': draw(st.integers(0, 3)),
            'mult': [draw(mult) for _ in range(4)],
            'loc': draw(st.sampled_from([None, None, 0, 1, 2, -3, -0.5, 2.25, {'q': [1, 3]}, 10])),
            'scale': draw(st.sampled_from([None, None, 1, 2, 0.5, 3, {'q': [2, 3]}, 0.25])),
            'qs': qs, 'seed': draw(st.integers(0, 2 ** 20)), 'kind': draw(st.integers(0, 2))}


@st.composite
def finite(draw, t):
    seed = draw(st.integers(0, 2 ** 20))
    n = draw(st.integers(1, 6))
    ws = [draw(st.integers(0 if n > 1 and i else 1, 9)) for i in range(n)]
    if t == 'choice':
        vs = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'ab', 'A', ' x', 'é', 'zz top', "it's", '1']),
                           min_size=n, max_size=n, unique=True))
        return {'t': 'choice', 'vs': vs, 'ws': ws, 'kind': draw(st.integers(0, 2)), 'seed': seed}
    vs = draw(st.lists(st.integers(-8, 12), min_size=n, max_size=n, unique=True))
    if t == 'mix':
        comps = [draw(g.dist_of('r')) for _ in range(draw(st.integers(2, 3)))]
        return {'t': 'mix', 'ds': comps, 'ws': [draw(st.integers(1, 9)) for _ in comps],
                'sets': [draw(g.num_set(['x'])) for _ in range(4)], 'seed': seed}
    return {'t': t, 'vs': vs, 'ws': [max(w, 1) for w in ws], 'kind': draw(st.integers(0, 2)),
            'sets': [draw(g.num_set(['x'])) for _ in range(4)], 'seed': seed}


def partitions(tier):
    fin = ['choice', 'discrete', 'uniformd', 'atomic', 'rv_discrete', 'mix']
    slow = ('geninvgauss', 'levy_stable', 'norminvgauss')
    return [(named(n), 0.5 if n in slow else 1) for n in NAMES] + [(finite(t), 4) for t in fin]
