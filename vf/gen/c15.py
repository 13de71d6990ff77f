from hypothesis import strategies as st
from gen import c11
from gen.c14 import model_case, named_case

EXTRA = dict(how=st.integers(0, 2), width=st.sampled_from([1, 2, 3, 6, 8, 10, 15]))


@st.composite
def extend(draw, base, kind=None):
    c = dict(draw(base))
    c.update({k: draw(s) for k, s in EXTRA.items()})
    if kind:
        c.update(kind=kind, arr=False)
    return c


def strategy(tier):
    big = tier != 'quick'
    m = extend(model_case(big))
    return st.one_of(m, m, m, extend(named_case()), extend(c11._case(big), 'prog'))
