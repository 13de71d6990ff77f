from hypothesis import strategies as st
from gen import c11
from gen import common as g
from gen.c14 import model_case

NAMES = ['model', 'm1', 'burglary']
SPACES = st.sampled_from(['', '', '', ' ', '  '])


@st.composite
def render_case(draw, big):
    c = draw(model_case(big))
    c['kind'] = 'render'
    c['clock'] = draw(st.sampled_from(['real', 'frozen', 'coarse', 'back']))
    c['dup'] = draw(st.booleans())
    return c


@st.composite
def history(draw, big):
    progs = [draw(c11._case(False)) for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for i in range(draw(st.integers(3, 9 if big else 7))):
        n = draw(st.sampled_from(NAMES[:2] if i < 4 else NAMES))
        op = draw(st.sampled_from(['define', 'define', 'spe', 'spe', 'python', 'namespace', 'graph', 'local', 'bad', 'noname', 'copy'])) \
            if i else 'define'
        o = {'op': op, 'name': n, 'pre': draw(SPACES), 'post': draw(SPACES)}
        if op == 'define' or op == 'local':
            o['prog'] = draw(st.integers(0, len(progs) - 1))
        if op == 'graph':
            o['file'] = draw(st.booleans())
        if op == 'bad':
            o['how'] = draw(st.integers(0, 3))
        ops.append(o)
    return {'kind': 'history', 'progs': progs, 'ops': ops}


def strategy(tier):
    big = tier != 'quick'
    return st.one_of(render_case(big), render_case(big), history(big))
