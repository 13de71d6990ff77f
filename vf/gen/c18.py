"""Families of equal, differently written and nearly equal objects."""
import copy
from hypothesis import strategies as st
from gen import common as g
from gen import c08, c13
from gen.c07 import pw
import ref

SWAP = {'lt': 'le', 'le': 'lt', 'gt': 'ge', 'ge': 'gt', 'ins': 'nins', 'nins': 'ins', 'and': 'or', 'or': 'and',
        'exp': 'abs', 'abs': 'neg', 'neg': 'abs', 'add': 'sub', 'sub': 'add', 'radd': 'rsub', 'rsub': 'radd',
        'mul': 'div', 'log': 'exp', 'sqrt': 'abs'}


def scalars(j, path=()):
    """Paths of everything that can be changed on its own."""
    if isinstance(j, dict):
        if 'q' in j or 'inf' in j:
            yield path
            return
        for k in sorted(j):
            if k not in ('t', 'k'):
                yield from scalars(j[k], path + (k,))
    elif isinstance(j, list):
        for i, x in enumerate(j):
            yield from scalars(x, path + (i,))
    elif isinstance(j, str):
        if j in SWAP or j in g.STRS:
            yield path
    else:
        yield path


def at(j, path):
    for k in path:
        j = j[k]
    return j


@st.composite
def tweak(draw, j):
    ps = list(scalars(j))
    if not ps:
        return j
    p = draw(st.sampled_from(ps))
    x = at(j, p)
    if isinstance(x, bool):
        y = not x
    elif isinstance(x, str):
        y = SWAP[x] if x in SWAP else draw(st.sampled_from(g.STRS))
    elif isinstance(x, dict) and 'inf' in x:
        y = 99
    else:
        f = draw(st.sampled_from([lambda v: v + 1, lambda v: v - 1, lambda v: -v, lambda v: 2 * v, lambda v: v + g.F(1, 2)]))
        y = f(ref.num(x))
        y = float(y) if isinstance(x, float) else g.jnum(y)
    j = copy.deepcopy(j)
    if not p:
        return y
    at(j, p[:-1])[p[-1]] = y
    return j


@st.composite
def shuffle(draw, j):
    """Unordered parts in another order (keywords, weights, outcomes, operands)."""
    if isinstance(j, dict):
        if 'q' in j or 'inf' in j:
            return j
        ks = sorted(j) if draw(st.booleans()) else sorted(j, reverse=True)
        r = {}
        for k in ks:
            if k == 'w' and isinstance(j[k], list):
                r[k] = draw(st.permutations(j[k]))
            elif k == 'c' and isinstance(j[k], list):
                r[k] = draw(st.permutations(draw(shuffle(j[k]))))
            else:
                r[k] = draw(shuffle(j[k]))
        return r
    if isinstance(j, list):
        if j and j[0] in ('and', 'or') and len(j) == 2:
            return [j[0], draw(st.permutations(draw(shuffle(j[1]))))]
        if j and j[0] in ('and', 'or') and len(j) == 3:
            a, b = draw(shuffle(j[1])), draw(shuffle(j[2]))
            return [j[0], b, a] if draw(st.booleans()) else [j[0], a, b]
        if j and j[0] in ('in', 'ins', 'nins'):
            return [j[0], draw(st.permutations(j[1]))]
        return [draw(shuffle(x)) for x in j]
    return j


@st.composite
def base(draw, kind, big):
    if kind == 'set':
        return draw(c08.tree(draw(st.integers(0, 3)), draw(st.sampled_from(['n', 'n', 's', 'm'])), draw(st.booleans())))
    if kind == 'expr':
        if draw(st.integers(0, 3)) == 0:
            return draw(pw(g.expression(1, ops=g.TOTAL_OPS)))
        return draw(g.expression(3, mindepth=1, ops=tuple(g.EXPR_OPS), deg=3))
    if kind == 'event':
        types = draw(g.var_types(3, types=('c', 'i', 's', 'm')))
        return draw(g.event(types, draw(st.integers(0, 2)), None, 6))


@st.composite
def _case(draw, big):
    kind = draw(st.sampled_from(['set', 'expr', 'event', 'model', 'model']))
    extra = {}
    if kind == 'model':
        types = draw(g.var_types(3, types=('c', 'i', 'r', 's', 'm')))
        j, ty = draw(g.rich_model(types, 1, 2, kinds=('trans', 'cond', 'constr')))
        extra = {'evs': [draw(g.event(ty, draw(st.integers(0, 1)), None, 4)) for _ in range(3)],
                 'a': {v: draw(g.value_for(j, v, t)) for v, t in ty.items() if t != 'd'}}
    else:
        j = draw(base(kind, big))
    items, nums = [j], [0]
    for _ in range(draw(st.integers(2, 5))):
        src = draw(st.sampled_from(items))
        how = draw(st.sampled_from(['tweak', 'tweak', 'tweak', 'shuffle', 'shuffle', 'copy', 'mutate']))
        if how == 'tweak':
            new = draw(tweak(src))
        elif how == 'mutate' and kind == 'model':
            try:
                new = draw(c13.mutate(src))
            except KeyError:
                new = src
        elif how == 'copy':
            new = src
        else:
            new = draw(shuffle(src))
        items.append(new)
        nums.append(draw(st.sampled_from([0, 0, 1, 2])))
    return dict(extra, kind=kind, items=items, nums=nums, style=draw(st.integers(0, 2)))


def strategy(tier):
    return _case(tier != 'quick')
