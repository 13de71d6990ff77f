"""Histories of queries and derivations over a family of similar models."""
from hypothesis import strategies as st
from gen import common as g
from gen import c13
import ref

MEMO = st.sampled_from(['none', 'false', 'a', 'a', 'a', 'b'])


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3])), types=('c', 'c', 'i', 'r', 's', 'm')))
    m, ty = draw(g.rich_model(types, draw(st.integers(0, 2)), 1, kinds=('trans', 'cond')))
    models, tys = [m], [ty]
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 3))
        if k <= 1:
            try:
                models.append(draw(c13.mutate(m)))
                tys.append({v: t for v, t in ty.items() if v in ref.variables(models[-1])})
            except KeyError:
                pass
        elif k == 2:
            models.append(draw(g.base_model(types, 2)))
            tys.append(dict(types))
        else:
            t = {'K': draw(st.sampled_from(['c', 'i', 's']))}
            models.append(draw(g.base_model(t, 1)))
            tys.append(t)
    recs, rtys = list(models), list(tys)
    pool = [draw(g.event(ty, draw(st.integers(0, 2)), None, 4)) for _ in range(draw(st.integers(2, 4)))]
    assigns = [{v: draw(g.value_for(m, v, t)) for v, t in ty.items() if t != 'd'} for _ in range(2)]
    exprs = [['U', draw(st.sampled_from(sorted(types))), draw(g.expression(2, mindepth=1, ops=tuple(g.TOTAL_OPS)).map(g.exactify))]]

    def event(i):
        c = [e for e in pool if {l[1] for l in ref.literals(e)} <= set(rtys[i])]
        if c and draw(st.integers(0, 4)):
            return draw(st.sampled_from(c))
        e = draw(g.event(rtys[i], draw(st.integers(0, 1)), None, 4))
        pool.append(e)
        return e
    ops = []
    for _ in range(draw(st.integers(4, 20 if big else 12))):
        i = draw(st.integers(0, len(recs) - 1))
        k = draw(st.sampled_from(['prob', 'prob', 'prob', 'cond', 'cond', 'constr', 'logpdf', 'trans', 'mi', 'prod', 'mix',
                                  'sample', 'subset', 'json', 'render', 'drop', 'again']))
        memo = draw(MEMO)
        if k == 'prob':
            ops.append([k, i, event(i), memo])
        elif k == 'mi':
            ops.append([k, i, event(i), event(i), memo])
        elif k == 'cond':
            e = event(i)
            if draw(st.integers(0, 5)):
                e = g.likely(recs[i], e) or e
            ops.append([k, i, e, memo])
            try:
                if ref.prob(recs[i], e) > 1e-6:
                    recs.append({'t': 'cond', 'm': recs[i], 'e': e})
                    rtys.append(rtys[i])
            except Exception:
                pass
        elif k in ('constr', 'logpdf'):
            a = dict(draw(st.sampled_from(assigns)))
            a = {v: x for v, x in a.items() if v in rtys[i]}
            if len(a) > 1 and draw(st.booleans()):
                a.pop(sorted(a)[0])
            if a:
                ops.append([k, i, a, memo])
        elif k == 'trans':
            u, b, e = exprs[0]
            if b in rtys[i] and u not in rtys[i] and types[b] in g.NUMERIC:
                ops.append([k, i, u, [b, e]])
                recs.append({'t': 'trans', 'm': recs[i], 'v': u, 'x': [b, e]})
                rtys.append(dict(rtys[i], **{u: 'd'}))
        elif k in ('prod', 'mix'):
            ops.append([k, i, draw(st.integers(0, len(recs) - 1))])
        elif k in ('sample', 'subset'):
            ops.append([k, i, draw(st.integers(0, 999))])
        else:
            ops.append([k, i])
    return {'models': models, 'pool': pool[:6], 'ops': ops, 'style': draw(st.integers(0, 2))}


def strategy(tier):
    return _case(tier != 'quick')
