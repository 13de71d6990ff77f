from hypothesis import strategies as st
from gen import common as g
from gen.c10 import definition
import prog

NEW = ['X', 'Y', 'Z', 'W', 'R', 'S']


class State:
    """Variables defined so far: types (c i r s m; d derived; D derived or sampled)."""
    def __init__(self, types=None, stages=None):
        self.types = dict(types or {})
        self.stages = dict(stages or {})

    def copy(self):
        return State(self.types, self.stages)

    def guardable(self):
        return {v: ('d' if t == 'D' else t) for v, t in self.types.items() if t != 'm'}

    def bases(self):
        return sorted(v for v, t in self.types.items() if t in g.NUMERIC or t in 'dD')


@st.composite
def rhs_dist(draw, t):
    if draw(st.integers(0, 4)) == 0:
        n = draw(st.integers(2, 3))
        return {'k': 'mixd', 'c': [[draw(g.weights), draw(g.dist_of(t))] for _ in range(n)]}
    return draw(g.dist_of(t))


TOT = ('affine', 'affine', 'poly', 'abs')
GEXPR = st.one_of(st.just(['x']), st.just(['x']), g.expression(1, ops=('affine', 'abs')), g.expression(2, ops=TOT))


@st.composite
def guard(draw, s, depth=1, maxcl=3):
    types = s.guardable()
    dd = {v: t for v, t in types.items() if t != 'd' or 'poly' not in s.stages.get(v, ())}
    e = GEXPR if not any(t == 'd' for t in types.values()) else st.just(['x'])
    return draw(g.event(types, draw(st.integers(0, depth)), e, maxcl))


@st.composite
def trans_stmt(draw, s, v):
    derived = [b for b in s.bases() if s.types[b] in 'dD']
    b = draw(st.sampled_from(derived)) if derived and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(s.bases()))
    e, stg = draw(definition(b, s.stages.get(b, set()), False))
    if g.has_op(e, ('ind',)):
        e = ['rmul', 2, ['x']]
    return ['trans', v, b, e], stg


@st.composite
def block(draw, s, budget, depth, pending):
    """Statements from state s; defines every variable of `pending`
    ({name: kind}); returns (stmts, state)."""
    s = s.copy()
    out = []
    todo = list(draw(st.permutations(sorted(pending))))
    n = draw(st.integers(0 if todo else 1, budget))
    kinds = ['new'] * len(todo) + ['other'] * n
    for k in draw(st.permutations(kinds)):
        if k == 'new':
            v = todo.pop(0)
            t = pending[v]
            if t in ('d', 'D') and s.bases() and (t == 'd' or draw(st.booleans())):
                x, stg = draw(trans_stmt(s, v))
                s.types[v], s.stages[v] = 'd', stg
                out.append(x)
            else:
                t = draw(st.sampled_from(['c', 'i'])) if t in 'dD' else t
                out.append(['sample', v, draw(rhs_dist(t))])
                s.types[v] = t
            continue
        if not s.types:
            continue
        op = draw(st.sampled_from(['if', 'if', 'cond', 'ifexp', 'constr', 'cond']))
        if op in ('if', 'ifexp', 'cond') and not s.guardable():
            continue
        if op == 'cond':
            out.append(['cond', draw(guard(s, 2, 4))])
        elif op == 'constr':
            vs = sorted(v for v, t in s.types.items() if t in ('c', 'i', 'r', 's', 'm'))
            if vs:
                v = draw(st.sampled_from(vs))
                out.append(['constr', [[v, {'val': [v, s.types[v]]}]]])
        elif depth > 0:
            fresh = [v for v in NEW + g.DVARS if v not in s.types and v not in pending]
            nf = draw(st.integers(1, 2)) if op == 'if' else 1
            new = {}
            for v in fresh[:nf]:
                ch = ['c', 'i', 's', 'r', 'm'] + (['d', 'd', 'D'] if s.bases() else [])
                new[v] = draw(st.sampled_from(ch))
            if not new:
                continue
            nb = draw(st.integers(1, 2))
            gs = [draw(guard(s)) for _ in range(nb)] + [None]
            if op == 'ifexp':
                v, t = list(new.items())[0]
                bs = []
                for gd in gs:
                    if t in 'dD' and (t == 'd' or draw(st.booleans())):
                        x, stg = draw(trans_stmt(s, v))
                        bs.append([gd, ['trans', x[2], x[3]]])
                        s2t = 'd'
                    else:
                        bs.append([gd, ['sample', draw(rhs_dist('r' if t in 'dD' else t))]])
                out.append(['ifexp', v, bs])
                s.types[v] = t if t not in 'dD' else t
                s.stages[v] = {'poly', 'pw'}
            else:
                bs = []
                for gd in gs:
                    b, _ = draw(block(s, draw(st.integers(0, 1)), depth - 1, new))
                    bs.append([gd, b])
                out.append(['if', bs])
                for v, t in new.items():
                    s.types[v] = t
                    if t in 'dD':
                        s.stages[v] = {'poly', 'pw'}
    return out, s


def all_defined(stmts, acc=None):
    """Variables defined by every branch."""
    acc = set() if acc is None else acc
    for x in stmts:
        if x[0] in ('sample', 'trans', 'ifexp'):
            acc.add(x[1])
        elif x[0] == 'if':
            acc |= set.intersection(*[all_defined(b) for _, b in x[1]])
    return acc


def mentioned(j):
    """Variables of literals."""
    if not isinstance(j, list):
        return set()
    if j and j[0] == 'lit':
        return {j[1]}
    return set().union(set(), *[mentioned(x) for x in j])


def legal(stmts, defined):
    """The statements that only use defined variables and define new ones;
    branches keep the variables that every branch defines."""
    out, defined = [], set(defined)
    for x in stmts:
        if x[0] == 'sample':
            if x[1] in defined:
                continue
            defined.add(x[1])
        elif x[0] == 'trans':
            if x[1] in defined or x[2] not in defined or not mentioned(x[3]) <= defined:
                continue
            defined.add(x[1])
        elif x[0] == 'cond':
            if not mentioned(x[1]) <= defined:
                continue
        elif x[0] == 'constr':
            if not all(v in defined for v, _ in x[1]):
                continue
        elif x[0] == 'ifexp':
            if x[1] in defined or not all(gd is None or mentioned(gd) <= defined for gd, _ in x[2]) \
                    or not all(r[0] == 'sample' or (r[1] in defined and mentioned(r[2]) <= defined) for _, r in x[2]):
                continue
            defined.add(x[1])
        elif x[0] == 'if':
            if not all(gd is None or mentioned(gd) <= defined for gd, _ in x[1]):
                continue
            bs = [[gd, legal(b, defined)] for gd, b in x[1]]
            while True:
                common = set.intersection(*[all_defined(b) for _, b in bs])
                nxt = [[gd, legal(keep(b, common), defined)] for gd, b in bs]
                if nxt == bs:
                    break
                bs = nxt
            if not all(b for _, b in bs):
                continue
            defined |= common
            x = ['if', bs]
        out.append(x)
    return out


def uses(j, bad):
    if isinstance(j, list):
        if j and j[0] == 'lit':
            return j[1] in bad
        if j and j[0] == 'trans':
            return j[2] in bad or uses(j[3], bad)
        if j and j[0] == 'constr':
            return any(v in bad for v, _ in j[1])
        return any(uses(x, bad) for x in j)
    return False


def keep(stmts, names):
    """Drop the definitions of variables outside names, and their uses."""
    bad = all_names(stmts) - names
    out = []
    for x in stmts:
        if x[0] in ('sample', 'trans', 'ifexp') and x[1] in bad:
            continue
        if x[0] == 'if':
            bs = [[gd, keep(b, names)] for gd, b in x[1]]
            if any(gd is not None and uses(gd, bad) for gd, _ in bs) or not all(b for _, b in bs):
                continue
            x = ['if', bs]
        elif uses(x, bad):
            continue
        out.append(x)
    return out


def all_names(stmts):
    acc = set()
    for x in stmts:
        if x[0] in ('sample', 'trans', 'ifexp'):
            acc.add(x[1])
        elif x[0] == 'if':
            for _, b in x[1]:
                acc |= all_names(b)
    return acc


@st.composite
def fill(draw, stmts, types):
    """Observed values: ones the variable can take."""
    dists = {}

    def walk(ss):
        for x in ss:
            if x[0] == 'sample':
                dists.setdefault(x[1], []).extend(c for _, c in x[2]['c']) if x[2]['k'] == 'mixd' else dists.setdefault(x[1], []).append(x[2])
            elif x[0] == 'ifexp':
                for _, r in x[2]:
                    if r[0] == 'sample':
                        walk([['sample', x[1], r[1]]])
            elif x[0] == 'if':
                for _, b in x[1]:
                    walk(b)
    walk(stmts)

    def put(j):
        if isinstance(j, dict) and 'val' in j:
            v, t = j['val']
            return g.dist_value(draw, draw(st.sampled_from(dists[v]))) if dists.get(v) else 0
        if isinstance(j, list):
            return [put(x) for x in j]
        return j
    return put(stmts)


def reachable(stmts):
    """Programs whose conditioning is possible and whose branches are likely
    enough; impossible conditioning statements are negated or dropped."""
    import ref

    def go(ss, m):
        out = []
        for x in ss:
            if x[0] == 'cond':
                ev = g.likely(m, x[1])
                if ev is None:
                    continue
                x = ['cond', ev]
            elif x[0] == 'constr':
                try:
                    d, w = ref.density(m, {v: y for v, y in x[1]})
                except Exception:
                    continue
                if d is None or w < 1e-6:
                    continue
            elif x[0] == 'if':
                earlier, bs = [], []
                for gd, b in x[1]:
                    if gd is None:
                        e = ['not', earlier[0]] if len(earlier) == 1 else ['not', ['or', list(earlier)]]
                    else:
                        e = ['and', [gd] + [['not', y] for y in earlier]] if earlier else gd
                    earlier.append(gd)
                    p = ref.prob(m, e)
                    if p > 1e-3:
                        b = go(b, {'t': 'cond', 'm': m, 'e': e})[0]
                    bs.append([gd, b])
                x = ['if', bs]
            m = prog.denote(prog.expand([x]), m)
            out.append(x)
        return out, m
    return go(stmts, None)


@st.composite
def _case(draw, big):
    s = State()
    out = []
    for v in NEW[:draw(st.integers(1, 2))]:
        t = draw(st.sampled_from(['c', 'c', 'i', 'i', 'r', 's', 'm']))
        out.append(['sample', v, draw(rhs_dist(t))])
        s.types[v] = t
    rest, s = draw(block(s, 4 if big else 3, 2, {}))
    stmts = legal(out + rest, ())
    stmts = draw(fill(stmts, s.types))
    try:
        stmts, m = reachable(stmts)
    except Exception:
        pass
    types = {v: t for v, t in s.types.items() if v in all_defined(stmts)}
    types = {v: ('d' if t == 'D' else t) for v, t in types.items()}
    evs = [draw(g.event(types, draw(st.integers(0, 2)), st.just(['x']), 5)) for _ in range(draw(st.integers(1, 3)))]
    return {'stmts': stmts, 'evs': evs, 'style': draw(st.integers(0, 2 ** 16))}


def strategy(tier):
    return _case(tier != 'quick')
