"""Programs as JSON: expansion, reference denotation, source text.

Statements
  ['sample', v, dist]            dist: a leaf distribution or {'k': 'mixd', 'c': [[w, dist], ..]}
  ['trans', v, base, expr]
  ['cond', event]   ['constr', [[v, value], ..]]
  ['if', [[guard, stmts], .., [None, stmts]]]
  ['ifexp', v, [[guard, rhs], .., [None, rhs]]]   rhs: ['sample', dist] | ['trans', base, expr]
  ['array', name, n]
  ['for', idx, a, b, stmts]
  ['switch', v, kind, values, names, stmts]
Placeholders, replaced when the index is bound:
  {'at': [array, [[idx, mul], ..], add]}  a variable
  {'ix': [[[idx, mul], ..], add]}  a number
  {'ixs': idx}  a string          {'sel': [idx, [[value, x], ..]]}  a choice by index
  {'k': name}   a constant
"""
import random
from fractions import Fraction as F
import ref
from core import Discard


def lin(terms, add):
    s = ' + '.join(n if m == 1 else '%d*%s' % (m, n) for n, m in terms)
    if add:
        s = '%s %s %s' % (s, '+' if add > 0 else '-', abs(add))
    return s


def reduce_lin(terms, add, name, value):
    add = F(add) + sum(F(m) * F(value) for n, m in terms if n == name)
    return [[n, m] for n, m in terms if n != name], unnum(add)


def unnum(x):
    x = F(x)
    return int(x) if x.denominator == 1 else float(x)


def bind(j, name, value):
    if isinstance(j, dict):
        for k in ('at', 'ix'):
            if k in j and any(n == name for n, _ in j[k][-2]):
                terms, add = reduce_lin(j[k][-2], j[k][-1], name, value)
                if terms:
                    return {k: j[k][:-2] + [terms, add]}
                return '%s[%d]' % (j[k][0], add) if k == 'at' else add
        if 'ixs' in j and j['ixs'] == name:
            return value
        if 'sel' in j and j['sel'][0] == name:
            return [x for v, x in j['sel'][1] if v == value][0]
        if 'k' in j and isinstance(j['k'], str) and j['k'] == name and len(j) == 1:
            return value
        return {k: bind(v, name, value) for k, v in j.items()}
    if isinstance(j, list):
        return [bind(x, name, value) for x in j]
    return j


def value_set(v):
    """The JSON set of a switch value."""
    if isinstance(v, str):
        return ['ins', [v]]
    if isinstance(v, list):
        return v
    return ['in', [v]]


def switch_items(kind, values):
    """[(bound names' values, set)]"""
    if kind == 'range':
        return [((v,), ['in', [v]]) for v in range(values[0], values[1])]
    if kind == 'enumerate':
        return [((i, v), value_set(v)) for i, v in enumerate(values)]
    if kind == 'bins':
        a, b, n = values
        step = F(b - a) / (n - 1)
        pts = [unnum(a + i * step) for i in range(n)]
        return [((None,), ['iv', x, y, False, False]) for x, y in zip(pts, pts[1:])]
    return [((v,), value_set(v)) for v in values]


def expand(stmts):
    out = []
    for s in stmts:
        op = s[0]
        if op == 'array':
            continue
        if op == 'for':
            for i in range(s[2], s[3]):
                out += expand(bind(s[4], s[1], i))
        elif op == 'switch':
            _, v, kind, values, names, body = s
            branches = []
            for vals, st in switch_items(kind, values):
                b = body
                for n, x in zip(names, vals):
                    b = bind(b, n, x)
                branches.append([['lit', v, ['x'], st, 1], expand(b)])
            out.append(['if', branches])
        elif op == 'ifexp':
            branches = []
            for g, r in s[2]:
                branches.append([g, [['sample', s[1], r[1]] if r[0] == 'sample' else ['trans', s[1], r[1], r[2]]]])
            out.append(['if', branches])
        elif op == 'if':
            out.append(['if', [[g, expand(b)] for g, b in s[1]]])
        else:
            out.append(s)
    return out


def constants(prog):
    """Program with the constants substituted."""
    stmts = prog['stmts']
    for k, v in prog.get('consts', {}).items():
        stmts = bind(stmts, k, v)
    return stmts


def rename(j, f):
    """Apply f to every variable name of statements, events, models."""
    if isinstance(j, list):
        if j and j[0] == 'lit':
            return ['lit', f(j[1])] + [rename(x, f) for x in j[2:]]
        if j and j[0] == 'sample' and len(j) == 3:
            return ['sample', f(j[1]), j[2]]
        if j and j[0] == 'trans' and len(j) == 4:
            return ['trans', f(j[1]), f(j[2]), rename(j[3], f)]
        if j and j[0] == 'constr':
            return ['constr', [[f(v), x] for v, x in j[1]]]
        return [rename(x, f) for x in j]
    return j


# --- reference denotation ------------------------------------------------------

def leaf(v, d):
    if d['k'] == 'mixd':
        return {'t': 'mix', 'c': [[w, leaf(v, x)] for w, x in d['c']]}
    return {'t': 'leaf', 'v': v, 'd': d}


def denote(stmts, m=None):
    """Reference model of expanded statements started in model m."""
    for s in stmts:
        op = s[0]
        if op == 'sample':
            l = leaf(s[1], s[2])
            m = l if m is None else {'t': 'prod', 'c': [m, l]}
        elif op == 'trans':
            m = {'t': 'trans', 'm': m, 'v': s[1], 'x': [s[2], s[3]]}
        elif op == 'cond':
            m = {'t': 'cond', 'm': m, 'e': s[1]}
            ref.table(m, [])
        elif op == 'constr':
            m = {'t': 'constr', 'm': m, 'a': {v: x for v, x in s[1]}}
            ref.table(m, [])
        elif op == 'if':
            earlier, evs = [], []
            for g, _ in s[1]:
                if g is None:
                    e = ['not', earlier[0]] if len(earlier) == 1 else ['not', ['or', list(earlier)]]
                elif earlier:
                    e = ['and', [g] + [['not', x] for x in earlier]]
                else:
                    e = g
                earlier.append(g)
                evs.append(e)
            ps = ref.probs(m, evs)
            if abs(sum(ps) - 1) > 1e-7:
                raise Discard('guards do not cover')
            comps = []
            for (_, body), e, p in zip(s[1], evs, ps):
                if p == 0:
                    continue
                if p < 1e-6:
                    raise Discard('nearly impossible branch')
                comps.append([p, denote(body, {'t': 'cond', 'm': m, 'e': e})])
            m = comps[0][1] if len(comps) == 1 else {'t': 'mix', 'c': comps}
        else:
            raise ValueError(op)
    return m


# --- source text ---------------------------------------------------------------

class Source:
    def __init__(self, style=0):
        self.r = random.Random(style)
        self.ind = self.r.choice([2, 4])
        self.imports = set()
        self.lines = []

    def num(self, j):
        if isinstance(j, dict):
            if 'q' in j:
                p, q = j['q']
                self.imports.add('from sympy import Rational')
                return 'Rational(%d, %d)' % (p, q)
            if 'ix' in j:
                return '(%s)' % lin(*j['ix'])
            if 'sel' in j:
                n, ps = j['sel']
                return '{%s}[%s]' % (', '.join('%r: %s' % (a, self.num(b)) for a, b in ps), n)
            if 'k' in j:
                return j['k']
            raise ValueError(j)
        return repr(j) if j >= 0 else '(%r)' % j

    def var(self, v):
        if isinstance(v, dict):
            return '%s[%s]' % (v['at'][0], lin(*v['at'][1:]))
        return v

    def string(self, s):
        return s['ixs'] if isinstance(s, dict) else repr(s)

    def dist(self, d):
        k = d['k']
        if k == 'mixd':
            tot = float(sum(w for w, _ in d['c']))
            return ' | '.join('%r*%s' % (w / tot, self.dist(x)) for w, x in d['c'])
        if k == 'choice':
            fr = all(isinstance(p, list) for _, p in d['w'])
            if fr and self.r.random() < 0.5:
                self.imports.add('from fractions import Fraction')
                return 'choice({%s})' % ', '.join('%s: Fraction(%d, %d)' % (self.string(s), p[0], p[1]) for s, p in d['w'])
            return 'choice({%s})' % ', '.join(
                '%s: %s' % (self.string(s), '%d/%d' % tuple(p) if isinstance(p, list) else self.num(p)) for s, p in d['w'])
        if k == 'discrete':
            return 'discrete({%s})' % ', '.join('%s: %s' % (self.num(v), self.num(p)) for v, p in d['w'])
        if k == 'uniformd':
            return 'uniformd(values=(%s,))' % ', '.join(self.num(v) for v in d['w'])
        kw = list(d['kw'].items())
        self.r.shuffle(kw)
        return '%s(%s)' % (k, ', '.join('%s=%s' % (a, self.num(b)) for a, b in kw))

    def expr(self, e, v):
        op = e[0]
        if op == 'x':
            return self.var(v)

        def sub(x):
            s = self.expr(x, v)
            return s if x[0] in ('x', 'abs', 'exp', 'log', 'logb', 'sqrt') else '(%s)' % s
        bi = {'add': '%s + %s', 'sub': '%s - %s', 'mul': '%s*%s', 'div': '%s / %s'}
        if op in bi:
            return bi[op] % (sub(e[1]), self.num(e[2]))
        if op[0] == 'r' and op[1:] in bi:
            return bi[op[1:]] % (self.num(e[1]), sub(e[2]))
        if op == 'expb':
            return '%s**%s' % (self.num(e[1]), sub(e[2]))
        if op == 'neg':
            return '-%s' % sub(e[1])
        if op == 'abs':
            return 'abs(%s)' % self.expr(e[1], v)
        if op == 'pow':
            return '%s**%s' % (sub(e[1]), e[2] if e[2] >= 0 else '(%d)' % e[2])
        if op == 'root':
            self.imports.add('from sympy import Rational')
            return '%s**Rational(1, %d)' % (sub(e[1]), e[2])
        f = {'sqrt': 'Sqrt', 'exp': 'Exp', 'log': 'Log'}.get(op)
        if f:
            self.imports.add('from sppl.transforms import ' + f)
            return '%s(%s)' % (f, self.expr(e[1], v))
        if op == 'logb':
            self.imports.add('from sppl.transforms import Logarithm')
            return 'Logarithm(%s, %s)' % (self.expr(e[1], v), self.num(e[2]))
        if op == 'poly':
            if e[1][0] != 'x':
                self.imports.add('from sppl.transforms import Poly')
                return 'Poly(%s, [%s])' % (self.expr(e[1], v), ', '.join(self.num(c) for c in e[2]))
            ts = []
            for i, c in enumerate(e[2]):
                if i and c != 0:
                    ts.append('%s*%s' % (self.num(c), sub(e[1])) + ('**%d' % i if i > 1 else ''))
            if e[2][0] != 0:
                ts.append(self.num(e[2][0]))
            return ' + '.join(ts)
        if op == 'pw':
            return ' + '.join('(%s)*(%s)' % (self.expr(s, v), self.event(t)) for s, t in e[1])
        raise ValueError(op)

    def set(self, s):
        k = s[0]
        if k == 'in':
            self.imports.add('from sppl.sets import FiniteReal')
            return 'FiniteReal(%s)' % ', '.join(self.num(v) for v in s[1])
        if k == 'ins':
            self.imports.add('from sppl.sets import FiniteNominal')
            return 'FiniteNominal(%s)' % ', '.join(self.string(v) for v in s[1])
        self.imports.add('from sppl.sets import Interval')
        if k == 'iv':
            f = {(False, False): 'Interval', (True, True): 'Interval.open', (True, False): 'Interval.Lopen',
                 (False, True): 'Interval.Ropen'}[(bool(s[3]), bool(s[4]))]
            return '%s(%s, %s)' % (f, self.num(s[1]), self.num(s[2]))
        if k in ('lt', 'le'):
            return "Interval(-float('inf'), %s, right_open=%s)" % (self.num(s[1]), k == 'lt')
        if k in ('gt', 'ge'):
            return "Interval(%s, float('inf'), left_open=%s)" % (self.num(s[1]), k == 'gt')
        raise ValueError(s)

    def lit(self, l, neg=False):
        """(text, whether it is a comparison that binds tighter than and/or/not)."""
        x = self.expr(l[2], l[1])
        if l[2][0] not in ('x', 'abs'):
            x = '(%s)' % x
        s = l[3]
        k = s[0]
        how = l[4] if len(l) > 4 else 0
        pre = ''
        if neg and k not in ('in', 'ins'):
            pre = self.r.choice(['not ', '~'])
        if k in ('lt', 'le', 'gt', 'ge'):
            o, ro = {'lt': ('<', '>'), 'le': ('<=', '>='), 'gt': ('>', '<'), 'ge': ('>=', '<=')}[k]
            t = '%s %s %s' % (self.num(s[1]), ro, x) if how == 3 else '%s %s %s' % (x, o, self.num(s[1]))
        elif k == 'iv':
            a, b = self.num(s[1]), self.num(s[2])
            lo, ro = '<' if s[3] else '<=', '<' if s[4] else '<='
            if how == 1:
                t = '%s << %s' % (x, self.set(s))
            elif how == 2:
                t = '(%s %s %s) & (%s %s %s)' % (a, lo, x, x, ro, b)
            elif how == 3:
                t = '%s %s %s and %s %s %s' % (a, lo, x, x, ro, b)
            elif self.r.random() < 0.3:
                t = '%s %s %s %s %s' % (b, ro.replace('<', '>'), x, lo.replace('<', '>'), a)
            else:
                t = '%s %s %s %s %s' % (a, lo, x, ro, b)
            if how in (2, 3):
                t = '(%s)' % t
        else:
            vs = [self.num(v) for v in s[1]] if k == 'in' else [self.string(v) for v in s[1]]
            w = self.r.randrange(4)
            if neg:
                if len(vs) == 1 and w < 2:
                    t = '%s != %s' % (x, vs[0])
                elif w == 3:
                    t = '~(%s << {%s})' % (x, ', '.join(vs))
                else:
                    t = '%s not in {%s}' % (x, ', '.join(vs))
                return t
            if len(vs) == 1 and w < 2:
                t = '%s == %s' % (x, vs[0])
            elif w == 3:
                t = '%s << {%s}' % (x, ', '.join(vs))
            else:
                t = '%s in %s' % (x, self.r.choice(['{%s}', '[%s]', '(%s,)']) % ', '.join(vs))
        if pre == '~' or (pre and t[0] == '('):
            return '%s(%s)' % (pre, t)
        return pre + t

    def event(self, e):
        op = e[0]
        if op == 'lit':
            return self.lit(e)
        if op == 'not':
            if e[1][0] == 'lit':
                return self.lit(e[1], True)
            return self.r.choice(['not (%s)', '~(%s)']) % self.event(e[1])
        if op in ('and', 'or'):
            if self.r.random() < 0.5:
                ps = []
                for s in e[1]:
                    t = self.event(s)
                    plain = s[0] == 'lit' or (s[0] == 'not' and s[1][0] == 'lit')
                    ps.append(t if plain and self.r.random() < 0.7 else '(%s)' % t)
                return (' %s ' % op).join(ps)
            return {'and': ' & ', 'or': ' | '}[op].join('(%s)' % self.event(s) for s in e[1])
        if op == 'xor':
            return '(%s) ^ (%s)' % (self.event(e[1]), self.event(e[2]))
        raise ValueError(op)

    def value(self, x):
        return repr(x) if isinstance(x, str) else self.string(x) if isinstance(x, dict) and 'ixs' in x else self.num(x)

    def rhs(self, r):
        return self.dist(r[1]) if r[0] == 'sample' else self.expr(r[2], r[1])

    def put(self, depth, text):
        self.lines.append(' ' * (self.ind * depth) + text)
        if self.r.random() < 0.05:
            self.lines.append(self.r.choice(['', '   ', '# a comment, with condition(X < 1)']))

    def values(self, kind, values):
        if kind == 'range':
            return 'range(%s%d)' % ('%d, ' % values[0] if values[0] or self.r.random() < 0.5 else '', values[1])
        if kind == 'bins':
            self.imports.add('from sppl.sym_util import binspace')
            return 'binspace(%d, %d, num=%d)' % tuple(values)
        items = [self.set(v) if isinstance(v, list) else repr(v) for v in values]
        lst = '[%s]' % ', '.join(items)
        if kind == 'enumerate':
            return 'enumerate(%s)' % lst
        if kind == 'iter':
            return 'iter(%s)' % lst
        return self.r.choice([lst, '(%s,)' % ', '.join(items)])

    def block(self, stmts, depth=0):
        for s in stmts:
            op = s[0]
            asg = self.r.choice(['~=', '~=', '='])
            if op == 'sample':
                self.put(depth, '%s %s %s' % (self.var(s[1]), asg, self.dist(s[2])))
            elif op == 'trans':
                self.put(depth, '%s %s %s' % (self.var(s[1]), asg, self.expr(s[3], s[2])))
            elif op == 'ifexp':
                t = ''
                for g, r in s[2]:
                    t += '(%s) if (%s) else ' % (self.rhs(r), self.event(g)) if g is not None else '(%s)' % self.rhs(r)
                self.put(depth, '%s %s %s' % (self.var(s[1]), asg, t))
            elif op == 'cond':
                self.put(depth, 'condition(%s)' % self.event(s[1]))
            elif op == 'constr':
                self.put(depth, 'constrain({%s})' % ', '.join('%s: %s' % (self.var(v), self.value(x)) for v, x in s[1]))
            elif op == 'array':
                self.put(depth, '%s = array(%s)' % (s[1], self.num(s[2])))
            elif op == 'if':
                for i, (g, body) in enumerate(s[1]):
                    self.put(depth, 'else:' if g is None else '%s %s:' % ('elif' if i else 'if', self.event(g)))
                    self.block(body, depth + 1)
                if len(s[1]) == 1:
                    # (A lone branch needs an else; it cannot be reached.)
                    self.put(depth, 'else:')
                    self.block(s[1][0][1], depth + 1)
            elif op == 'for':
                a, b = s[2], s[3]
                self.put(depth, 'for %s in range(%s%s):' % (s[1], '%d, ' % a if a or self.r.random() < 0.5 else '', self.num(b)))
                self.block(s[4], depth + 1)
            elif op == 'switch':
                _, v, kind, values, names, body = s
                idx = names[0] if len(names) == 1 else self.r.choice(['(%s, %s)', '%s, %s']) % tuple(names)
                self.put(depth, self.r.choice(['switch (%s) cases (%s in %s):', 'switch(%s) cases (%s in %s):'])
                         % (self.var(v), idx, self.values(kind, values)))
                self.block(body, depth + 1)
            else:
                raise ValueError(op)

    def text(self):
        return '\n'.join(sorted(self.imports) + self.lines) + '\n'


def source(prog, style=0):
    s = Source(style)
    for k, v in prog.get('consts', {}).items():
        s.put(0, '%s = %s' % (k, s.num(v)))
    s.block(prog['stmts'])
    return s.text()
