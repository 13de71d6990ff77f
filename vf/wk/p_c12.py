"""C12: loops, switches, conditional expressions and arrays equal their expansions."""
import build, prog, ref
from core import check, check_close, Discard
from p_c11 import dist, stats
from sppl.sets import Interval
from sppl.sym_util import binspace
from sppl.transforms import Id
from sppl.compilers import ast_to_spe as A
from sppl.compilers.sppl_to_python import SPPL_Compiler

TOL = dict(rel=5e-6, abs_=5e-7)


def size(stmts):
    return sum(1 if s[0] != 'if' else sum(size(b) for _, b in s[1]) for s in stmts)


def values_obj(kind, values):
    if kind == 'range':
        return range(*values)
    if kind == 'bins':
        return binspace(values[0], values[1], num=values[2])
    items = [build.rset(v) if isinstance(v, list) else build.num(v) for v in values]
    return enumerate(items) if kind == 'enumerate' else iter(items) if kind == 'iter' else items


def command(stmts):
    """Command objects, with For and Switch kept."""
    cs = []
    for s in stmts:
        op = s[0]
        if op == 'array':
            continue
        if op == 'sample':
            cs.append(A.Sample(Id(s[1]), dist(s[2])))
        elif op == 'trans':
            cs.append(A.Transform(Id(s[1]), build.expr(s[3], Id(s[2]))))
        elif op == 'cond':
            cs.append(A.Condition(build.ev(s[1])))
        elif op == 'for':
            cs.append(A.For(s[2], s[3], lambda i, s=s: command(prog.bind(s[4], s[1], i))))
        elif op == 'switch':
            _, v, kind, values, names, body = s

            def f(*xs, body=body, names=names):
                for n, x in zip(names, xs):
                    if isinstance(x, (str, int, float)):
                        body = prog.bind(body, n, x)
                return command(body)
            cs.append(A.Switch(Id(v), values_obj(kind, values), f))
        elif op in ('if', 'ifexp'):
            args = []
            for g, b in (s if op == 'if' else prog.expand([s])[0])[1]:
                args += [True if g is None else build.ev(g), command(b)]
            cs.append(A.IfElse(*args))
    return A.Sequence(*cs)


def run(case, ctx):
    p = {'stmts': case['stmts'], 'consts': case['consts']}
    closed = prog.constants(p)
    flat = prog.expand(closed)
    if size(flat) > 60:
        raise Discard('large expansion')
    m = prog.denote(flat)
    ref.validate(m)
    want = ref.probs(m, case['evs'])
    src = prog.source(p, case['style'])

    def plain(v):
        return v.replace('[', '_').replace(']', '')
    src2 = prog.source({'stmts': prog.rename(flat, plain)}, case['style2'])
    ctx.note(src)
    ctx.note(src2)
    one = SPPL_Compiler(src).execute_module().model
    two = SPPL_Compiler(src2).execute_module().model
    three = command(closed).interpret()
    vs = ref.variables(m)
    for what, spe, names in (('the program', one, vs), ('its expansion', two, {plain(v) for v in vs}), ('its commands', three, vs)):
        check({str(x) for x in spe.get_symbols()} == names, 'variables of %s %s, should be %s', what,
              sorted(map(str, spe.get_symbols())), sorted(names))
    st = stats(case['stmts'])
    ctx.tag(*['stmt:' + k for k in st])
    for s in case['stmts']:
        if s[0] == 'switch':
            ctx.tag('switch:' + s[2])
    for e, q in zip(case['evs'], want):
        ev = build.ev(e)
        got = float(one.prob(ev))
        exp = float(two.prob(build.ev(prog.rename(e, plain))))
        check_close(got, exp, 'P(%s) under\n%s\nversus its expansion\n%s\n' % (ev, src, src2), rel=1e-8, abs_=1e-9)
        check_close(got, float(three.prob(ev)), 'P(%s) under\n%s\nversus its commands' % (ev, src), rel=1e-8, abs_=1e-9)
        check_close(got, q, 'P(%s) under\n%s\n' % (ev, src), **TOL)
        if 1e-4 < q < 1 - 1e-4 and any(k in st for k in ('for', 'switch', 'ifexp')):
            ctx.nt = True
