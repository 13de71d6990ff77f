"""C11: a source program denotes its sequential semantics."""
import math
import build, prog, ref
from core import check, check_close, Discard
from sppl import distributions as D
from sppl.transforms import Id
from sppl.compilers import ast_to_spe as A
from sppl.compilers.sppl_to_python import SPPL_Compiler

TOL = dict(rel=5e-6, abs_=5e-7)


def stats(stmts, acc=None, depth=0):
    acc = {} if acc is None else acc
    for s in stmts:
        acc[s[0]] = acc.get(s[0], 0) + 1
        if s[0] == 'if':
            acc['depth'] = max(acc.get('depth', 0), depth + 1)
            for _, b in s[1]:
                stats(b, acc, depth + 1)
    return acc


def dist(d):
    if d['k'] == 'mixd':
        tot = float(sum(w for w, _ in d['c']))
        r = None
        for w, x in d['c']:
            p = (w / tot) * build.distribution(x)
            r = p if r is None else r | p
        return r
    return build.distribution(d)


def command(stmts):
    """The command objects of expanded statements."""
    cs = []
    for s in stmts:
        op = s[0]
        if op == 'sample':
            cs.append(A.Sample(Id(s[1]), dist(s[2])))
        elif op == 'trans':
            cs.append(A.Transform(Id(s[1]), build.expr(s[3], Id(s[2]))))
        elif op == 'cond':
            cs.append(A.Condition(build.ev(s[1])))
        elif op == 'constr':
            cs.append(A.Constrain(build.assignment(dict(map(tuple, s[1])))))
        elif op == 'if':
            args = []
            for g, b in s[1]:
                args += [True if g is None else build.ev(g), command(b)]
            cs.append(A.IfElse(*args))
    return cs[0] if len(cs) == 1 else A.Sequence(*cs)


def run(case, ctx):
    p = {'stmts': case['stmts'], 'consts': case.get('consts', {})}
    flat = prog.expand(prog.constants(p))
    m = prog.denote(flat)
    ref.validate(m)
    want = ref.probs(m, case['evs'])
    src = prog.source(p, case['style'])
    ctx.note(src)
    st = stats(flat)
    ctx.tag(*['stmt:' + k for k in st if k != 'depth'], 'depth:%d' % st.get('depth', 0))
    ns = SPPL_Compiler(src).execute_module()
    spe = ns.model
    check({str(s) for s in spe.get_symbols()} == ref.variables(m), 'variables %s, should be %s',
          sorted(map(str, spe.get_symbols())), sorted(ref.variables(m)))
    for v in ref.variables(m):
        if '[' not in v and hasattr(ns, v):
            check(getattr(ns, v) == Id(v), 'the namespace has %s for %s', getattr(ns, v), v)
    text = SPPL_Compiler(src, modelname='another').render_module()
    ns2 = {}
    exec(compile(text, 'rendered', 'exec'), ns2)
    cmd = command(flat).interpret()
    for e, q in zip(case['evs'], want):
        ev = build.ev(e)
        got = float(spe.prob(ev))
        check_close(got, q, 'P(%s) under\n%s\n' % (ev, src), **TOL)
        check_close(float(ns2['another'].prob(ev)), got, 'P(%s) in the rendered module of\n%s\n' % (ev, src), rel=1e-9, abs_=1e-10)
        check_close(float(cmd.prob(ev)), got, 'P(%s) by command objects for\n%s\n' % (ev, src), rel=1e-9, abs_=1e-10)
        if 1e-4 < q < 1 - 1e-4 and len(st) > 1:
            ctx.nt = True
