"""C01: probability of any event equals the reference mass."""
import math
import build, ref
from core import check, check_close, Violation
from sppl.spe import Memo


def run(case, ctx):
    m, events = case['m'], case['evs']
    want = ref.probs(m, events)
    spe = build.model(m, case.get('style', 0))
    ctx.tag('model:' + m['t'])
    memo = Memo() if case.get('memo') else None
    for e, p in zip(events, want):
        event = build.ev(e)
        ctx.note('event %s' % (event,))
        got = float(spe.prob(event))
        check_close(got, p, 'P(%s) in %s' % (event, case.get('style')), rel=2e-6, abs_=2e-7)
        lp = float(spe.logprob(event, memo) if memo else spe.logprob(event))
        check_close(math.exp(lp), p, 'exp(logprob(%s))' % (event,), rel=2e-6, abs_=2e-7)
        if case.get('rare') and p > 1e-250:
            check(abs(lp - math.log(p)) <= 2e-6 * max(1, abs(lp)), 'logprob(%s) is %r, should be %r', event, lp, math.log(p))
            ctx.tag('rare:1e-%d0s' % int(-math.log10(p) / 10) if p < 1 else 'rare')
            ctx.nt = ctx.nt or p < 1e-6
        nl = len(ref.literals(e))
        if 1e-6 < p < 1 - 1e-6:
            ctx.tag('p:interior')
            if nl > 1 or m['t'] != 'leaf':
                ctx.nt = True
        else:
            ctx.tag('p:extreme')
        ctx.tag('lits:%d' % min(nl, 6))
