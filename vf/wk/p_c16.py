"""C16: answers do not depend on the history of queries, nor on caches."""
import contextlib, gc, io, json, math
import numpy
import build, ref
from core import check, check_close, Discard
from p_c02 import feats
from p_c14 import normal, same
from sppl.compilers.spe_to_dict import spe_to_dict
from sppl.compilers.spe_to_sppl import render_sppl
from sppl.spe import Memo
from sppl.transforms import Id


def fingerprint(spe):
    return (normal(spe_to_dict(spe)), hash(spe), spe.size(), sorted(map(str, spe.get_symbols())))


def outcome(f):
    """('ok', answer) or ('error', type)."""
    try:
        return 'ok', f()
    except RecursionError:
        raise
    except Exception as e:
        return 'error', type(e).__name__


def build_fresh(recipe):
    gc_style = 0
    return build.model(recipe, gc_style)


class History:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.models, self.recipes, self.prints = [], [], []
        self.memos = [Memo() for _ in range(2)]
        self.events, self.eprints = {}, {}
        self.log = []
        self.hits = 0

    def add(self, spe, recipe):
        self.models.append(spe)
        self.recipes.append(recipe)
        self.prints.append(fingerprint(spe))

    def event(self, e):
        """The one event object of this description."""
        k = json.dumps(e)
        if k not in self.events:
            self.events[k] = build.ev(e)
            self.eprints[k] = (repr(self.events[k]), hash(self.events[k]))
        else:
            self.hits += 1
        return self.events[k]

    def memo(self, k):
        return {'none': (), 'false': (False,), 'a': (self.memos[0],), 'b': (self.memos[1],)}[k]

    def where(self, op):
        return 'after %s: %s' % (' ; '.join(self.log[-12:]) or 'nothing', op)

    def unchanged(self, op):
        for i, (m, p) in enumerate(zip(self.models, self.prints)):
            if m is None:
                continue
            q = fingerprint(m)
            check(q == p, '%s: model %d changed\nfrom %s\nto   %s', self.where(op), i, p, q)
        for k, p in self.eprints.items():
            e = self.events[k]
            check((repr(e), hash(e)) == p, '%s: the event %s changed to %r', self.where(op), p[0], e)

    def compare(self, op, got, want, tol=1e-9):
        check(got[0] == want[0], '%s: %s, but a fresh model gives %s', self.where(op), got, want)
        if got[0] == 'error':
            self.ctx.tag('error')
            check(got[1] == want[1], '%s: raises %s, but a fresh model raises %s', self.where(op), got[1], want[1])
            return
        self.compare_values(op, got[1], want[1], tol)

    def compare_values(self, op, a, b, tol):
        if isinstance(a, (list, tuple)):
            check(len(a) == len(b), '%s: %s, but a fresh model gives %s', self.where(op), a, b)
            for x, y in zip(a, b):
                self.compare_values(op, x, y, tol)
        elif isinstance(a, str) or isinstance(b, str):
            check(a == b, '%s: %s, but a fresh model gives %s', self.where(op), a, b)
        else:
            check(same(float(a), float(b)), '%s: %.17g, but a fresh model gives %.17g', self.where(op), float(a), float(b))

    def answers(self, spe, evs, fresh):
        """Probabilities of events about the variables of the model."""
        r = []
        for e in evs:
            r.append(outcome(lambda: float(spe.logprob(build.ev(e) if fresh else self.event(e)))))
        return r

    def derived(self, op, f, g, recipe):
        """A new model by f; the same from scratch by g."""
        got, want = outcome(f), outcome(g)
        check(got[0] == want[0], '%s: %s, but a fresh model gives %s', self.where(op), got[0:2], want[0:2])
        if got[0] == 'error':
            self.ctx.tag('error')
            check(got[1] == want[1], '%s: raises %s, but a fresh model raises %s', self.where(op), got[1], want[1])
            return
        self.ctx.tag('derived')
        a, b = got[1], want[1]
        self.compare_values(op, sorted(map(str, a.get_symbols())), sorted(map(str, b.get_symbols())), 0)
        evs = [e for e in self.case['pool'] if {l[1] for l in ref.literals(e)} <= ref.variables(recipe)]
        for x, y in zip(self.answers(a, evs, False), self.answers(b, evs, True)):
            self.compare(op, x, y)
        self.add(a, recipe)


def sample_rows(rows):
    return [sorted((str(k), v if isinstance(v, str) else float(v)) for k, v in r.items()) for r in rows]


def run(case, ctx):
    h = History(case, ctx)
    for m in case['models']:
        ref.validate(m)
        h.add(build.model(m, case['style']), m)
        for x in feats(m):
            ctx.tag('model:' + x)
    if case['style']:
        build_ = lambda r: build.model(r, case['style'])
    else:
        build_ = build_fresh
    done = 0
    for o in case['ops']:
        kind, i = o[0], o[1] % len(h.models)
        spe, rec = h.models[i], h.recipes[i]
        if spe is None:
            continue
        fresh = lambda: build_(rec)
        op = '%s on model %d' % (json.dumps(o), i)
        if kind in ('prob', 'cond', 'constr', 'logpdf', 'mi'):
            needs = set()
            for e in (o[2:4] if kind == 'mi' else [o[2]] if kind in ('prob', 'cond') else []):
                needs |= {l[1] for l in ref.literals(e)}
            if kind in ('constr', 'logpdf'):
                needs = set(o[2])
            if not needs <= ref.variables(rec):
                continue
            mm = h.memo(o[-1])
        ctx.tag('op:' + kind)
        if kind == 'prob':
            e = h.event(o[2])
            h.compare(op, outcome(lambda: float(spe.logprob(e, *mm))), outcome(lambda: float(fresh().logprob(build.ev(o[2])))))
        elif kind == 'mi':
            a, b = h.event(o[2]), h.event(o[3])
            h.compare(op, outcome(lambda: float(spe.mutual_information(a, b, *mm))),
                      outcome(lambda: float(fresh().mutual_information(build.ev(o[2]), build.ev(o[3])))))
        elif kind == 'cond':
            e = h.event(o[2])
            h.derived(op, lambda: spe.condition(e, *mm), lambda: fresh().condition(build.ev(o[2])), {'t': 'cond', 'm': rec, 'e': o[2]})
        elif kind == 'constr':
            a = build.assignment(o[2])
            keep = dict(a)
            h.derived(op, lambda: spe.constrain(a, *mm), lambda: fresh().constrain(build.assignment(o[2])), {'t': 'constr', 'm': rec, 'a': o[2]})
            check(a == keep, '%s: the assignment changed to %s', h.where(op), a)
        elif kind == 'logpdf':
            a = build.assignment(o[2])
            keep = dict(a)
            h.compare(op, outcome(lambda: float(spe.logpdf(a, *mm))), outcome(lambda: float(fresh().logpdf(build.assignment(o[2])))))
            check(a == keep, '%s: the assignment changed to %s', h.where(op), a)
        elif kind == 'trans':
            if o[3][0] not in ref.variables(rec) or o[2] in ref.variables(rec):
                continue
            f = lambda s: s.transform(Id(o[2]), build.expr(o[3][1], Id(o[3][0])))
            h.derived(op, lambda: f(spe), lambda: f(fresh()), {'t': 'trans', 'm': rec, 'v': o[2], 'x': o[3]})
        elif kind == 'prod':
            j = o[2] % len(h.models)
            other, rec2 = h.models[j], h.recipes[j]
            if other is None or ref.variables(rec) & ref.variables(rec2):
                continue
            h.derived(op, lambda: spe & other, lambda: build_(rec) & build_(rec2), {'t': 'prod', 'c': [rec, rec2]})
        elif kind == 'mix':
            j = o[2] % len(h.models)
            other, rec2 = h.models[j], h.recipes[j]
            if other is None or ref.variables(rec) != ref.variables(rec2) or i == j:
                continue
            w = 0.375
            h.derived(op, lambda: (w * spe) | ((1 - w) * other), lambda: (w * build_(rec)) | ((1 - w) * build_(rec2)),
                      {'t': 'mix', 'c': [[3, rec], [5, rec2]]})
        elif kind == 'sample':
            f = lambda s: sample_rows(s.sample(4, prng=numpy.random.RandomState(o[2])))
            h.compare(op, outcome(lambda: f(spe)), outcome(lambda: f(fresh())))
        elif kind == 'subset':
            vs = sorted(ref.variables(rec))[:1 + o[2] % 3]
            f = lambda s: sample_rows(s.sample_subset({Id(v) for v in vs}, 3, prng=numpy.random.RandomState(o[2])))
            h.compare(op, outcome(lambda: f(spe)), outcome(lambda: f(fresh())))
        elif kind == 'json':
            h.compare(op, ('ok', normal(spe_to_dict(spe))), ('ok', normal(spe_to_dict(fresh()))))
        elif kind == 'render':
            h.compare(op, outcome(lambda: render_sppl(spe).getvalue()), outcome(lambda: render_sppl(fresh()).getvalue()))
        elif kind == 'drop':
            if sum(x is not None for x in h.models) > 1:
                h.models[i] = None
                spe = None
                gc.collect()
        elif kind == 'again':
            # Build the model once more and go on with the new object.
            h.add(fresh(), rec)
        h.unchanged(op)
        h.log.append(op)
        done += 1
    # At the end every model still answers as a fresh one.
    for i, (spe, rec) in enumerate(zip(h.models, h.recipes)):
        if spe is None:
            continue
        evs = [e for e in case['pool'] if {l[1] for l in ref.literals(e)} <= ref.variables(rec)]
        op = 'the events of model %d at the end' % i
        h.compare(op, ('ok', h.answers(spe, evs, False)), ('ok', h.answers(build_(rec), evs, True)))
        for k in ('a', 'b'):
            for e in evs[:2]:
                h.compare(op, outcome(lambda: float(spe.logprob(h.event(e), *h.memo(k)))),
                          outcome(lambda: float(build_(rec).logprob(build.ev(e)))))
    ctx.tag('length:%d' % (done // 4 * 4))
    ctx.nt = done >= 4 and h.hits > 0
