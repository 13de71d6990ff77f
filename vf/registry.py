"""Per-property settings: how many cases, how long, what counts as non-trivial."""
import importlib, json, os
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.abspath(__file__))


@dataclass
class Spec:
    quick: int
    thorough: int
    rule: str
    quick_s: float = 40
    thorough_s: float = 660
    case_timeout: float = 20
    assumptions: list = field(default_factory=list)
    mod: str = ''
    technique: str = 'property-based testing (Hypothesis) against a reference model'
    note: str = ('No counterexample among the generated cases of the stated budget and seed; '
                 'bounded sizes, floating-point tolerance, scipy taken as ground truth.')

    def strategy(self, tier):
        return importlib.import_module('gen.' + self.mod).strategy(tier)

    def partitions(self, tier):
        f = getattr(importlib.import_module('gen.' + self.mod), 'partitions', None)
        return f(tier) if f else None


BASE = ['Results of scipy.stats cdf/pmf/pdf for the frozen distribution are taken as ground truth.',
        'Probabilities are compared up to 2e-6 relative and 2e-7 absolute.']

SPECS = {
    'C01': Spec(900, 40000, 'Random model (leaf/product/mixture over 1-3 variables, nominal, integral, '
                'real or mixed-type) and 1-3 random events with up to 3 levels of and/or/not/xor over literals '
                'of composed expressions. Non-trivial: some event has probability strictly inside (0,1) and '
                'the event has several literals or the model is not a single leaf.', assumptions=BASE),
    'C08': Spec(6000, 300000, 'Random set expression (up to 5 levels of and/or/complement over intervals with all open/closed ends, finite real sets, nominal sets and their complements; mixed real/nominal without complement across types). Every end point, cell midpoint, infinity and several strings are probed. Non-trivial: at least two operators and three distinct end points.', assumptions=[]),
    'C07': Spec(2500, 100000, 'Random event over one variable: 1-3 literals over composed expressions (affine, polynomial up to degree 4, abs, exp, log, roots, reciprocal, piecewise) with thresholds often exactly at attained values, negation/and/or. The solution set is probed on a grid of exact rationals, at exact rational break points, between and next to all break points. Non-trivial: the event is true at some probe, false at another, and involves an expression or several literals.', assumptions=['Probe points whose value lies within 1e-7 of a threshold only through floating-point evaluation are skipped.']),
    'C09': Spec(2000, 100000, 'Random event over 1-4 variables (real, nominal, or taking both kinds of value) with up to 3 levels of and/or/not/xor; DNF, solved normal form and disjoint form are compared with the reference truth value on random assignments made of exact break points, midpoints and strings. Non-trivial: at least two literals, and the event is true on some sampled assignment and false on another.', assumptions=[]),
    'C20': Spec(4000, 200000, 'Random operator expression (up to 6 nested operations incl. integer and negative powers, polynomials, reciprocal, roots, exponentials and logarithms of several bases, piecewise), evaluated at rationals and floats, composed with a second expression by substitution, and compared against thresholds. Non-trivial: at least three defined evaluations of an expression with at least two operations.', assumptions=['Values are compared to 1e-9 relative.']),
    'C02': Spec(700, 30000, 'Random model (products, mixtures, derived variables, conditioning) over 1-3 variables, two random events, a chain of up to 4 equivalence-preserving rewrites of the first one (De Morgan, distribution, double negation, reordering, interval/set splitting, xor expansion, absorption, duplication, strictly monotone re-expression, polynomial/absolute-value re-expression) and a partition of one variable. Non-trivial: P(A) strictly inside (0,1) and at least one rewrite applied.', assumptions=["Only the reported numbers are compared with one another (1e-7)."]),
    'C03': Spec(1200, 60000, 'Random model (products, mixtures, nominal/integral/real/mixed variables, optionally with a derived variable or a measure-zero observation) over 1-4 variables, a chain of 1-3 conditioning events (up to 3 levels of and/or/not/xor) and 1-3 posterior queries. Non-trivial: a conditioning event of probability strictly below one, or of probability zero (must be rejected).', assumptions=BASE),
    'C04': Spec(1200, 60000, 'Random model (products, mixtures, mixed types, derived variables, conditioning, earlier observations) over 1-4 variables; 1-3 full or partial assignments, mostly of values some component can produce; log density, posterior probabilities of random events, posterior densities (full and partial). Non-trivial: an assignment of positive density was observed and its posterior queried.', assumptions=BASE),
    'C06': Spec(1600, 60000, 'Every distribution class (113 named families, each searched separately, at the shape parameters of scipy own test-suite and multiples of them, with and without location and scale of several numeric types) or a finite distribution/mixture of distributions; interval, half-line, point and union queries at quantiles, at and outside the support, densities, conditioning, and drawn values. Non-trivial: some queried probability strictly inside (0,1).', assumptions=BASE),
    'C05': Spec(800, 40000, 'Random model (products, mixtures, mixed types, derived variables, conditioning, observations) over 1-4 variables, 60-4000 samples, 1-3 random events, a random subset of variables and a function of them. Every sample is checked for its variables, support, derived values and conditions; the joint frequencies of all literal truth values (overall, in the first third, of neighbouring pairs) against exact binomial tails at 1e-10; equal seeds must give equal samples. Non-trivial: an event of probability in (0.001, 0.999).', assumptions=BASE),
    'C10': Spec(900, 40000, 'Random model over 1-4 variables with one or two derived variables (possibly a chain, possibly defined differently in different mixture components, piecewise or partial), defined before or after conditioning; joint events over base and derived variables, the substituted event on the base model, further conditioning in either order, observation of the base variables, samples. Non-trivial: an event about a derived variable has probability strictly inside (0,1).', assumptions=BASE),
    'C11': Spec(900, 40000, 'Random source program: 1-2 sampled variables followed by nested if/elif/else (to depth 2), conditional expressions, sampling from distributions and mixtures of distributions, derived variables (composed and piecewise expressions, chains), conditioning and observation statements at any position, written with random choice among the comparison and boolean notations; 1-3 events. Executed directly, through the rendered module, through command objects, and by the reference interpretation. Non-trivial: an event of probability strictly inside (0,1) in a program with at least two kinds of statement.', assumptions=BASE),
    'C12': Spec(900, 40000, 'Random program of 1-3 parts: loops filling arrays (each element depending on the previous one, nested loops, empty loops, symbolic sizes), switches over strings, numbers, ranges, enumerations, iterators, finite sets, overlapping intervals and bins (with loops and switches inside), loops around switches, conditional expressions, index-dependent parameters, thresholds and outcomes. Compared: the program, the expanded program with plain variables (other notations), the command objects For/Switch/IfElse, and the reference interpretation. Non-trivial: an event of probability strictly inside (0,1) in a program with a loop, switch or conditional expression.', assumptions=BASE),
    'C13': Spec(900, 40000, 'Random mixture of 2-4 components drawn from small pools of equal, nearly equal (one parameter, outcome, weight, bound or definition changed) and different one-variable models, in random order and grouping (with truncated leaves, derived variables and nested mixtures), or a random program whose branches repeat distributions. Compared: the raw mixture, the simplified one, the one with shared subtrees, products with a common factor, SPPL_NO_SIMPLIFY on and off; probabilities (also against the reference), densities, posteriors, weights, variables. Non-trivial: an event of probability strictly inside (0,1).', assumptions=BASE),
    'C14': Spec(900, 40000, 'Random model over 1-4 variables (products, mixtures, mixed types, conditioning, observations, derived variables by every kind of expression incl. piecewise, indicator, logarithms and roots, array names) or any of 110 primitive families (location, scale, several numeric types; truncated, transformed, observed); dictionary -> JSON text -> dictionary -> model compared with the original on events, densities, samples of one seed, posteriors, and serialised again. Non-trivial: an event of probability strictly inside (0,1).', assumptions=BASE),
    'C15': Spec(900, 40000, 'Random model over 1-4 variables (products, mixtures, mixed types, conditioning, observations, derived variables by every kind of expression, array names), primitive family (truncated, transformed, observed) or random source program; written with render_sppl (default and given number of digits, with and without a stream), compiled, and compared with the original on events, densities, posteriors, rendered posteriors, and rendered twice. Non-trivial: an event of probability strictly inside (0,1).', assumptions=BASE),
    'C17': Spec(900, 40000, 'Random model over 1-4 variables (products, mixtures, derived variables, conditioning, observations), two random events over total expressions (independent, overlapping, nested, equal or complementary, often of probability zero or one), an equivalent rewriting of the second, a trivial event and a conditioning event. Non-trivial: mutual information above 1e-6.', assumptions=BASE),
    'C18': Spec(1500, 60000, 'Random set, expression, event or model together with 2-5 relatives: rebuilt, parts reordered (keywords, weights, outcomes, operands), one number, flag, string or operator changed, numbers given as int, float or sympy numbers. All pairs and triples are compared; meaning by the reference (membership, values, truth, probabilities and densities). Non-trivial: a pair with different meaning.', assumptions=BASE),
    'C16': Spec(900, 40000, 'Random history of 4-12 operations (probability, density, conditioning, observing, definitions, mutual information, products, mixtures, samples, serialisation, rendering, dropping and rebuilding models) over a family of equal and nearly equal models, queries drawn from a small pool of events and given no cache, no caching, or one of two caches shared by the whole history. Each answer is compared with that of a model built from scratch; every model and event is compared with its earlier self after every operation. Non-trivial: at least four operations, with an event asked again.', assumptions=BASE),
    'C21': Spec(1500, 60000, 'Random event over polynomials up to degree 4 (nice or arbitrary coefficients, repeated, missing and tangent roots, inside and outside absolute values, exponentials, roots, reciprocals), solved with SPPL_NO_SYMBOLIC set, with the symbolic solver timing out, or giving no answer: the solution set is probed between and at all break points; and random models with such events (probabilities, posteriors, derived variables) against the reference and the symbolic answers. Non-trivial: a probability strictly inside (0,1), or an event true at some probe and false at another.', assumptions=BASE + ['Integer-valued variables meet thresholds they do not attain exactly (numerical roots).']),
    'C19': Spec(1200, 60000, 'A legal construction or program and one fault: mixtures over different variables, products over shared ones, weights that do not sum to one or lie outside (0,1), illegal parameters (each family), overlapping pieces or pieces over two variables, meaningless powers, bases and operands, second definitions, unknown variables in definitions, events, observations and samples, conditioning on the impossible, and programs with an inserted ill-formed statement (some 130 forms) at any position, a dropped definition, or branches defining different variables. The base must be accepted and the faulty version rejected with an error by every way of writing it. Non-trivial: every case that was decided.', assumptions=BASE),
    'C22': Spec(900, 40000, 'Random model over 1-4 variables (as for C14, sometimes with shared components), rendered as nested lists (read back into a model and compared with the reference), concise lists and a graph (read back as a tree; with a normal, frozen, coarse or backward clock); or a random session of 3-9 notebook commands in a real IPython shell (definitions and redefinitions of 1-3 random programs under 3 names, failing definitions, model, module source, namespace, graph of a program or variable, spacing). Non-trivial: a diagram of more than two nodes, or an event of probability strictly inside (0,1).', assumptions=BASE + ['pygraphviz is not installed: the writer of graph files is a stand-in that records the graph.']),
}
SPECS['C06'].quick_s = 60
SPECS['C10'].quick_s = 55
for _k in ('C07', 'C20'):
    SPECS[_k].case_timeout = 8
for _k, _s in SPECS.items():
    _s.mod = _s.mod or _k.lower()


def known_matchers(prop):
    """Predicates that recognise listed, unrepaired findings by their input."""
    return []
