"""C22: renderings and notebook commands reflect the model."""
import atexit, contextlib, io, math, os, re, shutil, sys, tempfile, time
import networkx as nx
import scipy.stats
import build, prog, ref
from core import check, check_close, Discard
from p_c02 import feats
from p_c16 import fingerprint
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.magics import render as R
from sppl.render import render_nested_lists, render_nested_lists_concise
from sppl.spe import (AtomicLeaf, ContinuousLeaf, DiscreteLeaf, LeafSPE, NominalLeaf,
                      ProductSPE, RealLeaf, SumSPE)
from sppl.transforms import Id

TOL = dict(rel=5e-6, abs_=5e-7)


# --- nested lists -------------------------------------------------------------

def rebuild(x):
    """The model described by nested lists."""
    kind, items = x
    d = dict((k, v) for k, v in items)
    check(len(d) == len(items), 'repeated entries in %s', x)
    if kind == 'SumSPE':
        cs = [rebuild(c) for c in d['children']]
        ws = d['weights']
        check(len(cs) == len(ws) == d['n_children'], '%s children, %s weights, n_children is %s', len(cs), len(ws), d['n_children'])
        check(abs(sum(ws) - 1) < 1e-6, 'weights %s', ws)
        keep = [(c, w) for c, w in zip(cs, ws) if w > 0]
        tot = sum(w for _, w in keep)
        r = keep[0][0] if len(keep) == 1 else SumSPE([c for c, _ in keep], [math.log(w / tot) for _, w in keep])
    elif kind == 'ProductSPE':
        cs = [rebuild(c) for c in d['children']]
        check(len(cs) == d['n_children'], '%s children, n_children is %s', len(cs), d['n_children'])
        r = ProductSPE(cs)
    elif kind == 'NominalLeaf':
        r = NominalLeaf(d['symbol'], d['dist'])
        check(set(d['env']) == {d['symbol']}, 'environment of %s', x)
    elif kind == 'AtomicLeaf':
        r = AtomicLeaf(d['symbol'], d['value'], env=d['env'])
    elif kind in ('RealLeaf', 'DiscreteLeaf', 'ContinuousLeaf'):
        name, args, kwds = d['dist']
        dist = getattr(scipy.stats, name)(*args, **kwds)
        if not hasattr(dist, 'dist'):
            dist = dist.freeze()
        cls = DiscreteLeaf if hasattr(dist.dist, 'pmf') else ContinuousLeaf
        r = cls(d['symbol'], dist, d['support'], d['conditioned'], env=d.get('env'))
    else:
        check(False, 'unknown entry %s', kind)
    if 'symbols' in d:
        check(len(d['symbols']) == len(set(d['symbols'])) and set(d['symbols']) == set(r.get_symbols()),
              'symbols %s, of the children %s', d['symbols'], r.get_symbols())
    return r


def concise(x):
    """('leaf', {name: definition}) | ('+', children) | ('*', children)."""
    if len(x) == 2 and isinstance(x[0], str):
        op, cs = x
        check(op == '%s(%d)' % (op[0], len(cs)), '%s for %d children', op, len(cs))
        return op[0], [concise(c) for c in cs]
    return 'leaf', sorted(x)


def walk(spe):
    if isinstance(spe, LeafSPE):
        return 'leaf', sorted((str(k), str(v)) for k, v in spe.env.items())
    return '+' if isinstance(spe, SumSPE) else '*', [walk(c) for c in spe.children]


# --- graphs -------------------------------------------------------------------

def node(spe):
    """Canonical form (label, [(edge label, style, subtree)]) the graph should have."""
    if isinstance(spe, SumSPE):
        return canon('+', [('%1.3f' % math.exp(w), '', node(c)) for c, w in zip(spe.children, spe.weights)])
    if isinstance(spe, ProductSPE):
        return canon('*', [('', '', node(c)) for c in spe.children])
    name = str(spe.symbol)
    if isinstance(spe, NominalLeaf):
        return canon('%s | Nominal' % name, [])
    if isinstance(spe, AtomicLeaf):
        text = '%s | Atomic(%s)' % (name, spe.value)
    else:
        f = spe.dist
        kw, fam = tuple(f.kwds.values()), f.dist.name
        if hasattr(f.dist, 'xk'):
            kw, fam = kw + ((f.dist.xk.tolist(), f.dist.pk.tolist()),), 'rv_discrete'
        text = '%s | %s' % (name, fam) + (' | %s' % (kw,) if kw else '')
    return canon(text, [(str(k), 'dashed', canon(str(v), [])) for k, v in spe.env.items() if k != spe.symbol])


def canon(label, edges):
    return (label, sorted(edges, key=repr))


def read(G):
    check(len(G) == 0 or nx.is_arborescence(G), 'the graph is not a tree: %d nodes, %d edges', len(G), G.number_of_edges())
    roots = [n for n in G if G.in_degree(n) == 0]
    check(len(roots) == 1, 'roots %s', roots)

    def go(n):
        label = G.nodes[n].get('label', '')
        label = {'\N{PLUS SIGN}': '+', '\N{MULTIPLICATION SIGN}': '*'}.get(label, label)
        label = ' | '.join(label.split('\n'))
        es = []
        for m in G.successors(n):
            a = G.edges[n, m]
            es.append((a.get('label', '').strip(), a.get('style', ''), go(m)))
        return canon(label, es)
    return go(roots[0])


def show(t, depth=0):
    return '\n'.join(['%s%s' % ('  ' * depth, t[0])] + ['%s[%s %s]\n%s' % ('  ' * depth, a, b, show(s, depth + 2)) for a, b, s in t[1]])


def same_graph(G, spe, what):
    a, b = read(G), node(spe)
    check(a == b, '%s: graph\n%s\nfor the model\n%s', what, show(a), show(b))
    return len(G)


@contextlib.contextmanager
def clock(kind):
    real = time.time
    n = [0]

    def back():
        n[0] += 1
        return 1.6e9 - n[0] % 7
    f = {'real': real, 'frozen': lambda: 1.6e9, 'coarse': lambda: math.floor(real() * 64) / 64, 'back': back}[kind]
    time.time = f
    try:
        yield
    finally:
        time.time = real


def run(case, ctx):
    if case['kind'] == 'history':
        return history(case, ctx)
    m, evs = case['m'], case['evs']
    ref.validate(m)
    spe = build.model(m, case['style'])
    if case['dup']:
        # One component used several times.
        other = build.model(m, case['style'])
        e = build.ev(case['cond'])
        p = float(spe.prob(e))
        if 1e-6 < p < 1 - 1e-6:
            a = spe.condition(e)
            spe = SumSPE([a, spe, a], [math.log(x) for x in (.25, .25, .5)])
            m = {'t': 'mix', 'c': [[.25, {'t': 'cond', 'm': m, 'e': case['cond']}], [.25, m], [.5, {'t': 'cond', 'm': m, 'e': case['cond']}]]}
            ctx.tag('shared')
    check({str(s) for s in spe.get_symbols()} == ref.variables(m), 'variables %s', spe.get_symbols())
    for x in feats(m):
        ctx.tag('model:' + x)
    before = fingerprint(spe)
    lists = render_nested_lists(spe)
    check(fingerprint(spe) == before, 'rendering as nested lists changed the model')
    back = rebuild(lists)
    check(back.get_symbols() == spe.get_symbols(), 'variables %s', back.get_symbols())
    for e, p in zip(evs, ref.probs(m, evs)):
        ev = build.ev(e)
        check_close(float(back.prob(ev)), p, 'P(%s) of the model read from nested lists %s' % (ev, str(lists)[:1500]), **TOL)
        check_close(float(back.prob(ev)), float(spe.prob(ev)), 'P(%s) of the model read from nested lists %s' % (ev, str(lists)[:1500]), rel=1e-9, abs_=1e-10)
        if 1e-4 < p < 1 - 1e-4:
            ctx.nt = True
    got, want = concise(render_nested_lists_concise(spe)), walk(spe)
    check(got == want, 'concise lists %s for %s', got, want)
    check(fingerprint(spe) == before, 'rendering as concise nested lists changed the model')
    with clock(case['clock']):
        G = R.render_networkx_graph(spe)
    n = same_graph(G, spe, 'clock %s' % case['clock'])
    check(fingerprint(spe) == before, 'rendering as a graph changed the model')
    check(same_graph(R.render_networkx_graph(spe), spe, 'rendered again') == n, 'number of nodes')
    ctx.nt = ctx.nt or n > 2
    ctx.tag('clock:' + case['clock'], 'nodes:%s' % ('1' if n == 1 else '<10' if n < 10 else '>=10'))


# --- notebook commands --------------------------------------------------------

SHELL = []


def shell():
    if not SHELL:
        d = tempfile.mkdtemp(prefix='vf-c22-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        for p in ('home', 'out'):
            os.mkdir(os.path.join(d, p))
        os.environ['IPYTHONDIR'] = os.path.join(d, 'home')
        from traitlets.config import Config
        from IPython.core.interactiveshell import InteractiveShell
        c = Config()
        c.HistoryManager.enabled = False
        SHELL.append((InteractiveShell, c, os.path.join(d, 'out')))
    cls, c, out = SHELL[0]
    ip = SHELL[1] if len(SHELL) > 1 else cls(config=c)
    if len(SHELL) == 1:
        SHELL.append(ip)
    import sppl.magics
    ip.user_ns.clear()
    ip.init_user_ns()
    sppl.magics.load_ipython_extension(ip)      # a new session
    return ip, out


def dot_text(G):
    q = lambda s: '"%s"' % str(s).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
    at = lambda d: ' [%s]' % ', '.join('%s=%s' % (k, q(v)) for k, v in d.items())
    return 'digraph {\n%s\n%s\n}\n' % ('\n'.join(q(n) + at(d) for n, d in G.nodes.data()),
                                      '\n'.join('%s -> %s%s' % (q(a), q(b), at(d)) for a, b, d in G.edges.data()))


class Session:
    def __init__(self):
        self.ip, self.out = shell()
        self.graphs = []

    def cell(self, text):
        """(error type or None, value, output) of running a cell."""
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            r = self.ip.run_cell(text)
        err = r.error_in_exec or r.error_before_exec
        return (type(err).__name__ if err else None), r.result, o.getvalue(), e.getvalue(), err

    def ok(self, text, what):
        err, value, out, _, exc = self.cell(text)
        if err:
            raise exc
        return value, out


BAD = ['X ~= unknown_distribution(0)\n', 'X ~= norm(loc=\n', 'X ~= norm(loc=0, scale=1)\nX ~= norm(loc=0, scale=1)\n',
       'condition(A > 0)\n']


def history(case, ctx):
    s = Session()
    known = {}       # name -> program
    local = {}
    progs = []
    for c in case['progs']:
        p = {'stmts': c['stmts'], 'consts': c.get('consts', {})}
        m = prog.denote(prog.expand(prog.constants(p)))
        ref.validate(m)
        progs.append((prog.source(p, c['style']), m, c['evs'], ref.probs(m, c['evs'])))
    trail = []
    redefined = False
    saved = getattr(nx.nx_agraph, 'write_dot')
    tmp = tempfile.tempdir

    def write_dot(G, path):
        s.graphs.append(G)
        with open(path, 'w') as f:
            f.write(dot_text(G))
    nx.nx_agraph.write_dot = write_dot
    tempfile.tempdir = s.out
    cwd = os.getcwd()
    os.chdir(s.out)
    try:
        for i, o in enumerate(case['ops']):
            n, a, b = o['name'], ' ' + o['pre'], o['post']
            trail.append('%s %s%s' % (o['op'], n, ' #%d' % o['prog'] if 'prog' in o else ''))
            at = ' ; '.join(trail)
            ctx.tag('op:' + o['op'])
            if o['op'] == 'define':
                redefined = redefined or n in known
                s.ok('%%%%sppl%s%s%s\n%s' % (a, n, b, progs[o['prog']][0]), at)
                known[n] = o['prog']
            elif o['op'] == 'bad':
                err = s.cell('%%%%sppl%s%s%s\n%s' % (a, n, b, BAD[o['how']]))[0]
                check(err is not None, '%s: accepted an illegal program', at)
                known.pop(n, None)
                check(s.cell('%%sppl_get_spe%s%s%s' % (a, n, b))[0] is not None, '%s: a model is still there after its definition failed', at)
            elif o['op'] == 'noname':
                err, value, out, errs, _ = s.cell('%%sppl\nX ~= norm(loc=0, scale=1)\n')
                check(err or errs or out, '%s: a program without a name is accepted silently', at)
            elif o['op'] == 'spe':
                line = '%%sppl_get_spe%s%s%s' % (a, n, b)
                if n not in known:
                    check(s.cell(line)[0] is not None, '%s: found an unknown program', at)
                else:
                    answers(s.ok(line, at)[0], progs[known[n]], at, ctx)
            elif o['op'] == 'namespace':
                line = '%%sppl_get_namespace%s%s%s' % (a, n, b)
                if n not in known:
                    check(s.cell(line)[0] is not None, '%s: found an unknown program', at)
                else:
                    v = s.ok(line, at)[0]
                    answers(getattr(v, n), progs[known[n]], at, ctx)
                    for x in ref.variables(progs[known[n]][1]):
                        if '[' not in x:
                            check(getattr(v, x) == Id(x), '%s: %s in the namespace is %s', at, x, getattr(v, x))
            elif o['op'] == 'python':
                line = '%%sppl_to_python%s%s%s' % (a, n, b)
                if n not in known:
                    check(s.cell(line)[0] is not None, '%s: found an unknown program', at)
                else:
                    text = s.ok(line, at)[1]
                    ns = {}
                    exec(compile(text, 'rendered', 'exec'), ns)
                    answers(ns[n], progs[known[n]], at, ctx)
                    lib = SPPL_Compiler(progs[known[n]][0], n).render_module()
                    check(text.strip() == lib.strip(), '%s: printed\n%s\nbut the library gives\n%s', at, text, lib)
            elif o['op'] in ('graph', 'local', 'copy'):
                f = ''
                if o['op'] == 'graph' and o['file']:
                    f = 'file%d' % i
                if o['op'] == 'local':
                    v = 'loc%d' % i
                    s.ip.user_ns[v] = SPPL_Compiler(progs[o['prog']][0]).execute_module().model
                    local[v] = s.ip.user_ns[v]
                    target, spe = v, local[v]
                elif o['op'] == 'copy' and n in known:
                    # A variable of the session; a program of that name comes first.
                    v = sorted(known)[-1]
                    s.ok('%s = %%sppl_get_spe %s' % (v, n), at)
                    target, spe = v, s.ok('%%sppl_get_spe %s' % v, at)[0]
                else:
                    target = n
                    spe = s.ok('%%sppl_get_spe %s' % n, at)[0] if n in known else s.ip.user_ns.get(n)
                before = fingerprint(spe) if spe is not None else None
                count = len(s.graphs)
                line = '%%sppl_to_graph%s%s%s%s' % (a, target, ' ' + o['pre'] + f if f else '', b)
                if spe is None:
                    check(s.cell(line)[0] is not None, '%s: found an unknown program', at)
                    continue
                v, _ = s.ok(line, at)
                check(len(s.graphs) == count + 1 and v is not None, '%s: %d graphs written', at, len(s.graphs) - count)
                same_graph(s.graphs[-1], spe, at)
                check(fingerprint(spe) == before, '%s: the model changed', at)
                if f and shutil.which('dot'):
                    check(os.path.exists(os.path.join(s.out, f + '.png')), '%s: no file %s.png', at, f)
        if redefined:
            ctx.tag('redefined')
        # Every program is what it was when last defined.
        for n, k in known.items():
            answers(s.ok('%%sppl_get_spe %s' % n, at)[0], progs[k], at, ctx)
    finally:
        os.chdir(cwd)
        nx.nx_agraph.write_dot = saved
        tempfile.tempdir = tmp
        for x in os.listdir(s.out):
            os.unlink(os.path.join(s.out, x))


def answers(spe, p, at, ctx):
    src, m, evs, want = p
    check({str(v) for v in spe.get_symbols()} == ref.variables(m), '%s: variables %s of\n%s', at, spe.get_symbols(), src)
    for e, q in zip(evs, want):
        ev = build.ev(e)
        check_close(float(spe.prob(ev)), q, '%s: P(%s) under\n%s\n' % (at, ev, src), **TOL)
        if 1e-4 < q < 1 - 1e-4:
            ctx.nt = True
