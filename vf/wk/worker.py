"""PyPy side: imports the code under test once, then decides one case per line."""
import json, os, sys, traceback, warnings
warnings.filterwarnings('ignore')


def memoize(f):
    """Sympy's solvers are pure and slow; the code under test calls them again
    and again with the same arguments."""
    import functools
    import sympy
    memo = {}

    @functools.wraps(f)
    def g(*args, **kw):
        try:
            key = (tuple(sympy.srepr(a) for a in args), tuple((k, sympy.srepr(v)) for k, v in sorted(kw.items())))
        except Exception:
            return f(*args, **kw)
        if key not in memo:
            if len(memo) > 20000:
                memo.clear()
            memo[key] = f(*args, **kw)
        return memo[key]
    return g


def guard():
    """Die with the parent, whatever the current case is doing; bound memory."""
    import ctypes, resource, signal
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)      # PR_SET_PDEATHSIG
    except Exception:
        pass
    if os.getppid() == 1 and os.environ.get('VF_PARENT') not in (None, '1'):
        os._exit(1)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def main():
    guard()
    if hasattr(sys, 'set_int_max_str_digits'):
        sys.set_int_max_str_digits(0)
    prop, lib = sys.argv[1:3]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)          # anything the code prints must not corrupt the protocol
    os.environ.pop('SPPL_NO_SYMBOLIC', None)
    os.environ.pop('SPPL_NO_SIMPLIFY', None)

    def send(x):
        out.write(json.dumps(x) + '\n')
        out.flush()
    import numpy
    numpy.seterr(all='ignore')
    import sympy
    import sympy.calculus.util as scu
    sympy.solveset = memoize(sympy.solveset)
    scu.function_range = memoize(scu.function_range)
    import sppl
    if not os.path.realpath(sppl.__file__).startswith(os.path.realpath(lib)):
        send({'status': 'wrong-copy', 'why': sppl.__file__})
        return
    import ref
    from core import Violation, Discard, Ctx, in_sut
    import importlib
    mod = importlib.import_module('p_' + prop.lower())
    send({'status': 'ready'})
    for line in sys.stdin:
        case = json.loads(line)
        ctx = Ctx()
        for v in ('SPPL_NO_SYMBOLIC', 'SPPL_NO_SIMPLIFY'):
            os.environ.pop(v, None)
        ref.ZMIN, ref.DMIN = (1e-200, 1e-200) if isinstance(case, dict) and case.get('rare') else (1e-7, 1e-12)
        try:
            mod.run(case, ctx)
            res = {'status': 'ok', 'nt': bool(ctx.nt), 'tags': sorted(ctx.tags)}
        except Discard as e:
            res = {'status': 'discard', 'why': str(e), 'tags': []}
        except Violation as e:
            res = {'status': 'fail', 'why': str(e)}
        except MemoryError:
            os._exit(137)
        except BaseException as e:
            tb = traceback.format_exc()
            if in_sut(e, lib):
                res = {'status': 'fail', 'why': 'unexpected exception from the code under test:\n'
                       + '\n'.join(ctx.trail[-5:]) + '\n' + tb[-2500:]}
            else:
                res = {'status': 'error', 'why': tb[-4000:]}
        send(res)


main()
