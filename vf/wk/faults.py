"""Ways in which a program can be ill-formed."""

# Statements that have no meaning; {v} is a defined numeric variable, {w} another one.
RAW = {}
for _i, _l in enumerate('''observe({v} < 1)
print({v})
condition({v} < 1, {v} < 2)
condition()
condition({v})
condition(True)
condition({v} < 1, flag=1)
condition("{v} < 1")
condition({v} < 1
condition {v} < 1)
condition({v} < )
constrain({v} == 1)
constrain()
constrain({ {v}: 'no such value'})
constrain({ {v}: 1}, 2)
Q ~= nosuchdistribution()
Q ~= norm
Q ~= norm() + 1
Q ~= 2*norm()
Q ~= -norm()
Q ~= norm(0, 1)
Q ~= norm(loc=0, scale=-1)
Q ~= norm(loc={v})
Q ~= poisson(mu={v})
Q ~= poisson(mu=-2)
Q ~= bernoulli(p=1.5)
Q ~= randint(low=4, high=2)
Q ~= beta(a=1)
Q ~= choice({'a': 0.5, 'b': 0.4})
Q ~= choice({'a': 1.5, 'b': -0.5})
Q ~= choice({})
Q ~= discrete({1: 0.5, 2: 0.4})
Q ~= 0.5*norm() | 0.4*norm()
Q ~= 0.5*norm() | 0.6*norm()
Q ~= 0.5*norm() | norm()
Q ~= 0.5*norm() + 0.5*norm(loc=1)
Q ~= 0.5*norm() & 0.5*norm(loc=1)
Q ~= norm() | norm()
Q ~= {v} + {w}
Q ~= {v} * {w}
Q ~= {v} ** {w}
Q ~= {v} ** {v}
Q ~= {v} ** 'a'
Q ~= {v} / 0
Q ~= {v}*({v} < 1) + ({v}**2)*({v} < 2)
Q ~= {v}*({v} <= 1) + ({v}**2)*({v} >= 1)
Q ~= {v}*({w} < 1) + ({v}**2)*({w} >= 1)
Q ~= {v} + nothing
Q ~=
~= norm()
Q, Q2 ~= norm(), norm()
Q = Q2 = norm()
Q += 1
Q : int
del {v}
assert {v}
return {v}
pass pass
global Q
import nosuchmodule
lambda: 3
{v} < 1
{v}.condition(1)
3
[norm()]
Q[0] ~= norm()
Q[{v}] ~= norm()
{v}[0] ~= norm()
Q ~= norm() if {v}
Q ~= 1 if {v} < 1 else 2
condition({v} < 1 and nothing)
condition(not {v})
condition({v} < 1 < 2)
condition({v} < {w})
condition({v} == {w})
condition({v} + {w} < 1)'''.split('\n')):
    RAW['line%d' % _i] = ('any', [_l])
for _i, _l in enumerate('''while {v} < 1:|    Q ~= norm()
def f():|    Q ~= norm()
with {v}:|    Q ~= norm()
try:|    Q ~= norm()|except Exception:|    Q ~= norm()
class Q:|    pass
for i in range(2):|    Q ~= norm()
for i in range(0, 2, 1):|    condition({v} < 1e6)
for i in [1, 2]:|    condition({v} < 1e6)
for i in range(2):|    condition({v} < 1e6)|else:|    condition({v} < 1e6)
for i in range(2):|    Q[i] ~= norm()
for i in range({v}):|    condition({v} < 1e6)
for (i, j) in range(2):|    condition({v} < 1e6)
for i in range(2):|condition({v} < 1e6)
if {v} < 1e7:|    Q ~= norm()|elif:|    Q ~= norm()
if {v} < 1e7:|    Q ~= norm()|else {v} < 1:|    Q ~= norm()
if {v}:|    Q ~= norm()|else:|    Q ~= norm()
if True:|    Q ~= norm()|else:|    Q ~= norm()
if nothing < 1:|    Q ~= norm()|else:|    Q ~= norm()
switch (nothing) cases (x in [1, 2]):|    Q ~= norm()
switch ({v}) cases (x in ['no', 'none']):|    Q ~= norm()
switch ({v}) cases (x in []):|    Q ~= norm()
switch ({v}) cases x in [1, 2]:|    Q ~= norm()
switch ({v}):|    Q ~= norm()
switch ({v} + 1) cases (x in [1, 2]):|    Q ~= norm()
  Q ~= norm()'''.split('\n')):
    RAW['block%d' % _i] = ('any', _l.split('|'))
for _i, _l in enumerate('''Q = array(2)|Q[2] ~= norm()
Q = array(2)|Q[0] ~= norm()|Q[0] ~= norm()
Q = array(2)|Q[0] ~= norm()|Q[-2] ~= norm()
Q = array(2)|Q = array(2)|Q[0] ~= norm()
Q = array(2)|Q ~= norm()
Q = array(2)|Q[0] ~= norm()|condition(Q[1] < 1)
Q = array(2)|Q[0] ~= norm()|condition(Q < 1)
Q = array(2, 3)|Q[0] ~= norm()
Q = array()|Q[0] ~= norm()
Q = array({v})|Q[0] ~= norm()
Q = array('a')|Q[0] ~= norm()
Q = array(2)|for i in range(3):|    Q[i] ~= norm()
Q = array(2)|for i in range(2):|    Q[0] ~= norm()
Q = array(3)|Q[0] ~= norm()|for i in range(0, 2):|    Q[i] ~= Q[0] + 1
Q = array(3)|for i in range(0, 2):|    Q[i] ~= Q[i + 1] + 1
if {v} < 1e7:|    Q = array(2)|    Q[0] ~= norm()|else:|    Q = array(2)|    Q[0] ~= norm()
for i in range(2):|    Q = array(2)|    Q[i] ~= norm()'''.split('\n')):
    RAW['top%d' % _i] = ('top', _l.split('|'))
FAULTS = ['redefine', 'redefine-trans', 'self', 'unknown-base', 'unknown-cond', 'unknown-cond-or', 'unknown-guard', 'unknown-constrain',
          'impossible', 'branch-def', 'extra-def', 'no-else', 'if-alone', 'drop-def'] * 3 + sorted(RAW)
