"""C08 logs."""
from .. import gen
from ..drive import drive
from ..monitors import Log

RULE = ('One case is one random microgrid driven through a random history; its whole log is compared with the recorded history at '
        'random points, and logs returned earlier are compared with their copies at the next reset; a situation is (rows, columns, '
        'module kinds).')
CASES = dict(quick=400, thorough=6000)
MIN = dict(steps=8000, logs_compared=1500, rows_compared=10000, resets=400, logs_rechecked=300, flushed=300, same_length=60)
ASSUMPTIONS = ['the row of a genset holds its status after the request of that step took effect, which is the status it ran with',
               'a field that a module stops or starts logging (forecast entries) is nan in the rows without it']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, crowd=True, shaper=bool(index % 5 == 0), traj=bool(index % 3 == 0))
    ctx.describe(spec)
    mon = Log(p=float(rng.choice([.05, .15, .4])))
    S = drive(ctx, rng, spec, [mon], n_ops=150 if ctx.thorough else 60, ops=dict(reset=.05, forecaster=.03))
    mon.compare(S)
    mon.recheck(S)
