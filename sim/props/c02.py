from .. import work
from ._sched import ScheduleProp


class P(ScheduleProp):
    id = 'C02'
    kinds = work.MULTI
    runs = {'quick': 100000, 'thorough': 5000000}
    rule = ('As C01, for the multi-bunch entry points (native, class, both hybrid versions, particle counting), with 1 to 5 bunches that touch, '
            'overlap or are separated. Non-trivial: at least one preemption inside a parallel region, or a team smaller than asked for; '
            'distinct: different scheduling-decision hash or different input.')


PROP = P()
