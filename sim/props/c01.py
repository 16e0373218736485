from .. import work
from ._sched import ScheduleProp


class P(ScheduleProp):
    id = 'C01'
    kinds = work.SINGLE
    runs = {'quick': 100000, 'thorough': 5000000}
    rule = ('A run draws an entry point (native reconstruction, Tomography.run, shortcuts.tomogram, Tomography.run_hybrid, projection, '
            'back-projection, particle counting), dimensions, data, precision, team size and a scheduling strategy; every memory access and '
            'runtime call of a team member is a possible preemption. Non-trivial: at least one preemption inside a parallel region, or a team '
            'smaller than asked for; distinct: different scheduling-decision hash or different input.')


PROP = P()
