from .. import work
from ._sched import ScheduleProp


class P(ScheduleProp):
    id = 'C03'
    kinds = work.TRACK
    runs = {'quick': 60000, 'thorough': 3000000}
    rule = ('A run draws a tracking entry point (native loop with scalar or tabulated phases, or a machine object; Tracking.track with automatic or '
            'user distribution; the turn-by-turn loop; tracking with self-fields; shortcuts.track; single kicks and drifts), a starting profile and '
            'offset, data, precision, team size and scheduling strategy. Output arrays start from arbitrary values. Non-trivial: at least one '
            'preemption inside a parallel region, or a team smaller than asked for; distinct: different scheduling-decision hash or input.')


PROP = P()
