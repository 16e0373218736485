"""Concurrent and nested computations."""
from ._clients import ClientsProp


class P(ClientsProp):
    id = 'C07'
    runs = {'quick': 9000, 'thorough': 600000}
    rule = ('A run draws up to five computations or data treatments (some of them the same call, or different calls, on the same machine, profiles, coordinates or '
            'reconstruction), hands them to one to three client threads or lets them start from the progress report of another one, and draws the schedule of the '
            'clients and of the threads of the native code. Every result is compared with the sequential definition, or with the one of a process that does nothing '
            'else; inputs are compared with copies. Non-trivial: the clients were interleaved or a computation was nested; distinct: different client schedule or work.')


PROP = P()
