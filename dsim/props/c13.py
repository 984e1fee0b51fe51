""" C13: every finished episode is logged exactly once with its own numbers. """
from ._monitor import run as _run


def run(d):
    _run(d, 'logs')
