""" C12: training-monitor counters stay truthful through failures and restores. """
from ._monitor import run as _run


def run(d):
    _run(d, 'counters')
