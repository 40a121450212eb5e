"""Builds the whole Rust backend of the current directory's repository with the stand-ins beside this file, and sends pipelines to its service."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['FICUS_REPO'] = os.path.dirname(os.environ['PYTHONPATH'].split(':')[0])
sys.path.insert(0, HERE)
from ficusmon import rust, service  # noqa: E402
from ficusmon.service import Steps, colour, enum, flag, names, names_of, net_of, real, rectangles, text, texts, u32  # noqa: E402,F401


class Mon:
    scratch = os.getcwd()

    def event(self, *a):
        pass


rust.build_service(os.path.abspath('build'))
service.worker_start(Mon())
S = service.S


def run(log, *steps, **initial):
    """Results of a pipeline on a names log that must succeed: one dict of values per 'get' or 'ask'."""
    start = [('do', 'UseNamesEventLog', {})] if log is not None else []
    if log is not None:
        initial['names_event_log'] = names(log)
    return [v for _, v in S.get(start + list(steps), initial).results]


def log_after(log, *steps):
    return names_of(run(log, *steps, ('do', 'GetNamesEventLog', {}), ('get', 'names_event_log'))[-1]['names_event_log'])


def strategy(v='FromAllTraces'):
    return {'patterns_discovery_strategy': enum('PatternsDiscoveryStrategy', v)}
