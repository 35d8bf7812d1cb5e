"""Bounds on one check: it answers with what it has explored so far."""

import resource
import signal
from contextlib import contextmanager

SECONDS = 760
MEMORY = 14 << 30


class OutOfTime(BaseException):
    pass


@contextmanager
def bounded(rep, seconds=SECONDS, memory=MEMORY):
    """Run a check's rules; a note says if they did not come to an end."""

    def stop(*_):
        raise OutOfTime

    old = signal.signal(signal.SIGALRM, stop)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (memory, hard))
    signal.alarm(seconds)
    rep.complete = False
    try:
        yield
        rep.complete = True
    except OutOfTime:
        rep.und("limits", "check", f"not finished after {seconds} s")
    except (MemoryError, SystemError, RecursionError):
        rep.und("limits", "check", "not finished within the limits on memory")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
