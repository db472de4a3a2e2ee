"""What every driver shares: executing calls under a CPU-time limit."""
import contextlib
import hashlib
import json
import signal


class HarnessTimeout(BaseException):
    pass


def _fire(*a):
    raise HarnessTimeout("cpu time limit")


@contextlib.contextmanager
def cpu_limit(seconds):
    old = signal.signal(signal.SIGVTALRM, _fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def call(f, *a, limit=20, **k):
    """(result, None) or (None, exception type name)."""
    try:
        with cpu_limit(limit):
            return f(*a, **k), None
    except HarnessTimeout:
        return None, "HarnessTimeout"
    except RecursionError:
        return None, "RecursionError"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        return None, type(e).__name__


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
