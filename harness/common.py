"""Shared by the domain drivers, which run under the python of the code under test."""
import signal
import warnings

warnings.simplefilter("ignore")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def attempt(fn, seconds=20):
    """Call fn: (name of the exception or "", result)."""
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return "", fn()
    except Timeout:
        return "Timeout", None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # whatever the code raises is an outcome
        return type(e).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def strip(c):
    """A command without the fields that only say how the call is written."""
    if isinstance(c, dict):
        return {k: strip(v) for k, v in c.items() if not k.startswith("_")}
    if isinstance(c, (list, tuple)):
        return [strip(x) for x in c]
    return c
