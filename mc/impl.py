"""Access to the code under test in /repo (public API, or module paths the repository's own tests import)."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")  # override: only for trying the checks on a scratch copy
sys.path.insert(0, REPO)
os.environ["MPLBACKEND"] = "Agg"

from . import rng  # noqa: E402

rng.install()

import matplotlib.pyplot  # noqa: E402,F401
import PIL.Image  # noqa: E402,F401
import rply  # noqa: E402,F401

# never use compiled files of /repo that some other version of the source may have left behind
sys.pycache_prefix = "/nonexistent/mc"
import python_dice  # noqa: E402
from python_dice import PythonDiceInterpreter as Interpreter  # noqa: E402
from python_dice.src.python_dice_parser import PythonDiceParser as Parser  # noqa: E402

assert os.path.realpath(python_dice.__file__).startswith(os.path.realpath(REPO) + os.sep), python_dice.__file__

_parser = None


def parser():
    global _parser
    if _parser is None:
        _parser = Parser()
    return _parser


def session():
    return Interpreter(parser())


def counts(line, interp=None):
    """Integer counts of the distribution of one line."""
    return (interp or session()).get_probability_distributions([line])["stdout"].get_result_map()


def factory():
    from python_dice.src.probability_distribution.probability_distribution_factory import (
        ProbabilityDistributionFactory,
    )

    return ProbabilityDistributionFactory()


def state_factory():
    from python_dice.src.probability_distribution.probability_distribution_state_factory import (
        ProbabilityDistributionStateFactory,
    )

    return ProbabilityDistributionStateFactory()


def outcome(call, *args):
    """('ok', value) or ('err', exception class name)."""
    try:
        return ("ok", call(*args))
    except (ValueError, KeyError, ZeroDivisionError, TypeError) as e:
        return ("err", type(e).__name__)


def bounded(call, seconds):
    """Runs call() in a child process: its outcome (must be picklable), or None if it has not answered in time."""
    import pickle
    import select
    import signal

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.write(w, pickle.dumps(outcome(call)))
        finally:
            os._exit(0)
    os.close(w)
    ready, _, _ = select.select([r], [], [], seconds)
    data = os.read(r, 1 << 16) if ready else b""
    os.close(r)
    if not data:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None
