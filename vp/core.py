"""Case execution: contexts that collect observations, and what turns an exception into a verdict."""
import collections
import faulthandler
import hashlib
import json
import os
import random
import signal
import sys
import traceback

faulthandler.enable()

REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(os.path.realpath(REPO), "jinete") + os.sep


class Stop(Exception):
    """Ends a case early (after a violation that makes the rest of the case meaningless)."""


class Hang(BaseException):
    """The CPU budget of one case ran out."""


def _digest(obj) -> str:
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = {}
        self.errors = []
        self.cases = 0
        self.case_index = None
        self.case_note = None
        self.fired = False

    # ---- observations
    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        if len(self.sigs) < 400000:
            self.sigs.add(_digest(parts))

    def sample(self, obj, every=1):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, obj):
        """What this case is, for the replay file."""
        self.case_note = obj

    # ---- verdicts
    def violation(self, mechanism, detail, data=None):
        self.fired = True
        self.count("violations")
        rec = self.violations.get(mechanism)
        if rec is None:
            rec = self.violations[mechanism] = dict(
                mechanism=mechanism, detail=str(detail)[:2000], case=self.case_index, data=data, note=self.case_note, n=0
            )
        rec["n"] += 1

    def check(self, cond, mechanism, detail="", data=None):
        self.count("oracle_evaluations")
        if not cond:
            self.violation(mechanism, detail() if callable(detail) else detail, data)
        return bool(cond)

    def run_case(self, fn, index, cpu_limit=60.0):
        """Runs one case; classifies every way it can end."""
        self.case_index, self.case_note, self.fired = index, None, False
        rng = random.Random(f"{self.prop}:{self.seed}:{index}")
        random.seed(f"global:{self.prop}:{self.seed}:{index}")
        self.cases += 1

        def on_alarm(signum, frame):
            raise Hang()

        old = signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
        try:
            fn(self, index, rng)
        except Stop:
            pass
        except Hang as exc:
            self.count("hangs")
            where = lib_frame(exc)
            if where is not None:
                self.hung(where, cpu_limit)
        except Exception as exc:
            where = raised_in_library(exc)
            text = "".join(traceback.format_exception(exc))
            if where is None and isinstance(exc, (AttributeError, TypeError, LookupError, ValueError, ArithmeticError)):
                # never on a sound tree: the library answered with something the monitor cannot even read
                frame = traceback.extract_tb(exc.__traceback__)[-1]
                self.violation(
                    f"unreadable-answer:{type(exc).__name__}@{os.path.basename(frame.filename)}:{frame.name}", text[-1800:]
                )
            elif where is None:
                self.count("harness_errors")
                if len(self.errors) < 3:
                    self.errors.append(f"case {index}: {text[-3000:]}")
            else:
                self.violation(f"crash:{type(exc).__name__}@{where}", text[-1800:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)

    def hung(self, where, cpu_limit):
        self.violation(f"no-termination@{where}", f"no result after {cpu_limit} s of CPU time in one small case")

    def dump(self):
        return dict(
            counts=dict(self.counts),
            sigs=sorted(self.sigs),
            samples=self.samples,
            violations=list(self.violations.values()),
            errors=self.errors,
            cases=self.cases,
            optimize=sys.flags.optimize,
        )


def _frames(exc):
    tb, out = exc.__traceback__, []
    while tb is not None:
        out.append(tb.tb_frame.f_code)
        tb = tb.tb_next
    return out


def lib_frame(exc):
    """The innermost frame of the library on the exception's stack (None: the library was not on the stack)."""
    for code in reversed(_frames(exc)):
        if os.path.realpath(code.co_filename).startswith(LIB):
            return code.co_qualname
    return None


def raised_in_library(exc):
    """Where in the library an exception came from, if it was the library that failed.

    An exception raised by harness code (even one called back by the library) is the harness's own error, unless the
    harness was itself calling into the library again."""
    codes = _frames(exc)
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    for code in reversed(codes):
        name = os.path.realpath(code.co_filename)
        if name.startswith(LIB):
            return code.co_qualname
        if name.startswith(here):
            return None
    return None


def jsonable(obj):
    return json.loads(json.dumps(obj, default=str))
