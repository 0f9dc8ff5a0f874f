"""Shared vocabulary of the checks: suites, violations, SUT guard, comparison."""
import contextlib
import math
import os
import traceback


class Violation(Exception):
  """The property does not hold for the case being run."""

  def __init__(self, msg, key=None):
    super().__init__(msg)
    self.key = key  # optional stable label, used only for known findings


class Skip(Exception):
  """The case is outside the domain of the property (counted, never silent)."""


@contextlib.contextmanager
def sut(what):
  """Everything that runs or reads the output of the code under test.

  An exception here means google/meterstick did not deliver the promised result
  (or delivered something unreadable), which is a violation; an exception
  outside is a harness error.
  """
  try:
    yield
  except (Violation, Skip):
    raise
  except (KeyboardInterrupt, SystemExit, MemoryError):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    if type(e).__module__.startswith('hypothesis'):
      raise
    tb = traceback.extract_tb(e.__traceback__)
    last = ' <- '.join(
        '%s:%s' % (os.path.basename(f.filename), f.name) for f in tb[-1:-4:-1])
    raise Violation('%s raised %s: %s [%s]' % (
        what, type(e).__name__, str(e)[:300], last)) from e


class Suite:
  """A generator + an oracle.

  strategy: () -> hypothesis strategy producing a JSON-able spec.
  run: spec -> iterable of class labels; the label 'nontrivial' marks the case
    as non-trivial. Raises Violation.
  quick/thorough: number of generated cases over all shards.
  """

  def __init__(self, name, strategy, run, quick, thorough, fixed=()):
    self.name = name
    self.strategy = strategy
    self.run = run
    self.quick = quick
    self.thorough = thorough
    self.fixed = list(fixed)  # specs always run first (regressions)


def isnull(v):
  if v is None:
    return True
  try:
    return math.isnan(v)
  except TypeError:
    return False


def close(a, b, rtol=1e-7, atol=1e-8):
  if isnull(a) or isnull(b):
    return isnull(a) and isnull(b)
  if isinstance(a, str) or isinstance(b, str):
    return a == b
  a, b = float(a), float(b)
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def require(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)
