"""Simulator core: fresh process image of segeval per run, caller threads on a baton, interruption, step budget.

Real threads are used (so thread-local state such as the decimal context is real), but exactly one runs at any time:
control moves only inside Sim.step(), which the trace function calls before every source line (or bytecode) executed
in the package, and which the simulated file operations call.  Which thread runs next is a function of the scenario
alone.
"""
import sys
import os
import _thread
import random
import hashlib
import importlib.abc
import importlib.util
import importlib.machinery
import decimal
import threading

# everything segeval imports from the standard library is imported before any seam is installed
import json, csv, codecs, copy, itertools, collections, types, io, pickle, re, math, operator, functools  # noqa
import warnings, tempfile, shutil, pathlib, fractions, bisect, heapq, time, contextlib, string, glob, fnmatch  # noqa
import queue, weakref, abc, enum, numbers, statistics, struct, datetime, locale, traceback, linecache, logging  # noqa

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
ROOT = os.path.join(REPO, 'segeval') + os.sep
_allocate = _thread.allocate_lock


class SimAbort(BaseException):
    """Tears a run down once its verdict is known."""


class SimCrash(BaseException):
    """Death of the simulated process."""


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class CallbackFault(Exception):
    """Raised by a user-supplied callback that the simulator makes fail."""


# --------------------------------------------------------------------------------------------------------------
# process image

class Image(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves segeval.* from the sources in the working tree; compiled once per worker, executed once per run."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.code = {}
        self.load_hook = None       # called with the module name before a module body runs; may raise
        self.loaded = []
        root = os.path.join(repo, 'segeval')
        for dirpath, dirnames, filenames in os.walk(root):
            dirnames.sort()
            for name in sorted(filenames):
                if not name.endswith('.py'):
                    continue
                path = os.path.join(dirpath, name)
                rel = os.path.relpath(path, repo)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-len('.__init__')]
                self.code[rel] = [None, path, is_pkg]
        if 'segeval' not in self.code:
            raise HarnessError('no segeval package under ' + repo)
        self.modules = sorted(m for m in self.code if not m.split('.')[-1].endswith('test'))

    def install(self):
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, self)

    def find_spec(self, name, path=None, target=None):
        if name in self.code:
            _, filename, is_pkg = self.code[name]
            spec = importlib.util.spec_from_loader(name, self, origin=filename, is_package=is_pkg)
            if is_pkg:
                spec.submodule_search_locations = [os.path.dirname(filename)]
            spec.has_location = True
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        entry = self.code[module.__name__]
        if self.load_hook is not None:
            self.load_hook(module.__name__)
        if entry[0] is None:
            with open(entry[1], 'rb') as f:
                entry[0] = compile(f.read(), entry[1], 'exec', dont_inherit=True)
        self.loaded.append(module.__name__)
        exec(entry[0], module.__dict__)

    def is_package(self, name):
        return self.code[name][2]

    @staticmethod
    def purge():
        for name in [n for n in sys.modules if n == 'segeval' or n.startswith('segeval.')]:
            del sys.modules[name]

    def fresh(self):
        """A new image with every public name loaded, as after a normal start of a program."""
        self.purge()
        self.load_hook = None
        self.loaded = []
        import segeval
        for name in segeval.__all__:
            getattr(segeval, name)
        return segeval


# --------------------------------------------------------------------------------------------------------------
# simulator

class Task(object):
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.lock = _allocate()
        self.lock.acquire()
        self.state = 'ready'
        self.waits = None
        self.op = -1
        self.opsteps = 0
        self.resumed = 0
        self.int_at = -1
        self.int_exc = None
        self.int_fired = None
        self.error = None


class Violation(object):
    def __init__(self, kind, message, task=None, op=None):
        self.kind, self.message, self.task, self.op = kind, message, task, op

    def __repr__(self):
        return 'Violation(%s: %s)' % (self.kind, self.message)


CURRENT = None      # the running Sim, for the seams


class Sim(object):
    MAX_STEPS = 12000000
    WATCHDOG = 300.0

    def __init__(self, sched=None, gran='line', max_steps=None):
        self.sched = sched or {}
        self.gran = gran
        self.max_steps = max_steps or self.MAX_STEPS
        self.steps = 0
        self.switches = 0
        self.points = []            # decisions taken: [step, target]
        self.fired = {}
        self.probes = {}
        self.violations = []
        self.abort = False
        self.attention = 0
        self.tasks = []
        self.sig = hashlib.md5()
        self.log = hashlib.md5()
        self.trail = []             # readable log: (task, op, text)
        self.current = None
        self.clock_reads = 0
        self.fault_steps = []
        self.on_crash = None
        self.untraced = False
        if 'points' in self.sched:
            self.explicit = [list(p) for p in self.sched['points']]
            self.rng = None
            self.next = self.explicit[0][0] if self.explicit else -1
        else:
            self.explicit = None
            self.rng = random.Random('sched:%s' % (self.sched.get('seed', 0),))
            self.mean = self.sched.get('mean', 50)
            self.next = -1

    # -- bookkeeping
    def count(self, what, n=1):
        self.fired[what] = self.fired.get(what, 0) + n

    def probe(self, what, n=1):
        self.probes[what] = self.probes.get(what, 0) + n

    def note(self, task, text):
        self.trail.append((task.idx if task else None, task.op if task else None, text))
        self.log.update(('%s|%s|%d|%s\n' % (task.idx if task else '', task.op if task else '', self.steps, text)).encode('utf-8', 'surrogatepass'))

    def violate(self, kind, message, task=None):
        self.violations.append(Violation(kind, message, task.idx if task else None, task.op if task else None))
        self.abort = True
        self.attention = 0

    def now(self):
        self.clock_reads += 1
        return 1.0e9 + self.steps * 0.001

    # -- scheduling
    def _ready(self, task):
        return [t for t in self.tasks if t.state == 'ready' and t is not task]

    def _draw(self):
        self.next = self.steps + 1 + int(self.rng.expovariate(1.0 / self.mean))

    # Steps are counted globally; `attention` is the next step at which anything is to be done, so that the common
    # case is one comparison.  The steps of the running operation are opsteps + (steps - resumed).
    def _attend(self, task):
        at = self.max_steps + 1
        if 0 <= self.next < at:
            at = self.next
        if task.int_at >= 0:
            k = task.resumed + task.int_at - task.opsteps
            if k < at:
                at = k
        self.attention = at

    def step(self, task, where=None):
        self.steps += 1
        if self.steps >= self.attention or self.abort:
            self._slow(task, where)

    def _slow(self, task, where):
        if self.abort:
            raise SimAbort()
        if self.steps > self.max_steps:
            self.violate('no-progress', 'no result within %d steps' % self.max_steps, task)
            raise SimAbort()
        if task.int_at >= 0 and task.opsteps + self.steps - task.resumed >= task.int_at:
            task.int_at = -1
            self._attend(task)
            task.int_fired = task.int_exc
            self.count('interrupt:' + type(task.int_exc).__name__)
            self.fault_steps.append(self.steps)
            self.note(task, 'interrupt')
            if isinstance(task.int_exc, SimCrash) and self.on_crash is not None:
                self.on_crash()
            raise task.int_exc
        if self.steps >= self.next >= 0:
            self._decide(task, where)
        self._attend(task)

    def _decide(self, task, where):
        others = self._ready(task)
        target = None
        if self.explicit is not None:
            while self.explicit and self.explicit[0][0] <= self.steps:
                step, want = self.explicit.pop(0)
                if step == self.steps:
                    for t in others:
                        if t.idx == want:
                            target = t
            self.next = self.explicit[0][0] if self.explicit else -1
        else:
            if others:
                target = others[self.rng.randrange(len(others))]
            self._draw()
        if target is not None:
            self.points.append([self.steps, target.idx])
            self.switches += 1
            self.sig.update(('%d@%d:%s>%d;' % (task.idx, task.op, where, target.idx)).encode())
            self._hand_over(task, target)

    def _hand_over(self, task, target):
        task.opsteps += self.steps - task.resumed
        self.current = target
        target.lock.release()
        task.lock.acquire()
        if self.abort:
            raise SimAbort()
        task.resumed = self.steps
        self._attend(task)

    def block(self, task, on):
        """Called by simulated locks: the task cannot proceed until `on` is released."""
        task.state, task.waits = 'blocked', on
        others = self._ready(task)
        if not others:
            task.state = 'ready'
            self.violate('deadlock', 'every thread waits for a lock that is never released', task)
            raise SimAbort()
        if self.rng is not None:
            target = others[self.rng.randrange(len(others))]
        else:
            target = others[0]
        self.sig.update(('%d blocked>%d;' % (task.idx, target.idx)).encode())
        self._hand_over(task, target)

    def unblock(self, on):
        for t in self.tasks:
            if t.state == 'blocked' and t.waits is on:
                t.state, t.waits = 'ready', None

    # -- tracing
    def make_trace(self, task):
        root = ROOT
        slow = self._slow
        sim = self
        if self.gran == 'opcode':
            def local(frame, event, arg):
                if event == 'opcode' or event == 'line':
                    sim.steps = s = sim.steps + 1
                    if s >= sim.attention:
                        slow(task, frame.f_lineno)
                return local

            def glob(frame, event, arg):
                if frame.f_code.co_filename.startswith(root):
                    frame.f_trace_opcodes = True
                    return local
                return None
        else:
            def local(frame, event, arg):
                if event == 'line':
                    sim.steps = s = sim.steps + 1
                    if s >= sim.attention:
                        slow(task, frame.f_lineno)
                return local

            def glob(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(root) else None
        return glob

    def op(self, task, fn, interrupt=None):
        """Run one operation of a task; returns ('ok', value) or ('exc', exception)."""
        task.opsteps = 0
        task.resumed = self.steps
        task.int_fired = None
        if interrupt is not None:
            task.int_at, task.int_exc = interrupt['at'], make_exc(interrupt['exc'])
        else:
            task.int_at = -1
        self._attend(task)
        # a single uninterrupted thread needs no step points: nothing could happen at them
        if not (self.untraced and interrupt is None and len(self.tasks) == 1):
            sys.settrace(task.trace)
        try:
            try:
                value = fn()
                return 'ok', value
            finally:
                sys.settrace(None)
        except SimAbort:
            raise
        except BaseException as e:     # includes SimCrash, KeyboardInterrupt
            if self.abort:
                raise SimAbort()
            e.__traceback__ = None
            return 'exc', e
        finally:
            task.int_at = -1

    def _body(self, task):
        try:
            if self.abort:
                return
            task.resumed = self.steps
            self._attend(task)
            decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
            task.fn(task)
        except SimAbort:
            pass
        except BaseException as e:
            task.error = e
            import traceback as tb
            task.error_text = tb.format_exc()
            self.abort = True
            self.attention = 0

    def _thread(self, task):
        task.lock.acquire()
        self._body(task)
        task.state = 'done'
        if self.abort:
            rest = [t for t in self.tasks if t.state != 'done']
        else:
            rest = self._ready(task)
            if not rest and any(t.state == 'blocked' for t in self.tasks):
                self.violate('deadlock', 'threads wait for a lock that is never released', task)
                rest = [t for t in self.tasks if t.state == 'blocked']
        if rest:
            self.current = rest[0]
            rest[0].lock.release()
        else:
            self.done.release()

    def run(self, fns):
        """fns: one callable per task, called with the Task."""
        global CURRENT
        self.tasks = [Task(i, fn) for i, fn in enumerate(fns)]
        for t in self.tasks:
            t.trace = self.make_trace(t)
        CURRENT = self
        try:
            if len(self.tasks) == 1:
                self.current = self.tasks[0]
                saved = decimal.getcontext().copy()
                try:
                    self._body(self.tasks[0])
                finally:
                    decimal.setcontext(saved)
            else:
                if self.explicit is None:
                    self._draw()
                self.done = _allocate()
                self.done.acquire()
                for t in self.tasks:
                    _thread.start_new_thread(self._thread, (t,))
                self.current = self.tasks[0]
                self.tasks[0].lock.release()
                if not self.done.acquire(True, self.WATCHDOG):
                    raise HarnessError('watchdog: a simulated thread made no step for %ds' % self.WATCHDOG)
        finally:
            CURRENT = None
        for t in self.tasks:
            if t.error is not None:
                raise HarnessError('harness failure in task %d: %s' % (t.idx, t.error_text))


class Alarm(Exception):
    """Raised by the handler of a simulated alarm signal, as timeouts are."""


def make_exc(name):
    return {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit, 'SimCrash': SimCrash,
            'CallbackFault': CallbackFault, 'TypeError': TypeError, 'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError,
            'KeyError': KeyError, 'IndexError': IndexError, 'AttributeError': AttributeError, 'OSError': OSError, 'Alarm': Alarm,
            'AssertionError': AssertionError, 'RuntimeError': RuntimeError, 'InvalidOperation': decimal.InvalidOperation,
            'OverflowError': OverflowError, 'NotImplementedError': NotImplementedError, 'UnicodeError': UnicodeError,
            'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit, 'RecursionError': RecursionError, 'LookupError': LookupError,
            'ImportError': ImportError, 'EOFError': EOFError, 'DivisionUndefined': decimal.DivisionUndefined, 'Inexact': decimal.Inexact,
            'Warning': UserWarning, 'EOF': EOFError, 'MetricError': metric_error, 'DataError': data_error}[name]('injected')


def metric_error(message):
    return sys.modules['segeval.util'].SegmentationMetricError(message)


def data_error(message):
    import segeval.data
    return segeval.data.DataIOError(message)


# --------------------------------------------------------------------------------------------------------------
# seams for locks and clocks (segeval uses neither today; a change that introduces one stays under control)

class SimLock(object):
    """threading.Lock replacement that never blocks the OS thread while a simulation runs."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        me = sim.current if sim is not None else 'main'
        while self._owner is not None and not (self._reentrant and self._owner is me):
            if not blocking:
                return False
            if sim is None:
                raise HarnessError('lock held outside a simulation')
            if timeout is not None and timeout >= 0:
                return False
            sim.block(me, self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if CURRENT is not None:
                CURRENT.unblock(self)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        sim = CURRENT
        return self._owner is (sim.current if sim is not None else 'main')


_real_time = {}


def install_seams():
    threading.Lock = SimLock
    threading.RLock = SimRLock

    def wrap(name):
        real = getattr(time, name)
        _real_time[name] = real

        def fake(*args):
            sim = CURRENT
            if sim is None:
                return real(*args)
            return sim.now() if not name.endswith('_ns') else int(sim.now() * 1e9)
        setattr(time, name, fake)
    for name in ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        wrap(name)
    real_sleep = time.sleep

    def sleep(secs):
        sim = CURRENT
        if sim is None:
            return real_sleep(secs)
        sim.steps += int(secs * 1000)
        sim.step(sim.current, 'sleep')
    time.sleep = sleep


def real_time():
    return _real_time.get('time', time.time)()
