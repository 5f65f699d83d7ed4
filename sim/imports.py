"""First accesses of the public names in a fresh process (C16)."""
import importlib
import sys
import types
import _thread
from fractions import Fraction as Q
from . import core, gen, models
from .core import Sim, SimAbort

# names documented as public, by defining module (the package may offer more; it must not offer less)
PUBLIC = {
    'segeval.agreement': ['actual_agreement_linear'],
    'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
    'segeval.agreement.kappa': ['fleiss_kappa_linear'],
    'segeval.agreement.pi': ['fleiss_pi_linear'],
    'segeval.data': ['Dataset', 'load_nested_folders_dict'],
    'segeval.data.jsonutils': ['Field', 'input_linear_mass_json', 'output_linear_mass_json'],
    'segeval.data.tsv': ['input_linear_mass_tsv'],
    'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT',
                             'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
    'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
    'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
    'segeval.similarity.boundary': ['boundary_similarity'],
    'segeval.similarity.segmentation': ['segmentation_similarity'],
    'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
    'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
    'segeval.window': ['compute_window_size'],
    'segeval.window.pk': ['pk'],
    'segeval.window.windowdiff': ['window_diff'],
    'segeval.compute': ['summarize'],
    'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
                       'convert_masses_to_positions', 'convert_nltk_to_masses'],
}
ORIGIN = dict((n, m) for m, names in PUBLIC.items() for n in names)
NAMES = sorted(ORIGIN)
SUBMODULES = sorted(PUBLIC) + ['segeval.util', 'segeval.util.math', 'segeval.util.lang', 'segeval.metric',
                               'segeval.similarity.distance']
CALLS = ['B', 'S', 'pk', 'wd', 'summ', 'pi', 'size', 'bed', 'cm', 'conv']
X, Y = (2, 3, 6), (2, 4, 5)


# ------------------------------------------------------------------------------------------------------- generation

def gen_op(rng, n_tasks):
    r = rng.random()
    if r < 0.40:
        return {'o': 'attr', 'n': rng.choice(NAMES)}
    if r < 0.66:
        return {'o': 'from', 'n': rng.choice(NAMES)}
    if r < 0.74:
        return {'o': 'frommany', 'n': rng.sample(NAMES, rng.randint(2, 5))}
    if r < 0.80 and n_tasks == 1:
        return {'o': 'sub', 'm': rng.choice(SUBMODULES)}
    if r < 0.84 and n_tasks == 1:
        return {'o': 'origin', 'n': rng.choice(NAMES)}
    if r < 0.87:
        return {'o': 'star'}
    if r < 0.90:
        return {'o': 'bogus', 'n': rng.choice(['nope', 'Precision', 'window_dif', '__nope__'])}
    if r < 0.91:
        return {'o': 'dir'}
    return {'o': 'call', 'f': rng.choice(CALLS)}


def generate(prop, rng, tier='quick'):
    n_tasks = gen.weighted(rng, [(1, 5), (2, 4), (3, 2)])
    scn = {'family': 'imports', 'pre': [], 'faults': [], 'tasks': []}
    if rng.random() < 0.35:
        scn['pre'] = rng.sample(SUBMODULES, rng.randint(1, 3))
    elif rng.random() < 0.4:
        scn['pre'] = ['segeval']
    for t in range(n_tasks):
        ops = [gen_op(rng, n_tasks) for _ in range(rng.randint(1, 4 if n_tasks > 1 else 7))]
        if t and rng.random() < 0.5:
            first = dict(rng.choice(scn['tasks'][0]['ops']))
            first.pop('int', None)
            ops.insert(0, first)
        for op in ops:
            if rng.random() < (0.15 if n_tasks == 1 else 0.06):
                op['int'] = gen.interrupt(rng, 300)
        scn['tasks'].append({'ops': ops})
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            scn['faults'].append({'n': gen.log_int(rng, 1, 24), 'exc': rng.choice(['OSError', 'OSError', 'MemoryError', 'KeyboardInterrupt'])})
    sched, gran = gen.schedule(rng, n_tasks)
    sched['mean'] = rng.choice([1, 2, 4, 8, 20, 50, 150])
    scn['sched'], scn['gran'] = sched, gran
    return scn


# -------------------------------------------------------------------------------------------------------- execution

def install_import_locks():
    """Make the interpreter's module locks cooperative, so that a thread parked inside an import blocks only itself."""
    from importlib import _bootstrap
    cls = _bootstrap._ModuleLock
    real_acquire, real_release = cls.acquire, cls.release
    blocking = _bootstrap._blocking_on

    def acquire(self):
        sim = core.CURRENT
        if sim is None or sim.current is None or len(sim.tasks) == 1:
            return real_acquire(self)
        tid = _thread.get_ident()
        blocking[tid] = self
        try:
            while True:
                if self.count == 0 or self.owner == tid:
                    self.owner = tid
                    self.count += 1
                    return True
                if self.has_deadlock():
                    raise _bootstrap._DeadlockError('deadlock detected by %r' % self)
                sim.count('import_lock_wait')
                sim.block(sim.current, self)
        finally:
            del blocking[tid]

    def release(self):
        real_release(self)
        sim = core.CURRENT
        if self.count == 0 and sim is not None:
            sim.unblock(self)
    cls.acquire, cls.release = acquire, release


_installed = []


def reference():
    """Values of the calls by the models."""
    bed = models.bed_of('mass', X, Y, 2)
    out = {'B': models.b_value(bed, models.DEFAULT_W), 'S': models.s_values(bed, models.DEFAULT_W),
           'pk': models.pk_value(models.pk_parts('mass', X, Y)),
           'size': models.window_size(X)}
    n, d = models.wd_parts('mass', X, Y)
    out['wd'] = Q(n) / Q(d)
    out['pi'] = models.agreement('pi', 'mass', {'i': {'a': X, 'b': Y}})[0]
    return out


def call(seg, f):
    if f == 'B':
        return seg.boundary_similarity(X, Y)
    if f == 'S':
        return seg.segmentation_similarity(X, Y)
    if f == 'pk':
        return seg.pk(X, Y)
    if f == 'wd':
        return seg.window_diff(X, Y)
    if f == 'summ':
        return seg.summarize(dict((i, v) for i, v in enumerate([1, 2, 6])))
    if f == 'pi':
        return seg.fleiss_pi_linear({'i': {'a': X, 'b': Y}})
    if f == 'size':
        return seg.compute_window_size(X)
    if f == 'bed':
        return seg.boundary_edit_distance(seg.boundary_string_from_masses(X), seg.boundary_string_from_masses(Y))
    if f == 'cm':
        m = seg.ConfusionMatrix()
        m['a']['b'] += 1
        m['a']['a'] += 3
        return seg.precision(m, 'a')
    return seg.convert_positions_to_masses(seg.convert_masses_to_positions(X))


def wrong(f, v, ref):
    """None if v is what the call is defined to return."""
    if f == 'S':
        ok = any(models.close(v, w, 28) for w in (ref['S'] if isinstance(ref['S'], (list, tuple)) else [ref['S']]))
    elif f in ref:
        ok = models.close(v, ref[f], 28)
    elif f == 'summ':
        ok = models.close(v[0], Q(3), 28) and v[4] == 3
    elif f == 'bed':
        ok = len(v) == 3 and [len(x) for x in v] == [0, 0, 1]
    elif f == 'cm':
        ok = models.close(v, Q(3, 4), 28)
    else:
        ok = tuple(v) == X
    return None if ok else 'gave %s' % (v,)


def execute(scn, ctx):
    if not _installed:
        install_import_locks()
        _installed.append(1)
    image = ctx.image
    image.purge()
    image.load_hook = None
    sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
    got = []            # (name, object, op text)
    load = {'n': 0, 'fired': {}}
    for name in scn['pre']:
        if name in image.code:
            importlib.import_module(name)
    ref = reference()

    def hook(modname):
        if core.CURRENT is None or sim.current is None:
            return
        sim.step(sim.current, 'load')
        load['n'] += 1
        sim.probe('module loads')
        for f in scn['faults']:
            if f['n'] == load['n']:
                sim.count('load_fault:' + f['exc'])
                sim.fault_steps.append(sim.steps)
                e = {'OSError': OSError(13, 'Permission denied'), 'MemoryError': MemoryError('injected'),
                     'KeyboardInterrupt': KeyboardInterrupt('injected')}[f['exc']]
                load['fired'].setdefault((sim.current.idx, sim.current.op), []).append(e)
                raise e
    image.load_hook = hook
    before = {'modules': set(sys.modules)}

    def thunk(op):
        o = op['o']
        if o == 'attr':
            def f():
                import segeval
                return {op['n']: getattr(segeval, op['n'])}
        elif o == 'from':
            def f():
                env = {}
                exec('from segeval import %s' % op['n'], env)
                return {op['n']: env[op['n']]}
        elif o == 'frommany':
            def f():
                env = {}
                exec('from segeval import %s' % ', '.join(op['n']), env)
                return dict((n, env[n]) for n in op['n'])
        elif o == 'sub':
            def f():
                if op['m'] not in image.code:
                    return None
                return importlib.import_module(op['m'])
        elif o == 'origin':
            def f():
                return {op['n']: getattr(importlib.import_module(ORIGIN[op['n']]), op['n'])}
        elif o == 'star':
            def f():
                env = {}
                exec('from segeval import *', env)
                return dict((n, env[n]) for n in NAMES)
        elif o == 'bogus':
            def f():
                import segeval
                return getattr(segeval, op['n'])
        elif o == 'dir':
            def f():
                import segeval
                return dir(segeval)
        else:
            def f():
                import segeval
                return call(segeval, op['f'])
        return f

    def body(ops):
        def run(task):
            for i, op in enumerate(ops):
                task.op = i
                start = sim.steps
                status, value = sim.op(task, thunk(op), op.get('int'))
                load_fired = load['fired'].get((task.idx, i), ())
                text = describe(op)
                sim.note(task, '%s -> %s' % (text, status if status == 'ok' else type(value).__name__))
                judge(task, op, text, status, value, load_fired, start)
                if sim.abort:
                    raise SimAbort()
        return run

    def judge(task, op, text, status, value, load_fired, start):
        if task.int_fired is not None or load_fired:
            if status == 'ok':
                sim.violate('failed-load-passed', 'loading failed during "%s" (%s), which returned normally' % (
                    text, task.int_fired or load_fired[0]), task)
            else:
                sim.probe('failed load surfaced')
            return
        if status == 'exc' and isinstance(value, (KeyError, ImportError)) and any(s >= start for s in sim.fault_steps):
            # while one thread's load of a package fails, the interpreter's import machinery may fail another thread's
            # import of a module in that package (it looks the vanished parent up again); a later access must succeed
            return sim.probe('failed load seen by another thread')
        if op['o'] == 'bogus':
            if status == 'ok' or not isinstance(value, AttributeError):
                sim.violate('unknown-name', '"%s" gave %r instead of an attribute error' % (text, value), task)
            return
        if status == 'exc':
            return sim.violate('name-unresolved', '"%s" raised %s: %s' % (text, type(value).__name__, str(value)[:200]), task)
        if op['o'] in ('attr', 'from', 'frommany', 'origin', 'star'):
            for n, v in value.items():
                got.append((n, v, text))
            sim.probe('resolved', len(value))
        elif op['o'] == 'dir':
            missing = [n for n in NAMES if n not in value]
            if missing:
                sim.violate('name-unresolved', 'dir(segeval) lacks %s' % missing, task)
        elif op['o'] == 'sub':
            if op['m'] in image.code and not isinstance(value, types.ModuleType) or op['m'] in image.code and sys.modules.get(op['m']) is not value:
                sim.violate('name-unresolved', '"%s" gave %r' % (text, value), task)
        elif op['o'] == 'call':
            p = wrong(op['f'], value, ref)
            if p:
                sim.violate('wrong-result', '"%s" %s' % (text, p), task)
            sim.probe('calls')

    try:
        sim.run([body(t['ops']) for t in scn['tasks']])
        image.load_hook = None
        if not sim.violations:
            final(sim, got, ref)
    finally:
        image.load_hook = None
    return sim


def final(sim, got, ref):
    """Once faults stop, every name resolves to the one object of its defining module."""
    import segeval
    for n in NAMES:
        try:
            v = getattr(segeval, n)
            home = getattr(importlib.import_module(ORIGIN[n]), n)
        except Exception as e:
            return sim.violate('name-unresolved', 'finally segeval.%s raised %s: %s' % (n, type(e).__name__, str(e)[:200]))
        if v is not home:
            return sim.violate('two-objects', 'segeval.%s is not the object of %s' % (n, ORIGIN[n]))
        for m, obj, text in got:
            if m == n and obj is not v:
                return sim.violate('two-objects', '"%s" had given another object for %s than segeval.%s is now' % (text, n, n))
    if set(NAMES) - set(segeval.__all__):
        return sim.violate('name-unresolved', '__all__ lacks %s' % sorted(set(NAMES) - set(segeval.__all__)))
    for n in segeval.__all__:
        try:
            getattr(segeval, n)
        except Exception as e:
            return sim.violate('name-unresolved', 'segeval.%s raised %s: %s' % (n, type(e).__name__, str(e)[:200]))
    # no stale second copy of a public object in any loaded module
    for modname in sorted(m for m in sys.modules if m.startswith('segeval.')):
        mod = sys.modules[modname]
        for n, v in list(vars(mod).items()):
            if n in ORIGIN and isinstance(v, (type, types.FunctionType)) and v.__module__ == ORIGIN[n] and v.__name__ == n:
                if v is not getattr(sys.modules[ORIGIN[n]], n):
                    return sim.violate('two-objects', '%s holds another %s than %s' % (modname, n, ORIGIN[n]))
    for f in CALLS:
        try:
            p = wrong(f, call(segeval, f), ref)
        except Exception as e:
            p = 'raised %s: %s' % (type(e).__name__, e)
        if p:
            return sim.violate('wrong-result', 'finally call %s %s' % (f, p))


def describe(op):
    return ' '.join([op['o']] + [str(op[k]) for k in ('n', 'm', 'f') if k in op]) + (' (interrupted)' if 'int' in op else '')
