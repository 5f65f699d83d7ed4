"""Histories of one or more confusion matrices: sequential read/write histories (C08), concurrent queries (C09)."""
import collections
import decimal
import random
from decimal import Decimal
from fractions import Fraction as Q
from . import gen, models
from .core import Sim, SimAbort
from .models import Undefined, close, dec

POOL = ['a', 'b', 'c', 'd', 1, 2, 3, None, ['t', 1], u'\u00e9', '', 0, -1, 'A', '0', []]


def label(x):
    return tuple(x) if isinstance(x, list) else x


def num(v):
    return Decimal(v) if isinstance(v, str) else v


def gen_value(rng):
    return gen.weighted(rng, [(rng.randint(1, 9), 6), (0, 1), ('0.5', 1), ('1.25', 0.5), (rng.randint(10, 10 ** 6), 0.5),
                              ('0', 0.3), (10 ** 11 + rng.randint(1, 9), 0.15), ('0.3333333333333', 0.15)])


def gen_query(rng, labels, n, dicts=True):
    k = rng.choice(['precision', 'recall', 'fmeasure', 'precision', 'recall', 'fmeasure', 'classes'])
    q = {'o': 'q', 'k': k, 'm': rng.randrange(n)}
    if k == 'classes':
        return q
    if dicts and rng.random() < 0.2:
        q['m'] = [rng.randrange(n) for _ in range(gen.weighted(rng, [(rng.randint(0, 3), 6), (rng.randint(4, 9), 1)]))]
    r = rng.random()
    if r < 0.35:
        cands = [c for c in labels if c is not None]
        q['c'] = rng.choice(cands) if cands and rng.random() < 0.75 else rng.choice(['zz0', 'zz1', 0, '', []])
        if rng.random() < 0.15:
            q['v'] = rng.choice(['micro', 'macro'])
    elif r < 0.85:
        q['v'] = rng.choice(['micro', 'macro', 'macro'])
    elif r < 0.88:
        q['v'] = 'bogus'
    if rng.random() < 0.15:
        q['style'] = rng.choice(['pos', 'kw'])
    if isinstance(q['m'], list) and rng.random() < 0.3:
        q['names'] = rng.choice(['label', 'number', 'ordered'])
    if k == 'fmeasure' and rng.random() < 0.5:
        q['beta'] = rng.choice([1, 2, 3, '0.5', '0.1', '1.5', 0, '0.1234567890123456789', '1.3333333333333333333333', '12.0000000000000001', 1000, 10 ** 6, '1E+4', '0.0001', '1234567.5'])
    return q


def generate(prop, rng, tier='quick'):
    labels = rng.sample(POOL, gen.weighted(rng, [(1, 1), (2, 3), (3, 4), (5, 3), (8, 1), (14, 0.2)]))
    if rng.random() < 0.03:
        labels += ['L%d' % i for i in range(rng.randint(8, 60))]
    scn = {'family': 'matrix'}
    pick = lambda: rng.choice(labels)
    if prop == 'C09':
        n = rng.randint(1, 2)
        scn['fill'] = [[[pick(), pick(), gen_value(rng)] for _ in range(gen.weighted(rng, [(0, 1), (rng.randint(1, 4), 4), (rng.randint(3, 12), 4), (40, 0.5)]))]
                       for _ in range(n)]
        # what happened to the matrix before the threads started: rows only read, a query, nothing
        scn['prelude'] = [rng.choice([None, 'row', 'classes', 'query']) for _ in range(n)]
        tasks = []
        for _ in range(gen.weighted(rng, [(2, 5), (3, 3), (4, 1)])):
            ops = [gen_query(rng, labels, n) for _ in range(rng.randint(1, 4))]
            for op in ops:
                if rng.random() < 0.08:
                    op['int'] = gen.interrupt(rng, 120)
            task = {'ops': ops}
            if rng.random() < 0.1:
                task['prec'] = rng.choice([12, 50])
            tasks.append(task)
        scn['tasks'] = tasks
        scn['sched'] = {'seed': rng.randrange(1 << 40), 'mean': rng.choice([1, 1, 2, 3, 5, 10, 30])}
        scn['gran'] = rng.choice(['line', 'opcode'])
        return scn
    n_tasks = gen.weighted(rng, [(1, 6), (2, 3), (3, 1)])
    tasks = []
    m = 0
    for _ in range(n_tasks):
        own = gen.weighted(rng, [(1, 4), (2, 3), (3, 1)])
        ops, rows = [], []
        for _ in range(rng.randint(3, 14)):
            i = m + rng.randrange(own)
            r = rng.random()
            if r < 0.2:
                op = {'o': 'set', 'm': i, 'p': pick(), 'a': pick(), 'n': gen_value(rng)}
            elif r < 0.45:
                op = {'o': 'inc', 'm': i, 'p': pick(), 'a': pick(), 'n': gen_value(rng)}
            elif r < 0.55:
                op = {'o': 'read', 'm': i, 'p': pick(), 'a': pick()}
            elif r < 0.62:
                op = {'o': 'row', 'm': i, 'p': pick()}
                rows.append((i, op['p']))
            elif r < 0.66:
                op = {'o': rng.choice(['del', 'update', 'pop', 'delrow', 'setdefault', 'clear', 'badset']), 'm': i, 'p': pick(),
                      'a': pick(), 'n': gen_value(rng)}
            else:
                op = gen_query(rng, labels, own)
                if isinstance(op['m'], list):
                    op['m'] = [m + x for x in op['m']]
                else:
                    op['m'] = i
                if rng.random() < 0.1 and op['k'] == 'classes':
                    op['mutate'] = True
            if rows and op['o'] in ('set', 'inc', 'update', 'row') and rng.random() < 0.3:
                # through a row that the caller kept
                op['m'], op['p'] = rng.choice(rows)
                if op['o'] != 'row':
                    op['kept'] = True
            if rng.random() < 0.12:
                op['int'] = gen.interrupt(rng, 100)
            ops.append(op)
        tasks.append({'ops': ops, 'own': [m, own]})
        m += own
    scn['n'] = m
    scn['tasks'] = tasks
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    if rng.random() < 0.5:
        scn['gran'] = 'opcode'
    return scn


def raw(matrix):
    """Contents through the public mapping interface."""
    cells, labels = {}, set()
    for p, row in matrix.items():
        labels.add(p)
        for a, v in row.items():
            labels.add(a)
            cells[(p, a)] = v
    return cells, labels


def nonzero(cells):
    return dict((k, Q(v)) for k, v in cells.items() if v != 0)


def query(seg, matrices, op):
    if op['k'] == 'classes':
        mat = matrices[op['m']]
        return lambda: mat.classes()
    fn = getattr(seg, op['k'])
    if isinstance(op['m'], list):
        mat = dict((name(op, i), matrices[j]) for i, j in enumerate(op['m']))
        if op.get('names') == 'ordered':
            mat = collections.OrderedDict(mat)
    else:
        mat = matrices[op['m']]
    kw = {}
    if 'c' in op:
        kw['classification'] = label(op['c'])
    if 'v' in op:
        kw['version'] = 'bogus' if op['v'] == 'bogus' else getattr(seg.Average, op['v'])
    if 'beta' in op:
        kw['beta'] = num(op['beta'])
    if op.get('style') == 'pos':
        args = [kw.get('classification'), kw.get('version', seg.Average.micro)]
        if 'beta' in kw:
            return lambda: fn(mat, args[0], kw['beta'], args[1])
        if op['k'] == 'fmeasure':
            return lambda: fn(mat, args[0]) if 'version' not in kw else fn(mat, args[0], 1, args[1])
        return lambda: fn(mat, *args)
    if op.get('style') == 'kw':
        return lambda: fn(matrix=mat, **kw)
    return lambda: fn(mat, **kw)


def name(op, i):
    """Key of the i-th matrix of a dict."""
    kind = op.get('names')
    return i if kind == 'number' else label(POOL[i]) if kind == 'label' else 'm%d' % i


def judge(op, counts, status, value, prec):
    if op.get('v') == 'bogus' and 'c' not in op:
        return None if status == 'exc' or op['m'] == [] else 'gave %s for a way of averaging that does not exist' % (value,)
    if status != 'ok':
        return 'raised %s: %s' % (type(value).__name__, str(value)[:160])

    def one(i):
        return models.ir(op['k'], counts[i], label(op['c']) if 'c' in op else None, op.get('v', 'micro'), Q(str(op.get('beta', 1))))
    if op['k'] == 'classes':
        want = counts[op['m']].classes()
        got = set(value)
        return None if got == want else 'classes %s, the matrix holds %s' % (sorted(map(repr, got)), sorted(map(repr, want)))
    if isinstance(op['m'], list):
        if set(value) != set(name(op, i) for i in range(len(op['m']))):
            return 'result for %s, asked for %d matrices' % (sorted(map(repr, value)), len(op['m']))
        for i, j in enumerate(op['m']):
            try:
                want = one(j)
            except Undefined:
                continue
            if not close(value[name(op, i)], want, prec):
                return '%s for matrix m%d, defined value %s' % (value[name(op, i)], i, dec(want, 15))
        return None
    want = one(op['m'])
    return None if close(value, want, prec) else '%s, defined value %s' % (value, dec(want, 15))


def undefined(op, counts):
    """Any matrix of a dict with an undefined value may make the whole call fail."""
    if op['k'] == 'classes':
        return False
    for i in (op['m'] if isinstance(op['m'], list) else [op['m']]):
        try:
            models.ir(op['k'], counts[i], label(op['c']) if 'c' in op else None, op.get('v', 'micro'), Q(str(op.get('beta', 1))))
        except Undefined:
            return True
    return False


def describe(op):
    return ' '.join(str(op[k]) for k in ('o', 'k', 'm', 'p', 'a', 'n', 'c', 'v', 'beta') if k in op)


def execute(scn, ctx):
    return (concurrent if 'fill' in scn else history)(scn, ctx)


def concurrent(scn, ctx):
    seg = ctx.image.fresh()
    sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
    matrices, counts = [], []
    for fill, pre in zip(scn['fill'], scn['prelude']):
        m = seg.ConfusionMatrix()
        cells = {}
        for p, a, v in fill:
            m[label(p)][label(a)] += num(v)
            k = (label(p), label(a))
            cells[k] = cells.get(k, Q(0)) + Q(v)
        extra = ()
        if pre == 'row':
            m['a']
            extra = ('a',)
        elif pre == 'classes':
            m.classes()
        elif pre == 'query':
            seg.precision(m, version=seg.Average.macro)
        matrices.append(m)
        counts.append(models.Counts(cells, extra))
    before = [raw(m) for m in matrices]

    def body(task_scn):
        def run(task):
            prec = task_scn.get('prec', 28)
            decimal.getcontext().prec = prec
            for i, op in enumerate(task_scn['ops']):
                task.op = i
                status, value = sim.op(task, query(seg, matrices, op), op.get('int'))
                sim.note(task, '%s %s %s' % (describe(op), status, sorted(map(repr, value)) if isinstance(value, (set, frozenset)) else type(value).__name__ if status == 'exc' else value))
                if task.int_fired is not None:
                    if status != 'exc' or value is not task.int_fired:
                        sim.violate('abort-swallowed', 'interruption of "%s" did not reach the caller' % describe(op), task)
                elif undefined(op, counts):
                    sim.probe('no defined value')
                else:
                    p = judge(op, counts, status, value, prec)
                    if p:
                        sim.violate('query', 'query "%s" %s' % (describe(op), p), task)
                    sim.probe('checked:' + op['k'])
                if sim.abort:
                    raise SimAbort()
        return run
    sim.run([body(t) for t in scn['tasks']])
    if not sim.violations:
        for i, m in enumerate(matrices):
            cells, labels = raw(m)
            if nonzero(cells) != nonzero(before[i][0]):
                sim.violate('query', 'counts of matrix %d changed by queries' % i)
            elif set(m.classes()) != counts[i].classes():
                sim.violate('query', 'classes of matrix %d are %s after the queries, %s before' % (
                    i, sorted(map(repr, m.classes())), sorted(map(repr, counts[i].classes()))))
    return sim


def history(scn, ctx):
    seg = ctx.image.fresh()
    sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
    n = scn['n']
    matrices = [seg.ConfusionMatrix() for _ in range(n)]
    cells = [{} for _ in range(n)]          # (p, a) -> Q, last written
    counts = [models.Counts() for _ in range(n)]
    handles = {}                            # rows that the caller keeps

    def thunk(op):
        o = op['o']
        if o == 'q':
            return query(seg, matrices, op)
        m = matrices[op['m']]
        p = label(op['p'])
        a = label(op.get('a'))
        v = num(op['n']) if 'n' in op else None
        key = (op['m'], repr(p))
        if op.get('kept') and key in handles:
            row = handles[key]
            sim.probe('kept row')
            if o == 'set':
                def f():
                    row[a] = v
            elif o == 'inc':
                def f():
                    row[a] += v
            else:
                def f():
                    row.update({a: v})
            return f
        if o in ('delrow', 'badset'):
            handles.pop(key, None)
        if o == 'set':
            def f():
                m[p][a] = v
        elif o == 'inc':
            def f():
                m[p][a] += v
        elif o == 'read':
            def f():
                return m[p][a]
        elif o == 'row':
            def f():
                handles[key] = m[p]
        elif o == 'del':
            def f():
                row = m[p]
                if a in row:
                    del row[a]
        elif o == 'update':
            def f():
                m[p].update({a: v})
        elif o == 'pop':
            def f():
                m[p].pop(a, None)
        elif o == 'setdefault':
            def f():
                m[p].setdefault(a, v)
        elif o == 'delrow':
            def f():
                if p in m:
                    del m[p]
        elif o == 'clear':
            def f():
                m[p].clear()
        elif o == 'badset':
            def f():
                m[p] = {}
        return f

    def body(task_scn):
        own = list(range(task_scn['own'][0], task_scn['own'][0] + task_scn['own'][1]))

        def run(task):
            for i, op in enumerate(task_scn['ops']):
                task.op = i
                before = dict((j, raw(matrices[j])) for j in own)
                status, value = sim.op(task, thunk(op), op.get('int'))
                sim.note(task, '%s %s %s' % (describe(op), status, sorted(map(repr, value)) if isinstance(value, (set, frozenset, dict)) else type(value).__name__ if status == 'exc' else value))
                check(task, op, own, before, status, value)
                if sim.abort:
                    raise SimAbort()
            # the other matrices of this task are as their own history left them
        return run

    def check(task, op, own, before, status, value):
        o = op['o']
        fired = task.int_fired is not None
        if fired and (status != 'exc' or value is not task.int_fired):
            return sim.violate('abort-swallowed', 'interruption of "%s" did not reach the caller' % describe(op), task)
        if o == 'q':
            for j in own:
                if raw(matrices[j]) != before[j]:
                    return sim.violate('query-changed-matrix', 'query "%s" changed matrix %d' % (describe(op), j), task)
            if fired:
                return sim.probe('aborted')
            if undefined(op, counts):
                return sim.probe('no defined value')
            p = judge(op, counts, status, value, 28)
            if p:
                return sim.violate('wrong-result', 'query "%s" %s' % (describe(op), p), task)
            sim.probe('checked:' + op['k'])
            if op.get('mutate'):
                # the caller changes the set it got
                try:
                    value.add('intruder')
                except AttributeError:
                    pass
            return
        j = op['m']
        p, a = label(op['p']), label(op.get('a'))
        v = Q(num(op['n'])) if 'n' in op else None
        if status == 'exc' and not fired:
            if o == 'badset':
                if raw(matrices[j]) != before[j]:
                    sim.violate('wrong-cell', 'rejected assignment changed the matrix', task)
                return
            return sim.violate('wrong-result', '"%s" raised %s: %s' % (describe(op), type(value).__name__, value), task)
        if o == 'badset' and not fired:
            # replacing a row is not supported; the matrix must not silently accept and drop it
            if raw(matrices[j]) != before[j]:
                sim.probe('row replaced')
        old = dict(cells[j])
        new = dict(old)
        if o in ('set', 'update'):
            new[(p, a)] = v
        elif o == 'inc':
            new[(p, a)] = old.get((p, a), Q(0)) + v
        elif o == 'setdefault':
            # a cell that was only read may or may not exist
            new[(p, a)] = v if (p, a) not in before[j][0] else old.get((p, a), Q(0))
        elif o in ('del', 'pop'):
            new.pop((p, a), None)
        elif o in ('delrow', 'clear', 'badset'):
            new = dict((k, x) for k, x in old.items() if k[0] != p)
            if o == 'badset' and not fired and raw(matrices[j]) == before[j]:
                new = dict(old)
        if o == 'read' and not fired and Q(value) != old.get((p, a), Q(0)):
            return sim.violate('wrong-cell', '"%s" gave %s, last written %s' % (describe(op), value, old.get((p, a), 0)), task)
        got, labels = raw(matrices[j])
        nz = nonzero(got)
        if nz != nonzero(new) and not (fired and nz == nonzero(old)):
            return sim.violate('wrong-cell', 'after "%s" the matrix holds %s, written were %s' % (
                describe(op), sorted(map(repr, nz.items()))[:6], sorted(map(repr, nonzero(new).items()))[:6]), task)
        for k in old:
            if k != (p, a) and k not in got and not (k[0] == p and o in ('delrow', 'clear', 'badset')):
                return sim.violate('wrong-cell', '"%s" removed the cell %r' % (describe(op), k), task)
        for k in got:
            if k != (p, a) and k not in before[j][0]:
                return sim.violate('wrong-cell', '"%s" added the cell %r' % (describe(op), k), task)
        for other in own:
            if other != j and raw(matrices[other]) != before[other]:
                return sim.violate('wrong-cell', '"%s" changed matrix %d' % (describe(op), other), task)
        if not fired and o in ('set', 'inc', 'update') and not (p in labels and a in labels):
            return sim.violate('wrong-cell', 'after "%s" the labels are %s' % (describe(op), sorted(map(repr, labels))), task)
        cells[j] = dict((k, Q(x)) for k, x in got.items())
        counts[j] = models.Counts(cells[j], labels)
        sim.probe('checked:' + o)
    sim.run([body(t) for t in scn['tasks']])
    return sim
