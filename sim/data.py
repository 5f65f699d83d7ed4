"""Histories of datasets: building, merging, copying (C06) and every way to come by one (C07)."""
import copy
import os
import pickle
from . import gen, models, iofam
from .core import Sim, SimAbort
from .metric import Run as MetricRun
from .models import Undefined, Rejected

INTS = ('KeyboardInterrupt', 'MemoryError')
KINDS = ('actual', 'pi', 'kappa', 'bias')
FN = {'actual': 'actual_agreement_linear', 'pi': 'fleiss_pi_linear', 'kappa': 'fleiss_kappa_linear', 'bias': 'artstein_poesio_bias_linear'}


# ------------------------------------------------------------------------------------------------------- generation

def gen_source(rng, names, coders, fmt, kind='mem'):
    """A dataset description; names are item names that may be used."""
    src = {'kind': kind, 'fmt': fmt, 'values': rng.choice(['tuple', 'list']), 'props': {}, 'types': None}
    items = []
    for name in names:
        n = rng.randint(2, 9)
        _, vals = gen.group(rng, len(coders), fmt, n)
        items.append([name, [[c, v] for c, v in zip(coders, vals)]])
        if rng.random() < 0.5:
            rng.shuffle(items[-1][1])
    src['items'] = items
    if rng.random() < 0.5:
        src['props'] = iofam.gen_props(rng)
    if rng.random() < 0.4:
        src['props']['nested'] = {'k': [1, {'d': 2}]}
    if kind == 'mem' and rng.random() < 0.4:
        src['types'] = rng.choice([[1, 2], [2], [1], [1, 2, 3], []])
        src['types_as'] = rng.choice(['list', 'set', 'set', 'tuple', 'frozenset'])
    if kind == 'mem' and rng.random() < 0.25:
        src['exotic'] = rng.randint(1, 7)       # properties that are no JSON values
    return src


def source_props(src):
    props = copy.deepcopy(src['props'])
    bits = src.get('exotic', 0)
    if bits & 1:
        props['pair'] = ('x', (1, [2]))
    if bits & 2:
        props['flags'] = set(['a', 'b'])
    if bits & 4:
        props.update(('number %d' % i, i) for i in range(9))
        props[('a', 1)] = [{'deep': [3]}]
    return props


def maybe_int(rng, op, p, hi):
    if rng.random() < p:
        op['int'] = gen.interrupt(rng, hi, INTS)
    return op


def generate(prop, rng, tier='quick'):
    return gen_c06(rng) if prop == 'C06' else gen_c07(rng)


def gen_c06(rng):
    n_tasks = gen.weighted(rng, [(1, 6), (2, 3), (3, 1)])
    item_pool = gen.labels(rng, rng.randint(1, 4), 0.15)
    if rng.random() < 0.06:
        item_pool += ['I%d' % i for i in range(gen.log_int(rng, 4, 60))]
    coder_pool = gen.labels(rng, rng.choice([2, 4, 6, 9, 14, 20]), 0.15)
    if rng.random() < 0.2:
        coder_pool = gen.typed(rng, coder_pool, True, True)
    scn = {'family': 'data', 'fs': {'seed': 0}, 'sources': []}
    for _ in range(rng.randint(2, 4)):
        names = rng.sample(item_pool, rng.randint(0 if rng.random() < 0.2 else 1, len(item_pool)))
        coders = rng.sample(coder_pool, rng.randint(1, min(3, len(coder_pool))))
        src = gen_source(rng, names, coders, gen.weighted(rng, [('mass', 6), ('position', 1), ('sets', 1), ('nltk', 1)]))
        for it in src['items']:
            while rng.random() < 0.3 and it[1]:
                it[1].pop(rng.randrange(len(it[1])))
            for coding in it[1]:
                if rng.random() < 0.08:
                    coding[1] = '' if src['fmt'] == 'nltk' else []      # nothing segmented
        scn['sources'].append(src)
    tasks = []
    for t in range(n_tasks):
        regs = ['s%d' % i for i in range(len(scn['sources']))]
        own = list(regs) if n_tasks == 1 else []
        plain = ['p%d' % i for i in range(len(scn['sources']))]
        ops = []
        for _ in range(gen.weighted(rng, [(rng.randint(1, 6), 5), (rng.randint(5, 16), 5)])):
            r = rng.random()
            new = 't%d_%d' % (t, len(ops))
            if r < 0.12:
                op = {'o': 'new', 'r': new, 'x': rng.choice(plain), 'props': rng.random() < 0.5}
            elif r < 0.17:
                op = {'o': 'newfrom', 'r': new, 'x': rng.choice(regs)}
            elif r < 0.30:
                op = {'o': 'copy', 'r': new, 'x': rng.choice(regs), 'how': rng.choice(['copy', 'copy', 'deepcopy', 'pickle'])}
            elif r < 0.45:
                op = {'o': 'add', 'r': new, 'x': rng.choice(regs), 'y': rng.choice(regs + regs + plain)}
            elif not own:
                op = {'o': 'copy', 'r': new, 'x': rng.choice(regs), 'how': 'copy'}
            elif r < 0.62:
                op = {'o': 'iadd', 'x': rng.choice(own), 'y': rng.choice(regs + regs + plain)}
            elif r < 0.71:
                op = {'o': 'set', 'x': rng.choice(own), 'i': rng.choice(item_pool), 'c': rng.choice(coder_pool), 'v': rng.choice([[], [rng.randint(1, 9), rng.randint(1, 9)], [rng.randint(1, 9), rng.randint(1, 9)]])}
            elif r < 0.74:
                op = {'o': 'newitem', 'x': rng.choice(own), 'i': rng.choice(item_pool), 'c': rng.choice(coder_pool), 'v': [rng.randint(1, 9)]}
            elif r < 0.80:
                op = {'o': 'delc', 'x': rng.choice(own), 's': rng.randrange(100)}
            elif r < 0.83:
                op = {'o': 'deli', 'x': rng.choice(own), 's': rng.randrange(100)}
            elif r < 0.95:
                op = {'o': 'poke', 'x': rng.choice(own), 's': rng.randrange(100)}
            else:
                op = {'o': 'attr', 'x': rng.choice(own), 's': rng.randrange(100)}
            if op['o'] in ('new', 'newfrom', 'copy', 'add', 'iadd'):
                maybe_int(rng, op, 0.18, 60)
            if 'r' in op:
                regs.append(op['r'])
                own.append(op['r'])
            ops.append(op)
        tasks.append({'ops': ops})
    scn['tasks'] = tasks
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    return scn


def gen_c07(rng):
    n_tasks = gen.weighted(rng, [(1, 7), (2, 3)])
    conf = iofam.gen_conf(rng)
    coders = gen.labels(rng, gen.weighted(rng, [(2, 5), (3, 3), (4, 1), (1, 1)]), 0.12, avoid='\x00\r\u2028\n,') if conf['locale'] == 'utf-8' else gen.labels(rng, rng.randint(2, 3), 0)
    if '' in coders:
        coders[coders.index('')] = 'blank'
    fmt = gen.weighted(rng, [('mass', 7), ('position', 1), ('sets', 2), ('nltk', 1)])
    scn = {'family': 'data', 'fs': conf, 'sources': [], 'agree': True}
    names = ['i%d' % i for i in range(40)]
    rng.shuffle(names)
    for k in range(rng.randint(1, 4)):
        own = fmt if rng.random() < 0.9 else gen.weighted(rng, [('mass', 3), ('position', 1), ('sets', 1), ('nltk', 1)])
        kind = rng.choice(['mem', 'mem', 'json', 'tsv', 'pos', 'folder']) if own == 'mass' else 'mem'
        use = coders if rng.random() < 0.85 else rng.sample(coders, rng.randint(1, len(coders)))
        take = [names.pop() for _ in range(1 if kind in ('tsv', 'pos') else rng.randint(1, 3))]
        src = gen_source(rng, take, use, own, kind)
        if kind in ('tsv', 'pos'):
            src['props'] = {}
            src['delim'] = rng.choice(['\t', '\t', ',', ';'])
            src['nl'] = rng.choice(['\n', '\r\n'])
        if kind == 'json':
            src['ascii'] = conf['locale'] != 'utf-8' or rng.random() < 0.5
        if kind == 'folder':
            src['props'] = {}
            src['ascii'] = True
            src['type'] = rng.choice(['json', 'json', 'tsv'])
            src['where'] = [rng.choice(['', '', 'A/', 'B/', 'A/C/', 'D e/']) for _ in take]
            src['stem'] = [rng.choice(['x', 'y', 'z']) if src['type'] == 'json' else '' for _ in take]
            src['ext'] = [rng.choice(['.json', '.JSN', '.jsn'] if src['type'] == 'json' else ['.tsv', '.TSV', '.csv']) for _ in take]
        scn['sources'].append(src)
    tasks = []
    shared = ['s%d' % i for i in range(len(scn['sources']))]
    for t in range(n_tasks):
        regs = list(shared)
        own = list(shared) if n_tasks == 1 else []
        ops = []
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            new = 't%d_%d' % (t, len(ops))
            if r < 0.12:
                op = {'o': 'obtain', 'r': new, 'x': rng.randrange(len(scn['sources']))}
            elif r < 0.36:
                op = {'o': 'copy', 'r': new, 'x': rng.choice(regs), 'how': rng.choice(['copy', 'deepcopy', 'copy.copy', 'pickle', 'pickle', 'pickle']),
                      'proto': rng.randint(0, 5)}
            elif r < 0.46:
                op = {'o': 'add', 'r': new, 'x': rng.choice(regs), 'y': rng.choice(regs)}
            elif r < 0.60 and own:
                op = {'o': 'iadd', 'x': rng.choice(own), 'y': rng.choice(regs)}
            elif r < 0.66 and own:
                op = {'o': 'empty', 'r': new, 'x': rng.choice(regs)}
            elif r < 0.72 and own:
                op = {'o': 'fill', 'x': rng.choice(own), 'y': rng.choice(regs), 's': rng.randrange(100)}
            elif r < 0.80 and own:
                op = {'o': rng.choice(['delc', 'deli', 'touch', 'attr', 'delall', 'rename', 'rename']), 'x': rng.choice(own), 's': rng.randrange(100)}
            elif r < 0.84 and n_tasks == 1:
                op = {'o': 'restart', 'proto': rng.randint(0, 5), 'first': rng.choice(['', 'segeval', 'segeval.data', 'segeval.compute', 'segeval.util', 'segeval.agreement'])}
            elif r < 0.92:
                op = {'o': 'coders', 'x': rng.choice(regs), 'mutate': rng.random() < 0.3}
            else:
                op = {'o': 'agree', 'x': rng.choice(regs), 'k': rng.choice(KINDS)}
            if op['o'] in ('obtain', 'copy', 'add', 'iadd', 'coders'):
                maybe_int(rng, op, 0.1, 60)
            if 'r' in op:
                regs.append(op['r'])
                own.append(op['r'])
            ops.append(op)
        if rng.random() < 0.6:
            ops.append({'o': 'agree', 'x': rng.choice(regs), 'k': rng.choice(KINDS)})
        tasks.append({'ops': ops})
    scn['tasks'] = tasks
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    return scn


# ------------------------------------------------------------------------------------------------------------ model

class Val(object):
    """One coding; shared by reference where the library may share it."""
    def __init__(self, v):
        self.v = v


class DS(object):
    def __init__(self, fmt='mass'):
        self.items, self.props, self.fmt, self.types = {}, {}, fmt, set([1])
        self.mixed = False      # codings of other formats were merged into it

    def deep(self):
        out = DS(self.fmt)
        out.items = dict((i, dict((c, Val(copy.deepcopy(x.v))) for c, x in cs.items())) for i, cs in self.items.items())
        out.props = copy.deepcopy(self.props)
        out.types = set(self.types)
        out.mixed = self.mixed
        return out

    def coders(self):
        return set(c for cs in self.items.values() for c in cs)

    def plain(self):
        return dict((i, dict((c, x.v) for c, x in cs.items())) for i, cs in self.items.items())


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(v))
    return v


class Duplicate(Exception):
    pass


class DataRun(object):
    def __init__(self, scn, ctx):
        self.scn, self.ctx, self.fs = scn, ctx, ctx.fs
        self.fs.reset(scn['fs'])
        self.seg = ctx.image.fresh()
        self.sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
        self.real, self.model = {}, {}      # register -> dataset
        self.types = {}
        self.given = []     # properties the caller passed in and goes on using
        self.multi = len(scn['tasks']) > 1
        for i, src in enumerate(scn['sources']):
            self.write(i, src)
        for i, src in enumerate(scn['sources']):
            m = DS(src['fmt'])
            m.items = dict((it, dict((c, Val(gen.real(src['fmt'], v, src['values']))) for c, v in cs)) for it, cs in src['items'])
            self.model['p%d' % i] = m
            self.real['p%d' % i] = m.plain()
            self.types[i] = None if src['types'] is None else {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[
                src.get('types_as', 'list')](src['types'])
            self.real['s%d' % i] = self.obtain(i)()
            self.go_on(self.given)
            self.given = []
            self.model['s%d' % i] = self.obtained(i)

    # -- sources
    def fmt(self, name):
        return getattr(self.seg.BoundaryFormat, name)

    def write(self, i, src):
        if src['kind'] == 'mem':
            return
        spec = {'kind': 'json', 'items': src['items'], 'props': src['props'], 'ascii': src.get('ascii', True), 'indent': None}
        if src['kind'] == 'json':
            iofam.write_file(self.fs, 'src%d.json' % i, spec)
        elif src['kind'] in ('tsv', 'pos'):
            name, codings = src['items'][0]
            if src['kind'] == 'pos':
                codings = [[c, models.masses_to_labels(v)] for c, v in codings]
            iofam.write_file(self.fs, 'src%d/%s.tsv' % (i, name), self.tsv_spec(src, [name, codings]))
        else:
            os.makedirs(self.fs.path('src%d' % i), exist_ok=True)
            for k, item in enumerate(src['items']):
                if src['type'] == 'json':
                    rel = 'src%d/%s%s%d%s' % (i, src['where'][k], src['stem'][k], k, src['ext'][k])
                    iofam.write_file(self.fs, rel, {'kind': 'json', 'items': [item], 'props': {}, 'ascii': True, 'indent': 1})
                else:
                    rel = 'src%d/%s%s%s' % (i, src['where'][k], item[0], src['ext'][k])
                    iofam.write_file(self.fs, rel, self.tsv_spec({'delim': '\t', 'nl': '\n'}, item))

    @staticmethod
    def tsv_spec(src, item):
        return {'kind': 'tsv', 'rows': item[1], 'delim': src['delim'], 'nl': src['nl'], 'head': 'num', 'final': True,
                'width': max([len(v) for _, v in item[1]] or [0])}

    def obtain(self, i):
        """A call that produces source i in the way the scenario says."""
        src, seg = self.scn['sources'][i], self.seg
        if src['kind'] == 'mem':
            kw = {'boundary_format': self.fmt(src['fmt'])}
            if src['types'] is not None:
                kw['boundary_types'] = self.types[i]
            props = source_props(src)
            self.given.append(props)
            data = self.real['p%d' % i]
            return lambda: seg.Dataset(data, properties=props, **kw)
        if src['kind'] == 'json':
            path = self.fs.path('src%d.json' % i)
            return lambda: seg.input_linear_mass_json(path)
        if src['kind'] in ('tsv', 'pos'):
            import segeval.data.tsv as tsv
            load = tsv.input_linear_positions_tsv if src['kind'] == 'pos' else seg.input_linear_mass_tsv
            path = self.fs.path('src%d/%s.tsv' % (i, src['items'][0][0]))
            if src['delim'] == '\t':
                return lambda: load(path)
            return lambda: load(path, src['delim'])
        path = self.fs.path('src%d' % i)
        return lambda: seg.load_nested_folders_dict(path, src['type'])

    @staticmethod
    def go_on(given):
        for props in given:
            props['later'] = 1

    def obtained(self, i):
        src = self.scn['sources'][i]
        base = self.model['p%d' % i]
        m = DS(src['fmt'])
        if src['kind'] == 'mem':
            m.items = dict((it, dict(cs)) for it, cs in base.items.items())     # values by reference
        else:
            m.items = base.deep().items
            if src['kind'] == 'folder':
                m.items = dict((','.join(w.split('/')[:-1] + [it]), m.items[it]) for w, (it, _) in zip(src['where'], src['items']))
        m.props = source_props(src)
        if src['types'] is not None:
            m.types = set(src['types'])
        return m

    # -- judging
    def differs(self, name):
        real, m = self.real[name], self.model[name]
        got = dict((i, dict((c, norm(v)) for c, v in cs.items())) for i, cs in dict(real).items())
        want = dict((i, dict((c, norm(x.v)) for c, x in cs.items())) for i, cs in m.items.items())
        if got != want:
            for i in sorted(set(got) | set(want), key=repr):
                if got.get(i) != want.get(i):
                    return 'item %r has codings %s instead of %s' % (i, iofam.short(got.get(i)), iofam.short(want.get(i)))
        if name.startswith('p'):
            return None
        if not isinstance(real, self.seg.Dataset):
            return 'is a %s' % type(real).__name__
        props = dict((k, v) for k, v in real.properties.items() if k != 'segmentation_type')
        if props != m.props:
            return 'has properties %s instead of %s' % (iofam.short(props), iofam.short(m.props))
        if real.boundary_format != self.fmt(m.fmt):
            return 'has boundary format %s instead of %s' % (real.boundary_format, m.fmt)
        if not isinstance(real.boundary_types, (set, frozenset)) or set(real.boundary_types) != m.types:
            return 'has boundary types %s instead of %s' % (real.boundary_types, m.types)
        if self.scn.get('agree') and set(real.coders) != m.coders():
            return 'reports coders %s, has codings of %s' % (sorted(real.coders, key=repr), sorted(m.coders(), key=repr))
        return None

    def visible(self, task):
        for name in self.real:
            if not self.multi or name[0] in 'sp' or name.startswith('t%d_' % task.idx):
                yield name

    def check_all(self, task, op, partial=None):
        for name in list(self.visible(task)):
            if name == partial:
                continue
            p = self.differs(name)
            if p:
                kind = 'dataset-attributes' if p.startswith(('has', 'reports')) else 'wrong-codings'
                return self.sim.violate(kind, 'after "%s" dataset %s %s' % (describe(op), name, p), task)

    # -- running
    def body(self, ops):
        def run(task):
            for i, op in enumerate(ops):
                task.op = i
                getattr(self, 'do_' + op['o'])(task, op)
                if self.sim.abort:
                    raise SimAbort()
                self.check_all(task, op)
                if self.sim.abort:
                    raise SimAbort()
        return run

    def have(self, *names):
        return all(n in self.real for n in names)

    def operate(self, task, op, fn):
        status, value = self.sim.op(task, fn, op.get('int'))
        self.sim.note(task, '%s -> %s' % (describe(op), status if status == 'ok' else type(value).__name__))
        if task.int_fired is not None and not (status == 'exc' and (value is task.int_fired or isinstance(value, Exception))):
            self.sim.violate('abort-swallowed', 'interruption of "%s" did not reach the caller' % describe(op), task)
        return status, value

    def fails(self, task, op, status, value):
        """True when the call raised; unexpected exceptions are violations."""
        if status == 'ok':
            return False
        if task.int_fired is None:
            self.sim.violate('call-raised', '"%s" raised %s: %s' % (describe(op), type(value).__name__, str(value)[:150]), task)
        else:
            self.sim.probe('aborted:' + op['o'])
        return True

    def put(self, op, real, model):
        self.real[op['r']], self.model[op['r']] = real, model
        self.sim.probe('checked:' + op['o'])

    def do_obtain(self, task, op):
        fn = self.obtain(op['x'])
        given, self.given = self.given, []
        status, value = self.operate(task, op, fn)
        self.go_on(given)
        if not self.fails(task, op, status, value):
            self.put(op, value, self.obtained(op['x']))
            self.sim.probe('obtained:' + self.scn['sources'][op['x']]['kind'])

    def do_new(self, task, op):
        seg, data = self.seg, self.real[op['x']]
        src = self.scn['sources'][int(op['x'][1:])]
        props = source_props(src) if op.get('props') else None
        status, value = self.operate(task, op, lambda: seg.Dataset(data, properties=props, boundary_format=self.fmt(src['fmt'])))
        if not self.fails(task, op, status, value):
            m = DS(src['fmt'])
            m.items = dict((i, dict(cs)) for i, cs in self.model[op['x']].items.items())
            m.props = source_props(src) if op.get('props') else {}
            self.put(op, value, m)
            if props:
                props['later'] = 1      # the caller goes on using its own dict

    def do_newfrom(self, task, op):
        if not self.have(op['x']):
            return
        seg, data = self.seg, self.real[op['x']]
        src = self.model[op['x']]
        status, value = self.operate(task, op, lambda: seg.Dataset(data, boundary_format=self.fmt(src.fmt)))
        if not self.fails(task, op, status, value):
            m = DS(src.fmt)
            m.items = dict((i, dict(cs)) for i, cs in src.items.items())
            self.put(op, value, m)

    def do_empty(self, task, op):
        m = self.model.get(op['x'])
        if m is None:
            return
        seg = self.seg
        status, value = self.operate(task, op, lambda: seg.Dataset(boundary_format=self.fmt(m.fmt)))
        if not self.fails(task, op, status, value):
            self.put(op, value, DS(m.fmt))

    def do_copy(self, task, op):
        if not self.have(op['x']):
            return
        x, how = self.real[op['x']], op['how']
        fn = {'copy': lambda: x.copy(), 'deepcopy': lambda: copy.deepcopy(x), 'copy.copy': lambda: copy.copy(x),
              'pickle': lambda: pickle.loads(pickle.dumps(x, op.get('proto', 2)))}[how]
        status, value = self.operate(task, op, fn)
        if self.fails(task, op, status, value):
            return
        if how == 'copy.copy':
            # a shallow copy may share codings: judged now, then replaced by an independent one
            self.put(op, value, self.model[op['x']].deep())
            p = self.differs(op['r'])
            if p:
                return self.sim.violate('dataset-attributes', 'after "%s" dataset %s %s' % (describe(op), op['r'], p), task)
            value = value.copy()
        self.put(op, value, self.model[op['x']].deep())

    def merge(self, left, right):
        left.mixed = left.mixed or right.mixed or (left.fmt != right.fmt and any(right.items.values()))
        for i, cs in right.items.items():
            for c, x in cs.items():
                if c in left.items.get(i, ()):
                    raise Duplicate()
        for i, cs in list(right.items.items()):
            mine = left.items.setdefault(i, {})
            for c, x in cs.items():
                mine[c] = x

    def error_ok(self, value):
        from segeval.data import DataIOError
        return isinstance(value, DataIOError)

    def do_add(self, task, op):
        if not self.have(op['x'], op['y']):
            return
        a, b = self.real[op['x']], self.real[op['y']]
        m = self.model[op['x']].deep()
        right = m if op['x'] == op['y'] else self.model[op['y']]
        try:
            self.merge(m, right)
            dup = False
        except Duplicate:
            dup = True
        status, value = self.operate(task, op, lambda: a + b)
        if dup:
            return self.duplicate(task, op, status, value)
        if not self.fails(task, op, status, value):
            self.put(op, value, m)

    def duplicate(self, task, op, status, value):
        if status == 'ok':
            self.sim.violate('duplicate-accepted', '"%s" accepted a coder already present' % describe(op), task)
        elif task.int_fired is None and not self.error_ok(value):
            self.sim.violate('duplicate-accepted', '"%s" raised %s instead of the data I/O error' % (describe(op), type(value).__name__), task)
        self.sim.probe('duplicate rejected')

    def do_iadd(self, task, op):
        if not self.have(op['x'], op['y']):
            return
        a, b = self.real[op['x']], self.real[op['y']]
        m = self.model[op['x']]
        before = dict((i, dict(cs)) for i, cs in m.items.items())
        offered = dict((i, dict(cs)) for i, cs in self.model[op['y']].items.items())
        try:
            self.merge(m, self.model[op['y']])
            dup = False
        except Duplicate:
            dup = True

        def fn():
            z = a
            z += b
            return z
        status, value = self.operate(task, op, fn)
        if dup:
            self.duplicate(task, op, status, value)
        elif status == 'ok':
            if value is not a:
                self.sim.violate('wrong-codings', '"%s" did not add in place' % describe(op), task)
        else:
            self.fails(task, op, status, value)
        if self.sim.abort or status == 'ok':
            return
        # stopped part-way: nothing lost or overwritten, nothing but what was being added
        m.items = {}
        for i, cs in dict(a).items():
            m.items[i] = {}
            for c, v in cs.items():
                x = before.get(i, {}).get(c) or offered.get(i, {}).get(c)
                if x is None:
                    return self.sim.violate('wrong-codings', 'after the failed "%s" there is a coding of %r for item %r that nobody added' % (describe(op), c, i), task)
                m.items[i][c] = x
            if i not in before and i not in offered:
                return self.sim.violate('wrong-codings', 'after the failed "%s" there is an item %r that nobody added' % (describe(op), i), task)
        for i, cs in before.items():
            for c in cs:
                if c not in m.items.get(i, {}):
                    return self.sim.violate('wrong-codings', 'the failed "%s" removed the coding of %r for item %r' % (describe(op), c, i), task)
        self.sim.probe('partial merge')

    def coded(self, x, s):
        m = self.model[x]
        every = sorted(((i, c) for i in m.items for c in m.items[i]), key=repr)
        return every[s % len(every)] if every else None

    def do_set(self, task, op):
        if not self.have(op['x']):
            return
        v = tuple(op['v'])
        self.operate(task, op, lambda: self.real[op['x']][op['i']].__setitem__(op['c'], v))
        self.model[op['x']].items.setdefault(op['i'], {})[op['c']] = Val(v)

    def do_newitem(self, task, op):
        if not self.have(op['x']):
            return
        v = tuple(op['v'])
        self.operate(task, op, lambda: self.real[op['x']].__setitem__(op['i'], {op['c']: v}))
        self.model[op['x']].items[op['i']] = {op['c']: Val(v)}

    def do_fill(self, task, op):
        """Item by item, coder by coder, from another dataset."""
        if not self.have(op['x'], op['y']) or op['x'] == op['y']:
            return
        a, b = self.real[op['x']], self.real[op['y']]
        m, n = self.model[op['x']], self.model[op['y']]
        if m.fmt != n.fmt or n.mixed:
            return
        names = sorted(n.items, key=repr)[:1 + op['s'] % 3]
        for i in names:
            for c in n.items[i]:
                a[i][c] = b[i][c]
                m.items.setdefault(i, {})[c] = n.items[i][c]
        self.sim.note(task, describe(op))

    def do_delc(self, task, op):
        if not self.have(op['x']):
            return
        key = self.coded(op['x'], op['s'])
        if key is not None:
            del self.real[op['x']][key[0]][key[1]]
            del self.model[op['x']].items[key[0]][key[1]]

    def do_rename(self, task, op):
        """A coder gets another name, for one item or all of them."""
        if not self.have(op['x']):
            return
        key = self.coded(op['x'], op['s'])
        if key is None:
            return
        new = 'renamed%d' % (op['s'] % 5)
        for i, cs in self.model[op['x']].items.items():
            if (i == key[0] or op['s'] % 2) and key[1] in cs:
                real = self.real[op['x']][i]
                real[new] = real.pop(key[1])
                cs[new] = cs.pop(key[1])

    def do_deli(self, task, op):
        if not self.have(op['x']):
            return
        m = self.model[op['x']]
        names = sorted(m.items, key=repr)
        if names:
            i = names[op['s'] % len(names)]
            if op['s'] % 2:
                del self.real[op['x']][i]
            else:
                self.real[op['x']].pop(i)
            del m.items[i]

    def do_delall(self, task, op):
        if self.have(op['x']):
            self.real[op['x']].clear()
            self.model[op['x']].items.clear()

    def do_touch(self, task, op):
        if self.have(op['x']):
            self.real[op['x']]['touched%d' % (op['s'] % 3)]
            self.model[op['x']].items.setdefault('touched%d' % (op['s'] % 3), {})

    def do_poke(self, task, op):
        """Change the masses of one coding in place, where no other dataset may legitimately share them."""
        if not self.have(op['x']):
            return
        key = self.coded(op['x'], op['s'])
        if key is None:
            return
        x = self.model[op['x']].items[key[0]][key[1]]
        users = sum(1 for m in self.model.values() for cs in m.items.values() for y in cs.values() if y is x)
        v = self.real[op['x']][key[0]][key[1]]
        if users != 1 or not isinstance(v, list) or not isinstance(x.v, list):
            return
        if v is x.v:
            return      # the caller's own list
        v.append(op['s'] + 1)
        x.v.append(op['s'] + 1)
        self.sim.probe('poked')

    def do_attr(self, task, op):
        if not self.have(op['x']):
            return
        real, m, s = self.real[op['x']], self.model[op['x']], op['s']
        if s % 3 == 0:
            real.properties['set%d' % s] = s
            m.props['set%d' % s] = s
        elif s % 3 == 1:
            if isinstance(m.props.get('nested'), dict) and isinstance(real.properties.get('nested'), dict):
                real.properties['nested']['k'].append(s)
                m.props['nested']['k'].append(s)
            for p in (real.properties, m.props):
                if isinstance(p.get('flags'), set):
                    p['flags'].add('f%d' % s)
                if ('a', 1) in p:
                    p[('a', 1)][0]['deep'].append(s)
        else:
            if not hasattr(real.boundary_types, 'add'):
                return
            real.boundary_types.add(s)
            m.types.add(s)

    def do_coders(self, task, op):
        if not self.have(op['x']):
            return
        ds = self.real[op['x']]
        import segeval.data as data
        if op['x'][0] != 'p':
            status, value = self.operate(task, op, lambda: ds.coders)
            if self.fails(task, op, status, value):
                return
            if set(value) != self.model[op['x']].coders():
                return self.sim.violate('wrong-coders', '"%s" reports %s, has codings of %s' % (
                    describe(op), sorted(value, key=repr), sorted(self.model[op['x']].coders(), key=repr)), task)
            if op.get('mutate') and isinstance(value, set):
                value.add('intruder')
        if not hasattr(data, 'get_coders'):
            return
        if op.get('mutate'):
            ds = dict(ds)
        status, value = self.operate(task, {'o': 'coders', 'x': op['x']}, lambda: data.get_coders(ds))
        if not self.fails(task, op, status, value) and set(value) != self.model[op['x']].coders():
            return self.sim.violate('wrong-coders', 'get_coders of %s gives %s, codings are of %s' % (
                op['x'], sorted(value, key=repr), sorted(self.model[op['x']].coders(), key=repr)), task)
        self.sim.probe('checked:coders')

    def do_agree(self, task, op):
        if not self.have(op['x']):
            return
        ds, m, kind = self.real[op['x']], self.model[op['x']], op['k']
        data = m.plain()
        data = dict((i, cs) for i, cs in data.items())
        fn = getattr(self.seg, FN[kind])
        status, value = self.operate(task, op, lambda: fn(ds))
        if task.int_fired is not None:
            return
        if m.mixed or any(len(cs) < 2 for cs in data.values()):
            return self.sim.probe('agreement undefined')
        plain = dict((i, dict((c, sorted_sets(m.fmt, v)) for c, v in cs.items())) for i, cs in data.items())
        try:
            res = models.agreement(kind, m.fmt, plain)
            if res[0] is None:
                raise Undefined()
        except (Undefined, Rejected):
            return self.sim.probe('agreement undefined')
        except Exception as e:
            if any(not v for cs in data.values() for v in cs.values()):
                return self.sim.probe('agreement undefined')
            raise
        if status == 'exc':
            return self.sim.violate('wrong-agreement', '"%s" raised %s: %s' % (describe(op), type(value).__name__, str(value)[:120]), task)
        p = MetricRun.agree_check(kind, {}, res, None)(value, 28)
        if p:
            return self.sim.violate('wrong-agreement', '"%s" gives %s' % (describe(op), p), task)
        self.sim.probe('checked:agree')

    def do_restart(self, task, op):
        """Every dataset goes to a new process by pickle."""
        blobs = dict((n, pickle.dumps(x, op['proto'])) for n, x in self.real.items() if n[0] != 'p')
        image = self.ctx.image
        image.purge()
        self.sim.count('process_restart')

        def load():
            if op['first']:
                __import__(op['first'])
            return dict((n, pickle.loads(b)) for n, b in blobs.items())
        status, value = self.operate(task, op, load)
        if self.fails(task, op, status, value):
            return
        import segeval
        for name in segeval.__all__:
            getattr(segeval, name)
        self.seg = segeval
        self.real.update(value)
        for n in value:
            self.model[n] = self.model[n].deep()

    def run(self):
        self.sim.run([self.body(t['ops']) for t in self.scn['tasks']])
        return self.sim


def sorted_sets(fmt, v):
    if fmt == 'sets':
        return [sorted(x) for x in v]
    return v if fmt == 'nltk' else list(v)


def describe(op):
    return ' '.join([op['o']] + ['%s=%s' % (k, op[k]) for k in sorted(op) if k not in ('o', 'int')]) + (' (interrupted)' if 'int' in op else '')


def execute(scn, ctx):
    return DataRun(scn, ctx).run()
