"""Import/export histories over the simulated file system (C01-C05)."""
import csv
import errno
import io
import json
import os
from decimal import Decimal
from . import gen, models
from .core import Sim, SimAbort, SimCrash, HarnessError
from . import fs as simfs

ERRNOS = {'EACCES': errno.EACCES, 'ENOENT': errno.ENOENT, 'EMFILE': errno.EMFILE, 'EIO': errno.EIO,
          'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS, 'EINTR': errno.EIO, 'ESTALE': errno.ESTALE}
NAMES = ['data.json', 'a.json', 'b.json', 'x y.json', 'd-e.json', 'c', 'd.txt', 'e.jsn']


# ------------------------------------------------------------------------------------------------------- generation

def gen_props(rng):
    out = {}
    names = gen.labels(rng, rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 9]), 0.3)
    if rng.random() < 0.08:
        names.append(rng.choice(['Items', 'ITEMS', 'items ', 'coders', 'Coders', 'Segmentation_Type', 'segmentation type', 'boundary_format', 'coder',
                                 'version', 'id', 'properties', 'linear', '__class__', 'boundary_types']))
    for k in names:
        if k in ('items', 'segmentation_type'):
            continue
        out[k] = rng.choice(['text', u'\u00fcn\u00efcode \U0001f600', 3, 2.5, None, True, False, [], [1, [2, 'x']], {'k': {'n': [1]}}, '', 'a' * 40,
                             0.1, 1e-300, 1.0, -0.0, 123456789.123456789, 2 ** 70, '1', '2.50', 'null', {'1': 1, '': {}}, [[], [[]]]])
    if rng.random() < 0.03:
        deep = rng.choice([[], {}, 1, 'end'])
        for i in range(rng.randint(4, 40)):
            deep = [deep] if rng.random() < 0.5 else {'k%d' % i: deep, 'x': i}
        out['deep'] = deep
    if rng.random() < 0.02:
        # longer than any buffer a reader or writer is likely to work with
        unit = rng.choice(['a b', ' x  ', ' ', u'\u00e9 ', '\n \t', '\\"', 'word '])
        out['long'] = unit * (gen.log_int(rng, 3000, 80000) // len(unit))
    return out


def gen_items(rng, size=None, odd=0.25):
    size = size or gen.weighted(rng, [('s', 80), ('m', 12), ('l', 4), ('0', 4), ('w', 4)])
    items = []
    if size == 'w':
        # many items, or many coders of one
        n = rng.randint(30, 260)
        if rng.random() < 0.5:
            return [['%s%d' % (rng.choice('ab '), i), [[c, [i + 1, rng.randint(1, 9)]] for c in rng.sample(['x', 'y', 'z'], rng.randint(1, 2))]]
                    for i in range(n)]
        return [['w', [['%s%d' % (rng.choice('ab '), i), [i + 1, rng.randint(1, 9)]] for i in range(n)]]]
    if size == '0':
        names = rng.choice([[], ['empty']])
        return [[n, []] for n in names]
    for item in gen.labels(rng, rng.randint(1, 3) if size == 's' else rng.randint(3, 6), odd):
        codings = []
        for coder in gen.labels(rng, rng.randint(1, 4), odd):
            if size == 's':
                n = gen.length(rng)
                v = gen.composition(rng, min(n, 30))
            elif size == 'm':
                v = [rng.randint(1, 40) for _ in range(rng.randint(20, 150))]
            else:
                v = [rng.randint(1, 10 ** rng.randint(1, 6)) for _ in range(rng.randint(500, 3000))]
            if rng.random() < 0.03:
                v = []
            elif rng.random() < 0.03:
                v = [rng.choice([1, 1, 2, 7])] * gen.log_int(rng, 2, 600)
            elif rng.random() < 0.06:
                v[rng.randrange(len(v))] = rng.choice([0, 0, 10 ** 18, 10 ** 30])
            codings.append([coder, v])
        items.append([item, codings])
    if rng.random() < 0.04 and items:
        where = rng.choice([items[-1]] + items[-1][1])
        where[0] = rng.choice(['z', 'ab ', u'\u00e9']) * rng.choice([100, 129, 256, 700])
    return items


def gen_data(rng, size=None, bad=False, odd=0.25):
    d = {'items': gen_items(rng, size, odd), 'props': gen_props(rng)}
    if bad:
        d['bad'] = {'what': rng.choice(['set', 'object', 'decimal', 'bytes', 'key', 'cycle']), 'where': rng.choice(['mass', 'prop', 'coding', 'deep']),
                    'seed': rng.randrange(1000)}
        if not any(c for _, c in d['items']):
            d['bad']['where'] = rng.choice(['prop', 'deep'])
    return d


def gen_conf(rng, locale=True):
    conf = {'seed': rng.randrange(1 << 40), 'chunk': gen.weighted(rng, [(None, 3), (1, 1), (2, 1), (7, 1), (64, 1), (1000, 1), (9000, 1)]),
            'buf': gen.weighted(rng, [(None, 4), ([16], 1), ([64, 512], 1), ([1024], 1), ([4096, 8192, 65536], 1)]),
            'listing': gen.weighted(rng, [('shuffle', 8), ('sorted', 1), ('reverse', 1)]),
            'tick': rng.choice([1, 2, 0.004, 1e-6]), 'skew': rng.choice([0, 0, 0, 1, 3600])}
    if locale:
        conf['locale'] = gen.weighted(rng, [('utf-8', 7), ('latin-1', 1), ('cp1252', 1), ('ascii', 1)])
    return conf


def gen_tsv(rng, odd=0.2, positions=False, delim=None):
    rows = []
    width = 0
    for coder in gen.labels(rng, gen.weighted(rng, [(rng.randint(1, 4), 9), (0, 1)]), odd, avoid='\x00\r\u2028'):
        if positions:
            v = gen.encode(rng, 'position', gen.composition(rng, gen.length(rng)), names=False)
        else:
            v = gen.composition(rng, min(30, gen.length(rng)))
            if rng.random() < 0.05:
                v = [rng.randint(1, 50) for _ in range(rng.randint(200, 2000))]
        width = max(width, len(v))
        rows.append([coder, v])
    return {'kind': 'tsv', 'rows': rows, 'delim': delim or '\t', 'nl': rng.choice(['\n', '\n', '\r\n']), 'final': rng.random() < 0.8,
            'head': gen.weighted(rng, [('num', 5), ('one', 1), ('odd', 1), ('short', 1.5), ('other', 0.7)]), 'width': width}


def flawed(rng, spec):
    """A file that is not quite right: it has to be refused, or read without losing anything."""
    if spec['kind'] == 'json':
        cells = [(i, j) for i, (_, codings) in enumerate(spec['items']) for j in range(len(codings))]
        if cells and rng.random() < 0.4:
            i, j = rng.choice(cells)
            spec['flaw'] = {'what': 'mass', 'item': i, 'coder': j, 'at': rng.randint(0, len(spec['items'][i][1][j][1])),
                            'value': rng.choice([None, None, '', '3', 'x', 1.5, 2.0, 0, -1, False, [], [2], {}])}
            return spec
        spec['flaw'] = {'what': 'head', 'type': rng.choice(['none', 'none', 'hierarchical', 'Linear', None, '', ['linear'], 'noitems'])}
    elif spec['rows']:
        spec['flaw'] = {'what': rng.choice(['twice', 'twice', 'blank', 'blank', 'value']), 'row': rng.randrange(len(spec['rows'])),
                        'to': rng.randint(0, len(spec['rows'])), 'value': rng.choice(['x', '', '1.5', '-', '2,5', 'NaN', '1e2', '0x1', '1.', '.5', '3-', '--1', 'one', '1 2', '+', '1L', 'inf', '1.0', '[1]', '1;', '#1', '1!']),
                        'same': rng.random() < 0.2}
    return spec


def gen_json(rng, odd=0.2, size=None, locale='utf-8'):
    d = gen_data(rng, size, odd=odd)
    d.update(kind='json', ascii=rng.random() < 0.6 or locale != 'utf-8', indent=rng.choice([None, 4, 1]))
    return d


BAD_TEXT = ['', '{', '[]', '{}', 'null', '3', '"x"', '{"items": {}}', '{"segmentation_type": "linear"}',
            '{"segmentation_type": "hierarchical", "items": {}}', '{"segmentation_type": "linear", "items": []}',
            '{"segmentation_type": "linear", "items": {"i": []}}', '{"segmentation_type": "linear", "items": {"i": {"c": 5}}}',
            '{"segmentation_type": "linear", "items": {"i": {"c": null}}}', '{"segmentation_type": "linear", "items": null}',
            '{"segmentation_type": "linear", "items": {"i": 3}}', '{"segmentation_type": "linear", "items": {"i": {"c": [1,]}}}',
            '\x00\x00\x00', '{"segmentation_type": "linear", "items": {}} trailing']
BAD_HEX = ['ff', 'efbbbf', 'fffe7b00', '7b226974656d73223a7b7d2c227365676d656e746174696f6e5f74797065223a226c696e656172222c2278223a22e9227d',
           '7b22e9', 'c3', '66f8090a63e909310a', '6809310a63ff0931', '6809310a630931e9']
BAD_TSV = ['', 'h\t1\nc\tx\n', 'h\t1\t2\nc\t1\t\n', '\n\n', 'h\n', 'h\t1\nc\t1.5\n', 'c\n\nd\t1\n']


def gen_fault(rng, op):
    """One fault for an import or export call."""
    if op['o'] == 'export':
        r = rng.random()
        if r < 0.05:
            return {'site': 'write', 'kind': 'interrupt', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit']), 'once': True,
                    'frac': rng.choice([0, rng.random(), rng.random(), 1])}
        if r < 0.45:
            return {'site': 'write', 'kind': 'error', 'frac': rng.choice([0, 1, rng.random(), rng.random(), rng.random()]),
                    'errno': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EINTR']), 'once': rng.random() < 0.3}
        if r < 0.6:
            return {'site': 'close', 'kind': 'error', 'mode': 'w'}
        if r < 0.7:
            return {'site': 'open', 'kind': 'error', 'errno': rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EROFS'])}
        if r < 0.75:
            return {'site': 'meta', 'kind': 'error', 'errno': 'EIO'}
        return {'site': 'write', 'kind': 'crash', 'frac': rng.choice([0, rng.random(), rng.random(), rng.random(), 0.999])}
    r = rng.random()
    folder = op['o'] == 'folder'
    if folder and r < 0.1:
        return {'site': 'list', 'kind': 'vanish'}
    if folder and r < 0.18:
        return {'site': 'stat', 'kind': 'vanish', 'calls': rng.choice([1, 1, 2])}
    if folder and r < 0.26:
        return {'site': 'stat', 'kind': 'error', 'errno': rng.choice(['EACCES', 'EIO', 'ESTALE'])}
    if folder and r < 0.44:
        return {'site': 'list', 'kind': 'error', 'errno': rng.choice(['EACCES', 'EIO', 'ENOENT', 'EMFILE', 'ESTALE'])}
    if 0.44 <= r < 0.49:
        return {'site': 'read', 'kind': 'interrupt', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit']), 'once': True,
                'frac': rng.choice([0, rng.random(), rng.random(), 1])}
    if r < 0.65:
        f = {'site': 'read', 'kind': 'error', 'errno': rng.choice(['EIO', 'ESTALE'])}
        if rng.random() < 0.8:
            f['frac'] = rng.choice([0, rng.random(), rng.random(), 1])
        else:
            f['frac'], f['calls'] = 2, rng.randint(1, 3)
        return f
    if r < 0.8:
        return {'site': 'open', 'kind': 'error', 'errno': rng.choice(['EACCES', 'EMFILE', 'EIO', 'ENOENT'])}
    if r < 0.93:
        return {'site': 'open', 'kind': 'vanish', 'vanish': True}
    return {'site': 'close', 'kind': 'error', 'mode': 'r'}


def gen_tree(rng, locale='utf-8', odd=0.15, prefix=''):
    files, dirs = [], []
    pool = ['ch1', 'ch2', 'a', 'b', 'x.json', 'sub', 'E', 'with space', 'a,b', 'D', 'tsv', '.hid', 'z.tsv', '10', ' a', 'b ', 'CH1', 'a,', '01', 'a.b', '#d', '~', '-x', 'items', 'b' * 60] + ([u'\u00b2', u'n\u0660', u'\u00c9', u'E\u0301'] if locale == 'utf-8' else [])
    exts = ['.json', '.json', '.json', '.jsn', '.JSON', '.Json', '.JSN', '.tsv', '.tsv', '.csv', '.TSV', '.txt', '', '.ejson', '.json.bak', '.jsonl']

    def fill(path, depth):
        taken = set()
        for _ in range(gen.weighted(rng, [(0, 2), (1, 4), (2, 4), (3, 2), (5, 1)])):
            stem = rng.choice(['a', 'b', 'data', 'x', 'U', 'a.b', '1', 'm10', '2m'])
            if rng.random() < 0.04 and locale == 'utf-8':
                stem = rng.choice(u'\u00b2 \u0663 m\u00b9 \u2167 x\u0301 \u00df \u0130 e\u0301 \u00e9'.split())
            name = stem + rng.choice(exts)
            if rng.random() < 0.05:
                name = rng.choice(['.json', '.tsv', '.jsn', 'json'])
            if name in taken:
                continue
            taken.add(name)
            ext = os.path.splitext(name)[1].lower()
            if ext in ('.tsv', '.csv'):
                spec = gen_tsv(rng, odd if locale == 'utf-8' else 0)
            elif ext in ('.json', '.jsn'):
                spec = gen_json(rng, odd, 's', locale)
                # labels that tend to meet across files
                if rng.random() < 0.7:
                    coder = rng.choice(['c1', 'c2', 'c3', stem, 'k%d' % rng.randrange(1000)])
                    spec['items'] = [[rng.choice(['i1', 'i2', 'i3', 'b,i1']), [[coder, gen.composition(rng, rng.randint(1, 9))]]]]
            else:
                spec = rng.choice([{'kind': 'raw', 'text': 'ignored'}, gen_json(rng, 0, 's', locale)])
            files.append([path + name, spec])
        if depth < 4:
            for name in rng.sample(pool, gen.weighted(rng, [(0, 3), (1, 3), (2, 2), (3, 1)]) if depth else rng.choice([0, 1, 2, 2, 3])):
                if name in taken:
                    continue
                taken.add(name)
                dirs.append(path + name)
                fill(path + name + '/', depth + 1)
    fill(prefix, 0)
    return files, dirs


def generate(prop, rng, tier='quick'):
    return {'C01': gen_c01, 'C02': gen_c02, 'C03': gen_c03, 'C04': gen_c04, 'C05': gen_c05}[prop](rng)


def same_size(rng, d):
    """Other data with the same shape and encoded size."""
    d = json.loads(json.dumps(d))
    codings = [c for _, cs in d['items'] for c in cs if len(set(c[1])) > 1]
    for c in codings:
        if len(codings) < 3 or rng.random() < 0.5:
            c[1].reverse() if c[1] != c[1][::-1] else c[1].append(c[1].pop(0))
    if not codings and d['items'] and len(d['items'][0][1]) > 1:
        cs = d['items'][0][1]
        cs[0][1], cs[1][1] = cs[1][1], cs[0][1]
    return d


def gen_c01(rng):
    n_tasks = gen.weighted(rng, [(1, 4), (2, 4), (3, 1)])
    conf = gen_conf(rng)
    scn = {'family': 'io', 'fs': conf, 'files': [], 'dirs': [], 'data': [gen_data(rng) for _ in range(rng.randint(1, 4))], 'tasks': []}
    if rng.random() < 0.08:
        # halves of characters
        for item in rng.choice(scn['data'])['items']:
            item[0] += rng.choice(['\ud800', '\udc80', '\udfff', 'a\udce9b'])
    if rng.random() < 0.3:
        scn['data'].append(same_size(rng, rng.choice(scn['data'])))
    together = n_tasks > 1 and rng.random() < 0.5
    for t in range(n_tasks):
        base = 'all/%d ' % t if together else 't%d/' % t      # different files, perhaps in the same folder
        scn['dirs'] += [base + 'dir', base + 'sub.json']
        targets = [base + n for n in rng.sample(NAMES, rng.randint(1, 3))] + [base + 'dir', base + 'sub.json']
        if rng.random() < 0.25:
            # folders that hold other files
            targets += [base + rng.choice(['dir', 'sub.json']) + '/' + n for n in rng.sample(['a.json', 'output', 'z.json', 'output1.json', 'A.jsn'], 2)]
            targets += targets[-4:] * 2
        ops, regs, saved = [], 0, []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if not saved or r < 0.35:
                p = rng.choice(targets)
                if regs and rng.random() < 0.4:
                    op = {'o': 'export', 'r': rng.randrange(regs), 'p': p}
                else:
                    op = {'o': 'export', 'd': rng.randrange(len(scn['data'])), 'p': p}
                saved.append(p)
            elif r < 0.75 or not regs:
                op = {'o': 'import', 'p': rng.choice(saved), 'how': 'json', 'r': regs}
                regs += 1
            elif r < 0.85:
                op = {'o': 'shell', 'p': rng.choice(saved), 'to': rng.choice(targets), 'what': rng.choice(['copy', 'copy', 'move', 'swap', 'remove']),
                      'keep': rng.random() < 0.5}
                saved.append(op['to'])
            else:
                op = {'o': 'change', 'r': rng.randrange(regs), 'what': rng.choice(['coding', 'item', 'prop', 'del', 'clear', 'props']),
                      'seed': rng.randrange(1000)}
            ops.append(op)
        if saved:
            ops.append({'o': 'import', 'p': rng.choice(saved), 'how': 'json', 'r': regs})
        scn['tasks'].append({'ops': ops})
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    return scn


def gen_c02(rng):
    conf = gen_conf(rng)
    scn = {'family': 'io', 'fs': conf, 'files': [], 'dirs': ['dir'], 'tasks': [],
           'data': [gen_data(rng, bad=rng.random() < 0.2) for _ in range(rng.randint(2, 4))]}
    if rng.random() < 0.3:
        scn['data'].append(same_size(rng, rng.choice(scn['data'])))
    if rng.random() < 0.15:
        # most of the file is the inside of one string
        for data in scn['data']:
            data['props']['long'] = rng.choice(['ab', ' x  ', u'\u00e9 ']) * gen.log_int(rng, 100, 1500)
    paths = rng.sample(NAMES, rng.randint(1, 2)) + ['dir']
    ops = []
    saved = []
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(saved) if saved and rng.random() < 0.6 else rng.choice(paths)
        op = {'o': 'export', 'd': rng.randrange(len(scn['data'])), 'p': p}
        saved.append(p)
        r = rng.random()
        if r < 0.55:
            op['faults'] = [gen_fault(rng, op)]
        elif r < 0.7:
            op['int'] = gen.interrupt(rng, 40, ('SimCrash', 'KeyboardInterrupt', 'MemoryError', 'SimCrash'))
        ops.append(op)
        if rng.random() < 0.3:
            ops.append({'o': 'damage', 'p': p, 'kind': rng.choice(['trunc', 'trunc', 'zero']), 'frac': rng.choice([0, rng.random(), rng.random(), 0.9999]),
                        'len': gen.log_int(rng, 1, 300)})
        ops.append({'o': 'import', 'p': p, 'how': 'json'})
    scn['tasks'] = [{'ops': ops}]
    if rng.random() < 0.2 and not any(op.get('int', {}).get('exc') == 'SimCrash' or any(f['kind'] == 'crash' for f in op.get('faults', ())) for op in ops):
        second = []
        for _ in range(rng.randint(1, 2)):
            second += [{'o': 'export', 'd': rng.randrange(len(scn['data'])), 'p': 'second.json'},
                       {'o': 'import', 'p': 'second.json', 'how': 'json'}]
        scn['tasks'].append({'ops': second})
    scn['sched'], scn['gran'] = gen.schedule(rng, len(scn['tasks']))
    return scn


def gen_c03(rng, faulty=0.5, prop='C03'):
    conf = gen_conf(rng)
    locale = conf['locale']
    odd = 0.2 if locale == 'utf-8' else 0
    scn = {'family': 'io', 'fs': conf, 'files': [], 'dirs': [], 'data': []}
    singles, tree = [], []
    for i in range(rng.randint(1, 3)):
        kind = rng.choice(['json', 'json', 'tsv', 'pos'])
        if kind == 'json':
            spec = gen_json(rng, odd, None, locale)
            if rng.random() < 0.08:
                flawed(rng, spec)
        else:
            delim = rng.choice(['\t', '\t', ',', ';', ' ', '|'])
            spec = gen_tsv(rng, odd, kind == 'pos', delim)
            if rng.random() < 0.15:
                flawed(rng, spec)
        name = rng.choice(['f%d', 'f%d.x', '.f%d', 'f %d', 'f.%d']) % i + ('.json' if kind == 'json' else rng.choice(['.tsv', '.csv', '']))
        scn['files'].append([name, spec])
        singles.append([name, kind])
    if rng.random() < 0.6:
        scn['dirs'].append('tree')
        files, dirs = gen_tree(rng, locale, odd, 'tree/')
        for _, spec in files:
            if spec['kind'] in ('tsv', 'json') and rng.random() < 0.04:
                flawed(rng, spec)
        scn['files'] += files
        scn['dirs'] += dirs
        tree = files
    n_tasks = gen.weighted(rng, [(1, 6), (2, 3)])
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(1, 5)):
            if tree and rng.random() < 0.45:
                op = {'o': 'folder', 'p': 'tree', 't': rng.choice(['json', 'json', 'tsv'])}
            else:
                name, kind = rng.choice(singles)
                op = {'o': 'import', 'p': name, 'how': kind}
            if rng.random() < faulty:
                f = gen_fault(rng, op)
                if f.get('vanish') and n_tasks > 1:
                    f = {'site': 'open', 'kind': 'error', 'errno': 'ENOENT'}
                if f['kind'] == 'vanish' and f['site'] in ('list', 'stat') and n_tasks > 1:
                    f = {'site': 'list', 'kind': 'error', 'errno': 'ENOENT'}
                if f['kind'] == 'vanish' and f['site'] == 'list':
                    cands = [n for n, s in tree if matches(n, op['t'])] + [d for d in scn['dirs'] if d.startswith('tree/')]
                    if not cands:
                        ops.append(op)
                        continue
                    f['victim'] = rng.choice(cands)
                    f['path'] = os.path.dirname(f['victim'])
                elif f['site'] == 'stat' and f['kind'] == 'vanish':
                    f['path'] = f['victim'] = rng.choice([n for n, s in tree if matches(n, op['t'])] or [n for n, s in tree])
                elif f['site'] == 'stat':
                    f['path'] = rng.choice([n for n, s in tree] + [d for d in scn['dirs'] if d.startswith('tree/')])
                elif op['o'] == 'folder' and f['site'] != 'list':
                    cands = [n for n, s in tree if matches(n, op['t'])]
                    if cands:
                        f['path'] = rng.choice(cands)
                elif op['o'] == 'folder':
                    cands = ['tree'] + [d for d in scn['dirs'] if d.startswith('tree/')]
                    f['path'] = rng.choice(cands)
                if rng.random() < 0.2:
                    f['once'] = True
                op['faults'] = [f]
            elif rng.random() < 0.15 and prop == 'C03':
                op['int'] = gen.interrupt(rng, 150)
            ops.append(op)
        tasks.append({'ops': ops})
    scn['tasks'] = tasks
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    return scn


def matches(name, t):
    ext = os.path.splitext(os.path.basename(name))[1].lower()
    return ext in ({'json': ('.json', '.jsn'), 'tsv': ('.tsv', '.csv')}[t])


def gen_c04(rng):
    scn = gen_c03(rng, 0.5, 'C04')
    scn['fds'] = True
    scn['data'] = [gen_data(rng, bad=rng.random() < 0.35, size='s') for _ in range(2)]
    for i in range(rng.randint(0, 3)):
        bad = rng.random() < 0.6
        name = 'bad%d%s' % (i, '.json' if bad else '.tsv')
        if rng.random() < 0.3:
            name = 'tree/' + name
            if 'tree' not in scn['dirs']:
                scn['dirs'].append('tree')
        spec = {'kind': 'raw', 'text': rng.choice(BAD_TEXT if bad else BAD_TSV)}
        if rng.random() < 0.25:
            spec = {'kind': 'raw', 'hex': rng.choice(BAD_HEX)}
        elif rng.random() < 0.2:
            # flawed far behind its start
            spec = {'kind': 'raw', 'text': '{"segmentation_type": "linear", "items": {"i": {"c": [1', 'rep': [', 1', gen.log_int(rng, 100, 2500), rng.choice(['', ',', '}', ']}}', ']}}}x'])]} if bad else \
                   {'kind': 'raw', 'text': 'h\nc', 'rep': rng.choice([['\t1', gen.log_int(rng, 100, 2500), '\tx\n'], ['\t1\nc', gen.log_int(rng, 100, 1000), '\n']])}
        scn['files'].append([name, spec])
        for t in scn['tasks']:
            if rng.random() < 0.7:
                t['ops'].insert(rng.randint(0, len(t['ops'])), {'o': 'import', 'p': name, 'how': 'json' if bad else rng.choice(['tsv', 'pos'])})
            elif 'tree' in scn['dirs'] and rng.random() < 0.5:
                t['ops'].append({'o': 'folder', 'p': 'tree', 't': 'json' if bad else 'tsv'})
    scn['dirs'].append('outdir')
    for k, t in enumerate(scn['tasks']):
        for _ in range(rng.randint(0, 3)):
            op = {'o': 'export', 'd': rng.randrange(2), 'p': rng.choice(['out%d.json' % k, 'outdir', 'nodir/x.json'])}
            if rng.random() < 0.5:
                f = gen_fault(rng, op)
                if f['kind'] == 'crash':
                    f['kind'] = 'error'
                    f['errno'] = 'ENOSPC'
                op['faults'] = [f]
            t['ops'].insert(rng.randint(0, len(t['ops'])), op)
        if rng.random() < 0.1:
            t['ops'].append(dict(rng.choice(t['ops'])))
            t['ops'] += [dict(rng.choice(t['ops'])) for _ in range(8)]
        if rng.random() < 0.1:
            t['ops'].append({'o': 'folder', 'p': 'missing', 't': 'json'})
            t['ops'].append({'o': 'import', 'p': 'missing.json', 'how': 'json'})
    return scn


def log_files(rng):
    return gen.log_int(rng, 12, 70)


def gen_links(rng, scn, locale):
    """Symbolic links in the tree: to folders and files elsewhere, or to nothing."""
    files, dirs = gen_tree(rng, locale, 0, 'far/')
    scn['dirs'] += ['far'] + dirs
    scn['files'] += files
    taken = set(n for n, _ in scn['files']) | set(scn['dirs'])
    scn['links'] = []
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        parent = rng.choice([d for d in scn['dirs'] if d == 'tree' or d.startswith('tree/')]) + '/'
        if r < 0.4:
            link = [parent + rng.choice(['ln', 'ln.json', 'L']), rng.choice(['far'] + dirs)]
        elif r < 0.8 and files:
            to = rng.choice(files)[0]
            link = [parent + 'ln' + os.path.splitext(to)[1], to]
        else:
            link = [parent + 'ln' + rng.choice(['.json', '.tsv', '', '.txt', '.JSN']), 'nowhere']
        if link[0] not in taken:
            taken.add(link[0])
            scn['links'].append(link)
            if link[1] in ['far'] + dirs and rng.random() < 0.5:
                # the same folder under a second name, mostly beside the first
                other = rng.choice(['tree/', parent, parent, parent]) + rng.choice(['ln2', 'A', 'z.json'])
                if other not in taken:
                    taken.add(other)
                    scn['links'].append([other, link[1]])


def gen_c05(rng):
    conf = gen_conf(rng)
    locale = conf['locale']
    scn = {'family': 'io', 'fs': conf, 'files': [], 'dirs': ['tree'], 'data': []}
    files, dirs = gen_tree(rng, locale, 0.1 if locale == 'utf-8' else 0, 'tree/')
    if rng.random() < 0.08:
        # many files side by side, or a long chain of folders
        where = rng.choice(['tree/'] + [d + '/' for d in dirs])
        if rng.random() < 0.5:
            for i in range(log_files(rng)):
                n = where + 'n%d%s' % (i, rng.choice(['.json', '.jsn', '.JSON']))
                files.append([n, dict(gen_json(rng, 0, 's', locale), items=[['w%d' % (i // 3), [['c%d' % (i % 3), [1, i + 1]]]]], props={})])
        else:
            for i in range(rng.randint(5, 14)):
                where += rng.choice(['d', 'e', '0', 'x.json']) + '/'
                dirs.append(where[:-1])
                if rng.random() < 0.5:
                    files.append([where + 'q.json', dict(gen_json(rng, 0, 's', locale), items=[['w', [['c', [2, i + 1]]]]], props={})])
            dirs[:] = sorted(set(dirs))
            files[:] = [f for i, f in enumerate(files) if f[0] not in [g[0] for g in files[:i]] and f[0] not in dirs]
            dirs[:] = [d for d in dirs if not any(d == f[0] or d.startswith(f[0] + '/') for f in files)]
            files[:] = [f for f in files if '/'.join(f[0].split('/')[:-1]) in ['tree'] + dirs]
    scn['files'], scn['dirs'] = files, ['tree'] + dirs
    roots = list(scn['dirs'])
    if rng.random() < 0.2:
        gen_links(rng, scn, locale)
    n_tasks = gen.weighted(rng, [(1, 6), (2, 3)])
    tasks = []
    if rng.random() < 0.3:
        scn['data'].append({'items': [[rng.choice(['i1', 'zz', 'ch1,i1']), [[rng.choice(['c1', 'me']), [1, 2]]]]], 'props': {}})
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(1, 3)):
            op = {'o': 'folder', 'p': rng.choice(['tree', 'tree', 'tree'] + roots), 't': rng.choice(['json', 'json', 'json', 'tsv']),
                  'slash': rng.random() < 0.15}
            if scn['data'] and rng.random() < 0.5:
                op['into'] = 0
            ops.append(op)
        tasks.append({'ops': ops})
    scn['tasks'] = tasks
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    return scn


# -------------------------------------------------------------------------------------------------------- execution

class NotJson(object):
    pass


def model_of(d):
    return dict((i, dict((c, tuple(v)) for c, v in codings)) for i, codings in d['items']), dict(d.get('props', {}))


def make_bad(ds, bad):
    """Put something that cannot be serialised somewhere into the dataset."""
    def cyc():
        x = []
        x.append(x)
        return x
    what = {'set': lambda: set([1]), 'object': NotJson, 'decimal': lambda: Decimal(1), 'bytes': lambda: b'x',
            'key': lambda: {(1, 2): 3}, 'cycle': cyc}[bad['what']]()
    if bad['where'] == 'prop':
        ds.properties['prop%d' % (bad['seed'] % 7)] = what
        return
    if bad['where'] == 'deep':
        # inside of a list or mapping, in front of or behind everything else in the file
        s = bad['seed']
        name = ['zz', 'aa', 'prop'][s % 3]
        ds.properties[name] = [[what], [1, what], {'k': what}, {'a': [1], 'k': [what]}, [[[what]]], [{'k': [what, 2]}], {'': {'x': what}}][s // 3 % 7]
        return
    items = sorted((i, c) for i in ds for c in ds[i])
    i, c = items[bad['seed'] % len(items)]
    if bad['where'] == 'coding':
        ds[i][c] = what
    else:
        v = list(ds[i][c])
        v.insert(bad['seed'] % (len(v) + 1), what)
        ds[i][c] = tuple(v)


def tsv_text(spec):
    out = io.StringIO()
    w = csv.writer(out, delimiter=spec['delim'], lineterminator=spec['nl'])
    n = spec['width']
    head = {'num': ['coder'] + [str(i + 1) for i in range(n)], 'one': ['coder'], 'short': ['coder'] + [str(i + 1) for i in range((n + 1) // 2)], 'odd': [''] + ['s'] * (n + 1),
            # characters that separate in other files
            'other': ['x' + ''.join(c + 'y' for c in ',;| \t' if c != spec['delim'])]}[spec['head']]
    lines = [[coder] + [str(x) for x in v] for coder, v in spec['rows']]
    flaw = spec.get('flaw')
    if flaw:
        row = list(lines[flaw['row']])
        if flaw['what'] == 'twice':
            lines.insert(flaw['to'], row if flaw['same'] else row[:1] + ['3'] + row[1:])
        elif flaw['what'] == 'blank':
            lines.insert(flaw['to'], None)
        else:
            row.insert(1 + flaw['to'] % len(row), flaw['value'])
            lines[flaw['row']] = row
    w.writerow(head)
    for row in lines:
        if row is None:
            out.write(spec['nl'])
        else:
            w.writerow(row)
    text = out.getvalue()
    return text if spec['final'] else text[:-len(spec['nl'])]


def odd_masses(spec):
    f = spec['flaw']
    items = dict((i, dict((c, list(v)) for c, v in codings)) for i, codings in spec['items'])
    item, codings = spec['items'][f['item']]
    items[item][codings[f['coder']][0]].insert(f['at'], f['value'])
    return items


def write_file(fs, rel, spec):
    path = fs.path(rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if spec['kind'] == 'raw':
        text = spec.get('text', '')
        if 'rep' in spec:
            unit, n, end = spec['rep']
            text += unit * n + end
    elif spec['kind'] == 'tsv':
        text = tsv_text(spec)
    else:
        data = dict(spec['props'])
        data['segmentation_type'] = 'linear'
        data['items'] = dict((i, dict((c, v) for c, v in codings)) for i, codings in spec['items'])
        if spec.get('flaw', {}).get('what') == 'mass':
            data['items'] = odd_masses(spec)
        elif 'flaw' in spec:
            what = spec['flaw']['type']
            if what == 'noitems':
                del data['items']
            elif what == 'none':
                del data['segmentation_type']
            else:
                data['segmentation_type'] = what
        text = json.dumps(data, ensure_ascii=spec['ascii'], indent=spec['indent'])
    with simfs._real_open(path, 'wb') as f:
        f.write(bytes.fromhex(spec['hex']) if 'hex' in spec else text.encode('utf-8'))
    fs.stamp(path)


def usable_tsv(spec):
    """Rows the reader can tell apart: an all-empty line is an empty row for the csv module."""
    return all(coder != '' or v for coder, v in spec['rows'])


def tsv_model(spec, item, positions=False):
    out = {}
    for coder, v in spec['rows']:
        out[coder] = tuple(models.labels_to_masses(v)) if positions else tuple(v)
    return {item: out}


def stem(rel):
    name = os.path.basename(rel)
    base = os.path.splitext(name)[0]
    return base or name


class Duplicate(Exception):
    pass


class Dangling(Exception):
    pass


class Flawed(Exception):
    """Input that may be refused; args[0] = what it means if it is not, None if it has to be refused."""


class Unclear(Exception):
    pass


class IoRun(object):
    def __init__(self, scn, ctx):
        self.scn, self.ctx, self.fs = scn, ctx, ctx.fs
        self.fs.reset(scn['fs'])
        self.seg = ctx.image.fresh()
        self.sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
        self.sim.on_crash = self.fs.die
        self.disk = {}
        for d in scn['dirs']:
            os.makedirs(self.fs.path(d), exist_ok=True)
        for rel, spec in scn['files']:
            write_file(self.fs, rel, spec)
            self.disk[rel] = spec
        for rel, to in scn.get('links', ()):
            os.symlink(self.fs.path(to), self.fs.path(rel))
        self.admissible = {}    # rel -> list of (items, props) an import may yield; None in it: it must not be required to succeed
        self.busy = set()
        self.datasets = []
        self.build()

    def build(self):
        seg = self.seg
        self.datasets = []
        for d in self.scn['data']:
            items, props = model_of(d)
            ds = seg.Dataset(items, properties=props)
            if 'bad' in d:
                make_bad(ds, d['bad'])
            self.datasets.append(ds)

    # -- comparison
    def same(self, ds, want):
        """None if the dataset holds exactly `want` = (items, props or None)."""
        items, props = want
        if not isinstance(ds, self.seg.Dataset):
            return 'a %s instead of a dataset' % type(ds).__name__
        got = dict((i, dict(c)) for i, c in dict(ds).items())
        if set(got) != set(items):
            return 'items %s instead of %s' % (short(sorted(got, key=repr)), short(sorted(items, key=repr)))
        for i in items:
            if set(got[i]) != set(items[i]):
                return 'coders %s instead of %s for item %r' % (short(sorted(got[i], key=repr)), short(sorted(items[i], key=repr)), i)
            for c in items[i]:
                v = got[i][c]
                if not isinstance(v, tuple) or v != items[i][c] or canonical(v) != canonical(items[i][c]):
                    return 'masses %s instead of %s for item %r, coder %r' % (short(v), short(items[i][c]), i, c)
        if props is not None:
            p = dict((k, v) for k, v in ds.properties.items() if k != 'segmentation_type')
            if p != props or canonical(p) != canonical(props):
                return 'properties %s instead of %s' % (short(p), short(props))
        if ds.boundary_format != self.seg.BoundaryFormat.mass:
            return 'boundary format %s' % ds.boundary_format
        return None

    def expected_file(self, rel, how, spec=None):
        spec = spec or self.disk.get(rel)
        if spec is None or spec['kind'] == 'raw':
            raise Unclear()
        if how == 'json':
            if spec['kind'] != 'json':
                raise Unclear()
            if spec.get('flaw', {}).get('what') == 'mass':
                raise Flawed((dict((i, dict((c, tuple(v)) for c, v in codings.items())) for i, codings in odd_masses(spec).items()),
                              model_of(spec)[1]))
            if 'flaw' in spec:
                raise Flawed(None)
            return model_of(spec)
        if spec['kind'] != 'tsv' or not usable_tsv(spec):
            raise Unclear()
        want = tsv_model(spec, stem(rel), how == 'pos'), None
        if 'flaw' in spec:
            raise Flawed(want if spec['flaw']['what'] == 'blank' else None)
        return want

    def expected_tree(self, root, t, into=None):
        out = {}
        if into is not None:
            out = dict((i, dict(c)) for i, c in into.items())
        dup, flaw = False, None
        prefix = root.rstrip('/') + '/'
        disk = dict(self.disk)
        for link, to in self.scn.get('links', ()):
            disk[link] = {'kind': 'dangling'} if to == 'nowhere' else self.disk.get(to)
            if disk[link] is None:
                del disk[link]
            for rel, spec in self.disk.items():
                if rel.startswith(to + '/'):
                    disk[link + rel[len(to):]] = spec
        if any(spec['kind'] == 'dangling' and rel.startswith(prefix) and matches(rel, t) for rel, spec in disk.items()):
            raise Dangling()
        for rel, spec in disk.items():
            if not rel.startswith(prefix) or not matches(rel, t):
                continue
            if spec['kind'] != t:
                raise Unclear()
            try:
                items = self.expected_file(rel, t, spec)[0]
            except Flawed as f:
                flaw = 'refuse' if f.args[0] is None else flaw or 'either'
                items = f.args[0][0] if f.args[0] else {}
            dirs = rel[len(prefix):].split('/')[:-1]
            for item, codings in items.items():
                key = ','.join(dirs + [item])
                have = out.setdefault(key, {})
                for c, v in codings.items():
                    if c in have:
                        dup = True
                    have[c] = v
        if dup:
            raise Duplicate()
        if flaw:
            raise Flawed((out, None) if flaw == 'either' else None)
        return out, None

    # -- faults
    def size_of(self, op):
        if op['o'] == 'export':
            d = op.get('model')
            try:
                data = dict(d[1], items=d[0], segmentation_type='linear')
                return len(json.dumps(data, sort_keys=True, indent=4))
            except (TypeError, ValueError):
                return 300
        f = op['faults'][0]
        p = self.fs.path(f.get('path') or op['p'])
        try:
            return os.path.getsize(p)
        except OSError:
            return 0

    def arm(self, task, op):
        faults = []
        for f in op.get('faults', ()):
            f = dict(f)
            if 'frac' in f:
                f['at'] = int(f['frac'] * self.size_of(op)) if f['frac'] <= 1 else 1 << 40
            if 'errno' in f:
                f['errno'] = ERRNOS[f['errno']]
            faults.append(f)
        if faults:
            self.fs.arm(task.idx, faults)

    # -- tasks
    def body(self, ops):
        def run(task):
            regs = {}
            for i, op in enumerate(ops):
                task.op = i
                getattr(self, 'do_' + op['o'])(task, dict(op), regs)
                if self.sim.abort:
                    raise SimAbort()
        return run

    def operate(self, task, op, fn):
        self.arm(task, op)
        self.busy.add(task.idx)
        status, value = self.sim.op(task, fn, op.get('int'))
        self.busy.discard(task.idx)
        fired = self.fs.disarm(task.idx)
        died = self.fs.dead
        self.sim.note(task, '%s %s %s -> %s' % (op['o'], op.get('p'), [f['site'] for f in fired], status if status == 'ok' else type(value).__name__))
        if died:
            # the process is gone: only what reached the files survives; the next operation runs in a new process
            if status == 'ok' or not isinstance(value, SimCrash):
                self.sim.probe('code ran on after the crash point')
                status, value = 'exc', SimCrash('dead')
            for h in list(self.fs.handles):
                try:
                    h._real.close()
                except OSError:
                    pass
            self.fs.handles = []
            self.fs.dead = False
            self.seg = self.ctx.image.fresh()
            self.build()
        elif self.scn.get('fds') and not self.busy:
            left = self.fs.open_files()
            if left:
                self.sim.violate('file-left-open', 'after %s of %s (%s%s) still open: %s' % (
                    op['o'], op.get('p'), 'raised ' + type(value).__name__ if status == 'exc' else 'returned',
                    ', injected %s fault' % '/'.join(f['site'] for f in fired) if fired else '', left), task)
        if task.int_fired is not None and not died and not (status == 'exc'):
            self.sim.violate('abort-swallowed', '%s inside %s of %s was swallowed' % (type(task.int_fired).__name__, op['o'], op['p']), task)
        return status, value, fired, died

    def target(self, rel):
        return rel + '/output.json' if rel in self.scn['dirs'] else rel

    def do_export(self, task, op, regs):
        if 'r' in op:
            if op['r'] not in regs:
                return
            ds, items, props = regs[op['r']]
            model = (dict((i, dict(c)) for i, c in items.items()), dict(props))
            bad = False
        else:
            ds = self.datasets[op['d']]
            model = model_of(self.scn['data'][op['d']])
            bad = 'bad' in self.scn['data'][op['d']]
        op['model'] = model
        path = self.fs.path(op['p'])
        rel = self.target(op['p'])
        before = self.admissible.get(rel)
        fn = self.seg.output_linear_mass_json
        status, value, fired, died = self.operate(task, op, lambda: fn(path, ds))
        if status == 'ok':
            if bad:
                return self.sim.violate('save-passed', 'export of data that cannot be serialised (%s) returned normally' % self.scn['data'][op['d']]['bad']['what'], task)
            if any(f['site'] in ('write', 'close') for f in fired):
                # the data may still have got there by another attempt: judged by what is read back
                self.sim.probe('export returned despite a fault')
            self.admissible[rel] = [model]
            self.sim.probe('exported')
            return
        self.sim.probe('export failed')
        allowed = [x for x in before if x != 'gone'] if before is not None else []
        if None not in allowed:
            allowed.append(None)
        if not bad:
            allowed.append(model)
        self.admissible[rel] = allowed
        if not fired and not bad and task.int_fired is None and not died and os.path.isdir(os.path.dirname(self.fs.path(rel))):
            self.sim.violate('export-raised', 'export raised %s: %s' % (type(value).__name__, str(value)[:150]), task)

    def do_damage(self, task, op, regs):
        rel = self.target(op['p'])
        p = self.fs.path(rel)
        if not os.path.exists(p):
            return
        with simfs._real_open(p, 'rb') as f:
            data = f.read()
        if not data:
            return
        at = min(len(data) - 1, int(op['frac'] * len(data)))
        if op['kind'] == 'trunc':
            new = data[:at]
        else:
            new = data[:at] + b'\0' * min(op['len'], len(data) - at) + data[at + op['len']:]
        st = simfs._real_stat(p)
        with simfs._real_open(p, 'wb') as f:
            f.write(new)
        simfs._real_utime(p, (st.st_atime, st.st_mtime))
        self.sim.count('damage:' + op['kind'])
        if new != data:
            # a complete file was damaged: it has to be rejected (or, had only padding been hit, still be exact)
            self.admissible[rel] = [x for x in self.admissible.get(rel, []) if x is not None] + ['reject']

    def do_shell(self, task, op, regs):
        """Saved files are copied, moved and removed by something other than the library."""
        a, b, what = self.target(op['p']), self.target(op['to']), op['what']
        if what == 'remove':
            if a in self.admissible and os.path.exists(self.fs.path(a)):
                simfs._real_remove(self.fs.path(a))
                self.admissible[a] = ['gone']
            return
        if a == b or a not in self.admissible or not os.path.exists(self.fs.path(a)):
            return
        if what == 'swap' and (b not in self.admissible or not os.path.exists(self.fs.path(b))):
            what = 'copy'
        was = {}
        for rel in (a, b) if what == 'swap' else (a,):
            with simfs._real_open(self.fs.path(rel), 'rb') as f:
                was[rel] = f.read(), simfs._real_stat(self.fs.path(rel)), self.admissible[rel]
        for src, dst in ((a, b), (b, a)) if what == 'swap' else ((a, b),):
            with simfs._real_open(self.fs.path(dst), 'wb') as f:
                f.write(was[src][0])
            self.fs.stamp(self.fs.path(dst))
            if op.get('keep') or what != 'copy':
                simfs._real_utime(self.fs.path(dst), (was[src][1].st_atime, was[src][1].st_mtime))
            self.admissible[dst] = list(was[src][2])
        if what == 'move':
            simfs._real_remove(self.fs.path(a))
            self.admissible[a] = ['gone']
        self.sim.probe('moved about:' + what)

    def do_import(self, task, op, regs):
        rel = self.target(op['p'])
        path = self.fs.path(rel if op['how'] == 'json' and rel != op['p'] else op['p'])
        seg = self.seg
        if op['how'] == 'json':
            fn = lambda: seg.input_linear_mass_json(path)
        else:
            import segeval.data.tsv as tsv
            delim = self.disk[rel]['delim'] if rel in self.disk and 'delim' in self.disk[rel] else '\t'
            f = tsv.input_linear_mass_tsv if op['how'] == 'tsv' else tsv.input_linear_positions_tsv
            if delim == '\t':
                fn = lambda: f(path)
            else:
                fn = lambda: f(path, delimiter=delim)
        if rel in self.admissible:
            status, value, fired, died = self.operate(task, op, fn)
            return self.judge_saved(task, op, rel, status, value, fired, regs)
        try:
            want = self.expected_file(rel, op['how'])
        except Unclear:
            want = 'unclear'
        except Flawed as f:
            want = f
        status, value, fired, died = self.operate(task, op, fn)
        self.forget_vanished(op, fired)
        if want == 'unclear':
            return self.sim.probe('malformed input')
        if isinstance(want, Flawed):
            return self.judge_flawed(task, op, status, value, want.args[0])
        self.judge_loaded(task, op, status, value, fired, want)

    def judge_saved(self, task, op, rel, status, value, fired, regs):
        allowed = self.admissible[rel]
        if allowed == ['gone']:
            if status != 'exc':
                self.sim.violate('not-read-back', 'importing a removed file yields %s' % short(value), task)
            return
        allowed = [x for x in allowed if x != 'gone']
        if status == 'exc':
            if fired or task.int_fired is not None:
                return
            if 'reject' in allowed:
                from segeval.data import DataIOError
                if not isinstance(value, DataIOError):
                    return self.sim.violate('damaged-file-error', 'damaged file: %s instead of the data I/O error' % type(value).__name__, task)
                return self.sim.probe('damaged file rejected')
            if None in allowed:
                return self.sim.probe('incomplete file rejected')
            return self.sim.violate('not-read-back', 'importing an exported file raised %s: %s' % (type(value).__name__, str(value)[:200]), task)
        problems = []
        for want in allowed:
            if want is None or want == 'reject':
                continue
            p = self.same(value, want)
            if p is None:
                self.sim.probe('read back')
                if 'r' in op:
                    regs[op['r']] = [value, dict((i, dict(c)) for i, c in want[0].items()), dict(want[1])]
                return
            problems.append(p)
        if 'reject' in allowed or None in allowed:
            return self.sim.violate('partial-data-accepted', 'a damaged or incomplete file was imported: %s' % (problems[-1] if problems else 'no export ever succeeded'), task)
        self.sim.violate('not-read-back', 'import after export yields %s' % problems[-1], task)

    def judge_flawed(self, task, op, status, value, want):
        if status == 'exc':
            return self.sim.probe('flawed input refused')
        p = 'a dataset, although it has to be refused' if want is None else self.same(value, want)
        if p:
            return self.sim.violate('incomplete-import', '%s of %s, which has a flawed file, yields %s' % (op['o'], op['p'], p), task)
        self.sim.probe('flawed input read in full')

    def judge_loaded(self, task, op, status, value, fired, want):
        if status == 'exc':
            if fired or task.int_fired is not None:
                return self.sim.probe('fault surfaced')
            return self.sim.violate('import-raised', '%s of %s raised %s: %s' % (op['o'], op['p'], type(value).__name__, str(value)[:200]), task)
        p = self.same(value, want)
        if p:
            kind = 'incomplete-import' if fired else 'wrong-import'
            return self.sim.violate(kind, '%s of %s%s yields %s' % (
                op['o'], op['p'], ' despite a %s fault' % '/'.join('%s:%s' % (f['site'], f['kind']) for f in fired) if fired else '', p), task)
        self.sim.probe('import exact' + (' despite fault' if fired else ''))

    def do_folder(self, task, op, regs):
        seg = self.seg
        path = self.fs.path(op['p']) + ('/' if op.get('slash') else '')
        into = None
        kw = {}
        if 'into' in op:
            into = model_of(self.scn['data'][op['into']])[0]
            kw['dataset'] = seg.Dataset(into)
        try:
            want = self.expected_tree(op['p'], op['t'], into)
        except Unclear:
            want = 'unclear'
        except Duplicate:
            want = 'duplicate'
        except Dangling:
            want = 'dangling'
        except Flawed as f:
            want = f
        there = os.path.isdir(path)
        status, value, fired, died = self.operate(task, op, lambda: seg.load_nested_folders_dict(path, op['t'], **kw))
        self.forget_vanished(op, fired)
        if want == 'unclear':
            return self.sim.probe('malformed tree')
        if isinstance(want, Flawed):
            return self.judge_flawed(task, op, status, value, want.args[0])
        if want == 'dangling':
            if status == 'ok':
                self.sim.violate('incomplete-import', 'loading %s returned although a data file in it (a dangling link) cannot be read' % op['p'], task)
            return self.sim.probe('dangling link')
        if want == 'duplicate':
            if status == 'ok':
                return self.sim.violate('duplicate-accepted', 'two files provide the same coder for one item, but loading %s returned' % op['p'], task)
            if not fired and task.int_fired is None:
                from segeval.data import DataIOError
                if not isinstance(value, Exception):
                    return self.sim.violate('duplicate-accepted', 'loading raised %r' % value, task)
            self.sim.probe('duplicate rejected')
        elif not there and op['p'] not in self.scn['dirs']:
            if status == 'ok':
                self.sim.violate('incomplete-import', 'loading the missing folder %s returned' % op['p'], task)
        else:
            self.judge_loaded(task, op, status, value, fired, want)

    def forget_vanished(self, op, fired):
        """What a fault took away is no longer expected from later loads."""
        for f in fired:
            if f.get('vanish'):
                self.disk.pop(f.get('path') or op['p'], None)
            for rel in [r for r in self.disk if 'victim' in f and (r + '/').startswith(f['victim'] + '/')]:
                self.disk.pop(rel)

    def do_change(self, task, op, regs):
        if op['r'] not in regs:
            return
        ds, items, props = regs[op['r']]
        s = op['seed']
        what = op['what']
        names = sorted(items)
        if what == 'coding' and names:
            i = names[s % len(names)]
            ds[i]['changed%d' % (s % 3)] = (s + 1, 2)
            items[i]['changed%d' % (s % 3)] = (s + 1, 2)
        elif what == 'item':
            ds['new%d' % (s % 3)] = {'c': (1, s + 1)}
            items['new%d' % (s % 3)] = {'c': (1, s + 1)}
        elif what == 'del' and names:
            i = names[s % len(names)]
            del ds[i]
            del items[i]
        elif what == 'prop':
            ds.properties['changed'] = [s]
            props['changed'] = [s]
        elif what == 'clear':
            ds.clear()
            items.clear()
        elif what == 'props':
            ds.properties.clear()
            props.clear()

    def run(self):
        try:
            self.sim.run([self.body(t['ops']) for t in self.scn['tasks']])
            if self.scn.get('fds') and not self.sim.violations:
                left = self.fs.open_files()
                if left:
                    self.sim.violate('file-left-open', 'at the end still open: %s' % left)
        finally:
            self.datasets = []
        return self.sim


def canonical(x):
    """Tells 1, 1.0 and True apart, but not the order of keys."""
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted('%r:%s' % (k, canonical(v)) for k, v in x.items()))
    if isinstance(x, list):
        return '[%s]' % ','.join(map(canonical, x))
    return repr(x)


def short(x):
    s = str(x)
    return s if len(s) < 120 else s[:100] + '...'


def execute(scn, ctx):
    return IoRun(scn, ctx).run()
