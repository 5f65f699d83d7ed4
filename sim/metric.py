"""Histories of metric, agreement, comparison and confusion-matrix calls on shared objects (C10-C15).

A scenario holds pools of segmentations, datasets and matrices, and per task a list of calls on them.  No call writes
to a shared object, so the value of each call is fixed by its own arguments whatever the schedule: that value is
computed by models.py in exact arithmetic.
"""
import copy
import decimal
import math
import os
import pickle
import random
import sys
import warnings
import builtins
import csv
import gc
import io
import json
import locale
import logging
import signal
import threading
from collections import Counter
from decimal import Decimal
from fractions import Fraction as Q
from . import gen, models
from .core import Sim, SimAbort, make_exc
from .models import Undefined, Rejected, close, dec

BED = ('B', 'S', 'stats', 'bcm', 'bed')
WIN = ('pk', 'wd', 'win')
AGR = ('actual', 'pi', 'kappa', 'bias')
NAMES = {'B': 'boundary_similarity', 'S': 'segmentation_similarity', 'stats': 'boundary_statistics',
         'bcm': 'boundary_confusion_matrix', 'bed': 'boundary_edit_distance', 'pk': 'pk', 'wd': 'window_diff',
         'win': 'compute_window_size', 'actual': 'actual_agreement_linear', 'pi': 'fleiss_pi_linear',
         'kappa': 'fleiss_kappa_linear', 'bias': 'artstein_poesio_bias_linear'}


# ------------------------------------------------------------------------------------------------------- generation

def gen_weight(rng, cb):
    w = [weighted_name(rng, ['a', 'a', 'a', 'half', 'flat', 'double', 'plus']), weighted_name(rng, ['s_scale', 's_scale', 's_scale', 's', 's', 'half', 'flat', 'args', 'double', 'plus']),
         weighted_name(rng, ['t_scale', 't_scale', 't_scale', 't', 't', 'half', 'flat', 'args', 'double', 'plus'])]
    if cb:
        i = rng.randrange(3)
        w[i] = '%s:%s' % (cb, w[i])
    return w


def weighted_name(rng, names):
    return rng.choice(names)


def gen_cb(rng, p_fail, p_re):
    r = rng.random()
    if r < p_fail:
        return 'fail%d%s' % (gen.weighted(rng, [(1, 6), (2, 2), (3, 1), (5, 1)]), gen_exc(rng))
    if r < p_fail + p_re:
        return 're'
    return None


FAILURES = ['TypeError', 'ValueError', 'ZeroDivisionError', 'KeyError', 'IndexError', 'AttributeError', 'OSError', 'AssertionError',
            'RuntimeError', 'InvalidOperation', 'OverflowError', 'NotImplementedError', 'MemoryError', 'KeyboardInterrupt', 'UnicodeError',
            'SystemExit', 'StopIteration', 'StopIteration', 'GeneratorExit', 'RecursionError', 'LookupError', 'ImportError', 'EOFError', 'Inexact',
            'Warning', 'MetricError', 'DataError']


def gen_exc(rng):
    """The kind of failure of a callback: mostly one that code inside a try block is tempted to expect."""
    return '' if rng.random() < 0.25 else '/' + rng.choice(FAILURES)


def gen_kw_bed(rng, f, prof, two=True):
    kw = {}
    if rng.random() < 0.4:
        kw['n_t'] = gen.weighted(rng, [(2, 2), (3, 4), (4, 2), (1, 1), (6, 1), (10, 0.5)])
    if f == 'bed':
        return kw
    cb = gen_cb(rng, prof['fail'], prof['re'])
    if cb or rng.random() < 0.4:
        kw['weight'] = gen_weight(rng, cb)
    if f in ('B', 'S'):
        r = rng.random()
        if r < 0.25:
            kw['one_minus'] = True
        elif r < 0.5:
            kw['return_parts'] = True
        elif r < 0.55:
            kw['one_minus'] = False
    if rng.random() < 0.06:
        kw['boundary_types'] = sorted(rng.sample([1, 2, 3, 4], rng.randint(1, 3)))
    return kw


def gen_kw_win(rng, f, prof, n):
    kw = {}
    if f != 'win':
        if rng.random() < 0.4:
            size = gen.weighted(rng, [(1, 1), (2, 2), (3, 2), (rng.randint(1, max(1, n)), 3)])
            # (WindowDiff takes time proportional to both)
            while f == 'wd' and size * (n + 2 * size) > 30000:
                size //= 2
            kw['window_size'] = size
        r = rng.random()
        if r < 0.25:
            kw['one_minus'] = True
        elif r < 0.5:
            kw['return_parts'] = True
    if f == 'wd' and rng.random() < 0.35:
        kw['lamprier_et_al_2007_fix'] = rng.choice([True, True, True, 1, 0, False])
    cb = gen_cb(rng, prof['fail'], prof['re'])
    if cb or rng.random() < 0.4:
        name = rng.choice(['round', 'floor', 'ceil', 'int', 'three', 'integral', 'real', 'same'])
        kw['fnc_round'] = '%s:%s' % (cb, name) if cb else name
    return kw


def gen_pair_op(rng, scn, kinds, prof):
    f = rng.choice(kinds)
    g = rng.randrange(len(scn['groups']))
    grp = scn['groups'][g]
    if f in WIN and grp['fmt'] == 'sets' and rng.random() < 0.9:
        cands = [i for i, x in enumerate(scn['groups']) if x['fmt'] != 'sets']
        if cands:
            g = rng.choice(cands)
            grp = scn['groups'][g]
    if f == 'bed':
        cands = [i for i, x in enumerate(scn['groups']) if x['fmt'] == 'sets']
        if not cands:
            f = 'B'
        else:
            g = rng.choice(cands)
            grp = scn['groups'][g]
    k = len(grp['vals'])
    op = {'f': f, 'a': [g, rng.randrange(k)], 'b': [g, rng.randrange(k)]}
    if scn['groups'][-1].get('long') and f != 'bed' and rng.random() < 0.7:
        g = len(scn['groups']) - 1
        grp = scn['groups'][g]
        op['a'], op['b'] = rng.choice([([g, 0], [g, 1]), ([g, 1], [g, 0])])
        if f == 'wd':
            op['kw'] = {'window_size': rng.randint(1, 3), 'return_parts': rng.random() < 0.5}
            return op
    if rng.random() < 0.06:       # likely of another length
        cands = [i for i, x in enumerate(scn['groups']) if x['fmt'] == grp['fmt']]
        h = rng.choice(cands)
        op['b'] = [h, rng.randrange(len(scn['groups'][h]['vals']))]
    if f == 'bed':
        op['kw'] = gen_kw_bed(rng, f, prof)
        return op
    if f in BED:
        op['kw'] = gen_kw_bed(rng, f, prof)
    else:
        v = grp['vals'][0]
        op['kw'] = gen_kw_win(rng, f, prof, sum(v) if grp['fmt'] == 'mass' else len(v))
    if f == 'win':
        del op['b']
        if rng.random() < 0.2:
            return {'f': 'win', 'bulk': gen_bulk(rng), 'kw': op['kw']}
        if scn['datasets'] and rng.random() < 0.3:
            cands = [i for i, x in enumerate(scn['datasets']) if x['fmt'] in ('mass', 'position')]
            if cands:
                op = {'f': 'win', 'd': rng.choice(cands), 'plain': rng.random() < 0.3, 'kw': op['kw']}
        if rng.random() < 0.04:
            op['fmt'] = rng.choice(['bogus', 'masses', None])
        return op
    if grp['fmt'] == 'mass' and f != 'bed' and rng.random() < 0.1:
        op['bare'] = True
    if rng.random() < 0.04:
        op['fmt'] = rng.choice(['bogus', 'masses', None])
    if rng.random() < 0.12:
        op['style'] = 'kw'
    return op


def long_group(rng):
    """Texts of a length at which tables, blocks and counters may overflow."""
    n = rng.choice([1025, 1100, 1500, 2100])
    fmt = rng.choice(['mass', 'position', 'nltk'])
    base = rng.choice([[n], [1] * n, [2] * (n // 2) + [n % 2] * (n % 2), gen.composition(rng, n)])
    vals = [base, rng.choice([[n], [1] * n, gen.near(rng, base)])]
    return {'fmt': fmt, 'vals': [gen.encode(rng, fmt, v) for v in vals], 'kind': 'tuple', 'long': True}


def gen_bulk(rng):
    """Many masses: averages that lie close to the point where rounding turns."""
    base = rng.randint(2, 9)
    rest = rng.choice([[], [1], [base + 1], [base - 1], [base * 7], [1, 1, base]])
    out = [base] * rng.choice([3, 30, 200, 900]) + rest
    if rng.random() < 0.4:
        out = [rng.randint(1, 9) for _ in range(rng.choice([20, 150]))]
    return out


def gen_agree_op(rng, scn, prof):
    f = rng.choice(AGR)
    kw = {}
    r = rng.random()
    if r < prof['fail'] * 0.5:
        kw['fnc_compare'] = 'fail%d%s:B' % (rng.choice([1, 1, 2, 3, 5, 8]), gen_exc(rng))
    elif r < 0.35:
        kw['fnc_compare'] = rng.choice(['S', 'B', 'S', 'cmpB', 'cmpS', 'const'])
    kw.update((k, v) for k, v in gen_kw_bed(rng, 'stats', prof).items() if k != 'boundary_types')
    if rng.random() < 0.2:
        kw['return_parts'] = True
    op = {'f': f, 'd': rng.randrange(len(scn['datasets'])), 'kw': kw}
    if rng.random() < 0.15:
        op['plain'] = True
    return op


def gen_pairs_op(rng, scn, prof, metrics=('B', 'S', 'bcm', 'pk', 'wd', 'stats')):
    m = rng.choice(metrics)
    d = rng.randrange(len(scn['datasets']))
    if m in WIN and scn['datasets'][d]['fmt'] == 'sets':
        m = 'B'
    op = {'f': 'pairs', 'm': m, 'd': d}
    if m in BED:
        op['kw'] = gen_kw_bed(rng, m, prof)
    else:
        op['kw'] = gen_kw_win(rng, m, prof, 3)
        op['kw'].pop('window_size', None)
    if rng.random() < 0.3:
        op['kw']['permuted'] = rng.random() < 0.6
    if rng.random() < 0.45:
        op['e'] = rng.randrange(len(scn['datasets']))
    if rng.random() < 0.12:
        op['style'] = 'kw'
    if m in ('B', 'S', 'pk', 'wd') and rng.random() < 0.3 and not op['kw'].get('return_parts'):
        op['sum'] = True
    return op


def gen_ir_op(rng, scn):
    kind = rng.choice(['precision', 'recall', 'fmeasure', 'classes'])
    op = {'f': 'ir', 'k': kind, 'm': rng.randrange(len(scn['matrices']))}
    if kind != 'classes':
        if rng.random() < 0.2:
            op['m'] = [rng.randrange(len(scn['matrices'])) for _ in range(2)]
        if rng.random() < 0.4:
            op['c'] = rng.choice(['a', 'b', 'c', 'z'])
        elif rng.random() < 0.6:
            op['v'] = rng.choice(['micro', 'macro'])
        if kind == 'fmeasure' and rng.random() < 0.5:
            op['beta'] = rng.choice([1, 2, '0.5', '0.25', 3, '0.1234567890123456789', '1.3333333333333333333333'])
    return op


def gen_sumlist(rng):
    pool = rng.choice([['0', '1', '0.5', '0.3333333333', '2', '-1', '7.25'], ['0', '1'], ['0.3333333333333333333333333333', '0'],
                       ['1E-9', '1', '1E+9'], ['1'], ['5', 5, 0, 3], ['0.1', '0.100001', '0.1000021'], ['1000000001', '1000000002', '1000000004'],
                       ['0.7777777', '0.7777778'], ['7777777', '7777778', 7777776]])
    return {'f': 'sumlist', 'vals': [rng.choice(pool) for _ in range(gen.weighted(rng, [(rng.randint(1, 6), 4), (rng.randint(7, 60), 1),
                                                                                       (rng.choice([200, 500]), 1)]))]}


ODD_CALLS = ('B', 'S', 'stats', 'bcm', 'bed', 'pk', 'wd', 'win', 'win', 'to masses', 'to positions', 'to string', 'actual', 'kappa', 'pairs', 'pairs')


def gen_odd_op(rng):
    """A call with arguments of the kind that is best refused: whatever comes of it, the arguments are the caller's."""
    def value():
        return rng.choice([[1, 2, 0], [0, 3], [2, 0, 1], [0], [], [3, 0, 0], [1, 2], [3], [[], [], [1]], [[], [1, 1], []], [[1, 2], []], [1, 1, 2],
                           [2, 1], [1, -1, 3], [1.0, 2.0], ['1', 2], [None], [[1], None], [[]], [[1, 2, 3, 4], [5]]])
    a = value()
    return {'f': 'odd', 'call': rng.choice(ODD_CALLS), 'a': a, 'b': rng.choice([value(), value(), copy.deepcopy(a)]), 'sets': rng.random() < 0.5,
            'fmt': rng.choice(['mass', 'mass', 'position', 'sets'])}


def gen_misc_op(rng, scn):
    f = rng.choice(['conv', 'export', 'import', 'copy', 'plus', 'sumlist', 'io', 'io', 'io', 'get', 'iadd', 'odd', 'odd', 'odd'])
    if f == 'odd':
        return gen_odd_op(rng)
    if f == 'conv':
        g = rng.randrange(len(scn['groups']))
        return {'f': 'conv', 'a': [g, rng.randrange(len(scn['groups'][g]['vals']))]}
    if f == 'sumlist':
        return gen_sumlist(rng)
    if f == 'io':
        return {'f': 'io', 'k': rng.choice(sorted(IO))}
    op = {'f': f, 'd': rng.randrange(len(scn['datasets']))}
    if f in ('plus', 'iadd'):
        op['e'] = rng.randrange(len(scn['datasets']))
    return op


# files of C14 runs, and the calls that read them: good, damaged and missing ones
FILES = {
    'm.tsv': 'coder\tseg\nc1\t2\nc1\t3\nc2\t5\n',
    'p.tsv': '1\t1\t2\t2\t3\n1\t2\t2\t2\t2\n',
    'bad.tsv': '1\t2\n\tx\n3\n',
    'empty.tsv': '',
    'bad.json': '{"items": {"i": {"c": [1, 2',
    'other.json': '{"segmentation_type": "hierarchical", "items": {}}',
    'tree/x/a.json': '{"segmentation_type": "linear", "items": {"i": {"c": [1, 2]}}}',
    'tree/x/b.json': '{"segmentation_type": "linear", "items": {"i": {"d": [3]}}}',
    'tree/y/b.tsv': '1\t2\n3\t4\n',
    'twice/a.json': '{"segmentation_type": "linear", "items": {"i": {"c": [1, 2]}}}',
    'twice/b.json': '{"segmentation_type": "linear", "items": {"i": {"c": [3]}}}',
}
IO = {
    'mass tsv': ('tsv', 'm.tsv'), 'position tsv': ('pos', 'p.tsv'), 'bad tsv': ('tsv', 'bad.tsv'), 'bad positions': ('pos', 'bad.tsv'),
    'empty tsv': ('tsv', 'empty.tsv'), 'missing tsv': ('tsv', 'none.tsv'), 'bad json': ('json', 'bad.json'),
    'other json': ('json', 'other.json'), 'missing json': ('json', 'none.json'), 'folder': ('folder', 'tree'),
    'tsv folder': ('tsvfolder', 'tree'), 'missing folder': ('folder', 'none'), 'folder with duplicates': ('folder', 'twice'),
    'export nowhere': ('export', 'none/x.json'), 'bad folder type': ('badtype', 'tree'),
}

INTS = ('KeyboardInterrupt', 'MemoryError', 'KeyboardInterrupt', 'MemoryError', 'Alarm', 'SystemExit')

PROFILES = {
    'C10': {'fail': 0.06, 're': 0.10, 'int': 0.10, 'tasks': [(1, 5), (2, 4), (3, 2)]},
    'C11': {'fail': 0.06, 're': 0.06, 'int': 0.10, 'tasks': [(1, 5), (2, 4), (3, 2)]},
    'C12': {'fail': 0.06, 're': 0.04, 'int': 0.10, 'tasks': [(1, 11), (2, 4), (3, 1)]},
    'C13': {'fail': 0.06, 're': 0.04, 'int': 0.10, 'tasks': [(1, 11), (2, 4), (3, 1)]},
    'C14': {'fail': 0.12, 're': 0.05, 'int': 0.30, 'tasks': [(1, 6), (2, 3)]},
    'C15': {'fail': 0.30, 're': 0.05, 'int': 0.45, 'tasks': [(1, 5), (2, 4), (3, 1)]},
}


def generate(prop, rng, tier='quick'):
    prof = PROFILES[prop]
    n_tasks = gen.weighted(rng, prof['tasks'])
    scn = {'family': 'metric', 'groups': [], 'datasets': [], 'matrices': [], 'fs': {'seed': rng.randrange(1 << 30)}}
    n_groups = rng.randint(1, 3) if prop in ('C12', 'C13') else rng.randint(1, 4)
    for _ in range(n_groups):
        fmt = None
        if prop == 'C11':
            fmt = gen.weighted(rng, [('mass', 5), ('position', 4), ('nltk', 3), ('sets', 0.4)])
        fmt, vals = gen.group(rng, rng.randint(2, 4), fmt)
        kind = rng.choice(['tuple', 'tuple', 'list', 'list-mset' if fmt == 'sets' else 'list'])
        if rng.random() < (0.4 if prop == 'C15' else 0.15):
            vals.append(gen.stretched(rng, fmt, rng.choice(vals)))
        scn['groups'].append({'fmt': fmt, 'vals': vals, 'kind': kind})
    if prop in ('C10', 'C11') and n_tasks == 1 and rng.random() < 0.03:
        scn['groups'].append(long_group(rng))
    for _ in range({'C10': 1, 'C11': 1}.get(prop, rng.randint(1, 3))):
        fmt = None
        if prop == 'C11':
            fmt = rng.choice(['mass', 'mass', 'position', 'nltk'])
        shared = None
        if scn['datasets'] and rng.random() < 0.5:
            shared = scn['datasets'][-1]
        kw = {'max_items': 3, 'max_coders': 4, 'odd': 0.05}
        if prop == 'C12':
            kw['min_coders'] = 1 if rng.random() < 0.05 else 2
            kw['ragged'] = 0.06
            kw['bounded'] = 0.93
            kw['numbers'] = 'confusable'
            if n_tasks == 1 and rng.random() < 0.12:
                kw.update(max_items=2, max_coders=9, min_coders=6, short=True)
            elif n_tasks == 1 and rng.random() < 0.05:
                kw.update(rng.choice([{'max_items': 1, 'max_coders': 14, 'min_coders': 10}, {'max_items': 14, 'min_items': 5, 'max_coders': 3}]), short=True)
        if prop == 'C14' and n_tasks == 1 and rng.random() < 0.04:
            kw.update(max_items=1, max_coders=25, min_coders=21, short=True)
        if prop in ('C13', 'C15'):
            kw['numbers'] = 'distinct'
            if prop == 'C13' and n_tasks == 1 and rng.random() < 0.1:
                kw.update(max_items=2, max_coders=8, min_coders=6, short=True)
            elif prop == 'C13' and n_tasks == 1 and rng.random() < 0.06:
                kw.update(rng.choice([{'max_items': 1, 'max_coders': 13, 'min_coders': 10}, {'max_items': 16, 'min_items': 5, 'max_coders': 3}]), short=True)
        if shared is not None:
            # same texts, other (or the same) coders: comparable with the previous dataset
            coders = gen.labels(rng, rng.randint(2 if prop == 'C12' else 1, 3), 0.05, avoid=',')
            items = []
            for item, codings in shared['items']:
                if rng.random() < 0.15:
                    continue
                vals = [near_value(rng, shared['fmt'], codings[0][1]) for _ in coders]
                items.append([item, [[c, v] for c, v in zip(coders, vals)]])
            if not items or (prop != 'C12' and rng.random() < 0.3):
                extra = gen.dataset(rng, shared['fmt'], 1, 2)
                items += [x for x in extra['items'] if x[0] not in [i[0] for i in items]]
            ds = {'fmt': shared['fmt'], 'items': items}
        else:
            ds = gen.dataset(rng, fmt, **kw)
        if prop in ('C12', 'C13') and scn['datasets'] and rng.random() < 0.06:
            # coders that are equal to those of another dataset, but not the same
            ds = copy.deepcopy(scn['datasets'][-1])
            swap = {}
            for c in [x for _, cs in ds['items'] for x, _ in cs]:
                if not isinstance(c, str) and c in (0, 1):
                    swap[c] = rng.choice([x for x in (int(c), bool(c), float(c)) if str(x) != str(c)])
            if swap:
                ds['items'] = [[i, [[swap.get(c, c), v] for c, v in cs]] for i, cs in ds['items']]
            else:
                first = ds['items'][0][1][0][0]
                for d, new in ((scn['datasets'][-1], 1), (ds, True)):
                    if all(c != 1 and str(c) not in ('1', 'True') for _, cs in d['items'] for c, _ in cs):
                        d['items'] = [[i, [[new if c == first else c, v] for c, v in cs]] for i, cs in d['items']]
        ds['kind'] = rng.choice(['tuple', 'tuple', 'list'])
        ds['share'] = rng.random() < 0.3
        if rng.random() < 0.3:
            ds['via'] = rng.choice(['pickle', 'pickle', 'string', 'copy', 'plus'])
        scn['datasets'].append(ds)
    for _ in range(rng.randint(1, 2)):
        scn['matrices'].append([[rng.choice('abc'), rng.choice('abc'), rng.choice([1, 2, 3, 5, '0.5', 0])]
                                for _ in range(rng.randint(0, 7))])
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.randint(2, 7 if n_tasks == 1 else 5)):
            op = gen_op(prop, rng, scn, prof)
            if op['f'] != 'misc' and rng.random() < prof['int']:
                op['int'] = gen.interrupt(rng, 4000 if op['f'] in AGR + ('pairs',) else 500, INTS)
            ops.append(op)
            # the same call again, possibly with another option or swapped
            if rng.random() < (0.55 if prop == 'C15' else 0.35):
                again = dict(op, kw=dict(op.get('kw', {})))
                again.pop('int', None)
                r = rng.random()
                if r < 0.4 and 'b' in again:
                    again['a'], again['b'] = again['b'], again['a']
                elif r < 0.8 and f_options(again):
                    fresh = gen_same(prop, rng, scn, prof, again)
                    again['kw'] = fresh
                ops.append(again)
            if prop in ('C10', 'C11') and 'b' in op and op['f'] != 'bed' and scn['groups'][op['a'][0]]['fmt'] == 'mass' and 'fmt' not in op and rng.random() < 0.1:
                # with numbers that are equal, but have to be refused
                again = dict(op, kw=dict((k, v) for k, v in op['kw'].items() if k in ('n_t', 'window_size')), floats=True)
                again.pop('int', None)
                again.pop('bare', None)
                ops.append(again)
            if prop == 'C15' and 'b' in op and len(set(units(scn['groups'][op['a'][0]]['fmt'], v) for v in scn['groups'][op['a'][0]]['vals'])) > 1 and rng.random() < 0.4:
                # one that has to be refused
                again = dict(op, b=[op['a'][0], len(scn['groups'][op['a'][0]]['vals']) - 1])
                again.pop('int', None)
                ops.append(again)
        if n_tasks == 1 and prop != 'C14' and rng.random() < 0.4:
            add_edits(rng, scn, ops)
        task = {'ops': ops}
        if rng.random() < 0.25:
            task['prec'] = rng.choice([12, 50, 12, 34])
        tasks.append(task)
    scn['tasks'] = tasks
    if rng.random() < 0.15:
        decimal_types(rng, scn)
    scn['sched'], scn['gran'] = gen.schedule(rng, n_tasks)
    if prop in ('C12', 'C13') and (rng.random() < 0.6 or n_tasks > 2):
        scn['gran'] = 'line'
    # (the step limit has to be out of reach for every reasonable way to write the code)
    if any(units(g['fmt'], v) > 100 for g in scn['groups'] for v in g['vals']):
        scn['gran'] = 'line'
    if n_tasks == 1 and rng.random() < 0.8:
        scn['fast'] = True
    if prop == 'C14':
        scn['watch'] = True
        scn['filters'] = rng.randrange(len(FILTERS))
    return scn


def decimal_types(rng, scn):
    """Boundary types that are Decimals: some or all of them, whole or fractional."""
    step = rng.choice([1, 1, 0.5, 0.25])

    def mapped(v):
        return v if step == 1 else [[1 + (t - 1) * step for t in x] for x in v]
    sets = set(i for i, g in enumerate(scn['groups']) if g['fmt'] == 'sets')
    for i in sets:
        g = scn['groups'][i]
        g['kind'] += '-dec'
        g['vals'] = [mapped(v) for v in g['vals']]
    for d in scn['datasets']:
        if d['fmt'] == 'sets':
            d['kind'] += '-dec'
            d['items'] = [[item, [[c, mapped(v)] for c, v in codings]] for item, codings in d['items']]
    for t in scn['tasks']:
        for op in t['ops']:
            if op['f'] == 'edit' and 'g' in op and op['g'][0] in sets:
                op['v'] = mapped(op['v'])


def add_edits(rng, scn, ops):
    """The caller changes what it compared, and compares it again."""
    for _ in range(rng.randint(1, 2)):
        i = rng.randrange(len(ops))
        op = ops[i]
        if 'a' in op:
            ref = op[rng.choice(['a', 'b'])] if 'b' in op else op['a']
            grp = scn['groups'][ref[0]]
            v = grp['vals'][ref[1]]
            if sum(v) < 1 if grp['fmt'] == 'mass' else not v:
                continue
            edit = {'f': 'edit', 'g': ref, 'v': near_value(rng, grp['fmt'], v)}
        elif 'd' in op:
            edit = {'f': 'edit', 'd': op['e'] if 'e' in op and rng.random() < 0.5 else op['d'], 'i': rng.randrange(12), 's': rng.randrange(1000),
                    'how': rng.choice(['set', 'set', 'set', 'swap', 'del', 'new']), 'c': 'New%d' % rng.randrange(3)}
        else:
            continue
        again = dict(op)
        again.pop('int', None)
        at = rng.randint(i + 1, len(ops))
        ops[at:at] = [edit, again] if rng.random() < 0.8 else [edit]


def units(fmt, v):
    return sum(v) if fmt == 'mass' else len(v)


def near_value(rng, fmt, v):
    if fmt == 'sets':
        types = sorted(set(t for x in v for t in x)) or [1, 2]
        return gen.sets_near(rng, v, types)
    if fmt == 'mass':
        m = v
    elif fmt == 'position':
        m = models.labels_to_masses(v)
    else:
        m = models.nltk_to_masses(v)
    return gen.encode(rng, fmt, gen.near(rng, m))


def f_options(op):
    return op['f'] in ('B', 'S', 'stats', 'bcm', 'pk', 'wd', 'win') + AGR


def gen_same(prop, rng, scn, prof, op):
    if op['f'] in BED:
        return gen_kw_bed(rng, op['f'], prof)
    if op['f'] in WIN:
        n = 8
        return gen_kw_win(rng, op['f'], prof, n)
    kw = gen_agree_op(rng, scn, prof)['kw']
    return kw


def gen_op(prop, rng, scn, prof):
    if prop == 'C10':
        if rng.random() < 0.08:
            return gen_pairs_op(rng, scn, prof, ('B', 'S', 'bcm'))
        return gen_pair_op(rng, scn, BED, prof)
    if prop == 'C11':
        if rng.random() < 0.08:
            return gen_pairs_op(rng, scn, prof, ('pk', 'wd'))
        return gen_pair_op(rng, scn, WIN + ('pk', 'wd'), prof)
    if prop == 'C12':
        if rng.random() < 0.1:
            return gen_pair_op(rng, scn, ('B', 'S'), prof)
        return gen_agree_op(rng, scn, prof)
    if prop == 'C13':
        if rng.random() < 0.08:
            return gen_sumlist(rng)
        return gen_pairs_op(rng, scn, prof)
    r = rng.random()
    if prop == 'C14' and r < 0.3:
        return gen_misc_op(rng, scn)
    if r < 0.5:
        return gen_pair_op(rng, scn, BED + WIN, prof)
    if r < 0.67:
        return gen_agree_op(rng, scn, prof)
    if r < 0.84:
        return gen_pairs_op(rng, scn, prof)
    return gen_ir_op(rng, scn)


# -------------------------------------------------------------------------------------------------------- execution

def freeze(o):
    """Structural fingerprint of an argument."""
    t = type(o)
    if t in (int, str, float, bool, type(None), Decimal, Q):
        return (t.__name__, repr(o))
    if isinstance(o, dict):
        extra = ()
        if getattr(o, '__dict__', None):
            extra = tuple(sorted((k, freeze(v)) for k, v in o.__dict__.items()))
        return (t.__name__, tuple((freeze(k), freeze(v)) for k, v in o.items()), extra)
    if isinstance(o, (set, frozenset)):
        return (t.__name__, tuple(sorted(freeze(x) for x in o)))
    if isinstance(o, (list, tuple)):
        return (t.__name__, tuple(freeze(x) for x in o))
    return (t.__name__, id(o))


def ambient():
    ctx = decimal.getcontext()
    return {
        'decimal context': (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, ctx.clamp,
                            tuple(sorted((k.__name__, bool(v)) for k, v in ctx.traps.items()))),
        'flags of the decimal context': frozenset(k.__name__ for k, v in ctx.flags.items() if v),
        'default decimal context': (decimal.DefaultContext.prec, decimal.DefaultContext.rounding),
        'random state': hash(random.getstate()),
        'working directory': os.getcwd(),
        'environment': tuple(sorted(os.environ.items())),
        'recursion limit': sys.getrecursionlimit(),
        'import path': tuple(sys.path),
        'warning filters': tuple(map(repr, warnings.filters)),
        'garbage collector': gc.isenabled(),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), sys.getprofile()),
        'identity of the decimal context': id(ctx),
        'locale': locale.setlocale(locale.LC_ALL),
        'file mode creation mask': umask(),
        'csv settings': (csv.field_size_limit(), tuple(sorted(csv.list_dialects()))),
        'logging settings': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        'signal handlers': tuple(id(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
        'builtins': tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_')),
        'thread settings': (sys.getswitchinterval(), threading.stack_size()),
        'import hooks': (len(sys.meta_path), len(sys.path_hooks), id(builtins.__import__)),
        'warning hook': id(warnings.showwarning),
        'default of json': (id(json.dumps), id(json.JSONEncoder.default), id(json.loads)),
    }


def umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


# how a program may have set up its warnings
FILTERS = [
    [('default', None, DeprecationWarning, None, 0), ('ignore', None, ImportWarning, None, 0)],
    [('ignore', None, Warning, None, 0)],
    [('once', None, UserWarning, None, 0)],
    [],
]


class Run(object):
    def __init__(self, scn, ctx):
        self.scn = scn
        self.ctx = ctx
        self.seg = ctx.image.fresh()
        self.util = sys.modules['segeval.util']
        self.sim = Sim(scn.get('sched'), scn.get('gran', 'line'))
        seg = self.seg
        self.groups = [[gen.real(g['fmt'], v, g['kind']) for v in g['vals']] for g in scn['groups']]
        self.fmts = {'mass': seg.BoundaryFormat.mass, 'position': seg.BoundaryFormat.position,
                     'sets': seg.BoundaryFormat.sets, 'nltk': seg.BoundaryFormat.nltk}
        self.datasets = []
        for d in scn['datasets']:
            fmt = self.fmts[d['fmt']]
            via = d.get('via')
            if via == 'string':         # an equal format need not be the same object
                fmt = fmt[:1] + fmt[1:]
            ds = seg.Dataset(gen.real_items(d), boundary_format=fmt, properties={'note': 'n', 'nested': {'k': [1, 2]}})
            if via == 'pickle':
                ds = pickle.loads(pickle.dumps(ds, 2))
            elif via == 'copy':
                ds = ds.copy()
            elif via == 'plus':
                ds = seg.Dataset(boundary_format=fmt) + ds
            self.datasets.append(ds)
        self.gmodel, self.dmodel = scn['groups'], scn['datasets']
        if any(op['f'] == 'edit' for t in scn['tasks'] for op in t['ops']):
            self.gmodel, self.dmodel = copy.deepcopy(self.gmodel), copy.deepcopy(self.dmodel)
        self.matrices = []
        self.counts = []
        for m in scn['matrices']:
            real = seg.ConfusionMatrix()
            cells = {}
            labels = set()
            for p, a, v in m:
                real[p][a] = Decimal(v) if isinstance(v, str) else v
                cells[(p, a)] = Q(v)
            self.matrices.append(real)
            self.counts.append(models.Counts(cells))
        self.cache = {}
        self.cbstate = {}
        self.watch = scn.get('watch')
        self.sim.untraced = scn.get('fast', False)
        if self.watch:
            import segeval.data.samples as samples
            self.shared = {'segmentations': self.groups, 'datasets': self.datasets, 'matrices': self.matrices}
            self.samples = dict((k, v) for k, v in vars(samples).items() if k.isupper() and hasattr(v, 'items'))
            self.before = dict((k, freeze(v)) for k, v in self.shared.items())
            self.before_samples = dict((k, freeze(v)) for k, v in self.samples.items())
            ctx.fs.reset(scn['fs'])
            for name, text in FILES.items():
                path = os.path.join(ctx.fs.root, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with io.open(path, 'w') as f:
                    f.write(text)

    # -- arguments
    def callback(self, name, base, task, op_idx):
        """Wrap a base function with a failure or a re-entrant call."""
        mode, _, inner = name.partition(':')
        fn = base(inner)
        state = self.cbstate.setdefault((task.idx, op_idx), {'calls': 0, 'failed': False})
        if mode.startswith('fail'):
            at, _, kind = mode[4:].partition('/')
            at = int(at)

            def failing(*args, **kw):
                state['calls'] += 1
                if state['calls'] == at:
                    state['failed'] = make_exc(kind or 'CallbackFault')
                    self.sim.count('callback_failure')
                    raise state['failed']
                return fn(*args, **kw)
            return failing

        def reentrant(*args, **kw):
            seg = self.seg
            if state['calls'] < 2:
                state['calls'] += 1
                self.sim.count('callback_reentry')
                got = seg.boundary_similarity((2, 3, 4), (3, 2, 3, 1))
                want = models.b_value(models.bed_of('mass', [2, 3, 4], [3, 2, 3, 1], 2), models.DEFAULT_W)
                if not close(got, want, decimal.getcontext().prec):
                    self.sim.violate('reentrant-value', 'B called from a callback gave %s, defined value %s' % (got, dec(want, 12)), task)
                got = seg.pk((2, 3, 4), (3, 2, 4), window_size=2)
                if not close(got, models.pk_value(models.pk_parts('mass', [2, 3, 4], [3, 2, 4], 2)), decimal.getcontext().prec):
                    self.sim.violate('reentrant-value', 'pk called from a callback gave %s' % got, task)
            return fn(*args, **kw)
        return reentrant

    def weight_fn(self, i, name, task, op_idx):
        seg = self.seg

        def base(nm):
            if nm == 'flat':
                return {0: lambda x: Decimal(min(len(x), 1)), 1: lambda x, hi, lo=1: Decimal(min(len(x), 1)),
                        2: lambda x, n: Decimal(min(len(x), 1))}[i]
            if nm == 'args':
                return {1: lambda x, hi, lo=1: Decimal(len(x) * (1 + hi)) / (3 + abs(hi) + 2 * abs(lo)),
                        2: lambda x, n: Decimal(sum(1 + t.type + t.end - t.start for t in x)) / (4 * n)}[i]
            if nm == 'plus':       # not nothing without any edits, either
                return lambda x, *rest: Decimal(len(x)) + Decimal('0.5')
            if nm == 'double':
                return {0: lambda x: Decimal(2 * len(x)), 1: lambda x, hi, lo=1: Decimal(2 * len(x)), 2: lambda x, n: Decimal(2 * len(x))}[i]
            if nm == 'half':
                return {0: lambda x: Decimal(len(x)) / 2, 1: lambda x, hi, lo=1: Decimal(len(x)) / 2,
                        2: lambda x, n: Decimal(len(x)) / 2}[i]
            return {'a': seg.weight_a, 's': seg.weight_s, 's_scale': seg.weight_s_scale, 't': seg.weight_t,
                    't_scale': seg.weight_t_scale}[nm]
        return self.callback(name, base, task, op_idx) if ':' in name else base(name)

    def round_fn(self, name, task, op_idx):
        def base(nm):
            return {'round': round, 'floor': math.floor, 'ceil': math.ceil, 'int': int, 'three': lambda x: 3,
                    # whose results are no ints, or not even whole
                    'integral': lambda x: Decimal(x).to_integral_value(), 'real': lambda x: float(math.floor(x)), 'same': lambda x: x}[nm]
        return self.callback(name, base, task, op_idx) if ':' in name else base(name)

    def compare_fn(self, name, task, op_idx):
        seg = self.seg

        def base(nm):
            return {'B': seg.boundary_similarity, 'S': seg.segmentation_similarity,
                    'cmpB': lambda x, y, **kw: seg.boundary_similarity(x, y, **kw),
                    'cmpS': lambda x, y, **kw: seg.segmentation_similarity(x, y, **kw),
                    'const': lambda x, y, **kw: (1, 2, 'whatever')}[nm]
        return self.callback(name, base, task, op_idx) if ':' in name else base(name)

    def kwargs(self, op, task):
        kw = {}
        for k, v in op.get('kw', {}).items():
            if k == 'weight':
                v = tuple(self.weight_fn(i, n, task, task.op) for i, n in enumerate(v))
                if self.watch and task.op % 2:
                    v = list(v)
            elif k == 'fnc_round':
                v = self.round_fn(v, task, task.op)
            elif k == 'fnc_compare':
                v = self.compare_fn(v, task, task.op)
            elif k == 'boundary_types':
                v = set(v)
            kw[k] = v
        return kw

    def val(self, ref):
        return self.groups[ref[0]][ref[1]]

    def call(self, op, task):
        """The call as a thunk, made outside the traced section."""
        seg, f = self.seg, op['f']
        kw = self.kwargs(op, task)
        self.args = getattr(self, 'args', {})
        self.args[task.idx] = kw
        if f == 'ir':
            m = op['m']
            if f == 'ir' and op['k'] == 'classes':
                mat = self.matrices[m]
                return lambda: mat.classes()
            mat = self.matrices[m] if not isinstance(m, list) else dict(('m%d' % i, self.matrices[j]) for i, j in enumerate(m))
            fn = getattr(seg, op['k'])
            if 'c' in op:
                kw['classification'] = op['c']
            if 'v' in op:
                kw['version'] = getattr(seg.Average, op['v'])
            if 'beta' in op:
                kw['beta'] = op['beta'] if not isinstance(op['beta'], str) else Decimal(op['beta'])
            return lambda: fn(mat, **kw)
        if f in AGR:
            fn = getattr(seg, NAMES[f])
            d = self.datasets[op['d']]
            if op.get('plain'):
                kw['boundary_format'] = d.boundary_format
                d = dict((k, dict(v)) for k, v in d.items())
            return lambda: fn(d, **kw)
        if f == 'pairs':
            fn = getattr(seg, NAMES[op['m']])
            d = self.datasets[op['d']]
            if op.get('sum'):
                inner = self.pairs_call(op, fn, d, kw)

                def summed():
                    pairs = inner()
                    return pairs, seg.summarize(pairs)
                return summed
            return self.pairs_call(op, fn, d, kw)
        if f == 'win':
            fn = seg.compute_window_size
            if 'bulk' in op:
                masses = list(op['bulk'])
                return lambda: fn(masses, **kw)
            if 'd' in op:
                d = self.datasets[op['d']]
                if op.get('plain'):
                    d = dict((k, dict(v)) for k, v in d.items())
                fmt = self.dmodel[op['d']]['fmt']
                if 'fmt' in op or fmt != 'mass' or task.op % 2:
                    kw['boundary_format'] = op['fmt'] if 'fmt' in op else self.fmts[fmt]
                return lambda: fn(d, **kw)
            a = self.val(op['a'])
            kw['boundary_format'] = op['fmt'] if 'fmt' in op else self.fmts[self.gmodel[op['a'][0]]['fmt']]
            return lambda: fn(a, **kw)
        if f in BED + WIN:
            fn = getattr(seg, NAMES[f])
            a, b = self.val(op['a']), self.val(op['b'])
            if f == 'bed':
                return lambda: fn(a, b, **kw)
            fmt = op['fmt'] if 'fmt' in op else self.gmodel[op['a'][0]]['fmt']
            if op.get('bare') and self.gmodel[op['a'][0]]['fmt'] == self.gmodel[op['b'][0]]['fmt'] == 'mass':
                # one segment given as a number, as in pk((20), (10, 10))
                a, b = [v[0] if len(v) == 1 else v for v in (a, b)]
            if op.get('floats') and 'nltk' not in (fmt, self.gmodel[op['b'][0]]['fmt']):
                a, b = [tuple(float(m) for m in v) for v in (a, b)]
            if 'fmt' in op or fmt != 'mass' or task.op % 2:
                kw['boundary_format'] = self.fmts.get(fmt, fmt)
            if op.get('style') == 'kw':
                return lambda: fn(hypothesis=a, reference=b, **kw)
            return lambda: fn(a, b, **kw)
        if f == 'conv':
            a = self.val(op['a'])
            fmt = self.gmodel[op['a'][0]]['fmt']
            if fmt == 'mass':
                return lambda: (seg.convert_masses_to_positions(a), seg.boundary_string_from_masses(a))
            if fmt == 'position':
                return lambda: seg.convert_positions_to_masses(a)
            if fmt == 'nltk':
                return lambda: seg.convert_nltk_to_masses(a)
            return lambda: seg.boundary_edit_distance(a, a)
        if f == 'sumlist':
            pairs = dict((str(i), Decimal(v) if isinstance(v, str) else v) for i, v in enumerate(op['vals']))
            self.args[task.idx] = pairs
            return lambda: seg.summarize(pairs)
        if f == 'odd':
            return self.odd_call(op, task)
        fs = self.ctx.fs
        if f == 'io':
            how, name = IO[op['k']]
            path = fs.path(name)
            if how == 'export':
                return lambda: seg.output_linear_mass_json(path, self.datasets[0])
            if how == 'tsv':
                return lambda: seg.input_linear_mass_tsv(path)
            if how == 'pos':
                return lambda: sys.modules['segeval.data.tsv'].input_linear_positions_tsv(path)
            if how == 'json':
                return lambda: seg.input_linear_mass_json(path)
            return lambda: seg.load_nested_folders_dict(path, {'folder': 'json', 'tsvfolder': 'tsv', 'badtype': 'xml'}[how])
        d = self.datasets[op['d']]
        if f == 'export':
            return lambda: seg.output_linear_mass_json(fs.path('t%d.json' % task.idx), d)
        if f == 'import':
            return lambda: seg.input_linear_mass_json(fs.path('t%d.json' % task.idx))
        if f == 'copy':
            return lambda: (d.copy(), pickle.loads(pickle.dumps(d)))
        if f == 'plus':
            e = self.datasets[op['e']]
            return lambda: d + e
        if f == 'iadd':
            e = self.datasets[op['e']]
            mine = d.copy()

            def iadd(mine=mine):
                mine += e
            return iadd
        if f == 'get':
            return lambda: (d.coders, seg.ConfusionMatrix().classes())
        raise KeyError(f)

    def odd_call(self, op, task):
        seg, call = self.seg, op['call']

        def made(v):
            v = copy.deepcopy(v)
            return [set(x) if op['sets'] and isinstance(x, list) else x for x in v]
        a, b = made(op['a']), made(op['b'])
        data = {'i': {'x': a, 'y': b}, 'j': {'y': made(op['b']), 'x': made(op['a'])}, 'k': {}}
        if op['sets']:
            del data['k']
        kw = {'boundary_format': self.fmts[op['fmt']]}
        self.args[task.idx] = [a, b, data, kw]
        one = {'to masses': 'convert_positions_to_masses', 'to positions': 'convert_masses_to_positions', 'to string': 'boundary_string_from_masses'}
        if call in one:
            return lambda: getattr(seg, one[call])(a)
        if call == 'win':
            return lambda: seg.compute_window_size(a if op['sets'] else data, **kw)
        if call == 'bed':
            return lambda: seg.boundary_edit_distance(a, b)
        if call in AGR:
            return lambda: getattr(seg, NAMES[call])(data, **kw)
        if call == 'pairs':
            made_data = seg.Dataset(data, boundary_format=kw['boundary_format'])
            self.args[task.idx].append(made_data)
            return lambda: (seg.pk if op['fmt'] != 'sets' else seg.boundary_similarity)(made_data)
        return lambda: getattr(seg, NAMES[call])(a, b, **kw)

    def pairs_call(self, op, fn, d, kw):
        if 'e' in op:
            e = self.datasets[op['e']]
            if op.get('style') == 'kw':
                return lambda: fn(hypothesis=d, reference=e, **kw)
            return lambda: fn(d, e, **kw)
        if op.get('style') == 'kw':
            return lambda: fn(dataset=d, **kw)
        return lambda: fn(d, **kw)

    # -- the caller's own changes
    def edit(self, op):
        self.cache.clear()
        self.sim.probe('edited')
        if 'g' in op:
            g, i = op['g']
            grp = self.gmodel[g]
            new = gen.real(grp['fmt'], op['v'], grp['kind'])
            old = self.groups[g][i]
            if not isinstance(old, list):
                self.groups[g][i] = new
            elif grp['fmt'] == 'sets' and 'mset' in grp['kind'] and len(old) == len(new):
                for x, y in zip(old, new):
                    x.clear()
                    x.update(y)
            else:
                old[:] = new
            grp['vals'][i] = op['v']
            return
        real, model = self.datasets[op['d']], self.dmodel[op['d']]
        kind = model.get('kind', 'tuple')
        if not model['items']:
            return
        name, codings = model['items'][op['i'] % len(model['items'])]
        if op['how'] == 'del':
            if len(model['items']) > 1:
                del real[name]
                model['items'] = [x for x in model['items'] if x[0] != name]
            return
        if not codings:
            return
        if op['how'] == 'new':
            for it, cs in model['items']:
                if cs and op['c'] not in [c for c, _ in cs]:
                    v = cs[op['s'] % len(cs)][1]
                    real[it][op['c']] = gen.real(model['fmt'], v, kind)
                    cs.append([op['c'], v])
            return
        x = codings[op['s'] % len(codings)]
        if op['how'] == 'swap':
            y = codings[(op['s'] + 1) % len(codings)]
            inner = real[name]
            inner[x[0]], inner[y[0]] = inner[y[0]], inner[x[0]]
            x[1], y[1] = y[1], x[1]
            return
        v = near_value(random.Random(op['s']), model['fmt'], x[1])
        new = gen.real(model['fmt'], v, kind)
        old = real[name][x[0]]
        if isinstance(old, list):
            old[:] = new
        else:
            real[name][x[0]] = new
        x[1] = v

    # -- judgement
    def task_body(self, ops, prec):
        def body(task):
            decimal.getcontext().prec = prec
            if self.watch:
                # what the caller computed before
                for signal_ in (decimal.Inexact, decimal.Rounded, decimal.Subnormal):
                    decimal.getcontext().flags[signal_] = True
            for i, op in enumerate(ops):
                task.op = i
                if op['f'] == 'edit':
                    self.edit(op)
                    self.sim.note(task, 'edit %s' % sorted(op.items()))
                    continue
                call = self.call(op, task)
                frozen_kw = frozen_amb = None
                if self.watch:
                    kw = self.args.get(task.idx)
                    frozen_kw = freeze(kw)
                    frozen_amb = ambient()
                status, value = self.sim.op(task, call, op.get('int'))
                del call
                self.sim.note(task, '%s %s' % (status, self.digest(status, value)))
                if self.watch:
                    self.check_untouched(task, op, kw, frozen_kw, frozen_amb)
                else:
                    self.check(task, op, status, value, prec)
                if self.sim.abort:
                    raise SimAbort()
        return body

    @staticmethod
    def digest(status, value):
        if status == 'exc':
            return '%s' % type(value).__name__
        try:
            return str(freeze(value))[:2000].replace('0x', '') if not callable(value) else ''
        except Exception:
            return type(value).__name__

    def check_untouched(self, task, op, kw, frozen_kw, frozen_amb):
        if freeze(kw) != frozen_kw:
            return self.sim.violate('argument-changed', 'the keyword arguments changed during %s' % describe(op), task)
        now = ambient()
        alone = len(self.sim.tasks) == 1
        for k, v in frozen_amb.items():
            # what belongs to the process is judged at the end of the run if another thread may be inside a call now
            if k.startswith('flags') and now[k] >= v:
                continue      # (computing may raise flags)
            if now[k] != v and (alone or 'context' in k):
                return self.sim.violate('process-state-changed', 'the %s changed during %s: %s -> %s' % (
                    k, describe(op), str(v)[:100], str(now[k])[:100]), task)
        for k, o in self.shared.items():
            if freeze(o) != self.before[k]:
                return self.sim.violate('argument-changed', 'the %s passed by the caller changed during %s' % (k, describe(op)), task)

    def check(self, task, op, status, value, prec):
        state = self.cbstate.get((task.idx, task.op))
        if task.int_fired is not None:
            if status != 'exc' or value is not task.int_fired:
                self.sim.violate('abort-swallowed', '%s raised inside %s did not reach the caller (%s)' % (
                    type(task.int_fired).__name__, describe(op), short(status, value)), task)
            else:
                self.sim.probe('aborted')
            return
        if state is not None and state['failed']:
            if status != 'exc' or value is not state['failed']:
                self.sim.violate('callback-failure-swallowed', 'the failure of a callback of %s (%s) did not reach the caller (%s)' % (
                    describe(op), type(state['failed']).__name__, short(status, value)), task)
            else:
                self.sim.probe('callback failure surfaced')
            return
        try:
            problem = self.judge(op, status, value, prec)
        except Undefined:
            self.sim.probe('no defined value')
            return
        if problem:
            self.sim.violate('wrong-result', '%s: %s' % (describe(op), problem), task)
        else:
            self.sim.probe('checked:' + op['f'])

    def judge(self, op, status, value, prec):
        f = op['f']
        if op.get('floats'):
            # whether such numbers are refused is for the library to say, but not once so and once otherwise
            if status == 'exc':
                self.sim.probe('refused')
                return None
            try:
                getattr(self.seg, NAMES[f])((409.0, 7.0), (7.0, 409.0), **dict(op['kw']))
            except Exception as e:
                return 'accepted numbers that are refused (%s) in a fresh process: %s' % (type(e).__name__, short(status, value))
        try:
            expect = self.expected(op)
        except Rejected:
            if status == 'exc':
                if f in AGR and isinstance(value, Exception):
                    self.sim.probe('rejected')
                    return None
                if isinstance(value, self.util.SegmentationMetricError):
                    self.sim.probe('rejected')
                    return None
            return 'should be rejected with the metric error, got %s' % short(status, value)
        if status != 'ok':
            return 'raised %s: %s' % (type(value).__name__, str(value)[:200])
        return expect(value, prec)

    def bed(self, op, x=None, y=None, fmt=None):
        kw = op.get('kw', {})
        n_t = kw.get('n_t', 2)
        if x is None:
            fmt = op['fmt'] if 'fmt' in op else self.gmodel[op['a'][0]]['fmt']
            if op['f'] == 'bed':
                fmt = 'sets'
            x = self.gmodel[op['a'][0]]['vals'][op['a'][1]]
            y = self.gmodel[op['b'][0]]['vals'][op['b'][1]]
        key = ('bed', fmt, repr(x), repr(y), n_t)
        if key not in self.cache:
            self.cache[key] = models.bed_of(fmt, x, y, n_t)
        return self.cache[key]

    @staticmethod
    def weights(kw):
        return tuple(n.partition(':')[2] or n for n in kw.get('weight', models.DEFAULT_W))

    def expected(self, op):
        """Returns fn(value, prec) -> problem or None."""
        f = op['f']
        if f in ('B', 'S', 'stats', 'bcm', 'bed', 'pk', 'wd'):
            fmt = None
            if f != 'bed':
                fmt = op['fmt'] if 'fmt' in op else self.gmodel[op['a'][0]]['fmt']
            x = self.gmodel[op['a'][0]]['vals'][op['a'][1]]
            y = self.gmodel[op['b'][0]]['vals'][op['b'][1]]
            if f == 'bed' and len(x) != len(y):
                raise Undefined()
            return self.pair_expected(f, 'sets' if f == 'bed' else fmt, x, y, op.get('kw', {}))
        if f == 'win':
            rnd = op['kw'].get('fnc_round', 'round').split(':')[-1]
            if 'fmt' in op:
                raise Rejected('format')
            if 'bulk' in op:
                masses = op['bulk']
            elif 'd' in op:
                plain = models.labels_to_masses if self.dmodel[op['d']]['fmt'] == 'position' else list
                masses = [m for _, codings in self.dmodel[op['d']]['items'] for _, v in codings for m in plain(v)]
            else:
                grp = self.gmodel[op['a'][0]]
                v = grp['vals'][op['a'][1]]
                if grp['fmt'] in ('nltk', 'sets'):
                    raise Undefined()
                masses = v if grp['fmt'] == 'mass' else models.labels_to_masses(v)
            want = models.window_size(masses, rnd)
            return lambda value, prec: None if value == want else 'window size %r, defined value %r' % (value, want)
        if f in AGR:
            return self.agree_expected(op)
        if f == 'pairs':
            return self.pairs_expected(op)
        if f == 'ir':
            return self.ir_expected(op)
        if f == 'sumlist':
            return lambda v, prec: self.judge_summary([Q(x) for x in op['vals']], v, prec)
        raise Undefined()

    def pair_expected(self, f, fmt, x, y, kw):
        if f in ('pk', 'wd'):
            size = kw.get('window_size')
            rnd = kw.get('fnc_round', 'round').split(':')[-1]
            if f == 'pk':
                parts = models.pk_parts(fmt, x, y, size, rnd)
                want = models.pk_value(parts)
            else:
                parts = models.wd_parts(fmt, x, y, size, rnd, kw.get('lamprier_et_al_2007_fix', False))
                want = Q(parts[0], parts[1])
            return self.number(kw, parts, want)
        bed = self.bed({'f': f, 'kw': kw}, x, y, fmt)
        w = self.weights(kw)
        if f == 'bed':
            return lambda v, prec: bed.accepts(*v)
        if f == 'stats':
            return lambda v, prec: self.judge_stats(bed, w, v, prec)
        if f == 'bcm':
            return lambda v, prec: self.judge_bcm(bed, w, v, prec)
        if f == 'B':
            num, den = models.b_parts(bed, w)

            def check(v, prec):
                if kw.get('return_parts'):
                    if len(v) != 5 or not close(v[0], num, prec) or v[1] != den:
                        return 'parts %s, defined %s / %s' % (str(v)[:200], num, den)
                    return bed.accepts(v[2], v[3], v[4])
                want = models.b_value(bed, w)
                want = 1 - want if kw.get('one_minus') else want
                return None if close(v, want, prec) else '%s, defined value %s' % (v, dec(want, 15))
            return check
        vals, dens = models.s_values(bed, w), models.s_denominators(bed)
        edits = models.edits_count(bed, w)

        def check_s(v, prec):
            if kw.get('return_parts'):
                ok = len(v) == 2 and any(v[1] == d and close(v[0], d - edits, prec) for d in dens)
                return None if ok else 'parts %s, defined %s - %s' % (str(v)[:200], dens, edits)
            wants = [1 - x if kw.get('one_minus') else x for x in vals]
            return None if any(close(v, x, prec) for x in wants) else '%s, defined value %s' % (v, dec(wants[0], 15))
        return check_s

    @staticmethod
    def number(kw, parts, want):
        def check(v, prec):
            if kw.get('return_parts'):
                return None if tuple(v) == tuple(parts) else 'parts %s, defined %s' % (str(v)[:200], parts)
            x = 1 - want if kw.get('one_minus') else want
            return None if close(v, x, prec) else '%s, defined value %s' % (v, dec(x, 15))
        return check

    def judge_stats(self, bed, w, v, prec):
        p = bed.accepts(v['additions'], v['substitutions'], v['transpositions'])
        if p:
            return p
        for key, want in (('boundaries_all', bed.boundaries), ('pbs', bed.pbs)):
            if v[key] != want:
                return '%s is %s, defined value %s' % (key, v[key], want)
        if set(v['boundary_types']) != bed.types:
            return 'boundary types %s, defined %s' % (sorted(v['boundary_types']), sorted(bed.types))
        if Counter(v['matches']) != bed.matches:
            return 'matches %s, defined %s' % (dict(Counter(v['matches'])), dict(bed.matches))
        if Counter(v['full_misses']) != bed.misses:
            return 'full misses %s, defined %s' % (dict(Counter(v['full_misses'])), dict(bed.misses))
        want = models.edits_count(bed, w)
        if not close(v['count_edits'], want, prec):
            return 'weighted edits %s, defined value %s' % (v['count_edits'], dec(want, 15))
        return None

    def judge_bcm(self, bed, w, v, prec):
        if not isinstance(v, self.seg.ConfusionMatrix):
            return 'returned a %s' % type(v).__name__
        cells = dict(((p, a), n) for p, row in v.items() for a, n in row.items() if n != 0)
        outs = models.cm_outcomes(bed, w)
        if outs is None:
            raise Undefined()
        for o in outs:
            if set(o) == set(cells) and all(close(cells[k], o[k], prec) for k in o):
                return None
        return 'cells %s, defined %s' % (cells, dict((k, str(x)) for k, x in outs[0].items()))

    def agree_expected(self, op):
        ds = self.dmodel[op['d']]
        kw = op['kw']
        data = gen.model_items(ds)
        cmp_name = kw.get('fnc_compare', 'B').split(':')[-1]
        compare = 'const' if cmp_name == 'const' else 's' if cmp_name.endswith('S') else 'b'
        kind = op['f']
        if kind != 'actual' and any(len(c) < 2 for c in data.values()):
            raise Rejected('coders')
        n_t, w = kw.get('n_t', 2), self.weights(kw)
        checks = []
        for alt in ((0, 1) if compare == 's' and ds['fmt'] == 'sets' else (0,)):
            key = ('agr', op['d'], kind, compare, n_t, w, alt)
            if key not in self.cache:
                try:
                    self.cache[key] = (None, models.agreement(kind, ds['fmt'], data, compare, n_t, w, alt),
                                       models.agreement_parts(ds['fmt'], data, compare, n_t, w, alt))
                except (Undefined, Rejected) as e:
                    self.cache[key] = (e, None, None)
            err, res, raw = self.cache[key]
            if err is not None:
                raise err
            if res[0] is None and not kw.get('return_parts'):
                raise Undefined()
            checks.append(self.agree_check(kind, kw, res, raw))

        def either(v, prec):
            problems = [c(v, prec) for c in checks]
            return None if None in problems else problems[0]
        return either

    @staticmethod
    def agree_check(kind, kw, res, raw):
        want, parts = res

        def check(v, prec):
            if kw.get('return_parts'):
                if kind == 'actual':
                    nums, dens, infos = raw
                    if len(v) != 4:
                        return 'parts of length %d' % len(v)
                    if not close(Q(sum(v[0])), sum(nums), min(prec, 14)) or not close(Q(sum(v[1])), sum(dens), min(prec, 14)):
                        return 'parts sum to %s / %s, defined %s / %s' % (sum(v[0]), sum(v[1]), sum(nums), sum(dens))
                    if len(v[0]) != len(nums) or len(v[1]) != len(dens) or len(v[2]) != len(nums):
                        return 'parts for %d comparisons, defined %d' % (len(v[0]), len(nums))
                    for c in infos:
                        if sorted(map(tuple, v[3].get(c, ()))) != sorted(infos[c]):
                            return 'boundaries of coder %s are %s, defined %s' % (c, v[3].get(c), infos[c])
                    return None
                if len(v) != 2 or not close(v[0], parts[0], prec) or not close(v[1], parts[1], prec):
                    return 'parts %s, defined %s' % (str(v), [str(dec(p, 15)) for p in parts])
                return None
            if kind in ('pi', 'kappa'):
                slack = 1 - parts[1]
                if isinstance(v, (int, float, Decimal)) and close(Q(v) * slack if finite(v) else v, want * slack, prec if not isinstance(v, float) else 14):
                    return None
                return '%s, defined value %s' % (v, dec(want, 15))
            return None if close(v, want, prec) else '%s, defined value %s' % (v, dec(want, 15))
        return check

    def pairs_expected(self, op):
        m, kw = op['m'], op['kw']
        d = self.dmodel[op['d']]
        if 'e' in op:
            e = self.dmodel[op['e']]
            if d['fmt'] != e['fmt']:
                raise Rejected('formats')
            if not e['items'] or not d['items']:
                raise Rejected('empty')
        else:
            e = None
            if not d['items']:
                raise Rejected('empty')
        fmt = d['fmt']
        if m in WIN and fmt == 'sets':
            raise Undefined()
        md = gen.model_items(d)
        me = gen.model_items(e) if e is not None else None
        permuted = kw.get('permuted', m in WIN)
        want = {}       # key -> check
        alts = []       # unordered pairs: either key order
        rejected = False
        for item, codings in md.items():
            if me is not None:
                pairs = [(c1, c2, codings[c1], me[item][c2]) for c1 in codings for c2 in me.get(item, ())]
            else:
                cs = list(codings)
                pairs = [(cs[i], cs[j], codings[cs[i]], codings[cs[j]]) for i in range(len(cs)) for j in range(i + 1, len(cs))]
            for c1, c2, x, y in pairs:
                try:
                    fwd = self.pair_expected(m, fmt, x, y, kw)
                    k1 = '%s,%s,%s' % (item, c1, c2)
                    if me is not None:
                        want[k1] = fwd
                        continue
                    bwd = self.pair_expected(m, fmt, y, x, kw)
                    k2 = '%s,%s,%s' % (item, c2, c1)
                    if permuted:
                        want[k1], want[k2] = fwd, bwd
                    else:
                        alts.append((k1, fwd, k2, bwd))
                except Rejected:
                    rejected = True
        if rejected:
            raise Rejected('some pair')
        total = len(want) + len(alts)

        def check(v, prec):
            summary = None
            if op.get('sum'):
                v, summary = v
            expected = dict(want)
            for k1, fwd, k2, bwd in alts:
                if k1 in v:
                    expected[k1] = fwd
                else:
                    expected[k2] = bwd
            missing = [k for k in expected if k not in v]
            extra = [k for k in v if k not in expected]
            if missing:
                return 'no entry for %r (%d of %d entries)' % (missing[0], len(v), total)
            if extra:
                return 'entry %r for nothing compared' % extra[0]
            for k, fn in expected.items():
                try:
                    p = fn(v[k], prec)
                except Undefined:
                    continue
                if p:
                    return 'entry %r: %s' % (k, p)
            if summary is not None:
                return self.judge_summary(list(v.values()), summary, prec)
            return None
        if op.get('sum') and not total:
            raise Undefined()
        return check

    @staticmethod
    def judge_summary(values, s, prec):
        mean, var, n = models.summary([Q(x) for x in values])
        if len(s) != 5 or s[4] != n:
            return 'summary %s of %d values' % (str(s)[:200], n)
        std = models.qsqrt(var)
        # what limits the precision is the rounding of the values and of their mean, not that of their squares
        big, eps = max([abs(Q(x)) for x in values] + [1]), Q(n + 10, 10 ** (prec - 3))
        tol = eps * (2 * big * std + var) + (eps * big) ** 2
        root = tol / std if std * std > tol else models.qsqrt(2 * tol)
        for name, got, want, t in (('mean', s[0], mean, eps * big), ('standard deviation', s[1], std, root + eps * std), ('variance', s[2], var, tol),
                                   ('standard error', s[3], models.qsqrt(var / n), (root + eps * std) / models.qsqrt(Q(n)) + eps * std)):
            if not models.close(got, want, 8) or not isinstance(got, float) and abs(Q(got) - want) > t:
                return '%s of the values %s, defined value %s' % (name, got, dec(want, 15))
        return None

    def ir_expected(self, op):
        def one(i):
            m = self.counts[i]
            return models.ir(op['k'], m, op.get('c'), op.get('v', 'micro'), Q(str(op.get('beta', 1))))
        if op['k'] == 'classes':
            want = self.counts[op['m']].classes()
            return lambda v, prec: None if set(v) == want else 'classes %s, defined %s' % (sorted(map(str, v)), sorted(map(str, want)))
        if isinstance(op['m'], list):
            wants = dict(('m%d' % i, one(j)) for i, j in enumerate(op['m']))

            def check(v, prec):
                if set(v) != set(wants):
                    return 'labels %s' % sorted(v)
                for k in wants:
                    if not close(v[k], wants[k], prec):
                        return '%s of %s: %s, defined value %s' % (op['k'], k, v[k], dec(wants[k], 15))
            return check
        want = one(op['m'])
        return lambda v, prec: None if close(v, want, prec) else '%s, defined value %s' % (v, dec(want, 15))

    def run(self):
        if not self.watch:
            return self.run_tasks()
        with warnings.catch_warnings():
            warnings.filters[:] = FILTERS[self.scn.get('filters', 0)]
            return self.run_tasks()

    def run_tasks(self):
        self.at_start = ambient() if self.watch else None
        try:
            self.sim.run([self.task_body(t['ops'], t.get('prec', 28)) for t in self.scn['tasks']])
            if self.watch and not self.sim.violations:
                now = ambient()
                for k, v in self.at_start.items():
                    if now[k] != v and 'context' not in k:
                        self.sim.violate('process-state-changed', 'the %s changed: %s -> %s' % (k, str(v)[:100], str(now[k])[:100]))
                for k, o in self.samples.items():
                    if freeze(o) != self.before_samples[k]:
                        self.sim.violate('sample-changed', 'the bundled dataset %s changed' % k)
        finally:
            self.args = {}
        return self.sim


def finite(v):
    if isinstance(v, Decimal):
        return v.is_finite()
    return not isinstance(v, float) or (v == v and abs(v) != float('inf'))


def describe(op):
    f = op['f']
    name = NAMES.get(op.get('m'), '') + ' over datasets' if f == 'pairs' else NAMES.get(f, op.get('k', f))
    opts = ', '.join('%s=%s' % kv for kv in sorted(op.get('kw', {}).items()))
    return '%s(%s)' % (name, opts)


def short(status, value):
    if status == 'exc':
        return 'raised %s: %s' % (type(value).__name__, str(value)[:120])
    return 'returned %s' % str(value)[:160]


def execute(scn, ctx):
    return Run(scn, ctx).run()
