"""Seeded generators of workload values.  Everything produced is plain JSON."""
import math
import unicodedata
from decimal import Decimal
from . import models

LABELS = ['a', 'b', 'c', 'd', 'an1', 'an2', 'x', '1', '2', '10']
ODD_LABELS = [u'\u00e9t\u00e9', u'\u65e5\u672c', u'\U0001f600', 'with space', 'quo"te', 'back\\slash', "apo'strophe",
              'tab\tin', 'new\nline', 'nul\u0000', '', ' lead', '{brace}', 'null', 'true', 'items', 'a=b', '\u2028sep',
              '%s', '-', '0', 'segmentation_type', 'coder', '01', '007', '+1', '1.0', '1e1', 'A', 'AN1', 'An1', 'a ', 'e\u0301', '\u00e9',
              '\ufeffbom', '\u00a0', 'a/b', 'None', 'NaN', '#', '[1]', '~', 'x' * 70,
              'i,', ',a', 'a,,b', ',', '..', '.', 'a.b', '_', '\u202e', '\U0010ffff']


def weighted(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def log_int(rng, lo, hi):
    return int(round(math.exp(rng.uniform(math.log(lo), math.log(hi)))))


def length(rng, lo=1):
    return weighted(rng, [(rng.randint(lo, max(lo, 8)), 58), (rng.randint(max(lo, 4), 14), 33), (rng.randint(12, 40), 7.6),
                          (rng.randint(40, 110), 1.0), (rng.randint(60, 320), 0.4)])


def composition(rng, n, cuts=None):
    """Random masses summing to n."""
    if n <= 1:
        return [n]
    style = rng.random()
    if cuts is None:
        if style < 0.07:
            cuts = []
        elif style < 0.14:
            cuts = list(range(1, n))
        else:
            density = rng.choice([0.1, 0.25, 0.4, 0.6, 0.85])
            cuts = [i for i in range(1, n) if rng.random() < density]
    return cuts_to_masses(cuts, n)


def cuts_to_masses(cuts, n):
    cuts = sorted(set(c for c in cuts if 0 < c < n))
    return [y - x for x, y in zip([0] + cuts, cuts + [n])]


def masses_to_cuts(masses):
    out, p = [], 0
    for m in masses[:-1]:
        p += m
        out.append(p)
    return out


def near(rng, masses):
    """A variant: some boundaries moved by one to three, dropped or added."""
    n = sum(masses)
    out = []
    for c in masses_to_cuts(masses):
        r = rng.random()
        if r < 0.35:
            c += rng.choice([-1, 1, -1, 1, -2, 2, 3, -3])
        elif r < 0.45:
            continue
        out.append(c)
    if n > 2 and rng.random() < 0.4:
        out.append(rng.randint(1, n - 1))
    return cuts_to_masses(out, n)


def mass_group(rng, k, n=None):
    """k segmentations of the same text, as masses."""
    n = n or length(rng)
    base = composition(rng, n)
    out = [base]
    while len(out) < k:
        r = rng.random()
        if r < 0.55:
            out.append(near(rng, rng.choice(out)))
        elif r < 0.65:
            out.append(list(rng.choice(out)))
        else:
            out.append(composition(rng, n))
    return out


def sets_one(rng, n, types):
    density = rng.choice([0.15, 0.35, 0.6])
    out = []
    for _ in range(n):
        if rng.random() < density:
            k = weighted(rng, [(1, 6), (2, 3), (3, 1), (len(types), 0.5 if len(types) < 6 else 4)])
            out.append(sorted(rng.sample(types, min(k, len(types)))))
        else:
            out.append([])
    return out


def sets_near(rng, s, types):
    out = [list(x) for x in s]
    for i in range(len(out)):
        for t in list(out[i]):
            r = rng.random()
            if r < 0.3:
                j = i + rng.choice([-1, 1, 2, -2, 1, -1, 3])
                if 0 <= j < len(out) and t not in out[j]:
                    out[i].remove(t)
                    out[j].append(t)
            elif r < 0.5:
                u = rng.choice(types)
                if u not in out[i]:
                    out[i].remove(t)
                    out[i].append(u)
            elif r < 0.58:
                out[i].remove(t)
    if out and rng.random() < 0.4:
        i, t = rng.randrange(len(out)), rng.choice(types)
        if t not in out[i]:
            out[i].append(t)
    return [sorted(x) for x in out]


def sets_group(rng, k, n=None):
    n = n or weighted(rng, [(rng.randint(1, 6), 5), (rng.randint(4, 12), 4), (rng.randint(10, 30), 1)])
    types = rng.choice([[1], [1, 2], [1, 2, 3], [1, 2, 3, 4], [2, 5], [1, 7, 9], [1, 2, 3],
                        rng.choice([[0], [0, 1], [-2, 0], [-1, 1], [-3, -1, 0], [10, 20]])])
    if n <= 6 and k <= 4 and rng.random() < 0.08:
        # (pairing this many types takes long, but is still possible)
        types = rng.choice([[1, 2, 3, 9, 10, 12], [1, 2, 3, 4, 5, 20], [1, 3, 4, 5, 6, 11]])
    out = [sets_one(rng, n, types)]
    while len(out) < k:
        if rng.random() < 0.5 and len(types) > 5:
            # each type on one side, or on both
            out.append([sorted(t for t in types if (t in x) == (rng.random() < 0.15)) if x else x for x in rng.choice(out)])
        elif rng.random() < 0.7:
            out.append(sets_near(rng, rng.choice(out), types))
        else:
            out.append(sets_one(rng, n, types))
    return out


def encode(rng, fmt, masses, names=True):
    if fmt == 'mass':
        return list(masses)
    if fmt == 'position':
        if rng.random() < 0.7:
            return models.masses_to_labels(masses)
        if rng.random() < 0.15:
            # labels that return later
            pool = rng.choice([[1, 2], [3, 1], [1, 2, 3], [2, 9, 4]])
            return [pool[i % len(pool)] for i, m in enumerate(masses) for _ in range(m)]
        if names and rng.random() < 0.35:
            # names of segments instead of numbers, two of them possibly in turns
            pool = rng.choice([['seg%d' % i for i in range(1, len(masses) + 1)], ['intro', 'body'], ['x1', 'x2', 'x10'], [1.5, 2.5, 1]])
            return [pool[i % len(pool)] for i, m in enumerate(masses) for _ in range(m)]
        out, lab = [], rng.randint(1, 5)
        for m in masses:
            out += [lab] * m
            lab += rng.randint(1, 300)
        return out
    if fmt == 'nltk':
        return models.masses_to_nltk(masses)
    return [sorted(x) for x in models.masses_to_sets(masses)]


def group(rng, k, fmt=None, n=None):
    """k comparable segmentations in one format: (fmt, [values])."""
    fmt = fmt or weighted(rng, [('mass', 5), ('position', 2), ('nltk', 2), ('sets', 4)])
    if fmt == 'sets' and rng.random() < 0.85:
        return fmt, sets_group(rng, k, n)
    if n is None:
        n = length(rng, 2 if fmt in ('nltk', 'sets') else 1)
    return fmt, [encode(rng, fmt, m) for m in mass_group(rng, k, n)]


def stretched(rng, fmt, v):
    """A variant of another length, most often by one unit at the end."""
    k = rng.choice([1, 1, 1, -1, -1, 2, 5])
    if fmt == 'mass':
        out = list(v)
        i = len(out) - 1 if rng.random() < 0.6 else rng.randrange(len(out))
        out[i] = out[i] + k if out[i] + k > 0 else out[i] + 1
        return out
    if k < 0:
        return v[:-1] if len(v) > 1 else v + v
    tail = v[-1:] if fmt != 'nltk' else '0'
    if fmt == 'sets' and rng.random() < 0.6:
        tail = [[]]
    return v + tail * k


def twin(rng, lab):
    """A label that is easily mistaken for the given one."""
    return rng.choice([lab + ' ', ' ' + lab, lab.swapcase(), '0' + lab, lab + '.0', unicodedata.normalize('NFD', lab), lab + '\t', lab * 2,
                       lab[:-1], "'%s'" % lab])


def labels(rng, k, odd=0.15, avoid=''):
    out = []
    while len(out) < k:
        r = rng.random()
        if r < odd * 0.3 and out:
            lab = twin(rng, rng.choice(out))
        elif r < odd:
            lab = rng.choice(ODD_LABELS)
        elif r < 0.8:
            lab = rng.choice(LABELS)
        else:
            lab = 'L%d' % rng.randrange(1000)
        if lab not in out and not any(c in lab for c in avoid):
            out.append(lab)
    return out


def typed(rng, coders, confusable, whole=False):
    """Some labels become numbers; with `confusable`, possibly next to the string that looks the same."""
    out = []
    for c in coders:
        if isinstance(c, str) and c.isascii() and c.isdigit() and str(int(c)) == c and rng.random() < 0.7:
            c = int(c)
        elif rng.random() < 0.3:
            c = rng.randint(0, 12) if whole else rng.choice([rng.randint(0, 12), rng.randint(0, 12), True, False, 1, 0, 1.0, 0.5])
        if confusable and out and rng.random() < 0.4:
            o = rng.choice(out)
            c = str(o) if not isinstance(o, str) else int(o) if o.isascii() and o.isdigit() else c
        if c in out or (not confusable and str(c) in map(str, out)):
            c = 'T%d' % len(out)
        out.append(c)
    return out


def dataset(rng, fmt=None, max_items=4, max_coders=5, coders=None, item_names=None, ragged=0.0, odd=0.08, min_coders=1,
            bounded=0.0, numbers=None, short=False, min_items=1):
    fmt = fmt or weighted(rng, [('mass', 6), ('position', 2), ('nltk', 2), ('sets', 3)])
    k = weighted(rng, [(min(max(2, min_coders), max_coders), 4), (rng.randint(min_coders, max_coders), 5)])
    coders = coders or labels(rng, k, odd, avoid=',')
    if numbers and rng.random() < 0.2:
        coders = typed(rng, coders, numbers == 'confusable')
    item_names = item_names or labels(rng, rng.randint(min_items, max_items), odd)
    items = []
    for item in item_names:
        n = weighted(rng, [(rng.randint(2, 6), 60), (rng.randint(4, 12), 30), (rng.randint(10, 24), 4)])
        if short:
            n = rng.randint(2, 6)
        _, vals = group(rng, len(coders), fmt, n)
        if rng.random() < bounded:
            for _ in range(8):
                if all(any(models.to_sets(fmt, v)) for v in vals):
                    break
                _, vals = group(rng, len(coders), fmt, n)
        codings = [[c, v] for c, v in zip(coders, vals)]
        if rng.random() < 0.5:
            rng.shuffle(codings)
        if ragged and len(codings) > 1 and rng.random() < ragged:
            codings.pop(rng.randrange(len(codings)))
        items.append([item, codings])
    if len(items) > 1 and len(coders) > 1 and rng.random() < 0.08:
        # an item named like the coders' entry of another item
        lab = ','.join([items[0][0]] + [str(c) for c in rng.sample(coders, 2)] + (['x'] if rng.random() < 0.3 else []))
        if all(lab != i for i, _ in items):
            items[1][0] = lab
    return {'fmt': fmt, 'items': items}


# ---- construction of real objects from JSON

def real(fmt, v, kind='tuple'):
    """kind: tuple/list for the outer container; 'mset' makes the inner sets mutable."""
    if fmt == 'nltk':
        return v
    if fmt == 'sets':
        inner = set if 'mset' in kind else frozenset
        # (a fractional type is a Decimal; a whole one may be either kind of number, and never need be one object)
        seq = [inner(Decimal(repr(t)) if isinstance(t, float) else Decimal(t) if 'dec' in kind and (i + t) % 3 else t for t in x)
               for i, x in enumerate(v)]
    elif fmt == 'position':
        # equal labels need not be one object
        seq = [x[:2] + x[2:] if isinstance(x, str) else x for x in v]
    else:
        seq = list(v)
    return seq if 'list' in kind else tuple(seq)


def real_items(ds):
    kind = ds.get('kind', 'tuple')
    if ds.get('share') and 'list' not in kind:
        # equal codings of one item may well be one object
        known = {}
        return dict((item, dict((c, known.setdefault(repr(v), real(ds['fmt'], v, kind))) for c, v in codings)) for item, codings in ds['items'])
    return dict((item, dict((c, real(ds['fmt'], v, kind)) for c, v in codings)) for item, codings in ds['items'])


def model_items(ds):
    return dict((item, dict(codings)) for item, codings in ds['items'])


def schedule(rng, tasks, gran=True):
    sched = {'seed': rng.randrange(1 << 40), 'mean': rng.choice([1, 2, 4, 8, 20, 50, 150, 500])}
    g = 'opcode' if gran and rng.random() < (0.2 if tasks > 1 else 0.05) else 'line'
    return sched, g


def interrupt(rng, hi=3000, kinds=('KeyboardInterrupt', 'MemoryError')):
    return {'at': log_int(rng, 1, hi), 'exc': rng.choice(kinds)}
