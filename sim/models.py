"""Reference models: the definitions in exact rational arithmetic, independent of the code under test."""
from fractions import Fraction as Q
from decimal import Decimal
import decimal
import itertools
import math
from collections import Counter

NONE = None


class Undefined(Exception):
    """The definition gives no value (division by zero); the check makes no claim."""


class Rejected(Exception):
    """The call must raise the library's metric error."""


# ---------------------------------------------------------------------------------------------------- formats

def masses_to_labels(masses):
    out = []
    for i, m in enumerate(masses):
        out += [i + 1] * m
    return out


def labels_to_masses(labels):
    out = []
    prev = object()
    for x in labels:
        if out and x == prev:
            out[-1] += 1
        else:
            out.append(1)
        prev = x
    return out


def masses_to_sets(masses):
    n = sum(masses)
    ends = set(itertools.accumulate(masses))
    return [frozenset([1]) if p in ends else frozenset() for p in range(1, n)]


def nltk_to_masses(s):
    return [len(x) + 1 for x in s.split('1')]


def masses_to_nltk(masses):
    return '1'.join('0' * (m - 1) for m in masses)


def to_sets(fmt, val):
    if fmt == 'sets':
        return [frozenset(Q(t) if isinstance(t, float) else t for t in x) for x in val]
    if fmt == 'mass':
        return masses_to_sets(val)
    if fmt == 'position':
        return masses_to_sets(labels_to_masses(val))
    if fmt == 'nltk':
        return masses_to_sets(nltk_to_masses(val))
    raise Rejected('format')


def to_labels(fmt, val):
    if fmt == 'position':
        return list(val)
    if fmt == 'mass':
        return masses_to_labels(val)
    if fmt == 'nltk':
        return masses_to_labels(nltk_to_masses(val))
    raise Rejected('format')


# ---------------------------------------------------------------------------------------------------- BED

def transpositions(a, b, n_t):
    """Greedy, short spans first, left to right; returns them with the residual differences per position."""
    n = len(a)
    only_a = [set(x - y) for x, y in zip(a, b)]
    only_b = [set(y - x) for x, y in zip(a, b)]
    found, used = [], set()
    for span in range(1, n_t):
        for i in range(n - span):
            j = i + span
            cross = ((a[i] - b[i]) & (b[j] - a[j])) | ((b[i] - a[i]) & (a[j] - b[j]))
            for d in sorted(cross):
                if (i, d) in used or (j, d) in used:
                    continue
                both = all(d in only_a[p] | only_b[p] and only_a[p] and only_b[p] for p in (i, j))
                if both:
                    continue
                found.append((i, j, d))
                used.add((i, d))
                used.add((j, d))
                for p in (i, j):
                    only_a[p].discard(d)
                    only_b[p].discard(d)
    return found, only_a, only_b


def pairings(xs, ys):
    """All cheapest pairings of the smaller set into the larger: set of (adds, subs), adds as (type, side)."""
    xs, ys = sorted(xs), sorted(ys)
    best, out = None, set()
    if len(xs) <= len(ys):
        gen = (list(zip(xs, perm)) for perm in itertools.permutations(ys, len(xs)))
    else:
        gen = (list(zip(perm, ys)) for perm in itertools.permutations(xs, len(ys)))
    for subs in gen:
        cost = sum(abs(x - y) for x, y in subs)
        if best is None or cost < best:
            best, out = cost, set()
        if cost == best:
            sa = set(x for x, _ in subs)
            sb = set(y for _, y in subs)
            adds = tuple(sorted([(x, 'a') for x in xs if x not in sa] + [(y, 'b') for y in ys if y not in sb]))
            out.add((adds, tuple(sorted(subs))))
    return best, out


class Bed(object):
    def __init__(self, a, b, n_t):
        self.a, self.b, self.n_t = a, b, n_t
        self.transp, oa, ob = transpositions(a, b, n_t)
        self.n_add = self.n_sub = self.sub_cost = 0
        self.options = []
        for x, y in zip(oa, ob):
            if not x and not y:
                continue
            self.n_sub += min(len(x), len(y))
            self.n_add += abs(len(x) - len(y))
            cost, opts = pairings(x, y)
            self.sub_cost += cost
            self.options.append(opts)
        self.types = frozenset(t for s in itertools.chain(a, b) for t in s)
        self.matches = Counter(t for x, y in zip(a, b) for t in x & y)
        self.misses = Counter(t for x, y in zip(a, b) for t in x ^ y)
        self.boundaries = sum(len(x) + len(y) for x, y in zip(a, b))
        self.pbs = len(b) * len(self.types)

    def outcomes(self, cap=400):
        """The admissible (additions, substitutions) multisets; None when there are too many to list."""
        states = set([((), ())])
        for opts in self.options:
            new = set()
            for adds, subs in states:
                for x, y in opts:
                    new.add((tuple(sorted(adds + x)), tuple(sorted(subs + y))))
            states = new
            if len(states) > cap:
                return None
        return states

    def accepts(self, additions, substitutions, transp):
        """None if the edits are admissible, else what is wrong with them."""
        additions = sorted(tuple(x) for x in additions)
        substitutions = sorted(tuple(x) for x in substitutions)
        if Counter(tuple(t) for t in transp) != Counter(self.transp):
            return 'transpositions %r, expected %r' % (sorted(tuple(t) for t in transp), sorted(self.transp))
        if len(additions) != self.n_add or len(substitutions) != self.n_sub:
            return '%d additions and %d substitutions, expected %d and %d' % (
                len(additions), len(substitutions), self.n_add, self.n_sub)
        outs = self.outcomes()
        if outs is None:
            cost = sum(abs(x - y) for x, y in substitutions)
            return None if cost == self.sub_cost else 'substitution cost %s, expected %s' % (cost, self.sub_cost)
        if (tuple(additions), tuple(substitutions)) not in outs:
            return 'edits %r / %r not among the admissible %r' % (additions, substitutions, sorted(outs)[:3])
        return None


# weights: name -> function of the model's numbers
def w_add(name, n):
    return {'a': Q(n), 'plus': n + Q(1, 2), 'double': Q(2 * n), 'half': Q(n, 2), 'flat': Q(min(n, 1))}[name]


def w_sub(name, n, cost, types):
    if name == 's':
        return Q(n)
    if name == 's_scale':
        if not types:
            return Q(0)
        return Q(cost) / (max(types) - min(types) + 1)
    if name == 'half':
        return Q(n, 2)
    if name == 'plus':
        return n + Q(1, 2)
    if name == 'double':
        return Q(2 * n)
    if name == 'flat':
        return Q(min(n, 1))
    if name == 'args':
        hi, lo = max(types or (1,)), min(types or (1,))
        return Q(n * (1 + hi), 3 + abs(hi) + 2 * abs(lo))
    raise KeyError(name)


def w_transp(name, transp, n_t):
    if name == 't':
        return Q(len(transp))
    if name == 't_scale':
        return Q(sum(abs(t[0] - t[1]) for t in transp), n_t)
    if name == 'half':
        return Q(len(transp), 2)
    if name == 'plus':
        return len(transp) + Q(1, 2)
    if name == 'double':
        return Q(2 * len(transp))
    if name == 'flat':
        return Q(min(len(transp), 1))
    if name == 'args':
        return Q(sum(1 + t[2] + t[1] - t[0] for t in transp), 4 * n_t)
    raise KeyError(name)


DEFAULT_W = ('a', 's_scale', 't_scale')


def edits_count(bed, w):
    return w_add(w[0], bed.n_add) + w_sub(w[1], bed.n_sub, bed.sub_cost, bed.types) + w_transp(w[2], bed.transp, bed.n_t)


def bed_of(fmt, x, y, n_t):
    a, b = to_sets(fmt, x), to_sets(fmt, y)
    if len(a) != len(b):
        raise Rejected('length')
    return Bed(a, b, n_t)


def b_parts(bed, w):
    den = bed.n_add + bed.n_sub + len(bed.transp) + sum(bed.matches.values())
    return den - edits_count(bed, w), Q(den)


def b_value(bed, w):
    num, den = b_parts(bed, w)
    return num / den if den else Q(1)


def s_denominators(bed):
    """With several boundary types two normalisations are in use (see DESIGN.md); with one they agree."""
    return sorted(set([bed.pbs * len(bed.types), bed.pbs]))


def s_values(bed, w):
    out = []
    for den in s_denominators(bed):
        out.append((Q(den) - edits_count(bed, w)) / den if den else Q(1))
    return out


def cm_outcomes(bed, w):
    """Admissible confusion matrices as list of dict (predicted, actual) -> Q; None if too many."""
    base = Counter()
    for t, n in bed.matches.items():
        base[(t, t)] += n
    base = dict((k, Q(v)) for k, v in base.items())
    for t in bed.transp:
        k = (t[2], t[2])
        base[k] = base.get(k, Q(0)) + w_transp(w[2], [t], bed.n_t)
    outs = bed.outcomes()
    if outs is None:
        return None
    res = []
    for adds, subs in outs:
        m = dict(base)
        for x, y in subs:
            m[(x, y)] = m.get((x, y), Q(0)) + 1
        for t, side in adds:
            k = (None, t) if side == 'a' else (t, None)
            m[k] = m.get(k, Q(0)) + 1
        res.append(dict((k, v) for k, v in m.items() if v != 0))
    return res


# ---------------------------------------------------------------------------------------------------- windows

def apply_round(name, q):
    if name in (None, 'round', 'integral'):
        return round(q)
    if name == 'three':
        return 3
    return {'floor': math.floor, 'real': math.floor, 'same': int, 'ceil': math.ceil, 'int': int}[name](q)


def window_size(masses, rnd=None):
    if not masses:
        raise Undefined()
    w = apply_round(rnd, Q(sum(masses), len(masses)) / 2)
    return w if w > 1 else 2


def pk_parts(fmt, hyp, ref, size=None, rnd=None):
    h, r = to_labels(fmt, hyp), to_labels(fmt, ref)
    if len(h) != len(r):
        raise Rejected('length')
    k = size if size is not None else window_size(labels_to_masses(r), rnd)
    n = len(r) - k
    bad = sum((r[i] == r[i + k]) != (h[i] == h[i + k]) for i in range(max(n, 0)))
    return bad, max(n, 0)


def pk_value(parts):
    return Q(parts[0], parts[1]) if parts[1] else Q(0)


def wd_parts(fmt, hyp, ref, size=None, rnd=None, lamprier=False):
    h, r = to_labels(fmt, hyp), to_labels(fmt, ref)
    if len(h) != len(r):
        raise Rejected('length')
    k = size if size is not None else window_size(labels_to_masses(r), rnd)
    if lamprier:
        h = [0] * k + h + [0] * k
        r = [0] * k + r + [0] * k
    n = len(r) - k

    def cuts(x):
        out = [0]
        for p, q in zip(x, x[1:]):
            out.append(out[-1] + (p != q))
        return out
    ch, cr = cuts(h), cuts(r)
    bad = sum((cr[i + k] - cr[i]) != (ch[i + k] - ch[i]) for i in range(max(n, 0)))
    den = n + 1 if lamprier else n
    if den <= 0:
        raise Undefined()
    return bad, den


# ---------------------------------------------------------------------------------------------------- agreement

def agreement_parts(fmt, data, compare, n_t, w, alt=0):
    """data: item -> coder -> value. Returns numerators, denominators (lists of alternatives), per coder infos."""
    coders = []
    for codings in data.values():
        for c in codings:
            if c not in coders:
                coders.append(c)
    nums, dens, infos = [], [], dict((c, []) for c in coders)
    for c1, c2 in itertools.combinations(coders, 2):
        for item, codings in data.items():
            if c1 not in codings or c2 not in codings:
                raise Undefined()
            bed = bed_of(fmt, codings[c1], codings[c2], n_t)
            if compare == 'const':
                n, d = Q(1), Q(2)
            elif compare == 'b':
                n, d = b_parts(bed, w)
            else:
                d = s_denominators(bed)
                d = Q(d[alt if len(d) > 1 else 0])
                n = d - edits_count(bed, w)
            nums.append(n)
            dens.append(d)
            infos[c1].append((sum(len(x) for x in bed.a), bed.pbs))
            infos[c2].append((sum(len(x) for x in bed.b), bed.pbs))
    return nums, dens, infos


def _div(a, b):
    if b == 0:
        raise Undefined()
    return Q(a) / Q(b)


def agreement(kind, fmt, data, compare='b', n_t=2, w=DEFAULT_W, alt=0):
    """Returns (value, parts)."""
    if kind in ('pi', 'kappa', 'bias'):
        if len(set(len(c) for c in data.values())) != 1:
            raise Rejected('unequal')
    nums, dens, infos = agreement_parts(fmt, data, compare, n_t, w, alt)
    if not nums:
        raise Undefined()
    a_a = _div(sum(nums), sum(dens))
    if kind == 'actual':
        return a_a, None
    flat = [_div(b, t) for info in infos.values() for b, t in info]
    pi_e = _div(sum(flat), len(flat)) ** 2
    share = [_div(sum(b for b, _ in info), sum(t for _, t in info)) for info in infos.values()]
    prods = [x * y for x, y in itertools.combinations(share, 2)]
    ka_e = _div(sum(prods), len(prods))
    if kind == 'bias':
        return pi_e - ka_e, (pi_e, ka_e)
    e = pi_e if kind == 'pi' else ka_e
    return (a_a - e) / (1 - e) if e != 1 else None, (a_a, e)


# ---------------------------------------------------------------------------------------------------- IR metrics

class Counts(object):
    """Confusion matrix as a plain mapping (predicted, actual) -> number."""

    def __init__(self, cells=None, labels=()):
        self.cells = dict(cells or {})
        self.labels = set(labels)

    def copy(self):
        return Counts(self.cells, self.labels)

    def classes(self):
        out = set(self.labels)
        for p, a in self.cells:
            out.add(p)
            out.add(a)
        return out

    def get(self, p, a):
        return Q(self.cells.get((p, a), 0))

    def tp(self, c):
        return self.get(c, c)

    def row(self, c):
        return sum((Q(v) for (p, a), v in self.cells.items() if p == c), Q(0))

    def col(self, c):
        return sum((Q(v) for (p, a), v in self.cells.items() if a == c), Q(0))


def _p(m, c):
    return m.tp(c), m.row(c)


def _r(m, c):
    return m.tp(c), m.col(c)


def _ratio(nd):
    n, d = nd
    return Q(0) if n == 0 else _div(n, d)


def ir(kind, m, classification=None, version='micro', beta=Q(1)):
    b2 = beta * beta

    def parts(c):
        if kind == 'precision':
            return _p(m, c)
        if kind == 'recall':
            return _r(m, c)
        p, r = _ratio(_p(m, c)), _ratio(_r(m, c))
        return (1 + b2) * p * r, b2 * p + r
    if classification is not None:
        return _ratio(parts(classification))
    classes = m.classes()
    if version == 'micro':
        num = sum((parts(c)[0] for c in classes), Q(0))
        den = sum((parts(c)[1] for c in classes), Q(0))
        return _ratio((num, den))
    if not classes:
        return Q(0)
    return sum((_ratio(parts(c)) for c in classes), Q(0)) / len(classes)


# ---------------------------------------------------------------------------------------------------- numbers

def summary(values):
    """mean, std, var, stderr, n as (Q, Q-or-sqrt-of ...)"""
    n = len(values)
    if n == 0:
        raise Undefined()
    mean = sum(values, Q(0)) / n
    var = sum(((v - mean) ** 2 for v in values), Q(0)) / n
    return mean, var, n


def dec(q, prec=60):
    ctx = decimal.Context(prec=prec)
    return ctx.divide(Decimal(q.numerator), Decimal(q.denominator))


def qsqrt(q, prec=60):
    return Q(decimal.Context(prec=prec).sqrt(dec(q, prec)))


def close(actual, expected, prec=28):
    """Is the number `actual` the rational `expected` to the working precision?"""
    if isinstance(actual, bool) or not isinstance(actual, (int, float, Decimal, Q)):
        return False
    if isinstance(actual, float):
        if actual != actual or actual in (float('inf'), float('-inf')):
            return False
        tol = Q(1, 10 ** min(9, prec - 4))
    elif isinstance(actual, Decimal):
        if not actual.is_finite():
            return False
        tol = Q(1, 10 ** (prec - 5))
    else:
        tol = Q(1, 10 ** (prec - 5))
    return abs(Q(actual) - expected) <= tol * max(1, abs(expected))
