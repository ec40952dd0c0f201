"""Drawing helpers: every random choice goes through hypothesis."""
import functools

from hypothesis import strategies as st


@functools.lru_cache(maxsize=None)
def _ints(lo, hi):
    return st.integers(lo, hi)


class D(object):
    """choices for one case; small values come first so that shrinking leads
    to small, plain cases"""

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        return self.draw(_ints(lo, hi))

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def flag(self, num=1, den=2):
        """true in about num of den cases; shrinks to false"""
        return self.int(0, den - 1) >= den - num

    def some(self, seq, lo=0, hi=None):
        """a subset, in the order of `seq`"""
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        n = self.int(lo, hi)
        out = []
        left = seq[:]
        for _ in range(n):
            x = self.pick(left)
            left.remove(x)
            out.append(x)
        return out

    def shuffle(self, seq):
        left = list(seq)
        out = []
        while left:
            out.append(left.pop(self.int(0, len(left) - 1)))
        return out


class Choices(D):
    """the same choices from a list of integers, then from `rng`, then zeros;
    `made` is what was chosen"""

    def __init__(self, given=(), rng=None):
        D.__init__(self, None)
        self.given, self.rng, self.made = given, rng, []
        # most cases uniform, some leaning to the first or the last choices
        self.lean = rng.choice('uuuuuuulh') if rng else 'u'

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        i = len(self.made)
        if i < len(self.given):
            v = min(self.given[i], hi - lo)
        elif self.rng is None:
            v = 0
        else:
            v = self.rng.randint(0, hi - lo)
            if self.lean != 'u':
                v = (min if self.lean == 'l' else max)(
                    v, self.rng.randint(0, hi - lo))
        self.made.append(v)
        return lo + v


def cases(fn, *args, **kw):
    """strategy: fn(D, ...) -> JSON value"""

    @st.composite
    def strat(draw):
        return fn(D(draw), *args, **kw)

    out = strat()
    out.make = lambda d: fn(d, *args, **kw)
    return out


PLAIN = ['Pet', 'User', 'Tag', 'Order', 'id', 'name', 'status', 'key']
# names that are prefixes of one another, pointer metacharacters, digits,
# names the specifications themselves use as keys, non-ASCII
ODD = ['PetStore', 'Pet2', 'a/b', 'a~b', '~1', '~0', '~01', '/', 'a b', '0', '1', '10',
       'x.y', 'properties', 'items', 'allOf', 'required', 'type', 'default', 'schema',
       'get', 'parameters', 'definitions', 'responses', 'description', 'enum',
       'keys', 'values', 'spec', 'Pet-1', 'P', 'Pe', u'caf\u00e9', u'\u65e5\u672c',
       'a:b', '{id}', '/pets/{id}', '*', '..', "it's", 'a"b', 'x-y', 'User/Name']
# what generators of documents and programming languages put into names
ODD2 = ['List[Pet]', u'Map\u00abK,V\u00bb', 'Map<K,V>', 'a?b', 'a&b=c', 'a;b', 'A+B',
        'a,b', '@id', '$type', 'a|b', 'a\\b', '_', 'PET', 'pet', 'Pets', 'Pet_1',
        '(x)', 'a!##!b', '-1', '01', '1.0', 'null', 'true', 'None', 'not', 'in', 'not_',
        'all_of', '__class__', 'ref', 'children', 'attrs', '~', '~~', '//', 'a//b',
        'Pet ', ' Pet', u'\U0001f600', 'x' * 60]
WORDS = ['text', 'a', 'Some words.', '', 'line\nbreak', u'\u00fc\u00f1\u00ed', '0',
         'true', 'null', '$ref', '#/definitions/Pet', '~1/~0', ' lead', 'A',
         'http://example.com/x?y=z#k', '<b>', 'x' * 40]
NUMS = [0, 1, -1, 2, 10, 255, 0.5, -1.5, 1e10, 9007199254740993, 2 ** 63 - 1, 3.25]
INTS = [0, 1, 2, 7, 100, 2 ** 31, 2 ** 53 + 1]


def name(d, odd=True):
    if odd and d.flag(2, 5):
        return d.pick(ODD2 if d.flag(1, 4) else ODD)
    return d.pick(PLAIN)


def names(d, lo, hi, odd=True):
    n = d.int(lo, hi)
    out = []
    for _ in range(n):
        x = name(d, odd)
        if x not in out:
            out.append(x)
    if lo and not out:
        out.append('Pet')
    return out


def word(d):
    return d.pick(WORDS)


def num(d):
    return d.pick(NUMS)


def anyval(d, depth=2):
    """any JSON value but null at the top"""
    k = d.int(0, 9 if depth > 0 else 5)
    if k <= 1:
        return word(d)
    if k <= 3:
        return num(d)
    if k == 4:
        return d.flag()
    if k == 5:
        return d.pick(['', 0, False, 1.5, 'x'])
    if k <= 7:
        return [anyval(d, depth - 1) if d.flag(4, 5) else None
                for _ in range(d.int(0, 3))]
    return {name(d): anyval(d, depth - 1) if d.flag(4, 5) else None
            for _ in range(d.int(0, 3))}


def size(d):
    """of a list, rarely a long one"""
    return d.int(4, 20) if d.flag(1, 16) else d.int(0, 3)


def fieldval(d, kind):
    if kind == 's':
        return word(d)
    if kind == 'b':
        return d.flag()
    if kind == 'i':
        return d.pick(INTS)
    if kind == 'n':
        return num(d)
    if kind == 'as':
        return [d.pick(PLAIN) if d.flag(2, 3) else name(d)
                for _ in range(size(d))]
    if kind == 'al':
        return [anyval(d, 1) for _ in range(size(d))]
    return anyval(d)


# --------------------------------------------------------- generic objects


def gen_obj(d, tables, cls, budget, refs=True, empties=True, xtra=True,
            restricted=False):
    """a JSON object for one class of the tables; budget is [n] objects left"""
    t = tables[cls]
    out = {}
    budget[0] -= 1
    fields = [f for f in t.fields
              if f not in t.restricted and f != '$ref' and f not in t.required]
    for f in t.required:
        if f in t.fields and f not in t.restricted:
            out[f] = '#/x' if f == '$ref' else fieldval(d, t.fields[f])
    if fields:
        for f in d.some(fields, 0, 4):
            out[f] = fieldval(d, t.fields[f])
    opt = [c for c in t.children if c not in t.required]
    todo = [c for c in t.children if c in t.required]
    if opt and budget[0] > 0:
        todo += d.some(opt, 0 if d.flag(1, 4) else 1, 2 if budget[0] < 6 else 5)
    for c in todo:
        out[c] = gen_type(d, tables, t.children[c], budget, refs, empties, xtra)
    if '$ref' in t.fields and '$ref' not in out and refs and d.flag(1, 12):
        out['$ref'] = d.pick(['#/definitions/Pet', 'other.json#/a', '#/x'])
    if xtra and d.flag(1, 8):
        out[d.pick(['x-ext', 'x-', 'unknown'])] = anyval(d, 1)
    return out


def gen_type(d, tables, ty, budget, refs=True, empties=True, xtra=True):
    k = ty[0]
    if k == 's':
        return word(d)
    if k == 'b':
        if d.flag(1, 3):
            return d.flag()
        return gen_type(d, tables, ty[1], budget, refs, empties, xtra)
    if k == 'r':
        if refs and d.flag(1, 4):
            return {'$ref': d.pick(['#/definitions/Pet', 'o.json#/x', '#/x'])}
        v = gen_obj(d, tables, ty[1], budget, refs, empties, xtra)
        v.pop('$ref', None)
        return v
    if k == 'rc':
        if refs and d.flag(1, 4):
            return {'$ref': '#/components/callbacks/x'}
        return gen_type(d, tables, ('m', ('o', 'PathItem')), budget, refs,
                        empties, xtra)
    if k == 'o':
        return gen_obj(d, tables, ty[1], budget, refs, empties, xtra)
    lo = 0 if empties else 1
    if k == 'l':
        n = d.int(lo, 3 if budget[0] > 0 else lo)
        return [gen_type(d, tables, ty[1], budget, refs, empties, xtra)
                for _ in range(n)]
    if k == 'm':
        ks = names(d, lo, 3 if budget[0] > 0 else lo)
        ks = [x for x in ks if x != '$ref']
        return {x: gen_type(d, tables, ty[1], budget, refs, empties, xtra)
                for x in ks}
    raise ValueError(ty)


def enc(tok):
    return tok.replace('~', '~0').replace('/', '~1')


def walk(tables, ty, val, toks=()):
    """every location of a typed JSON value: (tokens, type, value); the type of
    a `r`/`b` location is what the value turned out to be"""
    k = ty[0]
    if k == 'b':
        if isinstance(val, bool):
            yield toks, ('bool', ), val
            return
        for x in walk(tables, ty[1], val, toks):
            yield x
        return
    if k == 'r':
        ty = ('o', 'Reference') if '$ref' in val else ('o', ty[1])
    elif k == 'rc':
        ty = ('o', 'Reference') if '$ref' in val else ('m', ('o', 'PathItem'))
    k = ty[0]
    yield toks, ty, val
    if k == 'o':
        t = tables[ty[1]]
        for c in t.children:
            if val.get(c) is not None:
                for x in walk(tables, t.children[c], val[c], toks + (c, )):
                    yield x
    elif k == 'l':
        for i, e in enumerate(val):
            for x in walk(tables, ty[1], e, toks + (str(i), )):
                yield x
    elif k == 'm':
        for n, e in val.items():
            for x in walk(tables, ty[1], e, toks + (n, )):
                yield x


def canon(tables, ty, val):
    """what a dump has to keep of a typed value: defined, non-null fields;
    children without the empty containers that mean the same as absent ones"""
    k = ty[0]
    if k == 'b':
        return val if isinstance(val, bool) else canon(tables, ty[1], val)
    if k == 'r':
        ty = ('o', 'Reference') if '$ref' in val else ('o', ty[1])
    elif k == 'rc':
        ty = ('o', 'Reference') if '$ref' in val else ('m', ('o', 'PathItem'))
    k = ty[0]
    if k == 's':
        return val
    if k == 'l':
        return [canon(tables, ty[1], e) for e in val]
    if k == 'm':
        return {n: canon(tables, ty[1], e) for n, e in val.items()}
    t = tables[ty[1]]
    out = {}
    for f in t.fields:
        if val.get(f) is not None:
            out[f] = val[f]
    for c in t.children:
        if val.get(c) is None:
            continue
        x = canon(tables, t.children[c], val[c])
        if not isinstance(x, bool) and not x and \
                t.children[c][0] in ('l', 'm', 'rc') and c not in t.keep_empty:
            continue
        out[c] = x
    return out
