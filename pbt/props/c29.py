from core import Sub, check, same, sut, clone
from gen import cases, enc, word, names

RULE = ('Pairs of JSON values (nested dictionaries, lists of one type, lists of lists), one '
        'derived from the other by reordering and up to three edits, with '
        'include and exclude sets; compared with an independent differ. '
        'Non-trivial when the pair differs below the top or a list is '
        'reordered.')
ASSUMPTIONS = ['lists hold values of one type (mixed lists are refused by the '
               'function); true and 1, or false and 0, never meet, nor do 1 and 1.0 in lists']
KEYS = ['a', 'b', 'c', 'a/b', '~', 'x', '0', '$ref']


# no number is equal to a boolean in Python
NUMS = [2, 3, 4, 10, 11, 100, -7, 10 ** 20]
ODD = [None, True, False, 0.5, -2.5, 1e30, 1e-12, 0.3, 0.1 + 0.2, u'\u00e9', 'A', '10', '9']


def plain(d, n):
    """a list of plain values of one kind"""
    kind = d.pick('sssnnbfu')
    pool = {'s': ['x', 'y', 'z', '', 'A', '10', '9'], 'n': NUMS, 'b': [True, False],
            'f': [0.5, -2.5, 1e30, 0.3, 0.1 + 0.2, 1e-12, 2e-12], 'u': [None]}[kind]
    return [d.pick(pool) for _ in range(n)]


def val(d, depth):
    k = d.int(0, 8 if depth else 2)
    if k == 0:
        return d.pick(NUMS) if d.flag(1, 2) else d.pick(ODD)
    if k == 7:
        return plain(d, d.int(0, 14))
    if k == 8:
        # the order of lists of lists matters
        kind = d.int(0, 1)
        return [plain(d, d.int(0, 3)) if kind else
                [{x: val(d, 0) for x in d.some(KEYS, 0, 2)} for _ in range(d.int(0, 2))]
                for _ in range(d.int(0, 3))]
    if k <= 2:
        return d.pick(['x', 'y', '', 'z', 'a'])
    if k <= 4:
        return {x: val(d, depth - 1) for x in d.some(KEYS, 0, 4)}
    if k == 5:
        kind = d.int(0, 1)
        return [d.pick(NUMS) if kind else d.pick(['x', 'y', 'z', ''])
                for _ in range(d.int(0, 4))]
    return [{x: val(d, depth - 1) for x in d.some(KEYS, 0, 3)}
            for _ in range(d.int(0, 3))]


def like(d, v):
    """something that looks like this value"""
    if isinstance(v, str):
        if v.lstrip('-').isdigit() and d.flag(1, 2):
            return int(v)
        return d.pick([v + ' ', ' ' + v, v.upper(), v.lower(), v + v, [v], {v: v}, repr(v),
                       None, False, v + u'\u0301', v[:-1]])
    if isinstance(v, float) and d.flag(1, 2):
        return d.pick([v * (1 + 1e-13), v + 1e-10, v + 0.5, -v])
    return d.pick([str(v), repr(v) + ' ', [v], {str(v): v}, None, '',
                   -v if isinstance(v, float) or type(v) is int else 'None'])


def places(v, acc):
    acc.append(v)
    for x in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else []):
        if isinstance(x, (dict, list)):
            places(x, acc)
    return acc


def g(d):
    a = {x: val(d, 3) for x in d.some(KEYS, 0, 5)}
    if d.flag(1, 8):
        a = val(d, 3)
    b = clone(a)
    for _ in range(d.int(0, 3)):
        ps = [p for p in places(b, []) if isinstance(p, (dict, list))]
        if not ps:
            break
        p = d.pick(ps)
        if isinstance(p, dict):
            if p and d.flag(2, 3):
                k = d.pick(sorted(p))
                if d.flag(1, 4):
                    del p[k]
                elif not isinstance(p[k], (dict, list)) and d.flag(1, 2):
                    p[k] = like(d, p[k])
                else:
                    p[k] = val(d, 1)
            else:
                p[d.pick(KEYS)] = val(d, 1)
        elif p and not isinstance(p[0], dict):
            j = d.int(0, 3) if isinstance(p[0], (int, str)) and not isinstance(
                p[0], bool) else d.int(0, 1)
            if j == 0:
                p.reverse()
            elif j == 1:
                p.pop(d.int(0, len(p) - 1))
            elif isinstance(p[0], int):
                p[d.int(0, len(p) - 1)] = d.pick(NUMS)
            else:
                p[d.int(0, len(p) - 1)] = d.pick(['x', 'y', 'q'])
        elif p:
            p.pop(d.int(0, len(p) - 1))
    mode = d.pick(['', '', 'i', 'e', 'ie'])
    return {'a': a, 'b': b,
            'include': d.some(KEYS, 3 if mode == 'ie' else 1) if 'i' in mode else None,
            'exclude': d.some(KEYS, 1, 3) if 'e' in mode else None}


def model(a, b, inc, exc, path, out):
    def j(k):
        return (path + '/' if path else '') + enc(k)

    if isinstance(a, dict):
        if not isinstance(b, dict):
            out.append([path, 'dict', type(b).__name__])
            return
        ka = {k for k in a if (not inc or k in inc) and k not in (exc or [])}
        kb = {k for k in b if (not inc or k in inc) and k not in (exc or [])}
        for k in sorted(ka | kb):
            if k in ka and k in kb:
                model(a[k], b[k], inc, exc, j(k), out)
            else:
                out.append([j(k), None, None])
    elif isinstance(a, list):
        if not isinstance(b, list):
            out.append([path, 'list', type(b).__name__])
        elif len(a) != len(b):
            out.append([path, len(a), len(b)])
        elif a:
            kinds = [int if isinstance(x[0], bool) else type(x[0]) for x in (a, b)]
            if kinds[0] is not kinds[1]:
                out.append([path, str(type(a[0])), str(type(b[0]))])
                return
            if not isinstance(a[0], (dict, list)) and a[0] is not None:
                a, b = sorted(a), sorted(b)
            for i, (x, y) in enumerate(zip(a, b)):
                model(x, y, inc, exc, j(str(i)), out)
    elif a != b:
        out.append([path, a, b])


def run(c, cx):
    from pyopenapi.utils import compare_container
    a, b = c['a'], c['b']
    ca, cb = clone(a), clone(b)
    want = []
    model(a, b, c['include'], c['exclude'], '', want)
    cx.label('differ' if want else 'same')
    cx.nontrivial(any('/' in w[0] for w in want) or (not want and a != b))
    with sut('compare_container'):
        got = compare_container(a, b, include=c['include'], exclude=c['exclude'])

    def key(x):
        return repr(x)

    same(sorted([list(x) for x in got], key=key), sorted(want, key=key),
         'differences')
    same([a, b], [ca, cb], 'comparing changed its arguments')
    with sut('compare_container'):
        same([list(x) for x in compare_container(a, clone(a))], [],
             'a value differs from its copy')
        back = compare_container(b, a, include=c['include'], exclude=c['exclude'])
    same(sorted({x[0] for x in back}), sorted({x[0] for x in got}),
         'the other way round finds other places')


SUBS = [Sub('against_model', lambda: cases(g), run, 10000, 150000)]
