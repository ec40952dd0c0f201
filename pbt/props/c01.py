from core import Sub, check, same, sut, must_raise
from gen import cases, name, names, word, anyval, enc

RULE = ('Lists of tokens drawn from plain names, names holding "/", "~", "~0", '
        '"~1", blanks, digits and non-ASCII characters, and random text; '
        'non-trivial when a token needs escaping or there are two or more '
        'tokens.')

PIECES = ['/', '~', '~0', '~1', '~01', '~10', 'a', 'b', '', '0', ' ', u'\u00e9', '~~', '//', '#']


def token(d):
    k = d.int(0, 3)
    if k == 0:
        return name(d)
    if k == 1:
        return word(d)
    return ''.join(d.pick(PIECES) for _ in range(d.int(1, 5)))


def dec(tok):
    out, i = '', 0
    while i < len(tok):
        if tok[i] == '~' and i + 1 < len(tok) and tok[i + 1] in '01':
            out += '~/'[int(tok[i + 1])]
            i += 2
        else:
            out += tok[i]
            i += 1
    return out


def g_round(d):
    base = d.pick([None, '#', '#/definitions', '#/paths/~1a~1{b}', '#/a~0b',
                   'http://x.com/swagger.json#/definitions', ''])
    return {'base': base, 'toks': [token(d) for _ in range(d.int(1, 5))]}


def r_round(c, cx):
    from pyopenapi.utils import jp_compose, jp_split
    base, toks = c['base'], c['toks']
    cx.nontrivial(len(toks) > 1 or any('/' in t or '~' in t for t in toks))
    want = '/'.join(([base] if base else []) + [enc(t) for t in toks])
    with sut('jp_compose'):
        got = jp_compose(list(toks), base=base)
        step = base
        for t in toks:
            step = jp_compose(t, base=step)
        none = jp_compose(None, base=base)
        empty = jp_compose([], base=base)
    same(got, want, 'composed pointer is not RFC 6901', case=c)
    same(none, base, 'composing nothing changes the pointer')
    same(empty, base or '', 'composing no tokens changes the pointer')
    if base or toks[0] != '':
        same(step, got, 'composing one by one differs from composing a list')
    with sut('jp_split'):
        back = jp_split(got)
    if got:
        bt = [dec(t) for t in base.split('/')] if base else []
        same(back, bt + toks, 'split does not give the tokens back', jp=got)
        if base:
            check(got.startswith(base + '/'), 'base is not a prefix')
    # a list given by the caller stays as it was
    mine = list(toks)
    with sut('jp_compose'):
        jp_compose(mine, base=base)
    same(mine, toks, 'jp_compose changed the list it was given')


def g_split(d):
    return {'jp': '#' + ''.join('/' + enc(token(d)) for _ in range(d.int(0, 5))),
            'n': d.int(0, 4)}


def r_split(c, cx):
    from pyopenapi.utils import jp_compose, jp_split
    jp, n = c['jp'], c['n']
    cx.nontrivial('~' in jp)
    with sut('jp_split'):
        got = jp_split(jp)
        some = jp_split(jp, n)
        empty = (jp_split(''), jp_split(None))
    same([list(x) for x in empty], [[], []], 'an empty pointer has tokens')
    same(got, [dec(t) for t in jp.split('/')], 'split/decode', jp=jp)
    same(some, [dec(t) for t in jp.split('/', n)], 'split at most n times',
         jp=jp, n=n)
    with sut('jp_compose'):
        again = jp_compose(got[1:], base='#') if len(got) > 1 else '#'
    same(again, jp, 'compose(split(p)) != p')


def g_inj(d):
    a = [token(d) for _ in range(d.int(1, 4))]
    if d.flag(1, 2):
        b = [token(d) for _ in range(d.int(1, 4))]
    else:
        # near misses: join or split tokens at a separator
        b = []
        for t in a:
            if '/' in t and d.flag():
                b.extend(t.split('/'))
            elif d.flag(1, 3):
                b.append(t.replace('/', '~1'))
            elif d.flag(1, 3):
                b.append(t.replace('~1', '/'))
            elif d.flag(1, 3):
                b.append(t.replace('~', '~0'))
            else:
                b.append(t)
    return {'a': a, 'b': b}


def r_inj(c, cx):
    from pyopenapi.utils import jp_compose
    a, b = c['a'], c['b']
    cx.nontrivial(a != b)
    with sut('jp_compose'):
        x, y = jp_compose(list(a), base='#'), jp_compose(list(b), base='#')
    check((x == y) == (a == b), 'two different paths share a pointer',
          a=a, b=b, x=x, y=y)


SUBS = [
    Sub('compose_then_split', lambda: cases(g_round), r_round, 8000, 160000),
    Sub('split_then_compose', lambda: cases(g_split), r_split, 8000, 160000),
    Sub('injective', lambda: cases(g_inj), r_inj, 6000, 120000),
]
