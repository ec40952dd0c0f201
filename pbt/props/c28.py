from core import Sub, check, same, sut, must_raise
from gen import cases

RULE = ('Random dictionaries of scoped names (scopes of one to four parts, '
        'parts that are suffixes of one another, three separators) and keys '
        'given as a full name, a tail, a tuple of parts or something absent; '
        'non-trivial when the key is not a full name.')

PARTS = ['a', 'b', 'ab', 'get', 'something-get', 'User', 'getUser', 'rUser', 'x',
         '', 'a.b', u'\u00e9']
SEPS = ['!##!', '!', ':']


def g(d):
    sep = d.pick(SEPS)
    n = d.int(1, 6)
    ks = []
    for _ in range(n):
        k = [d.pick(PARTS[:9]) for _ in range(d.int(1, 4))]
        if k not in ks:
            ks.append(k)
    how = d.int(0, 3)
    if how == 0:
        key = d.pick(ks)
    elif how == 1:
        k = d.pick(ks)
        key = k[d.int(0, len(k) - 1):]
    else:
        key = [d.pick(PARTS[:9]) for _ in range(d.int(1, 3))]
    return {'sep': sep, 'keys': ks, 'key': key, 'as_tuple': d.flag(),
            'gap': d.flag(1, 6), 'lead': d.pick([None, None, None, '', 0])}


def run(c, cx):
    from pyopenapi.utils import ScopeDict
    sep = c['sep']
    full = {sep.join(k): i for i, k in enumerate(c['keys'])}
    key = sep.join(c['key'])
    with sut('build'):
        sd = ScopeDict(full)
        if sep != '!##!':
            sd.sep = sep
    arg = key
    if c['as_tuple']:
        arg = tuple(c['key'])
        # empty parts count for nothing, wherever they are
        if c['gap']:
            arg = arg + (None, )
        if c.get('lead') is not None:
            arg = ('' if c['lead'] == '' else None, ) + arg
            cx.label('empty_first_part')
    comp = [k for k in full if k.endswith(sep + key)]
    text = [k for k in full if k.endswith(key)]
    cx.nontrivial(key not in full)
    if key in full:
        cx.label('exact')
        with sut('exact key'):
            same(sd[arg], full[key], 'exact key', key=key, keys=sorted(full))
    elif len(comp) == 1:
        cx.label('tail')
        with sut('unique tail'):
            same(sd[arg], full[comp[0]], 'unique tail', key=key, keys=sorted(full))
    elif len(comp) > 1:
        cx.label('ambiguous')
        must_raise('ambiguous key %s in %s' % (key, sorted(full)),
                   lambda: sd[arg], ValueError)
    elif not text:
        cx.label('absent')
        must_raise('absent key %s in %s' % (key, sorted(full)),
                   lambda: sd[arg], KeyError)
    same({k: v for k, v in sd.items()}, full, 'reading changed the dictionary')


def g_scope(d):
    return {'sep': d.pick(SEPS),
            'parts': [d.pick([x for x in PARTS if x]) for _ in range(d.int(1, 5))]}


def r_scope(c, cx):
    from pyopenapi.utils import scope_compose, scope_split
    sep, parts = c['sep'], c['parts']
    cx.nontrivial(len(parts) > 1)
    with sut('scope_compose'):
        cur = None
        for p in parts:
            cur = scope_compose(cur, p, sep=sep)
        same(cur, sep.join(parts), 'composed scope')
        same(scope_split(cur, sep=sep), parts, 'split of a composed scope')
        same(scope_compose(cur, None, sep=sep), cur, 'no name')
        # a name may repeat its scope, or a part of it
        for name in (cur, parts[-1], parts[0] + sep + parts[-1], cur + sep + parts[0],
                     parts[0] + parts[-1]):
            for scope in (cur, parts[0], parts[-1]):
                full = scope_compose(scope, name, sep=sep)
                same(full, scope + sep + name, 'composed scope', scope=scope, name=name)
                same(scope_split(full, sep=sep), scope.split(sep) + name.split(sep),
                     'split of a composed scope', scope=scope, name=name)
        same(scope_compose('', parts[0], sep=sep), parts[0], 'empty scope')
        same(scope_compose(None, None, sep=sep), None, 'nothing')
        same(scope_split(None, sep=sep), [None], 'split of nothing')


SUBS = [
    Sub('lookup', lambda: cases(g), run, 12000, 200000),
    Sub('compose_split', lambda: cases(g_scope), r_scope, 4000, 40000),
]
