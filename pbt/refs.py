"""Independent resolution of JSON references over a set of raw documents."""
from urllib.parse import urljoin


def untok(t):
    return t.replace('~1', '/').replace('~0', '~')


def split(base, ref):
    """(absolute url, tokens) of a reference in the document at `base`"""
    u, _, frag = ref.partition('#')
    url = urljoin(base, u) if u else base
    return url, tuple(untok(t) for t in frag.split('/')[1:])


def at(doc, toks):
    for t in toks:
        doc = doc[int(t)] if isinstance(doc, list) else doc[t]
    return doc


class Cycle(Exception):
    pass


def target(docs, base, ref):
    """(url, toks, value) of the object the reference names"""
    url, toks = split(base, ref)
    return url, toks, at(docs[url], toks)


def final(docs, base, val):
    """follow a chain of references to its end: (url, toks or None, value)"""
    seen = []
    toks = None
    while isinstance(val, dict) and '$ref' in val:
        base, toks, val = target(docs, base, val['$ref'])
        if (base, toks) in seen:
            raise Cycle()
        seen.append((base, toks))
    return base, toks, val


def enc(t):
    return t.replace('~', '~0').replace('/', '~1')


def join(url, toks):
    return url + '#' + ''.join('/' + enc(t) for t in toks)


def places(tables, ty, val, toks=()):
    """(tokens, type of what it has to name, reference) of every reference of a
    typed value, path items that refer to another one included"""
    k = ty[0]
    if k == 'b':
        if not isinstance(val, bool):
            for x in places(tables, ty[1], val, toks):
                yield x
        return
    if k in ('r', 'rc'):
        if '$ref' in val:
            yield toks, ty, val['$ref']
            return
        ty = ('o', ty[1]) if k == 'r' else ('m', ('o', 'PathItem'))
        k = ty[0]
    if k == 'o':
        t = tables[ty[1]]
        if ty[1] in ('PathItem', 'Schema') and val.get('$ref'):
            yield toks, ty, val['$ref']
        for c in t.children:
            if val.get(c) is not None:
                for x in places(tables, t.children[c], val[c], toks + (c, )):
                    yield x
    elif k == 'l':
        for i, e in enumerate(val):
            for x in places(tables, ty[1], e, toks + (str(i), )):
                yield x
    elif k == 'm':
        for n, e in val.items():
            for x in places(tables, ty[1], e, toks + (n, )):
                yield x


def class_of(ty, val):
    """name of the class an object of this type has for this value; '' for maps"""
    if ty[0] in ('r', 'rc') and '$ref' in val:
        return 'Reference'
    return '' if ty[0] == 'rc' else ty[1]


def absolute(tables, ty, val, base):
    """the value with every reference made absolute"""
    for toks, _, ref in list(places(tables, ty, val)):
        at(val, toks)['$ref'] = join(*split(base, ref))
    return val
