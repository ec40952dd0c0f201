from core import Sub, check, same, sut, must_raise
from gen import cases

RULE = ('Random relocation tables for three versions (also with numbers of two digits): nested maps keyed '
        'by one or more pointer tokens, relative and absolute targets, keys '
        'that are textual prefixes of other tokens ("Pet"/"PetStore", '
        '"parameters/1"/"parameters/10"), several updates for several '
        'documents; random pointers below, beside and at the keys; compared '
        'with a token-wise model. Non-trivial when a route applies.')

TOKS = ['definitions', 'Pet', 'PetStore', 'paths', '~1a', '~1a~1b', 'parameters',
        '1', '10', 'a', 'ab', 'items', 'x~0y', 'properties']
# versions are compared number by number
LINES = [['2.0', '3.0.0', '3.1.0'], ['2.0', '3.0.0', '3.1.0'], ['2.0', '3.0.0', '10.0'],
         ['2.9.9', '2.10.0', '2.11.0'], ['9.0', '10.0', '11.2']]


def key(d):
    return '/'.join(d.pick(TOKS) for _ in range(1 if d.flag(3, 4) else 2))


def target(d):
    t = '/'.join(d.pick(['components', 'schemas', 'Pet', 'a', 'requestBodies', 'z'])
                 for _ in range(d.int(1, 3)))
    return ('#/' if d.flag(1, 3) else '') + t


def table(d, depth):
    out = {}
    for _ in range(d.int(0, 4)):
        if depth and d.flag(1, 3):
            out[key(d)] = table(d, depth - 1)
        else:
            out[key(d)] = target(d)
    if d.flag(1, 6):
        out[''] = '#/' + target(d).lstrip('#/')
    return out


def pointer(d, tables_):
    # mostly along the keys of a table
    if tables_ and d.flag(5, 6):
        root, tab = d.pick(tables_)
        jp = root
        while isinstance(tab, dict) and tab and d.flag(7, 8):
            k = d.pick(sorted(tab))
            if k:
                jp += '/' + k
            tab = tab[k]
        if d.flag(1, 6):
            jp += 'X'       # textual, not a token
    else:
        jp = '#'
    for _ in range(d.int(0, 2)):
        jp += '/' + (d.pick(TOKS) if d.flag(7, 8) else '')
    return jp


def g(d):
    vers = d.pick(LINES)
    ups = []
    tabs = []
    for _ in range(d.int(1, 4)):
        ver = d.pick(vers[1:])
        routes = {}
        for _ in range(d.int(1, 2)):
            root = d.pick(['#', '#', '#/definitions/Pet', '#/a'])
            tab = target(d) if d.flag(1, 6) else table(d, 2)
            if isinstance(tab, str) and not tab.startswith('#'):
                tab = '#/' + tab
            routes[root] = tab
            tabs.append([root, tab])
        ups.append([d.pick(['http://a/x.json', 'http://a/y.json']), ver, routes])
    a, b, c = vers
    return {'updates': ups, 'versions': vers,
            'asks': [[d.pick(['http://a/x.json', 'http://a/x.json',
                              'http://a/y.json', 'http://b/z']),
                      pointer(d, tabs)] + list(d.pick([
                          (a, b), (a, c), (b, c), (a, a), (b, b), (a, b)]))
                     for _ in range(d.int(1, 6))]}


def move(jp, routes):
    rem, cur, fixed = jp.split('/'), routes, []
    while True:
        best = None
        for k in cur:
            kt = k.split('/') if k else []
            if rem[:len(kt)] == kt and (best is None or len(kt) > len(best[0])):
                best = (kt, cur[k])
        if best is None:
            return jp
        kt, to = best
        if isinstance(to, dict):
            fixed, rem, cur = fixed + kt, rem[len(kt):], to
            continue
        head = to.split('/') if to.startswith('#') else fixed + to.split('/')
        return '/'.join(head + rem[len(kt):])


def run(c, cx):
    from pyopenapi.migration.store import SpecObjStore
    vers = c['versions']
    with sut('create'):
        store = SpecObjStore(migratable_spec_versions=list(vers))
    model = {}
    for url, ver, routes in c['updates']:
        with sut('update_routes'):
            store.update_routes(url, ver, routes)
        model.setdefault(url, {}).setdefault(ver, {}).update(routes)
    for url, jp, lo, hi in c['asks']:
        want = jp
        for ver in vers[vers.index(lo) + 1:vers.index(hi) + 1]:
            want = move(want, model.get(url, {}).get(ver, {}))
        cx.nontrivial(want != jp)
        cx.label('moved' if want != jp else 'stays')
        with sut('relocate'):
            got = store.relocate(url, jp, lo, hi)
        same(got, want, 'relocated pointer', url=url, jp=jp, from_=lo, to=hi,
             routes=model.get(url))
    url = c['updates'][0][0]
    must_raise('relocate to an unknown version',
               lambda: store.relocate(url, '#', vers[0], '9.9'))
    must_raise('routes to an unknown version',
               lambda: store.update_routes(url, '9.9', {}))


SUBS = [Sub('against_model', lambda: cases(g), run, 16000, 250000)]
