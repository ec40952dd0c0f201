import tables
from core import Sub, check, same, sut, must_raise, clone
from gen import cases, gen_obj, walk, enc, canon, name
from props.c09 import move

RULE = ('Histories of up to 25 store operations (set, get, get_under with and '
        'without removal, get_until, update_routes) over two documents in two '
        'versions of the specification, with objects at the root, at nested '
        'positions and at positions whose names are textual prefixes of one '
        'another; every answer is compared with a model of the history. '
        'Non-trivial when a stored object is found through an ancestor or '
        'after a removal.')

NAMES = ['Pet', 'PetStore', 'P', 'a/b', 'a', 'Pet/x', '~', '1', '10', '']


def retitle(d, s):
    out = {'title': d.pick(['u1', 'u2'])}
    if 'properties' in s:
        out['properties'] = {n: retitle(d, x) for n, x in s['properties'].items()}
    return out


def docs_for(d):
    """both versions of one document: the newer one has whatever the older one
    had, at the places where relocation puts it, and more"""
    old = doc(d, '2.0')
    new = doc(d, '3.0.0')
    new['components']['schemas'].update(
        {n: retitle(d, x) for n, x in old['definitions'].items()})
    new['paths'].update(clone(old['paths']))
    return {'2.0': old, '3.0.0': new}


def doc(d, version):
    def schema(depth):
        out = {'title': d.pick(['t1', 't2', 't3'])}
        if depth:
            out['properties'] = {n: schema(depth - 1)
                                 for n in d.some(NAMES, 0, 3)}
        return out

    defs = {n: schema(d.int(0, 2)) for n in d.some(NAMES, 1, 4)}
    defs.setdefault('Pet', schema(1))
    info = {'title': 'x', 'version': '1', 'license': {'name': 'L'},
            'contact': {'email': 'e'}}
    paths = {p: {'get': {'summary': 's', 'responses': {'200': {'description': 'd'}}}}
             for p in d.some(['/a', '/a/b', '/ab'], 0, 3)}
    if version == '2.0':
        return {'swagger': '2.0', 'info': info, 'definitions': defs, 'paths': paths}
    return {'openapi': '3.0.0', 'info': info, 'components': {'schemas': defs},
            'paths': paths}


VERS = ['2.0', '3.0.0']
ROOT = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}
URLS = ['http://a/x.json', 'http://a/x']


def g(d):
    docs = {u: docs_for(d) for u in URLS}
    locs = {}
    for u in URLS:
        for v in VERS:
            locs[u, v] = ['/'.join(('#', ) + tuple(enc(x) for x in t))
                          for t, ty, val in walk(tables.TABLES[v], ('o', ROOT[v]),
                                                 docs[u][v])
                          if ty[0] == 'o']
    ops = []
    for _ in range(d.int(1, 25)):
        u, v = d.pick(URLS), d.pick(VERS)
        if d.flag(2, 3):
            u, v = URLS[0], '2.0'
        jp = d.pick(locs[u, v])
        if d.flag(1, 4):
            jp = '#'
        k = d.int(0, 9)
        if k <= 3:
            ops.append(['set', u, v, jp])
        elif k <= 6:
            ops.append(['get', u, v, jp])
        elif k == 7:
            if d.flag(1, 2) and jp.count('/') > 1:
                jp = jp.rsplit('/', 1)[0]
            ops.append(['under', u, v, jp, d.flag()])
        elif k == 8:
            ops.append(['until', u, '2.0', jp if v == '2.0' else '#',
                        d.pick([None, '3.0.0', '2.0'])])
        else:
            ops.append(['routes', u, '3.0.0',
                        {d.pick(['#', '#/definitions/Pet']): d.pick([
                            {}, {'definitions': 'components/schemas'},
                            {'definitions': {'Pet': '#/components/schemas/Pet'}}])}])
    return {'docs': docs, 'ops': ops}


def toks_of(jp):
    return [x.replace('~1', '/').replace('~0', '~') for x in jp.split('/')[1:]]


def sub_of(doc_, toks):
    for t in toks:
        doc_ = doc_[int(t)] if isinstance(doc_, list) else doc_.get(t)
        if doc_ is None:
            return None
    return doc_


def is_prefix(a, b):
    return b == a or b.startswith(a + '/')


def run(c, cx):
    from pyopenapi.migration.store import SpecObjStore
    docs = c['docs']
    with sut('create'):
        store = SpecObjStore(migratable_spec_versions=list(VERS))
    types = {}
    for u in docs:
        for v in VERS:
            for t, ty, _ in walk(tables.TABLES[v], ('o', ROOT[v]), docs[u][v]):
                types[u, v, '/'.join(('#', ) + tuple(enc(x) for x in t))] = ty
    held = {}           # (url, version) -> {jp: object}
    known = set()
    routes = {}
    removed = False

    def candidates(u, v, jp):
        out = []
        for p, o in held.get((u, v), {}).items():
            if is_prefix(p, jp) and (u, v, jp) in types:
                out.append((p, o))
        return out

    def ask(u, v, jp, got, what):
        cands = candidates(u, v, jp)
        if not cands:
            check(got is None, '%s: found something that was never stored'
                  % what, url=u, version=v, jp=jp, held=sorted(held.get((u, v), {})))
            return
        if len(cands) == 1 and cands[0][0] != jp or removed:
            cx.nontrivial()
        rel = [toks_of(jp)[len(toks_of(p)):] for p, _ in cands]
        objs = []
        for (p, o), r in zip(cands, rel):
            with sut('resolve'):
                objs.append(o.resolve(list(r)))
        check(any(got is o for o in objs), '%s: not the stored object' % what,
              url=u, version=v, jp=jp, got=repr(got),
              held=sorted(held.get((u, v), {})))
        exact = held.get((u, v), {}).get(jp)
        if exact is not None and len(cands) == 1:
            check(got is exact, '%s: not the object stored last' % what, jp=jp)
        with sut('dump'):
            dumped = canon(tables.TABLES[v], types[u, v, jp], got.dump())
        same(dumped, canon(tables.TABLES[v], types[u, v, jp],
                           sub_of(docs[u][v], toks_of(jp))),
             '%s: content is not what the document has there' % what, jp=jp)

    for op in c['ops']:
        kind, u, v = op[0], op[1], op[2]
        cx.label(kind)
        if kind == 'set':
            jp = op[3]
            cls = getattr(tables.classes(v), types[u, v, jp][1])
            with sut('build'):
                obj = cls(clone(sub_of(docs[u][v], toks_of(jp))), jp)
            with sut('set'):
                store.set(obj, u, jp, v)
            held.setdefault((u, v), {})[jp] = obj
            known.add(u)
        elif kind == 'get':
            with sut('get'):
                got = store.get(u, op[3], v)
            ask(u, v, op[3], got, 'get')
            with sut('get'):
                check(store.get('http://a/x.jso', op[3], v) is None,
                      'found in another document')
        elif kind == 'under':
            jp, remove = op[3], op[4]
            with sut('get_under'):
                got = store.get_under(u, jp, v, remove=remove)
            want = {p[len(jp) + 1:]: o for p, o in held.get((u, v), {}).items()
                    if is_prefix(jp, p)}
            same(sorted(got or {}), sorted(want), 'get_under: positions',
                 jp=jp, held=sorted(held.get((u, v), {})))
            for k, o in want.items():
                check(got[k] is o, 'get_under: another object at %s' % k)
            if remove and want:
                removed = True
                for p in list(held[u, v]):
                    if is_prefix(jp, p):
                        del held[u, v][p]
        elif kind == 'routes':
            with sut('update_routes'):
                store.update_routes(u, v, op[3])
            routes.setdefault(u, {}).update(op[3])
        elif kind == 'until':
            jp, until = op[3], op[4]
            with sut('get_until'):
                got = store.get_until(u, jp, v, until=until)
            chain = [('2.0', jp)]
            if until != '2.0':
                chain.append(('3.0.0', move(jp, routes.get(u, {}))))
            want = (None, None, None)
            for ver, p in reversed(chain):
                if candidates(u, ver, p):
                    want = (True, p, ver)
                    break
            same([got[1], got[2]], [want[1], want[2]],
                 'get_until: position and version', jp=jp, until=until,
                 held={k: sorted(x) for k, x in
                       (('%s %s' % kk, vv) for kk, vv in held.items())})
            if want[0]:
                ask(u, want[2], want[1], got[0], 'get_until')
            else:
                check(got[0] is None, 'get_until found something')
    must_raise('store something that is not an object',
               lambda: store.set({'a': 1}, URLS[0], '#', '2.0'))
    must_raise('remove everything', lambda: store.get_under(URLS[0], '', '2.0'))


SUBS = [Sub('histories', lambda: cases(g), run, 4000, 60000)]
