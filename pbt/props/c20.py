"""C20: upgrading in one step = version by version"""
from core import Sub, clone, same, sut
from gen import canon, cases
from model23 import Model, OPENAPI, norm3
from bound import bindings
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 1.2 listings, Swagger 2.0 and OpenAPI 3.0 document sets. The document migrated directly to each later '
        'version is compared with the one obtained by migrating to the version in between, dumping, and loading and '
        'migrating that dump as a document of its own; and with the one obtained by migrating the intermediate object '
        'further in the same application. Migrating to the version a document has must give that document. '
        'Non-trivial: two versions apart, or at least one reference.')
SWAGGER = ('o', 'Swagger')


def migrate(docs, root, version, sep):
    with sut('migrating to %s' % version):
        app = A.create_app(docs, root, version, sep=sep)
        return app, app.root.dump()


def norm(version, doc, url):
    """absolute references, without what means the same as nothing"""
    if version == '3.0.0':
        return norm3(OPENAPI, doc, url)
    t = tables.V20
    return canon(t, SWAGGER, refs.absolute(t, SWAGGER, clone(doc), url))


def steps(docs, root, target, via, sep, cx):
    """direct, through a document, and through the object, have to agree"""
    app, direct = migrate(docs, root, target, sep)
    mid_app, mid = migrate(docs, root, via, sep)
    bound = [(a, a.root, v, bindings(a.root, v, root))
             for a, v in ((app, target), (mid_app, via))]
    docs2 = {u: d for u, d in docs.items() if u != root}
    docs2[root] = mid
    _, two = migrate(docs2, root, target, sep)
    direct = norm(target, direct, root)
    same(norm(target, two, root), direct,
         'migrating step by step gives another document', via=via, to=target)
    with sut('migrating the object of %s further' % via):
        obj = mid_app.migrate_obj(mid_app.root, root, target).dump()
    same(norm(target, obj, root), direct,
         'migrating an object further gives another document', via=via, to=target)
    with sut('migrating the loaded object directly after that'):
        obj = mid_app.migrate_obj(mid_app.raw, root, target).dump()
    same(norm(target, obj, root), direct,
         'migrating the loaded object after its intermediate version gives '
         'another document', via=via, to=target)
    with sut('migrating again in the same application'):
        again = app.migrate_obj(app.raw, root, target)
    same(norm(target, again.dump(), root), direct,
         'migrating again gives another document', to=target)
    for a, obj, v, was in bound:
        now = bindings(obj, v, root)
        same({'#'.join(k): list(x) for k, x in now.items()},
             {'#'.join(k): list(x) for k, x in was.items()},
             'the references of an object changed by migrating again', version=v)
    if any(len(b[3]) for b in bound):
        cx.label('objects with references used after migrating again')
    cx.label('%s via %s' % (target, via))
    return direct, mid


def run12(case, cx):
    docs, root, sep = case['docs'], case['root'], case['sep']
    cx.nontrivial(len(docs) > 1)
    direct, mid = steps(docs, root, '3.0.0', '2.0', sep, cx)
    # a dump leaves out what is empty
    mid = clone(mid)
    mid.setdefault('paths', {})
    mid.setdefault('info', {})
    for s in mid.get('securityDefinitions', {}).values():
        if s.get('flow') == 'access_code':
            s['flow'] = 'accessCode'
    same(direct, norm3(OPENAPI, Model({root: mid}, root).convert(), root),
         'the document of 3.0 is not what its document of 2.0 says')
    app, got = migrate(docs, root, '1.2', sep)
    want = canon(tables.V12, ('o', 'ResourceListing'), docs[root])
    same(got, want, 'migrating to its own version changed the document')
    with sut('migrating the object of 1.2 further'):
        obj = app.migrate_obj(app.root, root, '2.0').dump()
    same(norm('2.0', obj, root),
         norm('2.0', migrate(docs, root, '2.0', sep)[1], root),
         'migrating an object further gives another document', to='2.0')


def run2(case, cx):
    docs, root = case['docs'], case['root']
    cx.nontrivial(any(True for _ in refs.places(tables.V20, SWAGGER, docs[root])))
    steps(docs, root, '3.0.0', '2.0', '!##!', cx)
    _, got = migrate(docs, root, '2.0', '!##!')
    same(norm('2.0', got, root), norm('2.0', docs[root], root),
         'migrating to its own version changed the document')


def run3(case, cx):
    docs, root = case['docs'], case['root']
    cx.nontrivial(any(True for _ in refs.places(tables.V30, OPENAPI, docs[root])))
    app, got = migrate(docs, root, '3.0.0', '!##!')
    t = tables.V30

    def n(doc):
        return canon(t, OPENAPI, refs.absolute(t, OPENAPI, clone(doc), root))

    same(n(got), n(docs[root]),
         'migrating to its own version changed the document')
    with sut('migrating again'):
        again = app.migrate_obj(app.root, root, '3.0.0').dump()
    same(n(again), n(docs[root]), 'migrating again changed the document')


def g12():
    return cases(gen12.make)


def g2():
    return cases(gen2.make, path_refs=True)


def g3():
    return cases(gen3.make)


SUBS = [Sub('1.2', g12, run12, quick=500, thorough=10000),
        Sub('2.0', g2, run2, quick=300, thorough=6000),
        Sub('3.0', g3, run3, quick=300, thorough=6000)]
