"""C21: a migrated document can be saved, loaded and migrated again"""
import json

from core import Sub, check, same, sut
from gen import cases, walk
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 1.2 listings, Swagger 2.0 and OpenAPI 3.0 documents migrated to every later version (and their own; '
        'then also with external documents). The dump, written as JSON, must load and migrate under the same URL as a '
        'document of the target version without change, its references must all be bound, its required fields must '
        'all be there, and it must say nothing its version does not define. Non-trivial: the dump has a reference or '
        'an operation.')
ROOT = {'2.0': ('o', 'Swagger'), '3.0.0': ('o', 'OpenApi')}


def reload_(docs, root, version, sep, cx, skip=()):
    with sut('migrating to %s' % version):
        app = A.create_app(docs, root, version, sep=sep)
        dump = app.root.dump()
    with sut('writing the dump as JSON'):
        text = json.dumps(dump)
    same(json.loads(text), dump, 'the dump is not plain JSON')
    t = tables.TABLES[version]
    n = 0
    for toks, ty, v in walk(t, ROOT[version], dump):
        if ty[0] != 'o':
            continue
        o = t[ty[1]]
        for f in sorted(o.required - set(v)):
            check((ty[1], f) in skip, 'a required field is missing in the dump',
                  at='/'.join(toks), field=f)
        for f in sorted(set(v) - set(o.fields) - set(o.children)):
            check(f.startswith('x-'), 'an undefined field in the dump',
                  at='/'.join(toks), field=f)
        n += ty[1] == 'Operation'
    docs2 = {u: d for u, d in docs.items() if u != root}
    docs2[root] = text
    with sut('loading the dump'):
        app2 = A.load_app(docs2, root)
        raw = app2.raw.dump()
    same(raw, dump, 'loading the dump gives another document')
    check(app2.original_spec_version == version,
          'the dump is not a document of the version migrated to',
          got=app2.original_spec_version)
    with sut('migrating the dump'):
        app2.root = app2.migrate_obj(app2.raw, root, version)
        again = app2.root.dump()
    same(again, dump, 'migrating the dump changes the document', version=version)
    m = 0
    for toks, _, ref in refs.places(t, ROOT[version], dump):
        m += 1
        with sut('a reference of the dump'):
            a = app.root.resolve(list(toks)).get_attrs('migration')
            b = app2.root.resolve(list(toks)).get_attrs('migration')
        check(b.ref_obj is not None, 'a reference of the dump is not bound', ref=ref)
        if a.ref_obj is None:
            continue
        with sut('what references are bound to'):
            x, y = a.ref_obj.dump(), b.ref_obj.dump()
        same(y, x, 'a reference of the dump is bound to another object', ref=ref)
    cx.nontrivial(n or m)
    cx.label('references' if m else 'no references')


def run12(case, cx):
    docs, root = case['docs'], case['root']
    info = docs[root].get('info')
    skip = [('Info', 'title')] if info is None else []
    if info and 'license' not in info:
        skip.append(('License', 'name'))
    reload_(docs, root, '2.0', case['sep'], cx, skip)
    reload_(docs, root, '3.0.0', case['sep'], cx, skip)


def run2(case, cx):
    reload_(case['docs'], case['root'], '2.0', '!##!', cx)


def run23(case, cx):
    reload_(case['docs'], case['root'], '3.0.0', '!##!', cx)


def run3(case, cx):
    reload_(case['docs'], case['root'], '3.0.0', '!##!', cx)


def g12():
    return cases(gen12.make)


def g2():
    return cases(gen2.make, path_refs=True)


def g23():
    return cases(gen2.make, path_refs=True, ext=False)


def g3():
    return cases(gen3.make)


SUBS = [Sub('1.2', g12, run12, quick=500, thorough=10000),
        Sub('2.0', g2, run2, quick=300, thorough=6000),
        Sub('2.0 to 3.0', g23, run23, quick=400, thorough=8000),
        Sub('3.0', g3, run3, quick=300, thorough=6000)]
