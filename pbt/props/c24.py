"""C24: each document is fetched once, and only those that are referenced"""
from collections import Counter

from core import Sub, check, same, sut
from gen import cases
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Sets of up to five Swagger 2.0 or OpenAPI 3.0 documents with references in every spelling (and of up to 70 small ones), some of the documents '
        'referenced by nothing, and Swagger 1.2 listings, served by a recording getter, directly or behind a load hook that redirects every URL. After loading and migrating, '
        'after migrating again and to other versions, and after looking up every reference by its absolute spelling, each '
        'document reachable through references (independent resolver, from the parts that are used) must have been '
        'fetched exactly once and no other. Non-trivial: two documents or more are reachable.')
ROOTS = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}


def reach(t, docs, root, cls):
    """documents used, and references to other documents seen on the way"""
    seen, used, out = set(), {root}, []
    todo = [(root, (), ('o', cls))]
    while todo:
        url, toks, ty = todo.pop()
        for _, want, ref in refs.places(t, ty, refs.at(docs[url], toks)):
            turl, ttoks = refs.split(url, ref)
            used.add(turl)
            if turl != root and (turl, ttoks, want) not in seen:
                seen.add((turl, ttoks, want))
                out.append(refs.join(turl, ttoks))
                todo.append((turl, ttoks, want))
    return used, out


def counted(loads, used, when):
    n = Counter(loads)
    twice = sorted(u for u in n if n[u] > 1)
    check(not twice, 'a document is fetched more than once', when=when, which=twice)
    same(sorted(n), sorted(used), 'the documents fetched are not those referenced',
         when=when)


def again(app, root):
    """loading what is loaded gives the object that was loaded"""
    with sut('loading again'):
        obj = app.load_obj(root)
    check(obj is app.raw, 'a loaded document was parsed again')


MIRROR = 'http://mirror.example/get/'


def served(docs, loads, hooked):
    """resolver for these documents, perhaps behind a load hook"""
    if not hooked:
        return A.mem_resolver(docs, loads), lambda us: us
    return (A.mem_resolver({MIRROR + u: v for u, v in docs.items()}, loads,
                           hook=lambda u: MIRROR + u),
            lambda us: {MIRROR + u for u in us})


def fresh(docs, root, used, version, loads):
    """more schemas of documents that are there, and getters for them"""
    from pyopenapi.migration.getter import DictGetter
    if version == '2.0':
        from pyopenapi.migration.versions.v2_0.objects import Schema as parser
    else:
        from pyopenapi.migration.versions.v3_0_0.objects import SchemaOrReference as parser

    class Again(DictGetter):
        def load(self, path):
            loads.append(path)
            return super(Again, self).load(path)

    for url in sorted(used - {root}):
        if not isinstance(docs[url], dict) or 'type' in docs[url]:
            continue
        for sec in ('definitions', 'schemas'):
            part = docs[url].get(sec)
            if isinstance(part, dict) and 'type' not in part:
                for name in sorted(part)[:2]:
                    yield (refs.join(url, (sec, name)), parser,
                           Again([url], {url: docs[url]}))


def run_for(version):
    def run(case, cx):
        docs, root = case['docs'], case['root']
        t = tables.TABLES[version]
        used, others = reach(t, docs, root, ROOTS[version])
        loads = []
        resolver, at = served(docs, loads, case['hook'])
        if case['hook']:
            cx.label('load hook')
        with sut('loading'):
            app = A.load_app(None, root, resolver=resolver)
        counted(loads, at({root}), 'loaded')
        again(app, root)
        to = case['to']
        with sut('migrating'):
            app.root = app.migrate_obj(app.raw, root, to)
        counted(loads, at(used), 'migrated to ' + to)
        for ref in others:
            with sut('looking up %s' % ref):
                app.resolve_obj(ref, version, to_spec_version=to)
        counted(loads, at(used), 'every reference was looked up')
        with sut('migrating again'):
            app.migrate_obj(app.raw, root, to)
            if to != '3.0.0':
                app.migrate_obj(app.raw, root, '3.0.0')
        counted(loads, at(used), 'migrated again')
        again(app, root)
        counted(loads, at(used), 'loaded again')
        for ref, parser, getter in fresh(docs, root, used, version, loads):
            with sut('loading %s with a getter of its own' % ref):
                app.load_obj(ref, parser=parser, getter=getter)
            cx.label('part with a getter of its own')
        counted(loads, at(used), 'parts of these documents were loaded')
        cx.nontrivial(len(used) > 1)
        cx.label('%s documents used' % (len(used) if len(used) < 10 else '10 or more'))
        if len(used) < len(docs):
            cx.label('unused documents')
    return run


def run12(case, cx):
    docs, root = case['docs'], case['root']
    loads = []
    resolver, at = served(docs, loads, case['hook'])
    with sut('loading'):
        app = A.load_app(None, root, sep=case['sep'], resolver=resolver)
    counted(loads, at(set(docs)), 'loaded')
    again(app, root)
    with sut('migrating'):
        app.root = app.migrate_obj(app.raw, root, '2.0')
        app.migrate_obj(app.raw, root, '3.0.0')
    counted(loads, at(set(docs)), 'migrated')
    again(app, root)
    counted(loads, at(set(docs)), 'loaded again')
    cx.nontrivial(len(docs) > 1)


def gen(d, version):
    if version == '2.0':
        case = gen2.make(d, path_refs=True, focus=d.pick(['refs', 'paths']))
        case['to'] = d.pick(['2.0', '3.0.0'])
    else:
        case = gen3.make(d, focus=d.pick([None, 'paths']))
        case['to'] = '3.0.0'
    case['hook'] = d.flag(1, 3)
    return case


def gen_12(d):
    return dict(gen12.make(d), hook=d.flag(1, 3))


def gen_many(d):
    """many small documents that refer to each other"""
    version = d.pick(['2.0', '3.0.0'])
    n = d.pick([3, 9, 20, 40, 70])
    urls = ['http://h%d.example/%s%d.json' % (i % 3 if d.flag(1, 4) else 0,
                                              d.pick(['', 'a/', 'a/b/']), i)
            for i in range(n)]
    root = 'http://h0.example/swagger.json'
    docs = {}
    for i, url in enumerate(urls):
        docs[url] = {'A': {'type': 'string'}, 'B': {'type': 'integer'}}
        for k in ('C', 'D'):
            if d.flag(1, 2):
                docs[url][k] = {'type': 'array', 'items': {
                    '$ref': d.pick(urls) + '#/' + d.pick('ABAB')}}
    defs = {}
    for i in range(d.int(1, 2 * n)):
        url = d.pick(urls)
        defs['S%d' % i] = {'$ref': url + '#/' + d.pick(sorted(docs[url]))}
    docs[root] = {'info': {'title': 't', 'version': '1'}, 'paths': {}}
    if version == '2.0':
        docs[root].update(swagger='2.0', definitions=defs)
    else:
        docs[root].update(openapi='3.0.0', components={'schemas': defs})
    return {'docs': docs, 'root': root, 'to': '3.0.0', 'hook': d.flag(1, 3),
            'version': version}


def run_many(case, cx):
    run_for(case['version'])(case, cx)


SUBS = [Sub('2.0', lambda: cases(gen, '2.0'), run_for('2.0'), quick=700, thorough=14000),
        Sub('3.0', lambda: cases(gen, '3.0.0'), run_for('3.0.0'), quick=500, thorough=10000),
        Sub('1.2', lambda: cases(gen_12), run12, quick=200, thorough=3000),
        Sub('many', lambda: cases(gen_many), run_many, quick=150, thorough=2500)]
