"""C32: a part migrated by itself is what it is within its document"""
from core import Sub, check, clone, same, sut
from gen import canon, cases, walk
from model23 import Model, norm3
import app as A
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 2.0 and OpenAPI 3.0 document sets that are loaded but not migrated, and sequences of up to six lookups in '
        'version 3.0 of parts of them: info, license, schemas, parameters, responses, path items and references, '
        'wherever they are in the root document, and those of the other documents (some of them one object as a whole) with their parser. Each must be what an '
        'independent converter makes of the part alone, references being those of the source; migrating the '
        'root document afterwards must give what it gives without these lookups. Non-trivial: two lookups or more.')
KIND = {'Schema': 'schema', 'PathItem': 'path', 'Parameter': 'parameter',
        'Response': 'response', 'Reference': None, 'Info': 'info', 'License': 'license'}
SECTION = {'definitions': 'Schema', 'parameters': 'Parameter',
           'responses': 'Response', 'paths': 'PathItem'}
SECTION3 = {'schemas': 'Schema', 'parameters': 'Parameter', 'responses': 'Response',
            'headers': 'Header', 'examples': 'Example', 'requestBodies': 'RequestBody',
            'links': 'Link'}


def gen(d, version):
    if version == '2.0':
        case = gen2.make(d, path_refs=True, focus=d.pick(
            [None, 'refs', 'paths', 'schema', 'request', 'response', 'rest']))
        t, top = tables.V20, 'Swagger'
    else:
        case = gen3.make(d, focus=d.pick([None, 'paths']))
        t, top = tables.V30, 'OpenApi'
    locs = {}
    for url, doc in sorted(case['docs'].items()):
        if url == case['root']:
            for toks, ty, v in walk(t, ('o', top), doc):
                if toks and ty[0] == 'o' and (version == '3.0.0' or ty[1] in KIND):
                    locs.setdefault(ty[1], []).append([url, list(toks), ty[1]])
        else:
            for s, cls in (SECTION if version == '2.0' else SECTION3).items():
                if isinstance(doc.get(s), dict) and 'type' not in doc:
                    for k in doc[s]:
                        locs.setdefault('other ' + cls, []).append([url, [s, k], cls])
    # documents that are one object as a whole
    for toks, want, ref in refs.places(t, ('o', top), case['docs'][case['root']]):
        url, toks = refs.split(case['root'], ref)
        if not toks and want[1] in (SECTION if version == '2.0' else SECTION3).values():
            locs.setdefault('whole', []).append([url, [], want[1]])
            if want[1] == 'Schema' and '$ref' not in case['docs'][url] and d.flag(1, 3):
                # that refers to itself
                case['docs'][url].setdefault('properties', {})['self'] = {'$ref': '#'}
    case['ops'] = []
    for _ in range(d.int(1, 6)):
        if not locs:
            break
        url, toks, cls = d.pick(locs[d.pick(sorted(locs) + ['whole'] * (3 * ('whole' in locs)))])
        case['ops'].append([url, toks, cls, d.pick(['resolve', 'resolve', 'migrate'])])
    # what is inside of a migrated path item is found there, as a part of it
    case['ops'].sort(key=lambda o: o[2] == 'PathItem')
    return case


def parser(version, cls):
    """what the library parses such a part of another document with"""
    if version == '2.0':
        from pyopenapi.migration.versions.v2_0 import objects
        if cls in ('Schema', 'PathItem'):
            return getattr(objects, cls)
    else:
        from pyopenapi.migration.versions.v3_0_0 import objects
    return getattr(objects, cls + 'OrReference')


def stay(got, src, jref):
    """references within the document are still written that way"""
    def go(g, s):
        if isinstance(s, dict) and isinstance(g, dict):
            for k in s:
                if k == '$ref' and isinstance(s[k], str) and s[k].startswith('#'):
                    same(g.get(k), s[k], 'a reference within the document is another one',
                         part=jref)
                elif k in g:
                    go(g[k], s[k])
        elif isinstance(s, list) and isinstance(g, list):
            for x, y in zip(g, s):
                go(x, y)
    go(got, src)


def early(case, version, cx):
    """the application, after these lookups"""
    docs, root = case['docs'], case['root']
    app = A.load_app(docs, root)
    model = Model(docs, root)
    # nothing is moved before the root document is migrated
    model.reloc = lambda url, toks: toks
    t = tables.TABLES[version]
    for url, toks, cls, how in case['ops']:
        jref = refs.join(url, toks)
        more = {} if url == root else {'parser': parser(version, cls)}
        with sut('looking up %s' % jref):
            if how == 'resolve':
                obj, _ = app.resolve_obj(jref, version, to_spec_version='3.0.0', **more)
            else:
                cx.label('migrated by itself')
                obj = app.load_obj(jref, **more) if more else app.raw.resolve(list(toks))
                obj = app.migrate_obj(obj, jref, '3.0.0')
            got, name = clone(obj.dump()), obj.__class__.__name__
        src = refs.at(docs[url], toks)
        if version == '3.0.0' or cls in ('Schema', 'Reference'):
            stay(got, src, jref)
        if version == '3.0.0':
            kind = 'Reference' if '$ref' in src and cls != 'PathItem' else cls
            ty = ('o', kind)
            got = canon(t, ty, refs.absolute(t, ty, got, url))
            want = canon(t, ty, refs.absolute(t, ty, clone(src), url))
            if kind == 'Reference':
                got, want = [{'$ref': refs.join(*refs.split(url, v['$ref']))}
                             for v in (got, want)]
        else:
            if cls in ('Info', 'License'):
                kind = cls
                want = model.convert()['info']
                want = want if cls == 'Info' else want['license']
            else:
                kind, want = model.part(KIND[cls] or 'schema', url, toks)
            got = norm3(('o', kind), got, url)
            want = norm3(('o', kind), want, url)
            cx.label(cls)
        same(name, kind, 'a part becomes an object of another kind', part=jref)
        same(got, want, 'a part migrated alone says something else', part=jref)
        if url != root:
            cx.label('other document' if toks else 'other document as a whole')
    return app


def run_for(version):
    def run(case, cx):
        docs, root = case['docs'], case['root']
        app = early(case, version, cx)
        with sut('migrating without lookups'):
            want = A.create_app(docs, root, '3.0.0').root.dump()
        with sut('migrating the document'):
            got = app.migrate_obj(app.raw, root, '3.0.0').dump()
        cx.nontrivial(len(case['ops']) > 1)
        same(got, want, 'migrating the document after lookups gives something else')
    return run


SUBS = [Sub('2.0', lambda: cases(gen, '2.0'), run_for('2.0'), quick=900, thorough=15000),
        Sub('3.0', lambda: cases(gen, '3.0.0'), run_for('3.0.0'), quick=500, thorough=9000)]
