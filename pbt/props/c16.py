"""C16: references stay valid and equivalent, 2.0 -> 3.0"""
from core import Sub, check, same, sut
from gen import cases
from model23 import OPENAPI, norm3, ref_places
import conv23
import gen2
import refs

RULE = ('Sets of up to four Swagger 2.0 documents whose schemas, parameters, responses and path items refer to each other '
        'in any spelling (local, relative, absolute, to parts of schemas, to whole documents, through chains, in '
        'cycles), with names that are prefixes of each other or need escaping. Every reference of the result and of '
        'every object it reaches must name the counterpart of what the original named (independent converter), be '
        'bound to an object equal to it, and looking up the 2.0 reference in version 3.0 must give the same; bodies of path items are looked up too. '
        'Non-trivial: at least three references.')

ROOT_CLS = {'schemas': 'Schema', 'parameters': 'Parameter',
            'requestBodies': 'RequestBody', 'responses': 'Response'}
KIND = {'definitions': 'schema', 'parameters': 'parameter',
        'responses': 'response', 'paths': 'path'}


def real(obj):
    """the object behind a weak proxy"""
    return obj.get_path.__self__


def target(up, url, toks):
    """(class, value) a reference to `toks` (relocated) of `url` has to give"""
    if url == up.url:
        v = refs.at(up.want, toks)
        if toks[0] == 'paths':
            return 'PathItem', v
        return 'Reference' if '$ref' in v else ROOT_CLS[toks[1]], v
    kind = KIND[toks[0]] if toks else 'schema'
    cls, v = up.model.part(kind, url, toks)
    return cls, norm3(('o', cls), v, url)


def visit(up, obj, cls, url, want, seen, cx, depth):
    """references inside an object (or the root) at its expected value"""
    ty = ('o', cls)
    with sut('dump'):
        raw = obj.dump()
    got = {t: refs.join(*refs.split(url, r)) for t, _, r in ref_places(raw, ty)}
    exp = {t: r for t, _, r in ref_places(want, ty)}
    same({'/'.join(t): r for t, r in got.items()},
         {'/'.join(t): r for t, r in exp.items()},
         'the references are not those of the original', document=url)
    for toks, ref in exp.items():
        with sut('finding the reference'):
            holder = obj.resolve(list(toks)) if toks else obj
            bound = holder.get_attrs('migration').ref_obj
        where = '%s at /%s' % (url, '/'.join(toks))
        check(bound is not None, 'a reference is not bound', at=where, ref=ref)
        turl, ttoks = refs.split(url, ref)
        tcls, tval = target(up, turl, ttoks)
        if len(ttoks) > (3 if turl == up.url else 2):
            cx.label('part of a schema')
        with sut('using a bound object'):
            bcls, bval = bound.__class__.__name__, bound.dump()
        check(bcls == tcls, 'a reference is bound to an object of another kind',
              at=where, ref=ref, got=bcls, want=tcls)
        same(norm3(('o', tcls), bval, turl), tval,
             'a reference is bound to another object', where=where, ref=ref)
        if turl == up.url:
            with sut('resolve in the root'):
                there = up.app.root.resolve(list(ttoks))
            check(real(bound) is there,
                  'a reference is bound to a copy of an object of the root document',
                  at=where, ref=ref)
        elif ref not in seen:
            seen.add(ref)
            cx.label('external target')
            visit(up, bound, tcls, turl, tval, seen, cx, depth + 1)


def run(case, cx):
    up = conv23.Up(case)
    conv23.case_labels(case, cx)
    n = len(list(ref_places(up.want)))
    cx.nontrivial(n >= 3)
    seen = set()
    visit(up, up.app.root, 'OpenApi', up.url, up.want, seen, cx, 0)
    # local references in the output document, by plain JSON
    for toks, _, ref in ref_places(up.dump):
        if ref.startswith('#'):
            _, t = refs.split(up.url, ref)
            try:
                there = refs.at(up.dump, t)
            except (KeyError, IndexError, ValueError, TypeError):
                check(False, 'a reference of the output names nothing', ref=ref)
            cls, want = target(up, up.url, t)
            same(norm3(('o', cls), there, up.url), want,
                 'a reference of the output names something else', ref=ref)
    # bodies of whole path items are kept beside their operations
    for k, item in sorted((up.docs[up.url].get('paths') or {}).items()):
        for i, p in enumerate(item.get('parameters') or []):
            u = up.url
            while '$ref' in p:
                u, t = refs.split(u, p['$ref'])
                p = refs.at(up.docs[u], t)
            if p['in'] not in ('body', 'formData'):
                continue
            cx.label('body of a path item')
            old = refs.join(up.url, ('paths', k, 'parameters', str(i)))
            with sut('resolve_obj(%s, 2.0 -> 3.0.0)' % old):
                obj, jref = up.app.resolve_obj(old, '2.0', to_spec_version='3.0.0')
                kind, val = obj.__class__.__name__, obj.dump()
                owner = obj.get_parent()
            check(kind == 'RequestBody',
                  'a body of a path item is looked up as something else', ref=old, got=kind)
            check(owner is up.app.root.paths[k], 'it belongs to something else', ref=old)
            check(p['in'] == 'body' or any(
                p['name'] in x['schema'].get('properties', {})
                for x in val['content'].values()),
                'a form parameter is not part of the body it is looked up as', ref=old)
    # lookups by the 2.0 reference
    looked = set()
    for u, doc in sorted(up.docs.items()):
        for toks, holder in raw_refs(doc):
            turl, ttoks = refs.split(u, holder)
            new = up.model.reloc(turl, ttoks)
            key = refs.join(turl, new)
            if key in looked or not (turl == up.url or key in seen):
                continue
            looked.add(key)
            old = refs.join(turl, ttoks)
            with sut('resolve_obj(%s, 2.0 -> 3.0.0)' % old):
                obj, jref = up.app.resolve_obj(old, '2.0',
                                               to_spec_version='3.0.0')
                val = obj.dump()
            cls, want = target(up, turl, new)
            same(norm3(('o', cls), val, turl), want,
                 'looking up a 2.0 reference gives another object', ref=old)
            check(refs.join(*refs.split(up.url, jref)) == key,
                  'looking up a 2.0 reference reports another place',
                  ref=old, got=jref, want=key)
            with sut('resolve_obj(%s, 3.0.0)' % key):
                again, _ = up.app.resolve_obj(key, '3.0.0') \
                    if turl == up.url else (obj, None)
            check(real(again) is real(obj),
                  'the 2.0 and the 3.0 reference give different objects', ref=old)


def raw_refs(val):
    """every string under a '$ref' key that is a reference by position"""
    from gen import walk
    import tables
    ty = ('o', 'Swagger') if set(val) & {
        'swagger', 'definitions', 'parameters', 'responses', 'paths'} \
        and 'type' not in val else ('o', 'Schema')
    for toks, t, v in walk(tables.V20, ty, val):
        if isinstance(v, dict) and t[0] == 'o' and v.get('$ref'):
            yield toks, v['$ref']


def g():
    return cases(gen2.make, path_refs=True)


def focus():
    return cases(gen2.make, focus='refs', path_refs=True)


SUBS = [Sub('references', focus, run, quick=900, thorough=20000),
        Sub('documents', g, run, quick=300, thorough=8000)]
