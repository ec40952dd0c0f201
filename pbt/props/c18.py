"""C18: models 1.2 -> 2.0"""
from core import Sub, check, same, sut
from gen import cases, walk
import conv12
import gen12
import refs
import tables

RULE = ('Swagger 1.2 listings whose models (names that need escaping, the same name in different resources, sub types with one or several '
        'bases, properties of every type) are used as body, return type, item and property type, with random separators. '
        'Definitions are compared with those of an independent converter; every reference of the result must name an '
        'existing definition, be the one of the model named in that resource, and be bound to that very object. '
        'Non-trivial: at least one reference to a model.')


def ref_places(doc):
    return {'/'.join(t): v['$ref']
            for t, _, v in walk(tables.V20, ('o', 'Swagger'), doc)
            if isinstance(v, dict) and isinstance(v.get('$ref'), str)}


def run(case, cx):
    up = conv12.Up(case)
    same(up.got.get('definitions', {}), up.want.get('definitions', {}),
         'the definitions are not those of the models')
    same(ref_places(up.got), ref_places(up.want),
         'the references are not those of the original')
    for s in up.want.get('definitions', {}).values():
        if 'allOf' in s:
            cx.label('sub type')
    if up.sep != gen12.SEPS[0]:
        cx.label('separator')
    for toks, _, v in walk(tables.V20, ('o', 'Swagger'), up.dump):
        if not isinstance(v, dict) or not isinstance(v.get('$ref'), str):
            continue
        cx.nontrivial()
        _, t = refs.split('', v['$ref'])
        with sut('resolving a reference'):
            there = up.app.root.resolve(list(t))
            bound = up.app.root.resolve(list(toks)).get_attrs('migration').ref_obj
            found, _ = up.app.resolve_obj(up.url + v['$ref'], '2.0')
        check(len(t) == 2 and t[0] == 'definitions' and
              there.__class__.__name__ == 'Schema',
              'a reference does not name a definition', ref=v['$ref'])
        for x in (bound, found):
            check(x is not None and x.get_path.__self__ is there,
                  'a reference is bound to something else', ref=v['$ref'])


def g():
    return cases(gen12.make)


SUBS = [Sub('models', g, run, quick=1600, thorough=30000)]
