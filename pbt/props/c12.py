"""C12: schemas 2.0 -> 3.0"""
from core import Sub, check, same
from gen import cases
from refs import enc
import conv23
import gen2
import tables

RULE = ('Sets of Swagger 2.0 documents (definitions, bodies and responses with schemas up to four levels deep: any '
        'keywords and values of the Schema Object, compositions, references local, external and to parts of schemas). '
        'The converted schemas are compared, each at its own place, with those of an independent converter over the '
        'raw JSON, references as absolute ones. Non-trivial: at least one schema with three keywords or a subschema.')


def rich(s):
    return isinstance(s, dict) and '$ref' not in s and (len(s) > 2 or any(
        k in s for k in tables.V30['Schema'].children))


def run(case, cx):
    up = conv23.Up(case)
    got, want = conv23.schemas(up.got), conv23.schemas(up.want)
    conv23.case_labels(case, cx)
    for k in want:
        if k.startswith('schemas/'):
            check(k in got, 'a definition is missing in components/schemas',
                  name=k[8:])
    for k in got:
        if k.startswith('schemas/'):
            check(k in want, 'a schema nobody defined in components/schemas',
                  name=k[8:])
    for k in sorted(want):
        if k in got:
            cx.nontrivial(rich(want[k]))
            if '$ref' in want[k]:
                cx.label('reference')
            same(got[k], want[k], 'the converted schema differs', place=k)
    for n, s in (case['docs'][case['root']].get('definitions') or {}).items():
        if '$ref' not in s:
            part = 'resolve_obj'
            jref = '%s#/definitions/%s' % (up.url, enc(n))
            obj, _ = up.app.resolve_obj(jref, '2.0', to_spec_version='3.0.0')
            got = conv23.norm3(('o', 'Schema'), obj.dump(), up.url)
            same(got, want['schemas/' + n],
                 '%s gives another schema' % part, name=n)


def generic():
    return cases(gen2.make, path_refs=True)


def focus():
    return cases(gen2.make, focus='schema')


SUBS = [Sub('schemas', focus, run, quick=900, thorough=20000),
        Sub('documents', generic, run, quick=300, thorough=8000)]
