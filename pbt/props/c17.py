"""C17: operations and parameters 1.2 -> 2.0"""
from core import Sub, same
from gen import cases
import conv12
import gen12

RULE = ('Swagger 1.2 listings with up to three resources (same or different resource paths, listing paths with or without '
        'extension, relative and absolute base paths), their operations with parameters of every location and type, '
        'formats, defaults, enums, limits as strings or numbers, allowMultiple, arrays, return types of every kind, '
        'consumes/produces at both levels. The operations of the result are compared with those of an independent '
        'converter over the raw JSON. Non-trivial: an operation with a parameter.')


def run(case, cx):
    up = conv12.Up(case)
    got, want = conv12.operations(up.got), conv12.operations(up.want)
    if len(case['docs']) > 2:
        cx.label('several resources')
    for item in want.values():
        for op in item.values():
            if op.get('parameters'):
                cx.nontrivial()
            for p in op.get('parameters', []):
                cx.label('in ' + p['in'])
                if p.get('type') == 'array':
                    cx.label('array')
                if 'minimum' in p or 'minimum' in p.get('items', {}):
                    cx.label('limits')
            if 'schema' in op['responses']['default']:
                cx.label('returns something')
    same(got, want, 'an operation is not the same any more')


def g():
    return cases(gen12.make)


SUBS = [Sub('listings', g, run, quick=1600, thorough=30000)]
