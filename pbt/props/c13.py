"""C13: parameters and bodies 2.0 -> 3.0"""
from core import Sub, same
from gen import cases
import conv23
import gen2

RULE = ('Sets of Swagger 2.0 documents with operations and path items taking path, query, header, body, form and file '
        'parameters, inline or by reference (local, external, through chains), of all types, formats, constraints and '
        'collection formats, with consumes on the document, the operation (also empty) or neither. Parameters and '
        'request bodies of the result are compared with those of an independent converter over the raw JSON, with '
        'effective style and explode. Non-trivial: a request body or an array parameter.')


def run(case, cx):
    up = conv23.Up(case)
    got, want = conv23.requests(up.got), conv23.requests(up.want)
    conv23.case_labels(case, cx)
    for p, item in want['paths'].items():
        for m, op in item.items():
            if m == 'parameters':
                cx.label('path item parameters')
                continue
            b = op.get('requestBody')
            if b:
                cx.nontrivial()
                cx.label('body')
                if len(b['content']) > 1:
                    cx.label('several content types')
                if any('encoding' in x for x in b['content'].values()):
                    cx.label('encoding')
                if any('properties' in x['schema'] for x in b['content'].values()):
                    cx.label('form')
            for x in op.get('parameters', []):
                if '$ref' in x:
                    cx.label('reference')
                elif x.get('schema', {}).get('type') == 'array':
                    cx.nontrivial()
                    cx.label('array parameter')
    same(got, want, 'what a request may contain is not the same any more')


def generic():
    return cases(gen2.make, path_refs=True)


def focus():
    return cases(gen2.make, focus='request')


SUBS = [Sub('requests', focus, run, quick=900, thorough=20000),
        Sub('documents', generic, run, quick=300, thorough=8000)]
