"""C14: responses and headers 2.0 -> 3.0"""
from core import Sub, same
from gen import cases
import conv23
import gen2

RULE = ('Sets of Swagger 2.0 documents with responses inline or by reference (local, external, through chains), with or '
        'without schema (file and object types included) and headers of all types, with produces on the document, the '
        'operation (also empty) or neither. The responses of the result are compared with those of an independent '
        'converter over the raw JSON. Non-trivial: a response with content or a header.')


def run(case, cx):
    up = conv23.Up(case)
    got, want = conv23.responses(up.got), conv23.responses(up.want)
    conv23.case_labels(case, cx)
    pool = list(want['components'].get('responses', {}).values())
    for item in want['paths'].values():
        for op in item.values():
            pool += list(op.get('responses', {}).values())
    for r in pool:
        if '$ref' in r:
            cx.label('reference')
        if r.get('content'):
            cx.nontrivial()
            cx.label('content')
            if len(r['content']) > 1:
                cx.label('several media types')
        if r.get('headers'):
            cx.nontrivial()
            cx.label('headers')
    same(got, want, 'the responses are not the same any more')


def generic():
    return cases(gen2.make, path_refs=True)


def focus():
    return cases(gen2.make, focus='response')


SUBS = [Sub('responses', focus, run, quick=900, thorough=20000),
        Sub('documents', generic, run, quick=300, thorough=8000)]
