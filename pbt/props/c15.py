"""C15: everything else 2.0 -> 3.0"""
from core import Sub, check, same
from gen import cases
import conv23
import gen2

RULE = ('Sets of Swagger 2.0 documents with any subset of info, contact, license, host, base path, schemes, tags, external '
        'documentation, security definitions of all types and flows, security requirements at both levels (also '
        'empty), operation metadata and paths with odd characters. Everything in the result but parameters, bodies, '
        'responses and schemas is compared with the output of an independent converter over the raw JSON. '
        'Non-trivial: security definitions, tags, or an operation with three kinds of metadata.')


def run(case, cx):
    up = conv23.Up(case)
    got, want = conv23.rest(up.got), conv23.rest(up.want)
    conv23.case_labels(case, cx)
    cx.nontrivial(want['components'] or want.get('tags'))
    for k in ('tags', 'security', 'externalDocs'):
        if k in want:
            cx.label(k)
    if want['servers'] != [{'url': '/'}]:
        cx.label('server')
    for item in want['paths'].values():
        for m, op in item.items():
            if isinstance(op, dict):
                cx.nontrivial(len(op) > 2)
                if 'servers' in op:
                    cx.label('operation servers')
                if 'security' in op:
                    cx.label('operation security')
    same(got, want, 'the document says something else now')
    app = up.app
    check(app.original_spec_version == '2.0' and
          app.current_spec_version == '3.0.0', 'wrong versions reported',
          got=[app.original_spec_version, app.current_spec_version])


def generic():
    return cases(gen2.make, path_refs=True)


def focus():
    return cases(gen2.make, focus='rest')


SUBS = [Sub('metadata', focus, run, quick=900, thorough=20000),
        Sub('documents', generic, run, quick=300, thorough=8000)]
