"""C19: everything else 1.2 -> 2.0"""
from core import Sub, check, clone, same
from gen import cases
import conv12
import gen12

RULE = ('Swagger 1.2 listings with any subset of the info fields, authorizations of all types (names that need escaping, '
        'scopes with and without description) on the operation (also empty), the resource or neither, absolute and '
        'relative base paths with different paths on one host. Everything in the result but operations and models is '
        'compared with the output of an independent converter. Non-trivial: an authorization or an info object.')


def known(want, got):
    """flow and URL of an authorization code grant: see known_findings.json"""
    for n, s in want.get('securityDefinitions', {}).items():
        g = got.get('securityDefinitions', {}).get(n, {})
        if s.get('flow') == 'accessCode':
            if g.get('flow') == 'access_code':
                g['flow'] = 'accessCode'
            if 'authorizationUrl' not in g:
                g['authorizationUrl'] = s['authorizationUrl']


def run(case, cx, strict=False):
    up = conv12.Up(case)
    got, want = conv12.rest(clone(up.got)), conv12.rest(up.want)
    cx.nontrivial(want.get('securityDefinitions') or len(want['info']) > 1)
    for s in want.get('securityDefinitions', {}).values():
        cx.label(s.get('flow', s['type']))
    for item in want['paths'].values():
        for op in item.values():
            if op.get('security'):
                cx.label('security')
    if 'host' in want:
        cx.label('host')
    if not strict:
        known(want, got)
    same(got, want, 'the document says something else now')
    check(up.app.original_spec_version == '1.2' and
          up.app.current_spec_version == '2.0', 'wrong versions reported')


def g():
    return cases(gen12.make)


SUBS = [Sub('listings', g, run, quick=1600, thorough=30000)]
KNOWN_SUBS = [Sub('strict', None, lambda case, cx: run(case, cx, True))]
