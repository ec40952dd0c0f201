"""Shared by the checks of the 2.0 -> 3.0 upgrade."""
from core import Violation, check, same, sut
import app as A
import gen2
from model23 import Model, OPENAPI, norm3


class Up(object):
    """a case migrated to 3.0, and what it should be"""

    def __init__(self, case):
        self.docs, self.url = case['docs'], case['root']
        with sut('migrating to 3.0'):
            self.app = A.create_app(self.docs, self.url, '3.0.0')
            self.dump = self.app.root.dump()
        check(self.app.root.__class__.__name__ == 'OpenApi',
              'the migrated root is not an OpenApi object',
              got=type(self.app.root).__name__)
        self.model = Model(self.docs, self.url)
        self.got = norm3(OPENAPI, self.dump, self.url)
        self.want = norm3(OPENAPI, self.model.convert(), self.url)


METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']


def only(doc, keys):
    return {k: v for k, v in doc.items() if k in keys}


def requests(doc):
    """what concerns requests"""
    out = {'paths': {}}
    for p, item in doc.get('paths', {}).items():
        o = out['paths'][p] = only(item, ['parameters'])
        for m in METHODS:
            if m in item:
                o[m] = only(item[m], ['parameters', 'requestBody'])
    out['components'] = only(doc.get('components', {}),
                             ['parameters', 'requestBodies'])
    return out


def responses(doc):
    out = {'paths': {}}
    for p, item in doc.get('paths', {}).items():
        o = out['paths'][p] = {}
        for m in METHODS:
            if m in item:
                o[m] = only(item[m], ['responses'])
    out['components'] = only(doc.get('components', {}), ['responses'])
    return out


def rest(doc):
    out = {k: v for k, v in doc.items() if k not in ('paths', 'components')}
    out['components'] = only(doc.get('components', {}), ['securitySchemes'])
    out['components?'] = sorted(
        k for k in doc.get('components', {}) if k not in (
            'schemas', 'parameters', 'requestBodies', 'responses',
            'securitySchemes'))
    out['paths'] = {}
    for p, item in doc.get('paths', {}).items():
        o = out['paths'][p] = {k: v for k, v in item.items()
                               if k not in METHODS and k != 'parameters'}
        for m in METHODS:
            if m in item:
                o[m] = {k: v for k, v in item[m].items() if k not in (
                    'parameters', 'requestBody', 'responses')}
    return out


def schemas(doc):
    """{place: schema} of every schema that is not part of another one"""
    out = {}

    def content(where, val):
        for ct, mt in (val or {}).get('content', {}).items():
            if 'schema' in mt:
                out[where + '/' + ct] = mt['schema']

    c = doc.get('components', {})
    for n, s in c.get('schemas', {}).items():
        out['schemas/' + n] = s
    for part in ('requestBodies', 'responses'):
        for n, x in c.get(part, {}).items():
            content(part + '/' + n, x)
    for p, item in doc.get('paths', {}).items():
        for m in METHODS:
            if m in item:
                content('%s %s body' % (m, p), item[m].get('requestBody'))
                for k, x in item[m].get('responses', {}).items():
                    content('%s %s %s' % (m, p, k), x)
    return out


def case_labels(case, cx):
    docs = case['docs']
    if len(docs) > 1:
        cx.label('several documents')
    root = docs[case['root']]
    for k in ('definitions', 'parameters', 'responses', 'securityDefinitions'):
        if root.get(k):
            cx.label('has ' + k)
