"""Reference converter from Swagger 1.2 to Swagger 2.0, over raw JSON."""
from urllib.parse import urlsplit

import tables
from gen import canon
from refs import enc

T2 = tables.V20
PRIM = ('string', 'integer', 'number', 'boolean', 'array')


class Model(object):
    def __init__(self, case):
        self.docs, self.root = case['docs'], case['root']
        self.sep = case['sep']

    def resources(self):
        """API declarations, in the order of the listing"""
        u = self.root
        if u.endswith(('.json', '.yaml', '.yml')):
            u = u.rsplit('/', 1)[0]
        return [self.docs[u + a['path']] for a in self.docs[self.root].get('apis') or []]

    def scope(self, decl):
        return (decl.get('resourcePath') or '')[1:]

    def defname(self, decl, model):
        s = self.scope(decl)
        return s + self.sep + model if s else model

    def ref(self, decl, model):
        return {'$ref': '#/definitions/' + enc(self.defname(decl, model))}

    # ------------------------------------------------------------- types
    def limits(self, src, out):
        for f in ('minimum', 'maximum'):
            if src.get(f) is not None:
                v = src[f]
                if src['type'] == 'integer':
                    try:
                        v = int(v)
                    except ValueError:
                        v = int(float(v))
                else:
                    v = float(v)
                out[f] = v

    def schema(self, decl, dt):
        if '$ref' in dt:
            return self.ref(decl, dt['$ref'])
        if dt['type'] not in PRIM:
            return self.ref(decl, dt['type'])
        out = {'type': dt['type']}
        for f, g in (('format', 'format'), ('defaultValue', 'default'),
                     ('uniqueItems', 'uniqueItems'), ('enum', 'enum')):
            if f in dt:
                out[g] = dt[f]
        self.limits(dt, out)
        if 'items' in dt:
            out['items'] = self.schema(decl, dt['items'])
        return out

    def parameter(self, decl, p):
        out = {f: p[f] for f in ('name', 'required', 'description') if f in p}
        out['in'] = {'form': 'formData'}.get(p['paramType'], p['paramType'])
        if out['in'] == 'body':
            out['schema'] = self.schema(decl, p)
            return out
        one = {'type': p['type'].lower()}
        if 'format' in p:
            one['format'] = p['format']
        if 'enum' in p:
            one['enum'] = p['enum']
        self.limits(p, one)
        if p['type'] == 'array':
            out.update(one)
            out['items'] = dict(p['items'])
        elif p.get('allowMultiple') is True:
            out['type'] = 'array'
            out['items'] = one
        else:
            out.update(one)
        if out['type'] == 'array' and 'uniqueItems' in p:
            out['uniqueItems'] = p['uniqueItems']
        if out['type'] == 'array':
            out['collectionFormat'] = 'csv'
        if 'defaultValue' in p:
            out['default'] = [p['defaultValue']] if out['type'] == 'array' \
                and p['type'] != 'array' else p['defaultValue']
        return out

    def operation(self, decl, op):
        out = {'operationId': op['nickname']}
        for f, g in (('summary', 'summary'), ('notes', 'description')):
            if f in op:
                out[g] = op[f]
        out['deprecated'] = op.get('deprecated') == 'true'
        if self.scope(decl):
            out['tags'] = [self.scope(decl)]
        for f in ('consumes', 'produces'):
            v = op.get(f) or decl.get(f)
            if v:
                out[f] = v
        out['parameters'] = [self.parameter(decl, p)
                             for p in op.get('parameters') or []]
        auth = op.get('authorizations')
        if auth is None:
            auth = decl.get('authorizations')
        if auth is not None:
            out['security'] = [{n: [x['scope'] for x in v]}
                               for n, v in auth.items()]
        r = {'description': ''}
        if op['type'] != 'void':
            r['schema'] = self.schema(decl, op)
        out['responses'] = {'default': r}
        return out

    def models(self, decl, out):
        ms = decl.get('models') or {}
        for n, mo in ms.items():
            s = out[self.defname(decl, n)] = {}
            for f in ('required', 'discriminator', 'description'):
                if f in mo:
                    s[f] = mo[f]
            props = s['properties'] = {}
            for k, p in mo['properties'].items():
                props[k] = self.schema(decl, p)
                if 'description' in p:
                    props[k]['description'] = p['description']
            bases = [b for b, bm in ms.items() if n in (bm.get('subTypes') or ())]
            if bases:
                s['allOf'] = [self.ref(decl, b) for b in bases]

    def scheme(self, a):
        if a['type'] == 'basicAuth':
            return {'type': 'basic'}
        if a['type'] == 'apiKey':
            return {'type': 'apiKey', 'name': a['keyname'], 'in': a['passAs']}
        out = {'type': 'oauth2', 'scopes': {
            s['scope']: s.get('description', '') for s in a.get('scopes') or []}}
        g = a['grantTypes']
        if 'implicit' in g:
            out['flow'] = 'implicit'
            out['authorizationUrl'] = g['implicit']['loginEndpoint']['url']
            if 'authorization_code' in g:
                out['tokenUrl'] = g['authorization_code']['tokenEndpoint']['url']
        else:
            c = g['authorization_code']
            out['flow'] = 'accessCode'
            out['authorizationUrl'] = c['tokenRequestEndpoint']['url']
            out['tokenUrl'] = c['tokenEndpoint']['url']
        return out

    def convert(self):
        li = self.docs[self.root]
        out = {'swagger': '2.0', 'info': {}, 'paths': {}, 'definitions': {},
               'securityDefinitions': {}, 'tags': [], 'schemes': ['http', 'https']}
        info = li.get('info') or {}
        o = out['info']
        o['version'] = li['apiVersion']
        for f, g in (('title', 'title'), ('description', 'description'),
                     ('termsOfServiceUrl', 'termsOfService')):
            if f in info:
                o[g] = info[f]
        if 'contact' in info:
            o['contact'] = {'email': info['contact']}
        for f, g in (('license', 'name'), ('licenseUrl', 'url')):
            if f in info:
                o.setdefault('license', {})[g] = info[f]
        for n, a in (li.get('authorizations') or {}).items():
            out['securityDefinitions'][n] = self.scheme(a)
        for decl in self.resources():
            s = self.scope(decl)
            if s and {'name': s} not in out['tags']:
                out['tags'].append({'name': s})
            for api in decl['apis']:
                for op in api.get('operations') or []:
                    u = urlsplit(decl['basePath'])
                    if u.netloc:
                        out['host'] = u.netloc
                    item = out['paths'].setdefault(u.path + api['path'], {})
                    item[op['method'].lower()] = self.operation(decl, op)
            self.models(decl, out['definitions'])
        return out


def norm2(doc):
    """normal form of a 2.0 document: without what means the same as nothing"""
    doc = canon(T2, ('o', 'Swagger'), doc)
    for k in ('host', 'basePath', 'security', 'consumes', 'produces', 'parameters',
              'responses', 'definitions', 'tags', 'securityDefinitions', 'schemes'):
        if doc.get(k) in ('', [], {}):
            del doc[k]

    return doc
