"""Reference converter from Swagger 2.0 to OpenAPI 3.0, written from the two
specifications over raw JSON.  Every reference of its output is the absolute
one of the object in its own document, with root document pointers relocated.
norm3/canon3 bring a dump of the library into the same form."""
import refs
import tables
from gen import walk, enc

T3 = tables.V30
BASE = list(tables.V20['Items'].fields)
BASE.remove('collectionFormat')
SCHEMA = [f for f in tables.V20['Schema'].fields
          if f not in ('$ref', 'discriminator', 'required')]
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
FORM = ['application/x-www-form-urlencoded', 'multipart/form-data']
FILES = FORM + [
    'application/octet-stream', 'application/pdf', 'image/*', 'image/gif',
    'image/png', 'image/jpeg', 'image/bmp', 'image/webp', 'audio/*',
    'audio/midi', 'audio/mpeg', 'audio/webm', 'audio/ogg', 'audio/wav',
    'video/*', 'video/webm', 'video/ogg']
FLOWS = {'accessCode': 'authorizationCode', 'application': 'clientCredentials'}
STYLES = {'csv': {'style': 'form', 'explode': False},
          'multi': {'style': 'form', 'explode': True},
          'ssv': {'style': 'spaceDelimited'}, 'pipes': {'style': 'pipeDelimited'}}


def pick(src, names):
    return {n: src[n] for n in names if src.get(n) is not None}


class Model(object):
    def __init__(self, docs, root):
        self.docs = docs
        self.root = root

    # -------------------------------------------------------- references
    def reloc(self, url, toks):
        if url != self.root or not toks:
            return toks
        if toks[0] == 'definitions':
            return ('components', 'schemas') + toks[1:]
        if toks[0] == 'responses':
            return ('components', 'responses') + toks[1:]
        if toks[0] == 'parameters':
            if len(toks) > 1:
                _, _, p = refs.final(self.docs, url,
                                     self.docs[url]['parameters'][toks[1]])
                if p['in'] in ('body', 'formData'):
                    return ('components', 'requestBodies') + toks[1:]
            return ('components', 'parameters') + toks[1:]
        return toks

    def cref(self, base, ref):
        url, toks = refs.split(base, ref)
        return {'$ref': refs.join(url, self.reloc(url, toks))}

    # ----------------------------------------------------------- schemas
    def schema(self, base, s):
        if s.get('$ref'):
            return self.cref(base, s['$ref'])
        if s.get('type') == 'file':
            return dict(pick(s, ['description']), type='string', format='binary')
        out = pick(s, SCHEMA)
        if s.get('required'):
            out['required'] = s['required']
        if s.get('discriminator'):
            out['discriminator'] = {'propertyName': s['discriminator']}
        if s.get('allOf'):
            out['allOf'] = [self.schema(base, x) for x in s['allOf']]
        if s.get('items') is not None:
            out['items'] = self.schema(base, s['items'])
        if s.get('properties'):
            out['properties'] = {k: self.schema(base, x)
                                 for k, x in s['properties'].items()}
        a = s.get('additionalProperties')
        if a is False:
            out['additionalProperties'] = False
        elif isinstance(a, dict):
            out['additionalProperties'] = self.schema(base, a)
        if s.get('xml') is not None:
            out['xml'] = pick(s['xml'], ['name', 'namespace', 'prefix',
                                         'attribute', 'wrapped'])
        if s.get('externalDocs') is not None:
            out['externalDocs'] = pick(s['externalDocs'], ['url', 'description'])
        return out

    def simple(self, p):
        """a simple type: parameter, header, items"""
        out = pick(p, BASE)
        if p.get('items') is not None:
            out['items'] = self.simple(p['items'])
        return out

    # -------------------------------------------------------- parameters
    def is_body(self, base, p):
        return refs.final(self.docs, base, p)[2]['in'] in ('body', 'formData')

    def parameter(self, base, p):
        if '$ref' in p:
            return self.cref(base, p['$ref'])
        out = pick(p, ['name', 'in', 'description', 'required',
                       'allowEmptyValue'])
        sch = self.simple(p)
        if sch:
            out['schema'] = sch
        if p.get('type') == 'array':
            if p['in'] == 'query':
                out.update(STYLES[p.get('collectionFormat') or 'csv'])
            else:
                out['style'] = 'simple'
        return out

    def body(self, base, plist, consumes):
        """one request body of body/form parameters: [(base, parameter)]"""
        out = {'content': {}}
        content = out['content']
        for b, p in plist:
            url, _, p = refs.final(self.docs, b, p)
            if p.get('required'):
                out['required'] = True
            if p['in'] == 'body':
                out.update(pick(p, ['description']))
                for ct in consumes or ['application/json']:
                    content[ct] = {'schema': self.schema(url, p['schema'])}
                continue
            isfile = p['type'] == 'file'
            known, dflt = (FILES, FORM[1]) if isfile else (FORM, FORM[0])
            for ct in [c for c in consumes or [] if c in known] or [dflt]:
                mt = content.setdefault(ct, {'schema': {'properties': {}}})
                if isfile:
                    prop = dict(pick(p, ['description']), type='string',
                                format='binary')
                else:
                    prop = self.simple(p)
                    prop.update(pick(p, ['description']))
                if p.get('allowEmptyValue'):
                    prop['nullable'] = True
                mt['schema']['properties'][p['name']] = prop
                if p.get('required'):
                    mt['schema'].setdefault('required', []).append(p['name'])
                if ct in FORM:
                    e = mt.setdefault('encoding', {})[p['name']] = {
                        'contentType': content_type(p)}
                    if p['type'] == 'array':
                        e.update(STYLES[p.get('collectionFormat') or 'csv'])
        return out

    # --------------------------------------------------------- responses
    def header(self, h):
        out = pick(h, ['description'])
        out['schema'] = self.simple(h)
        if h.get('collectionFormat'):
            out['style'] = 'simple'
        return out

    def response(self, base, r, produces):
        url, _, rr = refs.final(self.docs, base, r)
        if '$ref' in r and rr.get('schema') is None:
            return self.cref(base, r['$ref'])
        out = pick(rr, ['description'])
        s = rr.get('schema')
        if s is not None:
            if s.get('type') == 'file':
                cts = ['application/octet-stream']
            elif produces:
                cts = produces
            else:
                cts = ['application/json' if s.get('type') == 'object'
                       else 'text/plain']
            out['content'] = {c: {'schema': self.schema(url, s)} for c in cts}
        if rr.get('headers'):
            out['headers'] = {k: self.header(h)
                              for k, h in rr['headers'].items()}
        return out

    # -------------------------------------------------------- operations
    def operation(self, base, op, shared, host, consumes, produces):
        out = pick(op, ['summary', 'description', 'operationId', 'deprecated',
                        'tags', 'security', 'externalDocs'])
        if op.get('consumes') is not None:
            consumes = op['consumes']
        if op.get('produces') is not None:
            produces = op['produces']
        own = op.get('parameters') or []
        fin = [refs.final(self.docs, base, p)[2] for p in own]
        plist = []
        for p in shared:
            q = refs.final(self.docs, base, p)[2]
            if not any(f['in'] == q['in'] and (q['in'] == 'body' or
                                               f['name'] == q['name'])
                       for f in fin):
                plist.append((base, p))
        plist += [(base, p) for p in own if self.is_body(base, p)]
        if plist:
            out['requestBody'] = self.body(base, plist, consumes)
        out['parameters'] = [self.parameter(base, p) for p in own
                             if not self.is_body(base, p)]
        out['responses'] = {k: self.response(base, r, produces)
                            for k, r in (op.get('responses') or {}).items()}
        if host is not None and op.get('schemes'):
            out['servers'] = [{'url': s + '://' + host} for s in op['schemes']]
        return out

    def served(self):
        """(URL, host and path operations are served from)"""
        doc = self.docs[self.root]
        url = doc.get('basePath') or ''
        if not doc.get('host'):
            return url or '/', None
        host = doc['host'] + url
        return (doc.get('schemes') or ['https'])[0] + '://' + host, host

    def path_item(self, base, item):
        """wherever it is, it is part of the API of the root document"""
        doc = self.docs[self.root]
        host = self.served()[1]
        consumes, produces = doc.get('consumes'), doc.get('produces')
        out = {}
        if item.get('$ref'):
            out['$ref'] = self.cref(base, item['$ref'])['$ref']
        ps = item.get('parameters') or []
        shared = [p for p in ps if self.is_body(base, p)]
        out['parameters'] = [self.parameter(base, p) for p in ps
                             if not self.is_body(base, p)]
        for m in METHODS:
            if item.get(m) is not None:
                out[m] = self.operation(base, item[m], shared, host, consumes,
                                        produces)
        return out

    # ------------------------------------------------------------- roots
    def security_scheme(self, s):
        out = pick(s, ['description', 'name', 'in'])
        out['type'] = s['type']
        if s['type'] == 'basic':
            out['type'], out['scheme'] = 'http', 'basic'
        elif s['type'] == 'oauth2':
            fl = pick(s, ['authorizationUrl', 'tokenUrl'])
            fl['scopes'] = s.get('scopes') or {}
            out['flows'] = {FLOWS.get(s['flow'], s['flow']): fl}
        return out

    def convert(self):
        doc, base = self.docs[self.root], self.root
        out = {'openapi': '3.0.0'}
        info = doc['info']
        out['info'] = pick(info, ['title', 'version', 'description',
                                  'termsOfService'])
        if info.get('contact') is not None:
            out['info']['contact'] = pick(info['contact'],
                                          ['name', 'url', 'email'])
        if info.get('license') is not None:
            out['info']['license'] = pick(info['license'], ['name', 'url'])
        out['servers'] = [{'url': self.served()[0]}]
        out['paths'] = {k: self.path_item(base, v)
                        for k, v in doc['paths'].items()}
        out.update(pick(doc, ['security', 'tags', 'externalDocs']))
        c = out['components'] = {}
        c['schemas'] = {k: self.schema(base, s)
                        for k, s in (doc.get('definitions') or {}).items()}
        c['parameters'], c['requestBodies'] = {}, {}
        for k, p in (doc.get('parameters') or {}).items():
            if self.is_body(base, p):
                c['requestBodies'][k] = self.body(base, [(base, p)], None)
            else:
                c['parameters'][k] = self.parameter(base, p)
        c['responses'] = {k: self.response(base, r, doc.get('produces'))
                          for k, r in (doc.get('responses') or {}).items()}
        c['securitySchemes'] = {
            k: self.security_scheme(s)
            for k, s in (doc.get('securityDefinitions') or {}).items()}
        return out

    def part(self, kind, url, toks):
        """counterpart of an object of another document: (class, value)"""
        v = refs.at(self.docs[url], toks)
        if '$ref' in v and kind != 'path':
            return 'Reference', self.cref(url, v['$ref'])
        if kind == 'schema':
            return 'Schema', self.schema(url, v)
        if kind == 'parameter':
            if self.is_body(url, v):
                return 'RequestBody', self.body(url, [(url, v)], None)
            return 'Parameter', self.parameter(url, v)
        if kind == 'response':
            return 'Response', self.response(url, v, None)
        return 'PathItem', self.path_item(url, v)


# ------------------------------------------------------------- normal form

def content_type(p):
    while p['type'] == 'array':
        p = p['items']
    return 'application/octet-stream' if p['type'] == 'file' else 'text/plain'


def norm3(ty, val, base):
    """normal form of a 3.0 value: absolute references,
    without optional containers that are empty"""
    k = ty[0]
    if k == 'b':
        return val if isinstance(val, bool) else norm3(ty[1], val, base)
    if k == 'r':
        ty = ('o', 'Reference') if '$ref' in val else ('o', ty[1])
    elif k == 'rc':
        ty = ('o', 'Reference') if '$ref' in val else ('m', ('o', 'PathItem'))
    k = ty[0]
    if k == 's':
        return val
    if k == 'l':
        return [norm3(ty[1], x, base) for x in val]
    if k == 'm':
        return {n: norm3(ty[1], x, base) for n, x in val.items()}
    cls = ty[1]
    t = T3[cls]
    out = {}
    for f in t.fields:
        if val.get(f) is not None:
            out[f] = val[f]
    if '$ref' in out:
        u, toks = refs.split(base, out['$ref'])
        out['$ref'] = refs.join(u, toks)
        if cls == 'Reference':
            return out
    if cls == 'Schema' and out.get('required') == []:
        del out['required']
    for c in t.children:
        if val.get(c) is None:
            continue
        x = norm3(t.children[c], val[c], base)
        if x in ([], {}) and t.children[c][0] in ('l', 'm', 'rc') \
                and c not in t.keep_empty:
            continue
        if c == 'additionalProperties' and x is True:
            continue
        out[c] = x
    if cls == 'OpenApi' and out.get('components') == {}:
        del out['components']
    return out


OPENAPI = ('o', 'OpenApi')


def ref_places(val, ty=OPENAPI):
    """tokens of every Reference and of every path item with one"""
    for toks, ty_, v in walk(T3, ty, val):
        if ty_ == ('o', 'Reference'):
            yield toks, 'ref', v['$ref']
        elif ty_ == ('o', 'PathItem') and v.get('$ref'):
            yield toks, 'path', v['$ref']


def ptr(toks):
    return '#' + ''.join('/' + enc(t) for t in toks)
