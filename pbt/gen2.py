"""Generator of sets of Swagger 2.0 documents."""
import posixpath
from urllib.parse import urlsplit, urljoin

from gen import PLAIN, ODD, word, num, anyval, fieldval, name, names, enc, walk
import tables

ROOT = 'http://api.example.com/v1/swagger.json'
EXT = ['http://api.example.com/v1/common.json',
       'http://api.example.com/v1/sub/common.json',
       'http://api.example.com/other.v2.json',
       'http://cdn.example.org/v1/swagger.json']
TYPES = ['string', 'integer', 'number', 'boolean', 'array', 'object']
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
PATHS = ['/pets', '/pets/{id}', '/', '/pets/{id}/tags', '/user', '/user/login',
         '/a~b', '/a~1b', '/x y', '/pet', '/p', u'/caf\u00e9', '/{a}/{b}.json']
MIMES = ['application/json', 'application/xml', 'text/plain', 'image/png',
         'multipart/form-data', 'application/x-www-form-urlencoded',
         'application/vnd.x+json; charset=utf-8', '*/*']
# what files are sent as, and others
MEDIA = ['application/octet-stream', 'application/pdf', 'image/*', 'image/gif',
         'image/png', 'image/jpeg', 'image/bmp', 'image/webp', 'audio/*',
         'audio/midi', 'audio/mpeg', 'audio/webm', 'audio/ogg', 'audio/wav',
         'video/*', 'video/webm', 'video/ogg', 'video/mp4', 'image/svg+xml',
         'audio/mp3', 'application/zip', 'text/csv', 'video/OGG', 'image/png;q=1',
         'multipart/form-data', 'application/x-www-form-urlencoded']
# names of parameters and form fields
PNAMES = ['user[name]', 'a.b', '~', 'a/b', 'items', 'type', 'required', 'properties',
          '$top', 'ids[]', '0', 'x' * 40, 'X-Request-ID', 'A', 'ID', 'a b', 'schema', '']
STATUS = ['200', '201', '404', 'default', '500', '400']


def url_ref(d, base, url):
    """one of the ways to spell `url` in a document at `base`"""
    b, u = urlsplit(base), urlsplit(url)
    k = d.int(0, 5)
    if b[:2] != u[:2] or k == 0:
        return url
    if k == 1:
        return u.path
    rel = posixpath.relpath(u.path, posixpath.dirname(b.path))
    if k == 2:
        rel = './' + rel
    elif k == 3 and posixpath.dirname(b.path) not in ('/', ''):
        # up and down again
        rel = '../' + posixpath.basename(posixpath.dirname(b.path)) + '/' + rel
    return rel


def spell(d, base, url, toks):
    ptr = ''.join('/' + enc(t) for t in toks)
    if url == base and (toks or True) and not (toks and d.flag(1, 12)):
        return '#' + ptr
    out = url_ref(d, base, url)
    return out + '#' + ptr if ptr or d.flag(1, 4) else out


def beside(d, ref, schema):
    """what is beside a reference is ignored"""
    if d.flag(1, 12):
        ref['description'] = word(d)
        if schema and d.flag():
            ref.update(d.pick([{'title': 'beside'}, {'default': 1}, {'readOnly': True},
                               {'maximum': 5},
                               {'required': ['beside']}]))
    return ref


class Gen2(object):
    """one document set; every kind of target is known before bodies are made,
    so references may be cyclic"""

    def __init__(self, d, ext=True, odd=True, refs=True, chains=True,
                 form_refs=False, path_refs=False, deep=True, maxpaths=3,
                 pure_cycles=False, focus=None):
        self.d = d
        self.odd = odd
        self.refs = refs
        self.deep = deep
        self.form_refs = form_refs
        self.chains = chains
        self.pure_cycles = pure_cycles
        self.focus = focus
        self.odds = 2 if focus == 'refs' else 1
        plain = focus in ('request', 'response', 'rest', 'refs', 'paths')
        self.depth = 0 if focus == 'rest' else 1 if plain else 2
        if focus in ('schema', ):
            maxpaths = self.maxpaths = 1
        self.targets = {'schema': [], 'parameter': [], 'response': [],
                        'path': []}
        self.docs = {}
        self.url = ROOT
        self.path_refs = path_refs
        self.maxpaths = maxpaths
        self.kinds = {}        # (url, toks) of a parameter -> kind
        self.noschema = set()
        if not (ext and refs and (focus in ('refs', 'paths') or d.flag(1, 2))):
            exts = []
        else:
            exts = d.some(EXT, 1 if focus in ('refs', 'paths') else 0, 3 if focus == 'paths' else 2)
        self.plan = {}
        for u in [ROOT] + exts:
            root = u == ROOT
            plan = {'definitions': names(d, 0 if root else 1, 4, odd)}
            for part in ('parameters', 'responses'):
                plan[part] = names(d, 0, 3, odd) if d.flag(2, 3) else []
            self.plan[u] = plan
            for n in plan['definitions']:
                self.targets['schema'].append((u, ('definitions', n)))
            for n in plan['parameters']:
                k = d.pick(['query', 'header', 'path', 'query', 'body', 'body',
                            'form', 'file'])
                if not n and k in ('body', 'form', 'file'):
                    # no place of its own in the routes, see DESIGN.md
                    k = 'query'
                self.kinds[u, ('parameters', n)] = k
                self.targets['parameter'].append((u, ('parameters', n)))
            for n in plan['responses']:
                self.targets['response'].append((u, ('responses', n)))
        self.whole = []
        if exts and d.flag(1, 4):
            # a document which is a schema as a whole
            u = 'http://api.example.com/v1/models/pet.json'
            self.whole.append(u)
            self.targets['schema'].append((u, ()))
        if path_refs and exts and (focus == 'paths' or d.flag(2, 3)):
            for u in exts:
                ks = d.some(PATHS, 0, 2)
                self.plan[u]['paths'] = ks
                for k in ks:
                    self.targets['path'].append((u, ('paths', k)))
        self.root_paths = d.some(PATHS, 0 if d.flag(1, 8) else 1, maxpaths)
        if path_refs:
            for k in self.root_paths:
                self.targets['path'].append((ROOT, ('paths', k)))

    # ------------------------------------------------------------- schemas
    def ref(self, kind, base=None, pred=None):
        base = base or self.url
        ts = [t for t in self.targets[kind] if pred is None or pred(t)]
        if not ts:
            return None
        u, toks = self.d.pick(ts)
        out = {'$ref': spell(self.d, base, u, toks)}
        return out if kind == 'path' else beside(self.d, out, kind == 'schema')

    def schema(self, depth, refs=None):
        d = self.d
        if self.refs and refs is not False and d.flag(self.odds, 4):
            r = self.ref('schema')
            if r:
                return r
        out = {}
        if d.flag(5, 6):
            # (nothing but 'file' has a meaning of its own)
            out['type'] = d.pick(TYPES) if d.flag(11, 12) else d.pick(
                ['File', 'binary', 'any', 'null', 'FILE', 'password'])
        t = tables.V20['Schema']
        fs = [f for f in t.fields if f not in ('type', '$ref', 'discriminator')]
        for f in d.some(fs, 0, d.pick([3, 3, 3, 12])):
            out[f] = fieldval(d, t.fields[f])
        if d.flag(1, 10):
            out['discriminator'] = name(d)
        if depth <= 0:
            return out
        if d.flag(1, 3):
            out['properties'] = {n: self.schema(depth - 1)
                                 for n in names(d, 1, 3, self.odd)}
        if out.get('type') == 'array' or d.flag(1, 8):
            out['items'] = self.schema(depth - 1)
        if d.flag(1, 8):
            out['allOf'] = [self.schema(depth - 1) for _ in range(d.pick([1, 2, 1, 2, 3]))]
        if d.flag(1, 6):
            out['additionalProperties'] = d.flag() if d.flag(1, 2) else \
                self.schema(depth - 1)
        if d.flag(1, 12):
            x = tables.V20['XMLObject']
            out['xml'] = {f: fieldval(d, x.fields[f])
                          for f in d.some(list(x.fields), 0, 3)}
        if d.flag(1, 12):
            out['externalDocs'] = self.docs_()
        return out

    def definition(self, u, k):
        """a definition which is just a reference only refers to one made
        before it (such a cycle would mean nothing)"""
        d = self.d
        if self.refs and d.flag(1, 6):
            i = self.targets['schema'].index((u, ('definitions', k)))
            if self.pure_cycles:
                i = len(self.targets['schema'])
            if i:
                return beside(d, {'$ref': spell(
                    d, u, *self.targets['schema'][d.int(0, i - 1)])}, True)
        return self.schema(d.int(0, self.depth + 1), refs=False)

    def docs_(self):
        d = self.d
        out = {'url': d.pick(['http://docs.example.com', 'docs', '']) if d.flag(3, 4)
               else word(d)}
        if d.flag():
            out['description'] = d.pick(['more', 'see', '']) if d.flag() else word(d)
        return out

    def items(self, depth):
        d = self.d
        out = {'type': d.pick(TYPES[:5])}
        t = tables.V20['Items']
        fs = [f for f in t.fields if f not in ('type', 'collectionFormat')]
        for f in d.some(fs, 0, d.pick([2, 2, 2, 12])):
            out[f] = fieldval(d, t.fields[f])
        if out['type'] == 'array':
            out['items'] = self.items(depth - 1) if depth > 0 else {'type': 'string'}
            if d.flag(1, 4):
                # 3.0 has nothing for it
                out['collectionFormat'] = d.pick(['csv', 'ssv', 'tsv', 'pipes'])
        return out

    def simple(self, out, in_):
        """type and constraints of a parameter or header"""
        d = self.d
        out['type'] = d.pick(TYPES[:5])
        t = tables.V20['Items']
        fs = [f for f in t.fields if f not in ('type', 'collectionFormat')]
        for f in d.some(fs, 0, d.pick([3, 3, 3, 12])):
            out[f] = fieldval(d, t.fields[f])
        if out['type'] == 'array':
            out['items'] = self.items(1)
            if d.flag(1, 2):
                out['collectionFormat'] = d.pick(
                    ['csv', 'multi', 'ssv', 'pipes']
                    if in_ in ('query', 'formData') else ['csv'])
        return out

    # ---------------------------------------------------------- parameters
    def parameter(self, kind, nm):
        d = self.d
        if kind == 'body':
            out = {'in': 'body', 'name': nm, 'schema': self.schema(self.depth)}
        elif kind == 'file':
            out = {'in': 'formData', 'name': nm, 'type': 'file'}
            if d.flag(1, 6):
                out['format'] = d.pick(['binary', 'byte', 'png', ''])
        else:
            in_ = 'formData' if kind == 'form' else kind
            out = {'in': in_, 'name': nm}
            self.simple(out, in_)
        if out['in'] == 'path':
            out['required'] = True
        elif d.flag(1, 2):
            out['required'] = d.flag(3, 4)
        if d.flag(1, 3):
            out['description'] = word(d)
        if out['in'] in ('query', 'formData') and d.flag(1, 6):
            out['allowEmptyValue'] = d.flag(3, 4)
        return out

    def parameters(self, body, lo=0, names_=None, used=None):
        """a list of parameters; body: None, 'body' or 'form'"""
        d = self.d
        out = []
        used = used if used is not None else set()
        for _ in range(d.int(lo, {'schema': 0, 'response': 0, 'paths': 1}.get(
                self.focus, 3))):
            if d.flag(self.odds, 4) and self.refs:
                r = self.ref('parameter', pred=lambda t: self.kinds[t] in (
                    'query', 'header', 'path'))
                if r:
                    if r not in out:
                        out.append(r)
                    continue
            k = d.pick(['query', 'header', 'path', 'query'])
            nm = d.pick(PLAIN[:5] + ['X-Id', 'a b', u'\u00e9']) if d.flag(4, 5) \
                else d.pick(PNAMES)
            if (k, nm) in used:
                continue
            used.add((k, nm))
            out.append(self.parameter(k, nm))
        if body == 'body':
            r = None
            if self.refs and d.flag(1, 3):
                r = self.ref('parameter', pred=lambda t: self.kinds[t] == 'body')
            out.insert(d.int(0, len(out)), r or self.parameter('body', d.pick(PLAIN)))
        elif body == 'form':
            for nm in names_ or []:
                k = 'file' if d.flag(1, 4) else 'form'
                out.insert(d.int(0, len(out)), self.parameter(k, nm))
            if self.form_refs and self.refs and d.flag(1, 3):
                r = self.ref('parameter',
                             pred=lambda t: self.kinds[t] in ('form', 'file'))
                if r:
                    out.append(r)
        return out

    # ----------------------------------------------------------- responses
    def file(self):
        out = {'type': 'file'}
        if self.d.flag(1, 6):
            out['format'] = self.d.pick(['binary', 'byte', 'png', ''])
        if self.d.flag(1, 3):
            out['description'] = word(self.d)
        return out

    def response(self, ref=True):
        d = self.d
        if ref and self.refs and d.flag(self.odds, 3):
            r = self.ref('response')
            if r:
                return r
        out = {'description': word(d)}
        if d.flag(2, 3):
            out['schema'] = self.file() if d.flag(1, 10) else self.schema(self.depth)
        if self.focus not in ('request', 'schema', 'rest') and d.flag(1, 3):
            hs = {}
            for n in d.some(['X-Rate', 'X-A', 'ETag', 'a/b', u'\u00e9', 'Content-Type',
                             'content-type', 'Location', 'Accept', 'Authorization'], 1, 2):
                h = self.simple({}, 'header')
                if d.flag():
                    h['description'] = word(d)
                hs[n] = h
            out['headers'] = hs
        if d.flag(1, 10):
            # nothing of 3.0 is made of it
            out['examples'] = {m: anyval(d, 1) for m in d.some(MIMES, 1, 2)}
        return out

    # ---------------------------------------------------------- operations
    def operation(self, path_kind):
        d = self.d
        n = 1 if self.focus in ('request', 'rest', 'paths') else 3
        out = {'responses': {s: self.response()
                             for s in d.some(STATUS, 0 if d.flag(1, 8) else 1, n)}}
        body = path_kind if path_kind and d.flag(1, 2) else (
            d.pick([None, 'body', 'form', 'body', 'form'])
            if not path_kind else None)
        nms = d.some(PLAIN[:6] + ['a b', 'x/y'], 1, 3)
        if d.flag(1, 4):
            nms = d.some(PNAMES, 1, 3)
        if self.focus in ('response', 'rest', 'paths') and not path_kind:
            body = None
        if self.focus == 'schema' and body == 'form':
            body = 'body'
        ps = self.parameters(body, names_=nms)
        if ps or d.flag(1, 8):
            out['parameters'] = ps
        meta = self.focus in (None, 'rest')
        for f in ('summary', 'description', 'operationId'):
            if meta and d.flag(1, 3):
                out[f] = word(d)
        if meta and d.flag(1, 4):
            out['deprecated'] = d.flag(2, 3)
        if meta and d.flag(1, 4):
            out['tags'] = [d.pick(PLAIN) if d.flag(2, 3) else word(d)
                           for _ in range(d.int(0, 3))]
        if meta and d.flag(1, 3):
            out['security'] = self.security()
        if meta and d.flag(1, 8):
            out['externalDocs'] = self.docs_()
        if d.flag(1, 6):
            out['schemes'] = d.some(['http', 'https', 'ws', 'wss'], 0, 4)
        for f in ('consumes', 'produces'):
            if d.flag(1, 3):
                out[f] = d.some(d.pick([MIMES, MIMES, MEDIA]),
                                1 if d.flag(3, 4) else 0, d.pick([3, 3, 3, 9]))
        return out

    def security(self):
        d = self.d
        return [{n: [d.pick(['read', 'write:pets', 'a/b', '']) for _ in
                     range(d.int(0, 2))] for n in names(d, 0, 2, self.odd)}
                for _ in range(d.int(0, 2))]

    def path_item(self, ref=True):
        d = self.d
        out = {}
        if ref and self.path_refs and d.flag(*(
                (5, 6) if self.focus == 'paths' else (1, 2))):
            r = self.ref('path')
            if r:
                out.update(r)
        kind = d.pick([None, 'body', 'form', None])
        if self.focus in ('schema', 'response', 'paths'):
            kind = None
        if d.flag(1, 2):
            ps = self.parameters(kind, names_=d.some(PLAIN[:6], 1, 2))
            if ps:
                out['parameters'] = ps
        if 'parameters' not in out:
            kind = None
        pool = METHODS[:3] if self.focus == 'paths' else METHODS
        for m in d.some(pool, 0 if out and d.flag(1, 2) else 1, d.pick([3, 3, 3, 8])):
            out[m] = self.operation(kind)
        return out

    # ----------------------------------------------------------- documents
    def part(self, u, which):
        n = {'definitions': lambda k: self.definition(u, k),
             'parameters': lambda k: self.parameter(
                 self.kinds[u, ('parameters', k)], self.d.pick(PLAIN)),
             'responses': lambda k: self.response(ref=False),
             'paths': lambda k: self.path_item()}[which]
        out = {}
        for k in self.plan[u].get(which, ()):
            if u != ROOT and self.chains and which in ('parameters', 'responses') \
                    and self.d.flag(1, 6):
                # a chain of references
                kind = which[:-1]
                mine = (u, (which, k))
                pool = [t for t in self.targets[kind] if t != mine and (
                    kind == 'response' or self.kinds[t] == self.kinds[mine])
                        and t < mine]
                if pool:
                    self.url = u
                    out[k] = {'$ref': spell(self.d, u, *self.d.pick(pool))}
                    continue
            out[k] = n(k)
        return out

    def make(self):
        d = self.d
        for u in list(self.plan):
            if u == ROOT:
                continue
            self.url = u
            doc = {}
            if d.flag(1, 3):
                doc['swagger'] = '2.0'
            for which in ('definitions', 'parameters', 'responses', 'paths'):
                if self.plan[u].get(which):
                    doc[which] = self.part(u, which)
            self.docs[u] = doc
        for u in self.whole:
            self.url = u
            self.docs[u] = self.schema(2)
            if '$ref' in self.docs[u] or not self.docs[u]:
                self.docs[u] = {'type': 'object', 'title': 'whole'}
        self.url = ROOT
        self.docs[ROOT] = self.root()
        if self.deep and self.refs and d.flag(1, 2):
            self.deepen()
        case = {'docs': self.docs, 'root': ROOT}
        if d.flag(1, 10):
            import big
            big.two(d, case, self.refs)
        return case

    def deepen(self):
        """some references to a part of a schema instead"""
        d = self.d
        places, users = [], []
        for u, doc in self.docs.items():
            if u in self.whole:
                ty = ('o', 'Schema')
            else:
                ty = ('o', 'Swagger')
            for toks, t, v in walk(tables.V20, ty, doc):
                if t != ('o', 'Schema'):
                    continue
                if '$ref' in v:
                    users.append((u, v, toks))
                elif len(toks) > 2 and toks[0] == 'definitions' and (
                        u == ROOT or not any(c in x for x in toks[2:]
                                             for c in '~/')):
                    places.append((u, toks))
        if not places:
            return
        for u, v, toks in users[:6]:
            if toks[0:1] == ('definitions', ) and len(toks) == 2:
                continue
            if d.flag(1, 3):
                v['$ref'] = spell(d, u, *d.pick(places))

    def info(self):
        d = self.d
        out = {'title': d.pick(['API', '', u'\u00fc']), 'version': d.pick(['1.0', ''])}
        for f in ('description', 'termsOfService'):
            if d.flag(1, 3):
                out[f] = word(d)
        for c in ('contact', 'license'):
            if d.flag(1, 3):
                t = tables.V20[c.capitalize()]
                out[c] = {f: word(d) for f in d.some(list(t.fields), 0, 3)}
                if c == 'license':
                    out[c].setdefault('name', 'MIT')
        return out

    def security_scheme(self):
        d = self.d
        k = d.pick(['basic', 'apiKey', 'oauth2', 'oauth2'])
        out = {'type': k}
        if d.flag(1, 3):
            out['description'] = word(d)
        if k == 'apiKey':
            out['name'] = d.pick(['X-Key', 'key', 'a b', 'in', '', '~', 'Key'])
            out['in'] = d.pick(['query', 'header'])
        elif k == 'oauth2':
            f = d.pick(['implicit', 'password', 'application', 'accessCode'])
            out['flow'] = f
            if f in ('implicit', 'accessCode'):
                out['authorizationUrl'] = d.pick(['http://a/auth', 'https://b/x?y=z', '/auth', 'a#b'])
            if f != 'implicit':
                out['tokenUrl'] = d.pick(['http://a/token', 'https://b/t'])
            if d.flag(3, 4):
                out['scopes'] = {n: word(d) for n in d.some(
                    ['read', 'write:pets', 'a/b', 'x~y', u'\u00e9', '',
                     'https://example.com/auth/pets.read', 'admin *'], 0, 3)}
        return out

    def root(self):
        d = self.d
        doc = {'swagger': '2.0', 'info': self.info()}
        if d.flag(1, 2):
            doc['host'] = d.pick(['api.example.com', 'localhost:8080', 'a.b', 'http.ws', 'https'])
        if d.flag(1, 2):
            doc['basePath'] = d.pick(['/v1', '/', '/a/b', '/v1/', '/ws/http'])
        if d.flag(1, 3):
            doc['schemes'] = d.some(['https', 'http', 'ws', 'wss'], 0, d.pick([2, 2, 4]))
        for f in ('consumes', 'produces'):
            if d.flag(1, 3):
                doc[f] = d.some(d.pick([MIMES, MIMES, MEDIA]),
                                0 if d.flag(1, 6) else 1, d.pick([3, 3, 3, 9]))
        doc['paths'] = {k: self.path_item() for k in self.root_paths}
        for which in ('definitions', 'parameters', 'responses'):
            p = self.part(ROOT, which)
            if p or d.flag(1, 6):
                doc[which] = p
        if self.focus not in (None, 'rest'):
            return doc
        if d.flag(1, 2):
            doc['securityDefinitions'] = {
                n: self.security_scheme() for n in names(d, 0, 3, self.odd)}
        if d.flag(1, 3):
            doc['security'] = self.security()
        if d.flag(1, 3):
            doc['tags'] = []
            ns = names(d, 0, 3, self.odd)
            if d.flag(1, 4):
                ns = d.some(['', 'a b', 'pets, users', 'line\nbreak', 'x' * 40, 'name'], 1, 3)
            for n in ns:
                t = {'name': n}
                if d.flag():
                    t['description'] = word(d)
                if d.flag(1, 4):
                    t['externalDocs'] = self.docs_()
                doc['tags'].append(t)
        if d.flag(1, 5):
            doc['externalDocs'] = self.docs_()
        if d.flag(1, 6):
            doc['x-thing'] = anyval(d, 1)
        return doc


def make(d, **kw):
    return Gen2(d, **kw).make()
