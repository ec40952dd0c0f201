"""Generator of Swagger 1.2 documents: a listing and its API declarations."""
from gen import PLAIN, ODD, names, word

ROOTS = ['http://api.example.com/v1/api-docs.json', 'http://api.example.com/api-docs',
         'http://api.example.com/v1/doc.yml', 'http://api.example.com/v1/api.v1.json']
SEPS = ['!##!', '.', '/', '::', '~', '_', '!!']
RES = ['/pet', '/user', '/store', '/a/b', '/pet2', '/x~y', '/petstore', '/pet-x']
PATHS = ['/pets', '/pets/{id}', '/', '/user', '/user/{name}/login', '/a~b', '/a~1b',
         '/p', u'/caf\u00e9', '/pet.json']
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD', 'get']
PRIM = ['string', 'integer', 'number', 'boolean']
FORMATS = ['int32', 'int64', 'float', 'double', 'byte', 'date', 'date-time', 'x']
HOSTS = ['http://api.example.com', 'https://localhost:8080', 'http://h', '']
BASES = ['/v1', '', '/a/b', '/v1/x', '/v1/']
TEXT = ['text', 'Some words.', 'a', u'\u00fc', '0', 'http://x/y?z=1#k', 'line\nbreak']
MIMES = ['application/json', 'application/xml', 'text/plain', '*/*',
         'application/vnd.x+json; charset=utf-8', 'multipart/form-data']
NICKS = ['getPet', 'x', 'a b', 'get/pet', u'\u00e9']


class Gen12(object):
    def __init__(self, d, odd=True, code_only=True, maxres=3):
        self.d, self.odd = d, odd
        self.code_only = code_only
        self.maxres = maxres
        self.models = []

    def limits(self, out):
        d = self.d
        if out.get('type') in ('integer', 'number'):
            pool = ['0', '1', '10', '-3', '9007199254740993', 0, 7]
            pool += ['1.0', '-9223372036854775808', '2.0', '-0', 18014398509481985] \
                if out['type'] == 'integer' else ['0.5', '-1.5', 2.5, '1e5', '-0.001', '.5']
            for f in ('minimum', 'maximum'):
                if d.flag(1, 4):
                    out[f] = d.pick(pool)

    def primitive(self, out):
        d = self.d
        out['type'] = d.pick(PRIM)
        if d.flag(1, 3):
            out['format'] = d.pick(FORMATS)
        if d.flag(1, 4):
            out['defaultValue'] = d.pick(['x', '', 0, 1, False, True, '1.5', -1, -0.5,
                                          2.5, 9007199254740993, u'\u00e9', ' a ', 'a,b',
                                          'null', 'x' * 40])
        if d.flag(1, 5):
            out['enum'] = d.pick([['a', 'b'], ['1'], ['', 'x', 'y'], ['b', 'a', 'b'],
                                  ['a b', 'a,b', 'A'], [str(i) for i in range(12)],
                                  [u'\u00e9']])
        self.limits(out)
        return out

    def items(self, refs=True):
        d = self.d
        if refs and self.models and d.flag(1, 2):
            return {d.pick(['$ref', 'type']): d.pick(self.models)}
        out = {'type': d.pick(PRIM)}
        if d.flag(1, 3):
            out['format'] = d.pick(FORMATS)
        return out

    def of_array(self, out):
        """what is said about the array, not about its items"""
        d = self.d
        if d.flag(1, 8):
            out['format'] = d.pick(FORMATS)
        if d.flag(1, 8):
            out['defaultValue'] = d.pick([['a'], [], 'a,b', '', [1, 2]])
        if d.flag(1, 10):
            out['enum'] = d.pick([['a', 'b'], ['x']])

    def datatype(self, out, ref=True):
        """a type that may name models"""
        d = self.d
        k = d.int(0, 3)
        if k == 1 and self.models:
            out['$ref' if ref and d.flag() else 'type'] = d.pick(self.models)
            return out
        if k == 2:
            out['type'] = 'array'
            out['items'] = self.items()
            if d.flag(1, 4):
                out['uniqueItems'] = d.flag(3, 4)
            self.of_array(out)
            return out
        return self.primitive(out)

    def parameter(self, kind, name):
        d = self.d
        out = {'paramType': kind, 'name': name}
        if kind == 'path' or d.flag(1, 2):
            out['required'] = kind == 'path' or d.flag(2, 3)
        if d.flag(1, 3):
            out['description'] = word(d)
        if kind == 'body':
            return self.datatype(out)
        k = d.int(0, 4)
        if kind == 'form' and k == 4:
            out['type'] = 'File'
        elif k == 3:
            out['type'] = 'array'
            out['items'] = self.items(refs=False)
            if d.flag(1, 3):
                out['uniqueItems'] = d.flag(3, 4)
            self.of_array(out)
            if d.flag(1, 6) and kind != 'form':
                out['allowMultiple'] = True
        else:
            self.primitive(out)
            if kind != 'form' and d.flag(1, 3):
                out['allowMultiple'] = d.flag(2, 3)
                if out['allowMultiple'] and d.flag(1, 4):
                    out['uniqueItems'] = d.flag(3, 4)
        return out

    def operation(self, method):
        d = self.d
        out = {'method': method, 'nickname': d.pick(NICKS) if d.flag(4, 5)
               else word(d)}
        for f in ('summary', 'notes'):
            if d.flag(1, 3):
                out[f] = word(d)
        if d.flag(1, 4):
            out['deprecated'] = d.pick(['true', 'false'])
        for f in ('consumes', 'produces'):
            if d.flag(1, 4):
                out[f] = d.some(MIMES, 1, d.pick([2, 2, 2, 6]))
        if d.flag(1, 3):
            out['authorizations'] = self.auths()
        if d.flag(1, 3):
            out['type'] = 'void'
        else:
            self.datatype(out, ref=False)
        ps = []
        used = set()
        body = d.pick([None, None, 'body', 'form'])
        for _ in range(d.pick([0, 1, 2, 3, 0, 1, 2, 6])):
            k = d.pick(['query', 'path', 'header'] + (['form'] if body == 'form' else []))
            n = d.pick(PLAIN[:6] + ['X-Id', 'a b', u'\u00e9']) if d.flag(4, 5) else d.pick(
                ['user[name]', 'a.b', '~', 'a/b', 'items', 'type', 'required', '$top', '0',
                 'ID', 'x' * 40])
            if (k, n) not in used:
                used.add((k, n))
                ps.append(self.parameter(k, n))
        if body == 'body':
            ps.insert(d.int(0, len(ps)), self.parameter('body', d.pick(['body', 'x'])))
        out['parameters'] = ps
        if d.flag(1, 4):
            out['responseMessages'] = [{'code': 404, 'message': 'no'}]
        return out

    def auths(self):
        d = self.d
        out = {}
        for n in d.some(self.auth_names, 0, 3):
            out[n] = [dict({'scope': s}, **({'description': word(d)} if d.flag() else {}))
                      for s in d.some(['read', 'write:pets', 'a/b', '',
                                       'https://example.com/auth/pets.read'], 0, 2)]
        return out

    def model(self, n, subs):
        d = self.d
        out = {'id': n, 'properties': {}}
        for p in names(d, 0, d.pick([3, 3, 3, 8]), self.odd):
            v = self.datatype({})
            if d.flag(1, 3):
                v['description'] = word(d)
            out['properties'][p] = v
        if d.flag(1, 3):
            out['description'] = word(d)
        if d.flag(1, 3):
            out['required'] = d.some(list(out['properties']), 0, d.pick([2, 2, 6]))
        if d.flag(1, 6) and out['properties']:
            out['discriminator'] = d.pick(list(out['properties']))
        if subs and d.flag(1, 3):
            out['subTypes'] = d.some(subs, 0 if d.flag(1, 6) else 1, d.pick([2, 2, 6]))
        return out

    def declaration(self, rpath, base, used, taken):
        d = self.d
        self.models = [n for n in names(d, 0, d.pick([4, 4, 4, 9]), self.odd) if n and n not in taken and
                       n not in ('array', 'void') and n not in PRIM]
        if d.flag(1, 6):
            # names of primitive types are in lower case
            n = d.pick(['String', 'Number', 'Array', 'Void', 'STRING', 'object'])
            if n not in taken:
                self.models.append(n)
        out = {'swaggerVersion': '1.2', 'basePath': base, 'apis': []}
        if rpath is not None:
            out['resourcePath'] = rpath
        if d.flag(1, 2):
            out['apiVersion'] = '1.0'
        for f in ('consumes', 'produces'):
            if d.flag(1, 3):
                out[f] = d.some(MIMES, 1, d.pick([2, 2, 2, 6]))
        if d.flag(1, 4):
            out['authorizations'] = self.auths()
        for p in d.some(PATHS, 0 if d.flag(1, 6) else 1, d.pick([3, 3, 3, 8])):
            if base.endswith('/') and p.startswith('/'):
                p = p[1:]
            api = {'path': p, 'operations': []}
            if d.flag(1, 4):
                api['description'] = word(d)
            for m in d.some(METHODS, 1, d.pick([2, 2, 2, 7])):
                if (base + p, m.lower()) not in used:
                    used.add((base + p, m.lower()))
                    api['operations'].append(self.operation(m))
            out['apis'].append(api)
        if self.models or d.flag(1, 4):
            ms = {n: self.model(n, self.models[i + 1:])
                  for i, n in enumerate(self.models)}
            out['models'] = {n: ms[n] for n in d.shuffle(list(ms))}
        return out

    def authorization(self):
        d = self.d
        k = d.pick(['basicAuth', 'apiKey', 'oauth2', 'oauth2'])
        out = {'type': k}
        if k == 'apiKey':
            out['keyname'] = d.pick(['key', 'X-Key', 'a b', 'in', '~', 'Key'])
            out['passAs'] = d.pick(['header', 'query'])
        elif k == 'oauth2':
            if d.flag(3, 4):
                out['scopes'] = []
                for s in d.some(['read', 'write:pets', 'a/b', 'x~y', u'\u00e9', '',
                                 'https://example.com/auth/pets.read'], 0, d.pick([3, 3, 7])):
                    v = {'scope': s}
                    if d.flag(2, 3):
                        v['description'] = word(d)
                    out['scopes'].append(v)
            g = out['grantTypes'] = {}
            kind = d.int(0, 2) if self.code_only else d.pick([0, 2])
            if kind != 1:
                g['implicit'] = {'loginEndpoint': {'url': d.pick(
                    ['http://a/auth', 'https://b/x?y=z'])}}
                if d.flag():
                    g['implicit']['tokenName'] = 'token'
            if kind >= 1:
                g['authorization_code'] = {
                    'tokenRequestEndpoint': {'url': 'http://a/request',
                                             'clientIdName': 'id'},
                    'tokenEndpoint': {'url': d.pick(['http://a/token', 'https://b/t'])}}
        return out

    def make(self):
        d = self.d
        root = d.pick(ROOTS)
        sep = d.pick(SEPS) if d.flag() else SEPS[0]
        folder = root.rsplit('/', 1)[0] if root.endswith(('.json', '.yml')) else root
        listing = {'swaggerVersion': '1.2', 'apis': []}
        # 2.0 needs a version
        listing['apiVersion'] = d.pick(['1.0', '2', 'v1-beta', 'a'])
        if d.flag(2, 3):
            info = listing['info'] = {'title': d.pick(TEXT), 'description': d.pick(TEXT)}
            for f in ('termsOfServiceUrl', 'contact', 'license', 'licenseUrl'):
                if d.flag(1, 3):
                    info[f] = d.pick(TEXT)
        self.auth_names = names(d, 0, 3, self.odd)
        if self.auth_names or d.flag(1, 6):
            listing['authorizations'] = {n: self.authorization()
                                         for n in self.auth_names}
        host = d.pick(HOSTS)
        docs = {root: listing}
        used = set()
        spaces = {}
        for r in d.some(RES, 0 if d.flag(1, 8) else 1, self.maxres):
            entry = {'path': r + ('.json' if d.flag(1, 6) else '')}
            if d.flag(1, 3):
                entry['description'] = word(d)
            listing['apis'].append(entry)
            rpath = r
            k = d.int(0, 11)
            if k == 11 and None not in spaces:
                rpath = None
            elif k == 10 and '/' not in spaces:
                rpath = '/'
            elif k == 9:
                rpath = RES[0]
            elif k == 8:
                rpath = r + d.pick(['/', '.{format}', '/{id}', ' x', '//', '.json'])
            space = rpath if rpath and rpath != '/' else ''
            if not space and space in spaces:
                rpath = space = r
            base = host + d.pick(BASES)
            taken = spaces.setdefault(space, set())
            decl = self.declaration(rpath, base, used, taken)
            taken.update(decl.get('models') or {})
            docs[folder + entry['path'] if folder[-1] != '/' else
                 folder + entry['path'][1:]] = decl
        case = {'docs': docs, 'root': root, 'sep': sep}
        if d.flag(1, 10):
            import big
            big.one(d, case)
        return case


def make(d, **kw):
    return Gen12(d, **kw).make()
