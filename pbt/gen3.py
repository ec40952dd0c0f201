"""Generator of sets of OpenAPI 3.0 documents with references of every kind."""
import tables
from gen import names, word, fieldval, anyval, walk, PLAIN, name
from gen2 import beside, spell

ROOT = 'http://api.example.com/v1/openapi.json'
EXT = ['http://api.example.com/v1/common.json',
       'http://api.example.com/v1/sub/common.json',
       'http://api.example.com/other.v2.json',
       'http://cdn.example.org/v1/openapi.json']
WHOLE = ['http://api.example.com/v1/models/pet.json',
         'http://api.example.com/v1/models/common.json']
PARTS = {'schemas': 'Schema', 'responses': 'Response', 'parameters': 'Parameter',
         'examples': 'Example', 'requestBodies': 'RequestBody',
         'headers': 'Header', 'securitySchemes': 'SecurityScheme',
         'links': 'Link', 'callbacks': 'Callback'}
PATHS = ['/pets', '/pets/{id}', '/', '/a~b', '/a~1b', '/x y', u'/caf\u00e9',
         '/{a}/{b}.json', 'get', '{$request.body#/url}']
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']
T = tables.V30

# names such maps usually have
USUAL = {'Header': ['Content-Type', 'content-type', 'ETag', 'X-Rate-Limit', 'Accept',
                    'Authorization', 'Link', 'Set-Cookie'],
         'MediaType': ['application/json', '*/*', 'text/*', 'multipart/form-data',
                       'application/x-www-form-urlencoded', 'application/octet-stream',
                       'text/plain; charset=utf-8', 'application/vnd.x+json;v=1'],
         'Response': ['default', '200', '404', '2XX', '5XX', '100'],
         'Link': ['self', 'next', 'default'], 'Encoding': ['file', 'default', 'a.b'],
         'Example': ['default', 'value', '200']}


class Gen3(object):
    def __init__(self, d, ext=True, odd=True, refs=True, path_refs=True,
                 deep=True, size=14, cycles=True, focus=None):
        self.focus = focus
        self.d = d
        self.odd, self.refs, self.path_refs = odd, refs, path_refs
        self.size = size
        self.cycles = cycles
        self.deep = deep
        self.docs = {}
        self.targets = {}
        self.order = {}
        self.plan = {}
        exts = d.some(EXT, 0, 2) if ext and refs and (
            focus == 'paths' or d.flag(2, 3)) else []
        for u in [ROOT] + exts:
            parts = d.some(list(PARTS), 0 if u == ROOT else 1,
                           1 if focus == 'paths' else 4)
            base = ('components', ) if u == ROOT or d.flag(3, 4) else ()
            plan = []
            for p in parts:
                for n in names(d, 1, 3, odd):
                    plan.append((base + (p, n), PARTS[p]))
            self.plan[u] = plan
            for toks, cls in plan:
                self.add(cls, u, toks)
        for u in d.some(WHOLE, 0, 2) if exts and d.flag(1, 3) else []:
            self.plan[u] = [((), d.pick(['Schema', 'Parameter', 'Response',
                                         'Schema']))]
            self.add(self.plan[u][0][1], u, ())
        self.root_paths = d.some(PATHS, 0 if d.flag(1, 6) else 1, 3)
        if path_refs:
            for u in [ROOT] + exts:
                ks = self.root_paths if u == ROOT else d.some(PATHS, 0, 2)
                for k in ks:
                    self.add('PathItem', u, ('paths', k))
                    if u != ROOT:
                        self.plan[u].append((('paths', k), 'PathItem'))

    def add(self, cls, u, toks):
        ts = self.targets.setdefault(cls, [])
        self.order[u, toks] = len(ts)
        ts.append((u, toks))

    # ---------------------------------------------------------------------
    def ref(self, cls, upto=None):
        ts = self.targets.get(cls, [])
        if upto is not None:
            ts = ts[:upto]
        if not ts:
            return None
        u, toks = self.d.pick(ts)
        out = {'$ref': spell(self.d, self.url, u, toks)}
        return out if cls == 'PathItem' else beside(self.d, out, cls == 'Schema')

    def obj(self, cls, budget):
        d = self.d
        t = T[cls]
        out = {}
        budget[0] -= 1
        skip = t.restricted | {'$ref'}
        for f in t.required:
            if f in t.fields and f not in skip:
                out[f] = fieldval(d, t.fields[f])
        fields = [f for f in t.fields if f not in skip and f not in out]
        if fields:
            for f in d.some(fields, 0, d.pick([2, 2, 2, 12])):
                out[f] = fieldval(d, t.fields[f])
        if cls == 'Parameter':
            out['in'] = d.pick(['query', 'header', 'path', 'cookie'])
        if cls == 'PathItem' and self.path_refs and (
                self.focus == 'paths' or d.flag(1, 3)):
            r = self.ref('PathItem')
            if r:
                out.update(r)
        todo = [c for c in t.children if c in t.required]
        opt = [c for c in t.children if c not in t.required]
        if opt and budget[0] > 0:
            if cls == 'PathItem' and self.focus == 'paths':
                opt = ['get', 'put', 'parameters', 'servers', 'trace']
            todo += d.some(opt, 0, d.pick([3, 3, 3, 8]))
        for c in todo:
            out[c] = self.type(t.children[c], budget)
        return out

    def type(self, ty, budget):
        d = self.d
        k = ty[0]
        if k == 's':
            return word(d)
        if k == 'b':
            return d.flag() if d.flag(1, 3) else self.type(ty[1], budget)
        if k in ('r', 'rc'):
            cls = ty[1] if k == 'r' else 'Callback'
            if self.refs and (d.flag(1, 2) or budget[0] <= 0):
                r = self.ref(cls)
                if r:
                    return r
            return self.thing(cls, budget)
        if k == 'o':
            return self.obj(ty[1], budget)
        lo = 0 if d.flag(1, 6) or budget[0] <= 0 else 1
        if k == 'l':
            return [self.type(ty[1], budget)
                    for _ in range(d.int(lo, 2 if budget[0] > 0 else lo))]
        hi = 2 if budget[0] > 0 else lo
        usual = USUAL.get(ty[1][1] if len(ty[1]) > 1 else None)
        if usual and d.flag(1, 2):
            ks = d.some(usual, lo, hi)
        else:
            ks = names(d, lo, hi, self.odd)
        return {n: self.type(ty[1], budget) for n in ks}

    def thing(self, cls, budget):
        d = self.d
        if cls == 'Callback':
            return {n: self.obj('PathItem', budget)
                    for n in d.some(['{$request.body#/url}', 'http://x/{$url}',
                                     '/x', 'a'], 1, 2)}
        return self.obj(cls, budget)

    def entry(self, u, toks, cls):
        """one named object; one in three is itself a reference"""
        d = self.d
        if cls != 'PathItem' and toks and self.refs and d.flag(1, 4):
            r = self.ref(cls, None if self.cycles else self.order[u, toks])
            if r:
                return r
        return self.thing(cls, [d.pick([1, 2, 4, self.size])])

    def make(self):
        d = self.d
        for u in list(self.plan):
            self.url = u
            doc = {}
            for toks, cls in self.plan[u]:
                val = self.entry(u, toks, cls)
                if not toks:
                    doc = val or {'description': 'x'}
                    if doc == {} or '$ref' in doc:
                        doc = {'title': 'whole'}
                    break
                at = doc
                for t in toks[:-1]:
                    at = at.setdefault(t, {})
                at[toks[-1]] = val
            if u == ROOT:
                root = {'openapi': '3.0.0',
                        'info': self.obj('Info', [2]),
                        'paths': {k: self.obj('PathItem', [d.pick(
                            [1, 3, self.size])]) for k in self.root_paths}}
                root.update(doc)
                for c in d.some(['servers', 'security', 'tags', 'externalDocs'],
                                0, 2):
                    root[c] = self.type(T['OpenApi'].children[c], [3])
                doc = root
            self.docs[u] = doc
        if self.deep and self.refs and d.flag(1, 2):
            self.deepen()
        case = {'docs': self.docs, 'root': ROOT}
        if d.flag(1, 10):
            import big
            big.three(d, case, self.typed, self.refs)
        return case

    def typed(self, u):
        """(tokens, type, value) of every typed place of a document"""
        if u == ROOT:
            for x in walk(T, ('o', 'OpenApi'), self.docs[u]):
                yield x
            return
        for toks, cls in self.plan[u]:
            v = self.docs[u]
            for t in toks:
                v = v[t]
            ty = ('rc', ) if cls == 'Callback' else (
                ('o', cls) if cls == 'PathItem' else ('r', cls))
            for x in walk(T, ty, v, toks):
                yield x

    def deepen(self):
        d = self.d
        places, users = [], []
        for u in self.docs:
            for toks, ty, v in self.typed(u):
                if ty == ('o', 'Reference'):
                    users.append((u, toks, v))
                elif ty == ('o', 'Schema') and (u, toks) not in self.order and (
                        u == ROOT or not any(
                            c in x for x in toks[2:] for c in '~/')):
                    places.append((u, toks))
        schemas = self.targets.get('Schema', [])
        if not places:
            return
        for u, toks, v in users[:8]:
            if (u, toks) in self.order or not d.flag(1, 3):
                continue
            self.url = u
            if self.is_schema(u, v['$ref'], schemas):
                v['$ref'] = spell(d, u, *d.pick(places))

    def is_schema(self, u, ref, schemas):
        from refs import split
        return split(u, ref) in schemas


def make(d, **kw):
    return Gen3(d, **kw).make()
