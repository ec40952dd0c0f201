"""C23: the same document loads the same however it is stored and fetched"""
import http.server
import json
import os
import posixpath
import shutil
import subprocess
import sys
import tempfile
import threading
from urllib.parse import unquote, urlsplit

from core import Sub, check, clone, same, sut
from gen import cases
from model23 import OPENAPI, norm3
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 1.2 listings, Swagger 2.0 and OpenAPI 3.0 document sets, each written as JSON (compact, indented, ASCII '
        'or not, leading white space) or YAML (status codes quoted or as numbers), and loaded from files (by path, by relative path, by file:// URL, from the '
        'folder, folders with blanks and non-ASCII), through a load hook, over HTTP from a local server, with a dict '
        'getter, and with a getter returning text, bytes or dicts. Loaded and migrated dumps must be those of the '
        'JSON text served from memory, base URL aside (also those of files read by processes with another locale, and of one resolver mixing local files with its default getter), and so must what the local references of the root document give when looked up. Non-trivial: not a single JSON document.')
HOST = 'http://api.example.com'
FORMS = ['json', 'indent', 'ascii', 'space', 'blanks', 'yaml', 'yamlint', 'yaml-ascii',
         'yaml-alias']
WAYS = ['file', 'relpath', 'fileurl', 'folder', 'hook', 'hook-http', 'hook-scheme', 'http',
        'dict', 'dict-shared', 'text', 'bytes', 'dictgetter', 'getter-class',
        'getter-object']
SCHEMES = ['https://other.host', 'file://', 'ftp://api.example.com']
FOLDERS = ['', 'sub', 'a b', u'caf\u00e9', 'x%20y', 'a.b', 'a+b',
           'v1.json', 'specs.yaml', 'a:b', 'a&b', 'a;b', 'a;b=1', "it's", '~', '$x']
ROOT = {'1.2': ('o', 'ResourceListing'), '2.0': ('o', 'Swagger'), '3.0.0': OPENAPI}
VERSIONS = ['1.2', '2.0', '3.0.0']


def local(v):
    """references of the only document, without its URL"""
    if isinstance(v, dict):
        r = v.get('$ref')
        if isinstance(r, str) and '#' in r:
            v['$ref'] = '#' + r.partition('#')[2]
        for x in v.values():
            local(x)
    elif isinstance(v, list):
        for x in v:
            local(x)


def relative(docs):
    """same references, without the host"""
    def go(base, v):
        if isinstance(v, dict):
            r = v.get('$ref')
            if isinstance(r, str) and (r.startswith(HOST + '/') or r.startswith('/')):
                u, h, frag = r.partition('#')
                p = posixpath.relpath(urlsplit(u).path,
                                      posixpath.dirname(urlsplit(base).path))
                v['$ref'] = p + h + frag
            for x in v.values():
                go(base, x)
        elif isinstance(v, list):
            for x in v:
                go(base, x)
    for u, doc in docs.items():
        go(u, doc)


def moved(docs, new):
    """same references, to another host"""
    def go(v):
        if isinstance(v, list):
            return [go(x) for x in v]
        if not isinstance(v, dict):
            return v
        return {k: x.replace(HOST, new, 1) if k == '$ref' and isinstance(x, str)
                and x.startswith(HOST + '/') else go(x) for k, x in v.items()}
    return go(docs)


def gen(d, version):
    if version == '1.2':
        case = gen12.make(d)
    elif version == '2.0':
        case = gen2.make(d, path_refs=True)
    else:
        case = gen3.make(d)
    docs = case['docs']
    alone = len(docs) == 1
    here = all(u.startswith(HOST + '/') for u in docs)
    ways = [w for w in WAYS if (here or w in (
        'hook', 'hook-http', 'dict', 'dict-shared', 'text', 'bytes')) and
            (alone or w not in (
                'folder', 'dictgetter', 'getter-class', 'getter-object') or version == '1.2')]
    case['way'] = d.pick(ways)
    if version != '1.2' and case['way'] in (
            'file', 'relpath', 'fileurl', 'folder', 'http', 'dictgetter'):
        relative(docs)
    if case['way'] == 'folder' and version != '1.2':
        local(docs)
    if case['way'] == 'hook-scheme':
        case['scheme'] = d.pick(SCHEMES)
    case['form'] = {u: d.pick(FORMS) for u in docs}
    case['folder'] = d.pick(FOLDERS)
    if case['way'] == 'folder' and version == '1.2' and case['folder'].endswith(('.json', '.yaml')):
        # looks like a document, its resources are beside it
        case['folder'] = ''
    case['name'] = d.pick(['resource_list.json'] if version == '1.2' else [
        'swagger.json', 'swagger.yaml', 'swagger.yml'])
    case['to'] = d.pick(VERSIONS[VERSIONS.index(version):])
    case['v'] = version
    return case


def ints(v, key=None):
    """status codes as numbers, as people write them in YAML"""
    if isinstance(v, dict):
        return {int(k) if key == 'responses' and k in ('200', '201', '404', '500', '400')
                else k: ints(x, k) for k, x in v.items()}
    if isinstance(v, list):
        return [ints(x) for x in v]
    return v


def shared(doc):
    """equal parts become one object"""
    known = {}

    def go(v):
        if isinstance(v, dict):
            v = {k: go(x) for k, x in v.items()}
        elif isinstance(v, list):
            v = [go(x) for x in v]
        else:
            return v
        return known.setdefault(json.dumps(v), v)
    return go(doc)


def text(doc, form):
    import yaml
    if form.startswith('yaml'):
        if form == 'yamlint':
            doc = ints(doc)
        elif form == 'yaml-alias':
            # equal parts become anchors and aliases
            doc = shared(doc)
        return yaml.safe_dump(doc, allow_unicode=form != 'yaml-ascii',
                              default_flow_style=False, sort_keys=False)
    if form == 'indent':
        return json.dumps(doc, indent=2, ensure_ascii=False)
    if form == 'blanks':
        return '\r\n' * 40 + ' ' * 4000 + json.dumps(doc, indent='\t', ensure_ascii=False)
    out = json.dumps(doc, ensure_ascii=form == 'ascii')
    return '\n \t' + out if form == 'space' else out


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        body = self.server.bodies.get(self.path)
        self.send_response(200 if body is not None else 404)
        self.send_header('Content-Length', str(len(body or b'')))
        self.end_headers()
        self.wfile.write(body or b'')

    def log_message(self, *_):
        pass


SERVERS = {}


def server():
    if os.getpid() not in SERVERS:
        s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        SERVERS[os.getpid()] = s
    return SERVERS[os.getpid()]


def build(url, version, sep, url_load_hook=None, resolver=None, **kw):
    from pyopenapi import utils
    app = A.App(url, url_load_hook=url_load_hook, resolver=resolver, sep=sep)
    app.raw = app.load_obj(url, **kw)
    raw = clone(app.raw.dump())
    more = {}
    if hasattr(app.raw, 'cached_apis') and app.raw.cached_apis:
        more = {k: clone(v.dump()) for k, v in app.raw.cached_apis.items()}
    app.root = app.migrate_obj(app.raw, url, version)
    return utils.normalize_url(url), raw, more, app


def find(app, case):
    """what the references of the document, to itself, give when looked up"""
    v, out = case['v'], {}
    if v != '1.2':
        for _, _, ref in refs.places(tables.TABLES[v], ROOT[v],
                                     case['docs'][case['root']]):
            if ref.startswith('#/') and ref not in out:
                obj, at = app.resolve_obj(ref, v, to_spec_version=case['to'])
                out[ref] = (obj, obj.__class__.__name__, at.partition('#')[2])
    return out


def write(top, docs, form, names):
    for u, doc in docs.items():
        p = urlsplit(u)
        path = os.path.join(top, names.get(u) or (p.netloc + p.path))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.splitext(path)[1]:
            path += '.json'
        with open(path, 'w', encoding='utf-8') as fh:
            fh.write(text(doc, form[u]))


def Nothing(url):
    raise AssertionError('the getter of the resolver is used for %s' % url)


def via(case, top, docs):
    """load the case its own way: (root url, what a base of the docs became)"""
    from pyopenapi.migration.getter import SimpleGetter, DictGetter
    from pyopenapi.migration.resolve import Resolver
    way, root, form, sep = case['way'], case['root'], case['form'], case.get('sep', '!##!')
    top = os.path.join(top, case['folder']) if case['folder'] else top
    to = case['to']
    if way in ('file', 'relpath', 'fileurl', 'hook', 'hook-http'):
        write(top, docs, form, {})
        p = urlsplit(root)
        path = os.path.join(top, p.netloc + p.path)
        if not os.path.splitext(path)[1]:
            path += '.json'
            if way in ('file', 'relpath', 'fileurl'):
                # resources are looked for beside the listing
                path = os.path.join(top, p.netloc + p.path)
        from pyopenapi import utils
        if way == 'file':
            return build(path, to, sep)
        if way == 'relpath':
            return build(os.path.relpath(path), to, sep)
        if way == 'fileurl':
            return build(utils.normalize_url(path), to, sep)

        def hook(url):
            q = urlsplit(url)
            f = os.path.join(top, q.netloc + unquote(q.path))
            if way == 'hook':
                return utils.normalize_url(f)
            return 'http://127.0.0.1:%d/%s%s' % (
                server().server_port, q.netloc, q.path)

        if way == 'hook-http':
            serve(docs, form, lambda q: '/' + q.netloc + q.path)
        return build(root, to, sep, url_load_hook=hook)
    if way == 'folder':
        names = {root: case['name']}
        for u in docs:
            if u != root:
                names[u] = posixpath.basename(urlsplit(u).path)
        if case['v'] == '1.2':
            # below the folder of the listing, as in the listing
            base = root.rsplit('/', 1)[0] if root.endswith(('.json', '.yml')) else root
            names.update({u: u[len(base) + 1:] for u in docs if u != root})
        write(top, docs, form, names)
        return build(top, to, sep)
    if way == 'http':
        serve(docs, form, lambda q: q.path)
        base = 'http://127.0.0.1:%d' % server().server_port
        return build(base + urlsplit(root).path, to, sep)
    if way == 'hook-scheme':
        # every URL goes through the hook, whatever its scheme
        new = case['scheme']
        docs = {u.replace(HOST, new, 1): v for u, v in moved(docs, new).items()}

        class Mirror(SimpleGetter):
            def load(self, path):
                return text(docs[path[len('mirror:'):]],
                            form[path[len('mirror:'):].replace(new, HOST, 1)])

        return build(root.replace(HOST, new, 1), to, sep, resolver=Resolver(
            default_getter=Mirror, url_load_hook=lambda u: 'mirror:' + u))
    if way in ('dictgetter', 'getter-object'):
        urls = [root]
        if case['v'] == '1.2':
            base = root.rsplit('/', 1)[0] if root.endswith(('.json', '.yml')) else root
            urls += [base + a['path'] for a in docs[root].get('apis') or []]
        g = DictGetter(urls, docs)
        if way == 'getter-object':
            return build(root, to, sep, resolver=Resolver(default_getter=Nothing),
                         getter=g)
        return build(root, to, sep, resolver=Resolver(default_getter=g))

    class Getter(SimpleGetter):
        def load(self, path):
            if way == 'dict':
                return docs[path]
            if way == 'dict-shared':
                return both[path]
            t = text(docs[path], form[path])
            return t if way == 'text' else t.encode('utf-8')

    if way == 'getter-class':
        # given to load_obj, and used for all of a listing
        return build(root, to, sep, resolver=Resolver(default_getter=Nothing),
                     getter=Getter)
    both = shared(docs)
    return build(root, to, sep, resolver=Resolver(default_getter=Getter))


def serve(docs, form, where):
    from urllib.parse import quote
    server().bodies = {quote(where(urlsplit(u)), safe="/{}~!$&'()*+,;=:@%"):
                       text(doc, form[u]).encode('utf-8')
                       for u, doc in docs.items()}


def norm(version, dump, base, top, ty=None):
    """references below `top` written as below the usual host"""
    t = tables.TABLES[version]
    root, ty = ty is None, ty or ROOT[version]
    dump = clone(dump)
    for item in [dump] if not root else (dump.get('paths') or {}).values() \
            if version == '3.0.0' else ():
        item.pop('x-pyopenapi_internal_request_body', None)
    for toks, _, ref in list(refs.places(t, ty, dump)):
        u, _, frag = ref.partition('#')
        if not u:
            u = base
        if u == base:
            u = '<root>'
        elif u.startswith(top):
            u = HOST + u[len(top):]
        refs.at(dump, toks)['$ref'] = u + '#' + frag
    return dump


def run(case, cx):
    from pyopenapi import utils
    docs, root, way = case['docs'], case['root'], case['way']
    cx.label(way)
    for f in case['form'].values():
        if way in ('file', 'relpath', 'fileurl', 'folder', 'hook', 'http', 'text', 'bytes',
                   'hook-http', 'hook-scheme', 'getter-class'):
            cx.label('stored as ' + f)
    cx.nontrivial(len(docs) > 1 or set(case['form'].values()) != {'json'})
    sep = case.get('sep', '!##!')
    with sut('loading JSON text from memory'):
        app = A.load_app(clone(docs), root, sep=sep)
        raw = clone(app.raw.dump())
        app.root = app.migrate_obj(app.raw, root, case['to'])
        want = clone(app.root.dump())
    top = tempfile.mkdtemp(prefix='c23-')
    try:
        with sut('loading by ' + way):
            url, graw, more, other = via(case, top, clone(docs))
            obj = other.root
            got = clone(obj.dump())
        with sut('looking up local references of the document loaded by ' + way):
            gfound = {k: (c, clone(o.dump()), j)
                      for k, (o, c, j) in find(other, case).items()}
    finally:
        shutil.rmtree(top)
    check(obj.__class__.__name__ == app.root.__class__.__name__,
          'another kind of object is loaded', way=way)
    if case['v'] == '1.2':
        same(more, {k: v.dump() for k, v in app.raw.cached_apis.items()},
             'the declarations are not the same', way=way)
    base = HOST
    if way in ('file', 'relpath', 'fileurl'):
        f = os.path.join(top, case['folder']) if case['folder'] else top
        base = utils.normalize_url(os.path.join(f, 'api.example.com'))
    elif way == 'hook-scheme':
        base = case['scheme']
    elif way == 'http':
        base = 'http://127.0.0.1:%d' % server().server_port
    if case['v'] != '3.0.0':
        same(norm(case['v'], graw, url, base), norm(case['v'], raw, root, HOST),
             'the loaded object is not the same', way=way)
    same(norm(case['to'], got, url, base), norm(case['to'], want, root, HOST),
         'the migrated object is not the same', way=way)
    with sut('looking up local references'):
        found = {k: (c, clone(o.dump()), j)
                 for k, (o, c, j) in find(app, case).items()}
    for ref in found:
        cx.label('lookup')
        gc, gd, gj = gfound[ref]
        wc, wd, wj = found[ref]
        same([gc, gj], [wc, wj], 'a looked up object is not the same', way=way, ref=ref)
        ty = {'Callback': ('m', ('o', 'PathItem')),
              'Reference': ('r', 'Schema')}.get(wc, ('o', wc))
        same(norm(case['to'], gd, url, base, ty),
             norm(case['to'], wd, root, HOST, ty),
             'a looked up object is not the same', way=way, ref=ref)


def strat(version):
    return lambda: cases(gen, version)


CHILD = """
import json, sys
sys.path[:0] = [p for p in sys.argv[1].split(':') if p]
import app as A
out = []
for path in json.load(sys.stdin):
    try:
        app = A.App(path)
        out.append(app.load_obj(path).dump())
    except Exception as e:
        out.append('%s: %s' % (type(e).__name__, ascii(str(e))))
print(json.dumps(out))
"""
LOCALES = [{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
           {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0',
            'PYTHONIOENCODING': 'latin-1'},
           {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C', 'PYTHONUTF8': '1'}]
TEXTS = [u'caf\u00e9', u'\u4e2d\u6587', u'\U0001f600', u'\u00a0 \u2028', u'\u0394t \u2264 1']


def gen_locale(d):
    items = []
    for _ in range(d.int(4, 10)):
        v = d.pick(['2.0', '3.0.0'])
        case = (gen2 if v == '2.0' else gen3).make(d)
        doc = case['docs'][case['root']]
        doc['info']['description'] = d.pick(TEXTS)
        items.append([v, doc, d.pick(FORMS)])
    return {'items': items, 'env': d.int(0, len(LOCALES) - 1)}


def run_locale(case, cx):
    """files are read the same whatever the locale of the process is"""
    want = []
    for v, doc, _ in case['items']:
        with sut('loading JSON text from memory'):
            want.append(clone(A.load_app({HOST + '/x': clone(doc)}, HOST + '/x').raw.dump()))
    top = tempfile.mkdtemp(prefix='c23-')
    try:
        paths = []
        for i, (v, doc, form) in enumerate(case['items']):
            paths.append(os.path.join(top, '%d.%s' % (i, 'yaml' if 'yaml' in form else 'json')))
            with open(paths[-1], 'w', encoding='utf-8') as fh:
                fh.write(text(doc, form))
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
        env.update(LOCALES[case['env']], PYTHONDONTWRITEBYTECODE='1')
        out = subprocess.run(
            [sys.executable, '-c', CHILD, ':'.join(sys.path)], env=env,
            input=json.dumps(paths).encode(), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=300)
    finally:
        shutil.rmtree(top)
    if out.returncode:
        raise RuntimeError(out.stderr.decode(errors='replace')[-2000:])
    got = json.loads(out.stdout.decode())
    for (v, doc, form), g, w in zip(case['items'], got, want):
        cx.label('stored as ' + form)
        same(g, w, 'a file is read otherwise in another locale', form=form,
             env=LOCALES[case['env']])
    cx.nontrivial(LOCALES[case['env']].get('PYTHONUTF8') == '0')


def gen_mixed(d):
    """documents of several kinds of places, asked for in any order"""
    places = []
    for i in range(d.int(2, 6)):
        doc = {'swagger': '2.0', 'info': {'title': 't', 'version': str(i)}, 'paths': {},
               'definitions': {'A': {'title': 'd%d' % i}}}
        places.append([d.pick(['http', 'file', 'fileurl', 'path']), doc, d.pick(FORMS)])
    asks = [[d.int(0, len(places) - 1), d.pick(['', '#/definitions/A', '#/info'])]
            for _ in range(d.int(2, 10))]
    return {'places': places, 'asks': asks, 'own': d.flag(1, 4), 'app': d.flag(1, 2)}


def run_mixed(case, cx):
    """one resolver for local files and for documents served by its default
    getter (or by one given with the request)"""
    top = tempfile.mkdtemp(prefix='c23-')
    try:
        served, urls = {}, []
        for i, (kind, doc, form) in enumerate(case['places']):
            if kind == 'http':
                urls.append(HOST + '/%d.json' % i)
                served[urls[-1]] = text(doc, form)
                continue
            path = os.path.join(top, '%d.%s' % (i, 'yaml' if 'yaml' in form else 'json'))
            with open(path, 'w', encoding='utf-8') as fh:
                fh.write(text(doc, form))
            urls.append('file://' + path if kind == 'fileurl' else path)

        class Served(A.SimpleGetter):
            def load(self, path):
                return served[path]

        r = A.Resolver(default_getter=None if case['own'] else Served)
        app = A.App(urls[0], resolver=r) if case['app'] else None
        kinds = set()
        for i, jp in case['asks']:
            kind, doc, _ = case['places'][i]
            kinds.add(kind == 'http')
            want = doc
            for t in jp.split('/')[1:]:
                want = want[t]
            getter = Served if case['own'] and kind == 'http' else None
            with sut('asking for a %s document' % kind):
                if app and not jp:
                    got = app.load_obj(urls[i], getter=getter).dump()
                    want = clone(want)
                    same(got.get('info'), want['info'], 'another document is loaded', kind=kind)
                    same(got.get('definitions'), want['definitions'],
                         'another document is loaded', kind=kind)
                else:
                    same(r.resolve(urls[i] + jp, getter), want,
                         'another document is given', kind=kind, jp=jp)
        cx.nontrivial(len(kinds) == 2)
        cx.label('own getter' if case['own'] else 'default getter')
    finally:
        shutil.rmtree(top)


SUBS = [Sub('1.2', strat('1.2'), run, quick=500, thorough=8000),
        Sub('2.0', strat('2.0'), run, quick=500, thorough=8000),
        Sub('3.0', strat('3.0.0'), run, quick=400, thorough=6000),
        Sub('locale', lambda: cases(gen_locale), run_locale, quick=24, thorough=500),
        Sub('mixed', lambda: cases(gen_mixed), run_mixed, quick=400, thorough=8000)]
