"""C30: what cannot be represented is refused"""
from core import Sub, Violation, CaseTimeout, check, clone, same, short, sut
from gen import cases, walk
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('A random valid document set of one of the versions, which must be accepted, and one defect at a random position of it, '
        'which must be refused with an exception by loading or migrating: an unknown version, a list where a map belongs or the reverse, '
        'a reference to nothing, an empty reference, form fields declared twice, several bodies, a body beside form fields, OAuth2 without flow, extension '
        'paths, space or pipe separated values that 3.0 has no style for, and for 1.2 several hosts, limits on non-numbers, '
        'references in non-body parameters, missing declarations. Plus bad requests on an accepted application: lookups of empty '
        'references, of pointers and documents that do not exist, in unknown versions, downgrades. '
        'Non-trivial: every case with a defect.')
ASSUMPTIONS = ['which exception is raised is not checked, except that it is not a timeout or an exhausted stack']
ROOT_CLS = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}
MAKE = {'1.2': gen12.make, '2.0': gen2.make, '3.0.0': gen3.make}
VKEY = {'1.2': 'swaggerVersion', '2.0': 'swagger', '3.0.0': 'openapi'}
BADV = ['1.0', '1.1', '2.1', '2', '2.0.0', '3.0', '3.0.1', '3.1.0', '4.0', '',
        'x', 'latest', 2.0, 3, None, True, ['2.0'], '2.0 ', 'v2.0']
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']


# a defect: fn(d, case) -> list of edits [url, tokens, value], or None if this
# document has no place for it; a value of ['$del'] takes the key away

def unknown_version(d, case):
    which = case['which']
    return [[case['root'], [VKEY[which]], d.pick(BADV)]]


def no_version(d, case):
    return [[case['root'], [VKEY[case['which']]], ['$del']]]


def container(d, case):
    t = tables.TABLES[case['which']]
    spots = []
    for u, cls in docs_of(case):
        for toks, ty, _ in walk(t, ('o', cls), case['docs'][u]):
            if ty[0] in ('l', 'm') and toks:
                spots.append((u, toks, ty[0]))
    if not spots:
        return None
    u, toks, k = d.pick(spots)
    v = d.pick([[], ['x'], 'text', 0, 3, True, False, [{}], ''] if k == 'm' else
               [{}, {'a': {}}, 'text', 0, 5, True, False, {'0': 'x'}, ''])
    return [[u, list(toks), v]]


def not_text(d, case):
    t = tables.TABLES[case['which']]
    spots = [(u, toks) for u, cls in docs_of(case)
             for toks, ty, _ in walk(t, ('o', cls), case['docs'][u])
             if ty[0] == 's']
    if not spots:
        return None
    u, toks = d.pick(spots)
    return [[u, list(toks), d.pick([{}, [], ['x'], {'a': 'b'}])]]


def docs_of(case):
    out = [(case['root'], ROOT_CLS[case['which']])]
    if case['which'] == '1.2':
        out += [(u, 'ApiDeclaration') for u in case['docs'] if u != case['root']]
    return out


def ref_places(case):
    t = tables.TABLES[case['which']]
    return list(refs.places(t, ('o', ROOT_CLS[case['which']]),
                            case['docs'][case['root']]))


def dangling(d, case):
    ps = ref_places(case)
    if not ps:
        return None
    toks, ty, ref = d.pick(ps)
    return dangle(d, case, case['root'], toks, ref)


def dangling_ext(d, case):
    """a broken reference inside of an object of another document"""
    t = tables.TABLES[case['which']]
    ps = []
    for _, ty, ref in ref_places(case):
        url, toks, val = refs.target(case['docs'], case['root'], ref)
        if url != case['root'] and isinstance(val, dict):
            ps += [(url, toks + x, r) for x, _, r in refs.places(t, ty, val)]
    if not ps:
        return None
    url, toks, ref = d.pick(ps)
    return dangle(d, case, url, toks, ref)


def texts(val, toks=()):
    """where the document has something but objects and lists"""
    if isinstance(val, (dict, list)):
        for k, x in val.items() if isinstance(val, dict) else enumerate(val):
            for y in texts(x, toks + (str(k), )):
                yield y
    elif toks:
        yield toks


def dangle(d, case, base, toks, ref):
    pool = ['#/definitions/NoSuch', '#/components/schemas/NoSuch', '#/nowhere',
            'missing.json', 'missing.json#/definitions/Pet',
            'http://nowhere/x.json#/a', '#/info/nosuch', '#/paths/~1nosuch']
    if d.flag(1, 4):
        # a text or a number, or below one
        url = d.pick(sorted(case['docs']))
        below = sorted(texts(case['docs'][url]))
        new = (url if url != base else '') + '#' + ''.join(
            '/' + refs.enc(x) for x in d.pick(below) + d.pick([('x', ), ()])
        ) if below else '#/no/x'
    elif ref.endswith('/'):
        new = d.pick(pool)
    else:
        new = d.pick(pool + [ref + '0x', ref + '/nosuch', ref + '/nosuch/deeper',
                             ref + '~1'] if '#' in ref else pool)
    nurl, ntoks = refs.split(base, new)
    try:
        if isinstance(refs.at(case['docs'][nurl], ntoks), (dict, list)):
            return None
    except (KeyError, ValueError, IndexError, TypeError):
        pass
    return [[base, list(toks) + ['$ref'], new]]


def empty_ref(d, case):
    ps = [p for p in ref_places(case) if p[1] != ('o', 'PathItem')]
    if not ps:
        return None
    return [[case['root'], list(d.pick(ps)[0]) + ['$ref'], '']]


def operations(case):
    doc = case['docs'][case['root']]
    return [(['paths', k, m], p[m]) for k, p in (doc.get('paths') or {}).items()
            for m in METHODS if m in p]


def kind_of(case, p):
    _, _, p = refs.final(case['docs'], case['root'], p)
    return p.get('in')


def effective(case, toks, op):
    """parameters of an operation, its own ones"""
    return [kind_of(case, p) for p in op.get('parameters') or []]


def inherited(case, toks):
    item = refs.at(case['docs'][case['root']], toks[:-1])
    return [kind_of(case, p) for p in item.get('parameters') or []]


def insert(d, op, toks, new):
    """edits that add parameters to an operation, in random positions"""
    ps = list(op.get('parameters') or [])
    for n in new:
        ps.insert(d.int(0, len(ps)), n)
    return [[None, toks + ['parameters'], ps]]


def at_root(case, edits):
    return edits and [[case['root'] if e[0] is None else e[0]] + e[1:] for e in edits]


def some_op(d, case, bad=(), path_bad=()):
    ops = [(t, o) for t, o in operations(case)
           if not set(effective(case, t, o)) & set(bad) and
           not set(inherited(case, t)) & set(path_bad)]
    return d.pick(ops) if ops else (None, None)


def shared(d, case, params):
    """put some of them below '#/parameters' and refer to them instead"""
    edits = []
    doc = case['docs'][case['root']]
    for i, p in enumerate(params):
        if d.flag(1, 4):
            n = 'shared by check %d' % i
            if not edits and 'parameters' not in doc:
                edits.append([None, ['parameters'], {}])
            edits.append([None, ['parameters', n], p])
            params[i] = {'$ref': '#/parameters/' + n}
    return edits


def form_twice(d, case):
    toks, op = some_op(d, case, ['body'], ['body'])
    if op is None:
        return None
    ty = d.pick(['string', 'integer', 'boolean', 'file'])
    name = d.pick(['twice', 'a b', u'\u00e9', 'id~'])
    new = [{'in': 'formData', 'name': name, 'type': ty},
           {'in': 'formData', 'name': name, 'type': ty if ty == 'file' else
            d.pick(['string', 'number'])}]
    edits = shared(d, case, new)
    return at_root(case, edits + insert(d, op, toks, new))


def two_bodies(d, case):
    toks, op = some_op(d, case, ['formData'], ['formData'])
    if op is None:
        return None
    n = 2 if 'body' not in effective(case, toks, op) else d.int(1, 2)
    new = [{'in': 'body', 'name': 'body%d' % i, 'schema': {
        'type': d.pick(['string', 'object', 'integer'])}} for i in range(n)]
    edits = shared(d, case, new)
    return at_root(case, edits + insert(d, op, toks, new))


def body_and_form(d, case):
    toks, op = some_op(d, case, ['body', 'formData'], ['body', 'formData'])
    if op is None:
        return None
    new = [{'in': 'body', 'name': 'body', 'schema': {'type': 'object'}},
           {'in': 'formData', 'name': 'field',
            'type': d.pick(['string', 'file'])}]
    edits = shared(d, case, new)
    return at_root(case, edits + insert(d, op, toks, d.shuffle(new)))


def oauth_no_flow(d, case):
    doc = case['docs'][case['root']]
    old = [k for k, v in (doc.get('securityDefinitions') or {}).items()
           if v['type'] == 'oauth2']
    if old and d.flag():
        k = d.pick(old)
        return [[case['root'], ['securityDefinitions', k, 'flow'],
                 d.pick([['$del'], '', None])]]
    new = {'type': 'oauth2', 'authorizationUrl': 'http://a/b', 'scopes': {'s': 'x'}}
    if d.flag():
        new['tokenUrl'] = 'http://c/d'
    pre = [] if 'securityDefinitions' in doc else [
        [case['root'], ['securityDefinitions'], {}]]
    return pre + [[case['root'], ['securityDefinitions',
                                  d.pick(['oauth', 'a/b', '0'])], new]]


def extension_path(d, case):
    if 'paths' not in case['docs'][case['root']]:
        return None
    return [[case['root'], ['paths', d.pick(['x-', 'x-a', 'x-/a', 'x-paths'])],
             d.pick([{}, {'get': {'responses': {'200': {'description': 'a'}}}}])]]


def no_style(d, case):
    fmt = d.pick(['ssv', 'pipes'])
    if d.flag(2, 3):
        p = {'in': d.pick(['path', 'header']), 'type': 'array',
             'items': {'type': 'string'}}
    else:
        p = {'in': 'query', 'type': d.pick(['string', 'integer', 'boolean'])}
    p.update({'name': 'listed', 'collectionFormat': fmt})
    if p['in'] == 'path':
        p['required'] = True
    doc = case['docs'][case['root']]
    k = d.int(0, 2)
    if k == 0:
        pre = [] if 'parameters' in doc else [[None, ['parameters'], {}]]
        return at_root(case, pre + [[None, ['parameters', 'listed'], p]])
    toks, op = some_op(d, case)
    if op is None:
        return None
    if k == 1:
        return at_root(case, insert(d, op, toks, [p]))
    return at_root(case, insert(d, refs.at(doc, toks[:-1]), toks[:-1], [p]))


# ---------------------------------------------------------------------- 1.2

def decls(case):
    return [(u, x) for u, x in case['docs'].items() if u != case['root']]


def several_hosts(d, case):
    us = [(u, x) for u, x in decls(case)
          if any(a.get('operations') for a in x['apis'])]
    if len(us) < 2:
        return None
    u, x = d.pick(us)
    other = d.pick(['http://another.example.com', 'https://api.example.com:9',
                    'ftp://h'])
    return [[u, ['basePath'], other + d.pick(['/v1', '', '/a/b'])]]


def params12(case):
    for u, x in decls(case):
        for i, a in enumerate(x['apis']):
            for j, o in enumerate(a.get('operations') or []):
                for k, p in enumerate(o.get('parameters') or []):
                    yield u, ['apis', str(i), 'operations', str(j),
                              'parameters', str(k)], p


def limits12(d, case):
    spots = [(u, t) for u, t, p in params12(case)
             if p.get('type') in ('string', 'boolean') and not p.get('items')]
    for u, x in decls(case):
        for m, mod in (x.get('models') or {}).items():
            spots += [(u, ['models', m, 'properties', k])
                      for k, p in (mod.get('properties') or {}).items()
                      if p.get('type') in ('string', 'boolean')]
    if not spots:
        return None
    u, t = d.pick(spots)
    return [[u, t + [d.pick(['minimum', 'maximum'])], d.pick(['1', '0', '3.5', 0, 7])]]


def ref12(d, case):
    spots = [(u, t, p) for u, t, p in params12(case) if p['paramType'] != 'body']
    if not spots:
        return None
    u, t, p = d.pick(spots)
    models = sorted(case['docs'][u].get('models') or {})
    m = d.pick(models) if models else 'Pet'
    if p.get('items'):
        return [[u, t + ['items'], d.pick([{'$ref': m}, {'type': m}])]]
    return [[u, t + ['type'], ['$del']], [u, t + ['$ref'], m]]


def missing_decl(d, case):
    us = [u for u, _ in decls(case)]
    if not us:
        return None
    return [[d.pick(us), [], ['$del']]]


ANY = [unknown_version, no_version, container, not_text]
DEFECTS = {
    '1.2': [unknown_version, no_version, container, several_hosts, limits12, ref12,
            ref12, limits12, several_hosts, missing_decl],
    '2.0': ANY + [dangling, dangling, dangling_ext, empty_ref, form_twice, two_bodies,
                  body_and_form, oauth_no_flow, extension_path, no_style],
    '3.0.0': ANY + [dangling, dangling, dangling_ext, empty_ref],
}


def gen(d, which):
    kw = {} if which == '1.2' else {'path_refs': True}
    if which == '2.0':
        kw['focus'] = d.pick([None, None, 'request', 'refs', 'paths', 'response'])
    case = MAKE[which](d, **kw)
    case['which'] = which
    fs = DEFECTS[which]
    i = d.int(0, len(fs) - 1)
    for j in range(len(fs)):
        f = fs[(i + j) % len(fs)]
        edits = f(d, case)
        if edits:
            case['defect'], case['edits'] = f.__name__, edits
            break
    return case


def edit(docs, edits):
    for url, toks, val in edits:
        if not toks:
            del docs[url]
            continue
        node = refs.at(docs[url], toks[:-1])
        k = int(toks[-1]) if isinstance(node, list) else toks[-1]
        if val == ['$del']:
            node.pop(k, None)
        else:
            node[k] = val


def refused(what, fn, **detail):
    try:
        got = fn()
    except (Violation, CaseTimeout):
        raise
    except RecursionError:
        raise Violation('%s: exhausted the stack' % what, **detail)
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation('%s: accepted silently, as %s' % (what, got), **detail)


def run(case, cx):
    sep = case.get('sep', '!##!')
    with sut('the document without defect'):
        A.create_app(clone(case['docs']), case['root'], '3.0.0', sep=sep)
    if 'defect' not in case:
        return
    docs = clone(case['docs'])
    edit(docs, case['edits'])
    cx.label(case['defect'])
    cx.nontrivial()
    refused('defect %s of %s' % (case['defect'], case['which']),
            lambda: type(A.create_app(docs, case['root'], '3.0.0',
                                      sep=sep).root).__name__,
            edits=case['edits'])


# ------------------------------------------------------------- bad requests

UNUSED = 'http://unused.example.com/swagger.json'


def gen_req(d):
    which = d.pick(['1.2', '2.0', '3.0.0'])
    case = MAKE[which](d, **({} if which == '1.2' else {'path_refs': True}))
    case['which'] = which
    case['kind'] = d.pick(['empty', 'nowhere', 'nowhere', 'deeper', 'nodoc',
                           'version', 'downgrade', 'target', 'lookup down',
                           'newer'])
    case['n'] = d.int(0, 30)
    case['to'] = d.pick([v for v in ('2.0', '3.0.0') if v >= which])
    return case


def run_req(case, cx):
    which, k, n, to = case['which'], case['kind'], case['n'], case['to']
    root = case['root']
    with sut('the document'):
        docs = dict(clone(case['docs']), **{UNUSED: {
            'swagger': '2.0', 'info': {'title': 't', 'version': 'v'}, 'paths': {},
            'definitions': {'A': {'type': 'string'}}}})
        app = A.create_app(docs, root, to, sep=case.get('sep', '!##!'))
        have = clone(app.root.dump())
    seen = (app.original_spec_version, app.current_spec_version)
    cx.label(k, '%s to %s' % (which, to))
    vs = [which] if which != '1.2' else ['2.0']
    v = vs[0]

    def look(jref, frm=v, into=to):
        def f():
            obj, j = app.resolve_obj(jref, frm, to_spec_version=into)
            return '%s at %s' % (type(obj).__name__, j)
        return f

    if k == 'empty':
        refused('looking up an empty reference', look(d_(['', None], n)))
    elif k == 'nowhere':
        ref = d_(['#/nowhere', '#/definitions/NoSuch', '#/components/schemas/NoSuch',
                  '#/paths/~1nosuch', '#/paths/~1nosuch/get', '#/info/nosuch',
                  '#/securityDefinitions/0x', '#/tags/99'], n)
        refused('looking up ' + ref, look(d_([root, ''], n // 8) + ref))
    elif k == 'deeper':
        t = tables.TABLES[to]
        cls = 'Swagger' if to == '2.0' else 'OpenApi'
        locs = [x for x in walk(t, ('o', cls), have) if x[1][0] in 'olm']
        toks, _, _ = locs[(n * 13) % len(locs)]
        refused('looking up below ' + '/'.join(toks),
                look(refs.join(root, tuple(toks) + ('no such', )), to, to))
    elif k == 'nodoc':
        refused('looking up a missing document',
                look(d_(['http://nowhere/x.json', root + 'x', root + 'x#/info',
                         'http://nowhere/x.json#/definitions/Pet'], n)))
    elif k == 'version':
        refused('migrating to an unknown version',
                lambda: type(app.migrate_obj(app.root, root, d_(
                    ['4.0', '1.0', '', 'latest', None, '3.0', '2'], n))).__name__)
    elif k == 'target':
        refused('looking up in an unknown version',
                look(root + '#/info', v, d_(['4.0', '1.0', 'latest', '3.0', '2'], n)))
    elif k == 'downgrade':
        down = [x for x in ('1.2', '2.0') if x < to]
        refused('migrating from %s to %s' % (to, down[n % len(down)]),
                lambda: type(app.migrate_obj(app.root, root,
                                             down[n % len(down)])).__name__)
    elif k == 'lookup down' and to == '3.0.0' and which == '3.0.0':
        refused('looking up something of 3.0 in 2.0',
                look(root + d_(['#/info', '#/paths', ''], n), '3.0.0', '2.0'))
    elif k == 'newer' and which == '2.0' and to == '3.0.0':
        # nothing of it was loaded, so there is nothing of 3.0 at that place
        refused('looking up a document in a newer version than its own',
                look(UNUSED + d_(['', '#', '#/definitions/A'], n), '3.0.0', '3.0.0'))
        with sut('looking it up in its own version'):
            obj, _ = app.resolve_obj(UNUSED, '2.0', to_spec_version='3.0.0')
            same(obj.openapi, '3.0.0', 'the other document')
    with sut('the application afterwards'):
        same(app.root.dump(), have, 'a refused request changed the application')
    check((app.original_spec_version, app.current_spec_version) == seen,
          'a refused request changed the version of the application')
    cx.nontrivial()


# --------------------------------------------------- pointers into raw documents

def spots(val, toks=()):
    yield list(toks)
    if isinstance(val, (dict, list)):
        for k, x in val.items() if isinstance(val, dict) else enumerate(val):
            for y in spots(x, toks + (str(k), )):
                yield y


def gen_raw(d):
    which = d.pick(['1.2', '2.0', '3.0.0'])
    case = MAKE[which](d)
    docs = case['docs']
    asks = []
    for _ in range(d.int(1, 6)):
        url = d.pick(sorted(docs))
        toks = list(d.pick(list(spots(docs[url]))))
        val = refs.at(docs[url], toks)
        bad = d.flag()
        if bad:
            more = d.pick(['x', '', '0x', 'no such', '$ref/', '~', '0'])
            if isinstance(val, list):
                more = d.pick(['x', '', str(len(val)), '99', '0.0', '~1'])
            if isinstance(val, dict) and more in val:
                more = 'nosuch'
            toks.append(more)
            toks += d.pick([[], [], ['0'], ['type']])
        asks.append([url, toks, bad])
    return {'docs': docs, 'asks': asks}


def run_raw(case, cx):
    res = A.mem_resolver(clone(case['docs']))
    for url, toks, bad in case['asks']:
        jref = refs.join(url, toks)
        if bad:
            refused('the pointer ' + jref, lambda: short(res.resolve(jref), 100))
            continue
        if not refs.at(case['docs'][url], []):
            continue
        with sut('resolving ' + jref):
            got = res.resolve(jref)
        same(got, refs.at(case['docs'][url], toks), 'another value is found',
             ref=jref)
    cx.nontrivial(any(b and len(t) > 1 for _, t, b in case['asks']))


def d_(seq, n):
    return seq[n % len(seq)]


def strat(which):
    return lambda: cases(gen, which)


SUBS = [Sub('2.0', strat('2.0'), run, quick=1500, thorough=30000),
        Sub('3.0', strat('3.0.0'), run, quick=700, thorough=14000),
        Sub('1.2', strat('1.2'), run, quick=900, thorough=20000),
        Sub('requests', lambda: cases(gen_req), run_req, quick=700, thorough=14000),
        Sub('raw_pointers', lambda: cases(gen_raw), run_raw, quick=900, thorough=20000)]
