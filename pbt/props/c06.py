import tables
from core import Sub, same, sut, check, must_raise, clone
from gen import cases, gen_obj, walk, enc, gen_type, name

RULE = ('Random documents of the three specifications, random sets of handlers '
        '(several classes per handler, several handlers per class, several '
        'routes, result callbacks) and random leaf classes, scanned through '
        'both scanners, before and after the tree is changed; non-trivial when '
        'at least three objects are visited.')


# results of handlers that are false are delivered as well
FALSY = [None, 0, '', [], False]


def g(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version]) if d.flag(2, 3) else d.pick(sorted(t))
    spec = gen_obj(d, t, cls, [d.pick([3, 6, 12, 25, 50])])
    present = sorted({ty[1] for _, ty, _ in walk(t, ('o', cls), spec)
                      if ty[0] == 'o'})
    routes = []
    for _ in range(d.int(1, 2)):
        handlers = []
        for _ in range(d.int(1, 3)):
            pool = present if d.flag(3, 4) else sorted(t)
            handlers.append(d.some(pool, 1, 4))
        routes.append({'handlers': handlers, 'result': d.flag(),
                       'falsy': d.pick(FALSY) if d.flag(1, 4) else 'no'})
    return {'v': version, 'cls': cls, 'spec': spec, 'routes': routes,
            'leaves': d.some(present, 0, 2) if d.flag(1, 3) else []}


def nested(t, cls, spec):
    """known finding: objects in containers of containers (callbacks)"""
    types = {k: ty[0] for k, ty, _ in walk(t, ('o', cls), spec)}
    return any(ty == 'o' and len(k) > 2 and types[k[:-1]] in 'ml' and
               types[k[:-2]] in 'ml' for k, ty in types.items())


def model(t, cls, spec, leaves):
    """[(path, class)] of every object reachable without passing a leaf"""
    out = []
    stop = []
    for toks, ty, _ in walk(t, ('o', cls), spec):
        if ty[0] != 'o':
            continue
        if any(toks[:len(s)] == s and len(toks) > len(s) for s in stop):
            continue
        out.append(('/'.join(['#'] + [enc(x) for x in toks]), toks, ty[1]))
        if ty[1] in leaves:
            stop.append(toks)
    return out


def make_route(mod, spec, log, ridx):
    from pyopenapi.migration.scan import Dispatcher

    def mk(hidx):
        def handler(self, path, obj, app=None):
            log.append(('h', ridx, hidx, path, obj, app))
            falsy = spec.get('falsy', 'no')
            return (hidx, path) if falsy == 'no' else falsy
        handler.__name__ = '_h%d' % hidx
        return handler

    class Disp(Dispatcher):
        pass

    def never(self, path, obj, app=None):
        log.append(('h', ridx, -1, path, obj, app))

    # the handlers of a dispatcher derived from another are its own
    every = sorted({x for h in spec['handlers'] for x in h})

    def derive():
        class Derived(Disp):
            pass
        type('Other', (object, ), {
            'Disp': Derived, '_never': Derived.register(
                [getattr(mod, x) for x in every])(never)})

    ns = {'Disp': Disp}
    derive()
    for i, classes in enumerate(spec['handlers']):
        ns['_h%d' % i] = Disp.register([getattr(mod, x) for x in classes])(mk(i))
    derive()
    if spec['result']:
        def res(self, val):
            log.append(('r', ridx) + (tuple(val) if val else (-1, '')))
        ns['_res'] = Disp.result(res)
    return type('Route%d' % ridx, (object, ), ns)()


def expected(routes, objs):
    h, r = [], []
    for path, _, cls in objs:
        for ri, route in enumerate(routes):
            for hi, classes in enumerate(route['handlers']):
                for x in classes:
                    if x == cls:
                        h.append((ri, hi, path))
                        if route['result']:
                            r.append((ri, hi, path) if route.get(
                                'falsy', 'no') == 'no' else (ri, -1, ''))
    return sorted(h), sorted(r)


def run(c, cx, strict=False):
    from pyopenapi.migration.scan import scan, Scanner
    t = tables.TABLES[c['v']]
    if not strict and nested(t, c['cls'], c['spec']):
        cx.label('known_finding')
        return
    mod = tables.classes(c['v'])
    with sut('parse'):
        root = getattr(mod, c['cls'])(c['spec'], '#')
    objs = model(t, c['cls'], c['spec'], c['leaves'])
    cx.nontrivial(len(objs) >= 3)
    if c['leaves']:
        cx.label('leaves')
    leaves = [getattr(mod, x) for x in c['leaves']]
    wh, wr = expected(c['routes'], objs)
    # v3 Header is a Parameter: the older scanner also calls handlers of bases
    derived = {'3.0.0': {'Header': ['Parameter']}}.get(c['v'], {})
    for which in ('scan', 'Scanner', 'scan'):
        log = []
        routes = [make_route(mod, r, log, i) for i, r in enumerate(c['routes'])]
        app = object()
        with sut(which):
            if which == 'scan':
                scan(route=routes, root=root, leaves=leaves)
            else:
                Scanner(app).scan(route=routes, root=root, leaves=leaves)
        gh = sorted((x[1], x[2], x[3]) for x in log if x[0] == 'h')
        gr = sorted((x[1], x[2], x[3]) for x in log if x[0] == 'r')
        if which == 'Scanner':
            ph, pr = expected(c['routes'], [
                (p, k, b) for p, k, x in objs for b in [x] + derived.get(x, [])])
            check(all(x[5] is app for x in log if x[0] == 'h'),
                  'Scanner does not hand out its app')
        else:
            ph, pr = wh, wr
        same([list(x) for x in gh], [list(x) for x in ph],
             '%s: handlers not called exactly once per object' % which)
        same([list(x) for x in gr], [list(x) for x in pr],
             '%s: results not delivered' % which)
        byptr = {p: toks for p, toks, _ in objs}
        for x in log:
            if x[0] == 'h':
                with sut('resolve visited path'):
                    back = root.resolve(list(byptr[x[3]]))
                check(back is x[4], 'the path given to a handler is not the '
                      'one of the object', path=x[3])


def g_none(d):
    return {'x': d.int(0, 1)}


# ------------------------------------------------------ after the tree changed


def g_mut(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version]) if d.flag(2, 3) else d.pick(sorted(t))
    spec = gen_obj(d, t, cls, [d.pick([3, 6, 12, 25])], xtra=False)
    cur = clone(spec)
    ops = []
    for _ in range(d.int(1, 4)):
        locs = [x for x in walk(t, ('o', cls), cur) if x[1][0] in 'oml' and (
            x[1][0] == 'o' and t[x[1][1]].children or
            x[1][0] in 'ml' and x[1][1][0] == 'o')]
        if not locs:
            break
        toks, ty, val = d.pick(locs)
        if ty[0] == 'o':
            opts = sorted(k for k, v in t[ty[1]].children.items()
                          if v[0] in ('o', 'm', 'l') and v[-1] != ('s', ))
            if not opts:
                continue
            key = d.pick(opts)
            new = gen_type(d, t, t[ty[1]].children[key], [d.int(1, 5)],
                           xtra=False)
            val[key] = clone(new)
            ops.append(['attach', list(toks), key, new, list(t[ty[1]].children[key])])
        else:
            new = gen_type(d, t, ty[1], [d.int(1, 4)], xtra=False)
            if ty[0] == 'm':
                key = name(d)
                val[key] = clone(new)
                ops.append(['set', list(toks), key, new, list(ty[1])])
            else:
                val.append(clone(new))
                ops.append(['append', list(toks), None, new, list(ty[1])])
        if d.flag(1, 2):
            ops.append(['scan', [], None, None, None])
    return {'v': version, 'cls': cls, 'spec': spec, 'ops': ops}


def build(mod, ty, val, path):
    from pyopenapi.migration.spec import map_, list_
    if ty[0] == 'o':
        return getattr(mod, ty[1])(val, path)
    # containers are taken from the class that has them, so that reference
    # alternatives are built the same way
    return None


def r_mut(c, cx, strict=False):
    from pyopenapi.migration.scan import scan
    t = tables.TABLES[c['v']]
    mod = tables.classes(c['v'])
    with sut('parse'):
        root = getattr(mod, c['cls'])(clone(c['spec']), '#')
    cur = clone(c['spec'])

    def at(toks):
        val = cur
        for x in toks:
            val = val[int(x)] if isinstance(val, list) else val[x]
        return val

    def holder(toks):
        ty = [x for x in walk(t, ('o', c['cls']), cur) if x[0] == tuple(toks)]
        return ty[0][1]

    def scanned():
        if not strict and nested(t, c['cls'], cur):
            cx.label('known_finding')
            return
        log = []
        route = make_route(mod, {'handlers': [sorted(t)], 'result': False}, log, 0)
        with sut('scan'):
            scan(route=[route], root=root)
        seen = sorted((x[3], type(x[4]).__name__) for x in log)
        want = sorted((p, k) for p, _, k in model(t, c['cls'], cur, []))
        same([list(x) for x in seen], [list(x) for x in want],
             'scan after a change of the tree')

    scanned()
    n = 0
    for op, toks, key, new, ty in c['ops']:
        if op == 'scan':
            scanned()
            continue
        n += 1
        cx.label(op)
        with sut('reach'):
            obj = root.resolve(list(toks))
        if op == 'attach':
            own = holder(toks)[1]
            with sut('build'):
                donor = getattr(mod, own)(dict(
                    {k: v for k, v in at(toks).items()
                     if k in t[own].required}, **{key: clone(new)}), '#')
                val = getattr(donor, key)
            with sut('attach_child'):
                obj.attach_child(key, val)
                check(getattr(obj, key) is val, 'attached child not there')
                check(val.get_parent() is obj, 'attached child has another parent')
            at(toks)[key] = clone(new)
        else:
            with sut('build'):
                val = getattr(mod, ty[1])(clone(new), '#')
            with sut(op):
                if op == 'set':
                    obj[key] = val
                    at(toks)[key] = clone(new)
                else:
                    obj.append(val)
                    at(toks).append(clone(new))
                if not strict:
                    # known finding: only the container's own cache is reset
                    for i in range(len(toks)):
                        root.resolve(list(toks[:i])).invalidate_children_cache()
    cx.nontrivial(n)
    scanned()


KNOWN_SUBS = [
    Sub('handlers_and_leaves', None, lambda c, cx: run(c, cx, True)),
    Sub('after_changes', None, lambda c, cx: r_mut(c, cx, True)),
]
SUBS = [
    Sub('handlers_and_leaves', lambda: cases(g), run, 5000, 60000),
    Sub('after_changes', lambda: cases(g_mut), r_mut, 5000, 60000),
]
