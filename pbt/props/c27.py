import tables
from core import Sub, check, same, sut, must_raise, clone
from gen import cases, gen_obj, walk, enc, canon

RULE = ('A random document of any version and up to four objects built '
        'beforehand, injected at random positions of it (also below maps and '
        'lists, at names that need escaping, and as references); the tree must '
        'hold these very objects there and the document everywhere else. Plus '
        'merging the children of one object into another. Non-trivial when an '
        'injected position is below a container or has an escaped token.')


def g(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version])
    spec = gen_obj(d, t, cls, [d.pick([6, 12, 25, 50])], xtra=False)
    locs = [(k, ty) for k, ty, _ in walk(t, ('o', cls), spec)
            if ty[0] == 'o' and k and ty[1] != 'Reference']
    put = []
    for _ in range(d.int(1, 4)):
        if not locs:
            break
        k, ty = d.pick(locs)
        if any(not x or '/' in x or '~' in x for x in k[1:]):
            continue    # known findings: escaped or empty names below the first
        if any(k[:len(p[0])] == tuple(p[0]) or tuple(p[0])[:len(k)] == k
               for p in put):
            continue
        put.append([list(k), ty[1], gen_obj(d, t, ty[1], [d.int(1, 5)], xtra=False)])
    return {'v': version, 'cls': cls, 'spec': spec, 'put': put}


def run(c, cx):
    t = tables.TABLES[c['v']]
    mod = tables.classes(c['v'])
    ty = ('o', c['cls'])
    spec = c['spec']
    override, objs, want = {}, {}, clone(spec)
    for toks, cls, sub in c['put']:
        with sut('build'):
            obj = getattr(mod, cls)(sub, '#/beforehand')
        override['/'.join(enc(x) for x in toks)] = obj
        objs[tuple(toks)] = obj
        at = want
        for x in toks[:-1]:
            at = at[int(x)] if isinstance(at, list) else at[x]
        if isinstance(at, list):
            at[int(toks[-1])] = sub
        else:
            at[toks[-1]] = sub
        cx.nontrivial(len(toks) > 1 or '/' in toks[-1] or '~' in toks[-1])
        cx.label('depth%d' % min(len(toks), 4))
    given = dict(override)
    with sut('build with override'):
        root = getattr(mod, c['cls'])(spec, '#', override)
    for toks, obj in objs.items():
        with sut('resolve'):
            got = root.resolve(list(toks))
            par = root.resolve(list(toks[:-1])) if len(toks) > 1 else root
        check(got is obj, 'the injected object is not at its position',
              at='/'.join(toks), got=repr(got))
        check(obj.get_parent() is par, 'the injected object has another parent')
    with sut('dump'):
        dumped = canon(t, ty, root.dump())
    same(dumped, canon(t, ty, want), 'tree with injected objects')
    check(override == given, 'the map of injected objects was changed')
    for toks, typ, _ in walk(t, ty, spec):
        if typ[0] != 'o' or any(toks[:len(k)] == k for k in objs):
            continue
        with sut('path'):
            p = root.resolve(list(toks)).get_path()
        same(p, '/'.join(['#'] + [enc(x) for x in toks]), 'path beside')


def g_merge(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    rich = [k for k in sorted(t) if len(t[k].children) > 1 and not
            (set(t[k].children) & t[k].required) and
            not any(ty[0] == 'b' for ty in t[k].children.values())]
    cls = d.pick(rich + ['PathItem', 'PathItem']) if version != '1.2' else d.pick(rich)
    return {'v': version, 'cls': cls, 'n': d.int(1, 3), 'specs': [
        gen_obj(d, t, cls, [d.pick([4, 8, 15])], xtra=False) for _ in range(3)]}


def r_merge(c, cx):
    t = tables.TABLES[c['v']]
    tb = t[c['cls']]
    cls = getattr(tables.classes(c['v']), c['cls'])
    with sut('build'):
        objs = [cls(s, '#/%d' % i) for i, s in enumerate(c['specs'])]
    before = [clone(o.dump()) for o in objs]
    with sut('build'):
        final = cls({}, '#/final')
    kids = [{k: getattr(o, k) for k in tb.children} for o in objs]
    order = objs[:c['n']]
    for o in order:
        with sut('get_children'):
            final.get_children()
        with sut('merge_children'):
            final.merge_children(o)
    n = 0
    for k in tb.children:
        want = None
        for i, _ in enumerate(order):
            if kids[i][k]:
                want = kids[i][k]
                n += i > 0
                break
        got = getattr(final, k)
        if want is None:
            check(not got, 'child %s came from nowhere' % k, got=repr(got))
        else:
            check(got is want, 'child %s is not the nearest one' % k)
    cx.nontrivial(n)
    for o, b, i in zip(objs, before, range(9)):
        with sut('dump'):
            same(o.dump(), b, 'merging changed object %d' % i)
    with sut('get_children'):
        kidz = final.get_children()
    want = set()
    for k in tb.children:
        o = getattr(final, k)
        if o is None or isinstance(o, bool):
            continue
        if tb.children[k][0] in ('o', 'r', 'b'):
            want.add(k)
    check(want <= set(kidz), 'merged children are not children', got=sorted(kidz),
          want=sorted(want))


def g_attach(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(sorted(k for k in t if t[k].children))
    return {'v': version, 'cls': cls,
            'spec': gen_obj(d, t, cls, [3], xtra=False),
            'name': d.pick(['noSuchChild', 'type', 'name', 'x'])}


def r_attach(c, cx):
    t = tables.TABLES[c['v']]
    mod = tables.classes(c['v'])
    with sut('build'):
        obj = getattr(mod, c['cls'])(c['spec'], '#')
        before = clone(obj.dump())
        donor = getattr(mod, 'Contact' if c['v'] != '1.2' else 'Items')({})
    cx.nontrivial()
    if c['name'] not in t[c['cls']].children:
        must_raise('attach an unknown child',
                   lambda: obj.attach_child(c['name'], donor))
    for k in sorted(t[c['cls']].children):
        must_raise('attach a plain value', lambda: obj.attach_child(k, {'a': 1}))
    with sut('dump'):
        same(obj.dump(), before, 'a refused child changed the object')


KNOWN_SUBS = [Sub('override', None, run)]
SUBS = [
    Sub('override', lambda: cases(g), run, 5000, 60000),
    Sub('merge_children', lambda: cases(g_merge), r_merge, 3000, 40000),
    Sub('attach_refused', lambda: cases(g_attach), r_attach, 1500, 15000),
]
