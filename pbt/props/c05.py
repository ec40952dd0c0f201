import tables
from core import Sub, same, sut, check, must_raise
from gen import cases, gen_obj, walk, enc

RULE = ('Random documents of the three specifications; every location of the '
        'document (objects, containers, fields, and positions inside free-form '
        'values) is resolved by its tokens and compared with what attribute '
        'and key access gives; non-trivial when there are nested objects. '
        'Plus pointers that lead nowhere.')


def g(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version]) if d.flag(1, 2) else d.pick(sorted(t))
    return {'v': version, 'cls': cls, 'base': d.pick(['#', '#/definitions/x']),
            'spec': gen_obj(d, t, cls, [d.pick([2, 5, 10, 20, 40])]),
            'bad': d.int(0, 50)}


def inside(val, toks=()):
    yield toks, val
    if isinstance(val, dict):
        for k, v in val.items():
            for x in inside(v, toks + (k, )):
                yield x
    elif isinstance(val, list):
        for i, v in enumerate(val):
            for x in inside(v, toks + (str(i), )):
                yield x


def run(c, cx, strict=False):
    # strict: the known findings are reported too
    from pyopenapi.utils import jp_split
    t = tables.TABLES[c['v']]
    mod = tables.classes(c['v'])
    spec = c['spec']
    base = c['base']
    with sut('parse'):
        root = getattr(mod, c['cls'])(spec, base)
    at = {(): (root, ('o', c['cls']))}
    locs = list(walk(t, ('o', c['cls']), spec))
    cx.nontrivial(len(locs) > 2)
    for toks, ty, val in locs:
        ptr = '/'.join([base] + [enc(x) for x in toks])
        if toks:
            pobj, pty = at[toks[:-1]]
            with sut('access'):
                obj = getattr(pobj, toks[-1]) if pty[0] == 'o' else \
                    pobj[int(toks[-1])] if pty[0] == 'l' else pobj[toks[-1]]
            at[toks] = (obj, ty)
        else:
            obj = root
        if not strict and toks and ty[0] == 's' and pty[0] in 'ml':
            continue    # known finding: strings in containers
        with sut('resolve %s' % ptr):
            got = root.resolve(list(toks))
        if ty[0] in ('s', 'bool'):
            same(got, val, 'resolved value at %s' % ptr)
            continue
        check(got is obj, 'resolving %s gives another object than access' % ptr,
              got=repr(got), want=repr(obj))
        with sut('path'):
            path = obj.get_path()
            parent = obj.get_parent()
        check(path == ptr, 'object knows a wrong path', got=path, want=ptr)
        with sut('resolve by its own path'):
            back = root.resolve(jp_split(path[len(base):])[1:])
        check(back is obj, 'its own path leads elsewhere', path=path)
        if toks:
            # known finding: empty containers have no parent
            check(parent is at[toks[:-1]][0] or not strict and parent is None
                  and ty[0] in 'ml' and not val, 'wrong parent of %s' % ptr,
                  got=repr(parent))
        else:
            check(parent is None, 'the root has a parent')
        if len(toks) == 1:
            with sut('resolve one token'):
                check(root.resolve(toks[0]) is obj,
                      'a single token given as a string')
        if ty[0] == 'o':
            for f in t[ty[1]].fields:
                if f not in val:
                    continue
                for more, sub in inside(val[f]):
                    with sut('resolve %s/%s/%s' % (ptr, f, '/'.join(more))):
                        got = root.resolve(list(toks) + [f] + list(more))
                        got2 = obj.resolve([f] + list(more))
                    same(got, sub, 'resolved value under field %s' % ptr)
                    same(got2, sub, 'resolved value under field of %s' % ptr)
    # nowhere
    conts = [(k, v) for k, v in at.items() if v[1][0] in ('m', 'l', 'o')]
    toks, (obj, ty) = conts[c['bad'] % len(conts)]
    if ty[0] == 'l':
        bad = [str(len(obj)), 'x']
    elif ty[0] == 'm':
        bad = ['no such key']
    else:
        bad = ['noSuchField']
    cx.label('nowhere_' + ty[0])
    for b in bad:
        must_raise('resolve %s' % '/'.join(toks + (b, )),
                   lambda: root.resolve(list(toks) + [b]))


def below(c, cx):
    mod = tables.classes(c['v'])
    with sut('parse'):
        root = getattr(mod, c['cls'])(c['spec'], '#')
    must_raise('resolve below a primitive', lambda: root.resolve(list(c['toks'])))


KNOWN_SUBS = [Sub('every_location', None, lambda c, cx: run(c, cx, True)),
              Sub('below', None, below)]
SUBS = [Sub('every_location', lambda: cases(g), run, 8000, 100000)]
