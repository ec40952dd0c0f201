import tables
from core import Sub, same, sut, check, must_raise, clone
from gen import cases, gen_obj, walk, fieldval, names

RULE = ('Random objects of every class of the three specifications (as in C03); '
        'every object inside is reached through attributes, keys and indices, '
        'and all of its fields, children, aliases and defaults are read; '
        'non-trivial when there are nested objects. Plus objects that lack a '
        'required key, have a forbidden one, or are written to.')


def g(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version]) if d.flag(1, 3) else d.pick(sorted(t))
    return {'v': version, 'cls': cls,
            'spec': gen_obj(d, t, cls, [d.pick([2, 5, 10, 20, 40])])}


def step(obj, ty, tok):
    """to one child, the way a user does"""
    if ty[0] == 'o':
        return getattr(obj, tok)
    if ty[0] == 'l':
        return obj[int(tok)]
    return obj[tok]


def run(c, cx):
    t = tables.TABLES[c['v']]
    mod = tables.classes(c['v'])
    spec = c['spec']
    with sut('parse'):
        root = getattr(mod, c['cls'])(spec, '#')
    at = {(): (root, ('o', c['cls']))}
    locs = list(walk(t, ('o', c['cls']), spec))
    cx.nontrivial(len(locs) > 2)
    for toks, ty, val in locs:
        where = '%s at #/%s' % (ty, '/'.join(toks))
        if toks:
            pobj, pty = at[toks[:-1]]
            with sut('access ' + where):
                obj = step(pobj, pty, toks[-1])
            at[toks] = (obj, ty)
        else:
            obj = root
        if ty[0] in ('s', 'bool'):
            same(obj, val, 'wrong primitive, ' + where)
            continue
        if ty[0] == 'l':
            with sut('list protocol'):
                check(len(obj) == len(val) and len(list(obj)) == len(val),
                      'wrong length, ' + where)
                check(all(a is obj[i] for i, a in enumerate(obj)),
                      'iteration differs from indexing, ' + where)
            continue
        if ty[0] == 'm':
            with sut('map protocol'):
                ks = sorted(val)
                check(sorted(obj.keys()) == ks and len(obj) == len(ks) and
                      sorted(obj.iterkeys()) == ks and
                      all(k in obj and obj.get(k) is obj[k] for k in ks) and
                      'no such key' not in obj and
                      obj.get('no such key') is None and
                      all(v is obj[k] for k, v in obj.items()) and
                      all(v is obj[k] for k, v in obj.iteritems()) and
                      len(list(obj.itervalues())) == len(ks),
                      'map does not hold its keys, ' + where)
            continue
        tb = t[ty[1]]
        check(isinstance(obj, getattr(mod, ty[1])),
              'wrong class %s, %s' % (type(obj).__name__, where))
        check(obj.__swagger_version__ == c['v'], 'wrong version, ' + where)
        with sut('field names'):
            fn = set(obj.get_field_names())
        want = set(tb.fields) | set(tb.children)
        check({x for x in fn if not x.startswith('x-')} == want,
              'wrong field names, ' + where, got=sorted(fn))
        for f in tb.fields:
            with sut('read field %s of %s' % (f, where)):
                got = getattr(obj, f)
                isset = obj.is_set(f)
            same(got, val[f] if f in val else tb.defaults.get(f),
                 'wrong value of field %s, %s' % (f, where))
            check(bool(isset) == (f in val), 'is_set(%s), %s' % (f, where))
        for ch in tb.children:
            with sut('read child %s of %s' % (ch, where)):
                got = getattr(obj, ch)
                isset = obj.is_set(ch)
            check((got is None) == (val.get(ch) is None),
                  'child %s, %s' % (ch, where), got=repr(got))
            check(bool(isset) == (ch in val), 'is_set(%s), %s' % (ch, where))
        for alias, key in tb.aliases.items():
            with sut('read alias %s of %s' % (alias, where)):
                a, b = getattr(obj, alias), getattr(obj, key)
            check(a is b, 'alias %s is not %s, %s' % (alias, key, where),
                  got=repr(a), want=repr(b))


def keys(version, cls):
    """[[key, kind]] of what is special in a class"""
    t = tables.TABLES[version][cls]
    out = [[k, 'required'] for k in sorted(t.required)]
    out += [[k, 'restricted'] for k in sorted(t.restricted)]
    for k in sorted(t.fields):
        if k in t.restricted:
            continue
        out.append([k, 'writable' if k in t.writable else 'readonly'])
    return out


CLASSES = [[v, cls] for v in sorted(tables.TABLES)
           for cls in sorted(tables.TABLES[v]) if keys(v, cls)]


def g_bad(d):
    version, cls = d.pick(CLASSES)
    t = tables.TABLES[version]
    todo = d.some(keys(version, cls), 1)
    spec = gen_obj(d, t, cls, [d.int(1, 6)])
    return {'v': version, 'cls': cls, 'spec': spec, 'todo': [
        [k, kind, fieldval(d, t[cls].fields.get(k, 's'))] for k, kind in todo]}


def r_bad(c, cx):
    for key, kind, val in c['todo']:
        one_bad(dict(c, key=key, kind=kind, val=val, spec=clone(c['spec'])), cx)


def one_bad(c, cx):
    t = tables.TABLES[c['v']]
    tb = t[c['cls']]
    cls = getattr(tables.classes(c['v']), c['cls'])
    key, kind, spec = c['key'], c['kind'], c['spec']
    cx.nontrivial()
    cx.label(kind)
    what = '%s.%s (%s)' % (c['cls'], key, kind)
    if kind == 'required':
        spec.pop(key, None)
        must_raise('%s: absent' % what, lambda: getattr(cls(spec, '#'), key))
        return
    if kind == 'restricted':
        spec[key] = c['val']
        must_raise('%s: present' % what, lambda: getattr(cls(spec, '#'), key))
        return
    had, old = key in spec, clone(spec.get(key))
    with sut('parse'):
        obj = cls(spec, '#')
    if kind == 'readonly':
        must_raise('assign %s' % what, lambda: setattr(obj, key, c['val']))
        with sut('read'):
            same(getattr(obj, key), old if had else tb.defaults.get(key),
                 'a rejected assignment to %s changed it' % what)
        return
    names_ = [key] + [a for a, k in tb.aliases.items() if k == key]
    for i, n in enumerate(names_):
        val = '#/new/%d' % i
        with sut('assign %s' % n):
            setattr(obj, n, val)
            for other in names_:
                same(getattr(obj, other), val, 'assigned through %s, read '
                     'through %s' % (n, other))
            same(obj.dump().get(key), val, 'the dump misses the assignment')


SUBS = [
    Sub('read_everything', lambda: cases(g), run, 6000, 80000),
    Sub('required_restricted_readonly', lambda: cases(g_bad), r_bad, 3000, 40000),
]
