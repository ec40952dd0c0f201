import tables
from core import Sub, same, sut, check, clone, first_diff
from gen import cases, gen_obj, walk, enc, anyval, fieldval, gen_type

RULE = ('A random object of any class and a copy with zero or one change '
        '(a field changed, added or removed, also deep inside a free-form '
        'value; an element of a list or map changed, added or removed; a '
        'child added or removed), compared both ways; non-trivial when a '
        'change was made at depth two or more.')


def g(d):
    version = d.pick(['2.0', '3.0.0', '1.2'])
    t = tables.TABLES[version]
    cls = d.pick(tables.ROOTS[version]) if d.flag(1, 3) else d.pick(sorted(t))
    spec = gen_obj(d, t, cls, [d.pick([2, 5, 10, 20])], empties=False, xtra=False)
    other = clone(spec)
    where = None
    kind = d.int(0, 5)
    if kind > 0:
        locs = list(walk(t, ('o', cls), other))
        toks, ty, val = d.pick(locs)
        par = other
        for x in toks[:-1]:
            par = par[int(x)] if isinstance(par, list) else par[x]
        where = list(toks)
        if ty[0] == 'o':
            tb = t[ty[1]]
            fs = [f for f in tb.fields if f not in tb.restricted and f != '$ref']
            if kind == 1 and ty[1] not in ('Reference', ) and tb.children:
                opt = sorted(k for k in tb.children if k not in tb.required)
                if opt:
                    k = d.pick(opt)
                    where.append(k)
                    if k in val and d.flag():
                        del val[k]
                    else:
                        val[k] = gen_type(d, t, tb.children[k], [2],
                                          empties=False, xtra=False)
            elif fs:
                have = [f for f in fs if f in val]
                f = d.pick(have) if have and d.flag(2, 3) else d.pick(fs)
                where.append(f)
                if f in val and f not in tb.required and d.flag(1, 4):
                    del val[f]
                elif f in val and isinstance(val[f], (list, dict)) and val[f] \
                        and d.flag(3, 4):
                    # deep inside
                    v = val[f]
                    while True:
                        k = d.pick(sorted(v)) if isinstance(v, dict) else \
                            d.int(0, len(v) - 1)
                        if isinstance(v[k], (dict, list)) and v[k] and d.flag():
                            v = v[k]
                            continue
                        if d.flag(1, 3):
                            del v[k]
                        else:
                            v[k] = anyval(d, 1)
                        break
                else:
                    val[f] = fieldval(d, tb.fields[f])
        elif ty[0] == 'l':
            if d.flag() and len(val) > 1:
                val.pop(d.int(0, len(val) - 1))
            elif d.flag():
                val.append(gen_type(d, t, ty[1], [2], empties=False, xtra=False))
            elif ty[1][0] == 's':
                val[d.int(0, len(val) - 1)] += 'x'
            else:
                val.reverse()
        elif ty[0] == 'm':
            k = d.pick(sorted(val))
            if d.flag() and len(val) > 1:
                del val[k]
            elif ty[1][0] == 's':
                val[k] += 'x'
            else:
                val['new key'] = gen_type(d, t, ty[1], [2], empties=False,
                                          xtra=False)
        elif ty[0] == 's':
            if isinstance(par, list):
                par[int(toks[-1])] = val + '!'
            else:
                par[toks[-1]] = val + '!'
        elif ty[0] == 'bool':
            par[toks[-1]] = not val
    return {'v': version, 'cls': cls, 'a': spec, 'b': other, 'where': where}


def eff(tables_, ty, val):
    """what can be observed through the fields: defaults filled in"""
    k = ty[0]
    if k == 'b':
        return val if isinstance(val, bool) else eff(tables_, ty[1], val)
    if k == 'r':
        ty = ('o', 'Reference') if '$ref' in val else ('o', ty[1])
    elif k == 'rc':
        ty = ('o', 'Reference') if '$ref' in val else ('m', ('o', 'PathItem'))
    k = ty[0]
    if k == 's':
        return val
    if k == 'l':
        return [eff(tables_, ty[1], e) for e in val]
    if k == 'm':
        return {n: eff(tables_, ty[1], e) for n, e in val.items()}
    t = tables_[ty[1]]
    out = {'': ty[1]}
    for f in t.fields:
        v = val.get(f)
        out[f] = t.defaults.get(f) if v is None and f not in val else v
    for c in t.children:
        out[c] = None if val.get(c) is None else eff(tables_, t.children[c], val[c])
    return out


def loose_equal(a, b):
    """like ==, which is how JSON scalars compare (1 == 1.0 == True)"""
    return a == b


def blind(tables_, ty, a, b):
    """known findings: of string lists and maps only the first entry is
    compared, and lists inside fields up to the length of the first one"""
    k = ty[0]
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return False
    if k == 'b':
        return blind(tables_, ty[1], a, b)
    if k == 'r':
        if ('$ref' in a) != ('$ref' in b):
            return False
        ty = ('o', 'Reference') if '$ref' in a else ('o', ty[1])
    elif k == 'rc':
        if ('$ref' in a) != ('$ref' in b):
            return False
        ty = ('o', 'Reference') if '$ref' in a else ('m', ('o', 'PathItem'))
    k = ty[0]
    if k == 's':
        return False
    if k == 'l':
        if ty[1][0] == 's':
            return len(a) == len(b) and a != b
        return any(blind(tables_, ty[1], x, y) for x, y in zip(a, b))
    if k == 'm':
        if ty[1][0] == 's':
            return set(a) == set(b) and a != b
        return any(blind(tables_, ty[1], a[n], b[n]) for n in a if n in b)
    t = tables_[ty[1]]
    return any(lens(a.get(f, t.defaults.get(f)), b.get(f, t.defaults.get(f)))
               for f in t.fields) or \
        any(blind(tables_, t.children[c], a[c], b[c]) for c in t.children
            if c in a and c in b)


def lens(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(lens(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return any(lens(a[k], b[k]) for k in a if k in b)
    return False


def run(c, cx, strict=False):
    t = tables.TABLES[c['v']]
    cls = getattr(tables.classes(c['v']), c['cls'])
    ty = ('o', c['cls'])
    ea, eb = eff(t, ty, c['a']), eff(t, ty, c['b'])
    equal = ea == eb
    if not strict and blind(t, ty, c['a'], c['b']):
        cx.label('known_finding')
        return
    strict = first_diff(ea, eb) is None
    cx.label('equal' if equal else 'different')
    cx.nontrivial(not equal and c['where'] and len(c['where']) > 1)
    if equal and not strict:
        return      # 1 against 1.0 or True: not settled
    with sut('parse'):
        a, b = cls(c['a'], '#'), cls(c['b'], '#/elsewhere')
    for x, y, n in ((a, b, 'a,b'), (b, a, 'b,a')):
        with sut('compare'):
            got = x.compare(y)
        check(isinstance(got, tuple) and len(got) == 2, 'result of compare',
              got=repr(got))
        check(bool(got[0]) == equal, 'compare(%s) says %s' % (n, got[0]),
              change=c['where'], said=got[1])
        if equal:
            # known finding: a location may be given for equal string lists
            check(got[1] == '' or not strict, 'a difference is located in equal objects',
                  got=got[1])
        elif got[1] and c['where'] is not None:
            # where it points to has to be on the way to the change
            toks = [z.replace('~1', '/').replace('~0', '~')
                    for z in got[1].split('/')]
            w = [str(z) for z in c['where']]
            k = min(len(w), len(toks))
            check(toks[:k] == w[:k], 'difference located at %s' % got[1],
                  change=c['where'])
    with sut('compare with itself'):
        check(a.compare(a)[0], 'an object differs from itself')
        check(a.compare(cls(clone(c['a']), '#'))[0], 'an object differs from '
              'another one made from the same document')
    with sut('compare with another type'):
        check(a.compare('x')[0] is False and a.compare(None)[0] is False,
              'an object equals something of another type')


KNOWN_SUBS = [Sub('one_change', None, lambda c, cx: run(c, cx, True))]
SUBS = [Sub('one_change', lambda: cases(g), run, 10000, 120000)]
