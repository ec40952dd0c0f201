"""C25: the order of keys does not matter"""
import random

from core import Sub, check, clone, same, sut
from gen import cases
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 1.2 listings, Swagger 2.0 and OpenAPI 3.0 document sets (also with pure reference cycles and with one '
        'random entry or key missing, so that some are refused), and the same with the keys of every object reversed, '
        'sorted or shuffled. Both must be accepted or both refused, with the same loaded and migrated dumps (key order aside; '
        'lists made from objects of 1.2 as sets), references bound to equal objects at the same places, and the '
        'same sharing between the bound objects. Non-trivial: accepted, with references or several resources.')
ROOT = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}
VERSIONS = ['1.2', '2.0', '3.0.0']


def permute(v, rnd):
    """the same value with other orders of keys; rnd None: reversed"""
    if isinstance(v, dict):
        ks = list(v)
        if rnd is None:
            ks.reverse()
        elif rnd is True:
            ks.sort()
        else:
            rnd.shuffle(ks)
        return {k: permute(v[k], rnd) for k in ks}
    if isinstance(v, list):
        return [permute(x, rnd) for x in v]
    return v


def gen(d, version):
    if version == '1.2':
        case = gen12.make(d)
    elif version == '2.0':
        case = gen2.make(d, path_refs=True, pure_cycles=d.flag(1, 3),
                         focus=d.pick([None, 'refs', 'paths', 'refs']))
    else:
        case = gen3.make(d)
    case['to'] = d.pick(VERSIONS[VERSIONS.index(version):])
    case['v'] = version
    if d.flag(1, 4):
        # something is missing
        docs = case['docs']
        v = docs[d.pick(list(docs))]
        for _ in range(d.int(1, 6)):
            if not isinstance(v, dict) or not v:
                break
            k = d.pick(list(v))
            if not isinstance(v[k], dict) or not v[k] or d.flag(1, 4):
                del v[k]
                break
            v = v[k]
    case['order'] = d.int(0, 50)
    return case


class Loaded(object):
    def __init__(self, case, docs):
        self.err = None
        root = case['root']
        try:
            app = self.app = A.load_app(docs, root, sep=case.get('sep', '!##!'))
            self.raw = clone(app.raw.dump())
            app.root = app.migrate_obj(app.raw, root, case['to'])
            self.dump = tidy(clone(app.root.dump()), case['v'])
        except Exception as e:  # pylint: disable=broad-except
            self.err = e


def tidy(doc, version):
    if version == '1.2':
        for item in doc.get('paths', {}).values():
            for op in item.values():
                if isinstance(op, dict) and 'security' in op:
                    op['security'].sort(key=lambda s: sorted(s.items()))
        for s in list(doc.get('definitions', {}).values()) + list(
                doc.get('components', {}).get('schemas', {}).values()):
            if 'allOf' in s:
                s['allOf'].sort(key=lambda s: s['$ref'])
    return doc


def bound(app, version, doc):
    """{place: (reference, kind, value)} and {place: object}"""
    vals, objs = {}, {}
    if version == '1.2':
        return vals, objs
    t = tables.TABLES[version]
    for toks, _, _ in refs.places(t, ('o', ROOT[version]), doc):
        a = app.root.resolve(list(toks)).get_attrs('migration')
        if a.ref_obj is None:
            continue
        k = '/'.join(x.replace('/', '~1') for x in toks)
        vals[k] = [a.normalized_ref, a.ref_obj.__class__.__name__, a.ref_obj.dump()]
        objs[k] = a.ref_obj.get_path.__self__
    return vals, objs


def shared(objs):
    """which places are bound to one and the same object"""
    out = {}
    for k in sorted(objs):
        out.setdefault(id(objs[k]), []).append(k)
    return sorted(out.values())


def run(case, cx):
    docs = case['docs']
    n = case['order']
    rnd = None if n == 0 else True if n == 1 else random.Random(n)
    other = {u: permute(docs[u], rnd) for u in docs}
    a, b = Loaded(case, docs), Loaded(case, other)
    check((a.err is None) == (b.err is None), 'one order of keys is refused, the '
          'other is not', one=repr(a.err), other=repr(b.err))
    if a.err is not None:
        cx.label('refused')
        return
    same(b.raw, a.raw, 'the loaded object depends on the order of keys')
    same(b.dump, a.dump, 'the migrated object depends on the order of keys')
    with sut('references'):
        v1, o1 = bound(a.app, case['to'], a.app.root.dump())
        v2, o2 = bound(b.app, case['to'], b.app.root.dump())
    if case['v'] != '1.2':
        same(v2, v1, 'what references are bound to depends on the order of keys')
        same(shared(o2), shared(o1), 'which objects references share depends on '
             'the order of keys')
    cx.nontrivial(v1 or (case['v'] == '1.2' and len(docs) > 2))
    cx.label(case['v'] + ' to ' + case['to'])


def strat(version):
    return lambda: cases(gen, version)


SUBS = [Sub('2.0', strat('2.0'), run, quick=800, thorough=14000),
        Sub('3.0', strat('3.0.0'), run, quick=600, thorough=10000),
        Sub('1.2', strat('1.2'), run, quick=400, thorough=6000)]
