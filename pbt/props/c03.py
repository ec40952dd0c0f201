import json

import tables
from core import Sub, same, sut, check, clone
from gen import cases, gen_obj, canon, walk

RULE = ('Random objects of every class of Swagger 1.2, 2.0 and OpenAPI 3.0 '
        '(root documents in a third of the cases), grown from tables of the '
        'specifications: any subset of fields, nested children, $ref and '
        'non-$ref alternatives, boolean additionalProperties, empty '
        'containers, unknown and x- keys, odd map keys; non-trivial when the '
        'object has nested children.')
ASSUMPTIONS = ['vendor extensions and unknown keys, null values and empty '
               'optional containers are outside the round trip']


def g(d, version):
    t = tables.TABLES[version]
    if d.flag(1, 3):
        cls = d.pick(tables.ROOTS[version])
    else:
        cls = d.pick(sorted(t))
    return {'v': version, 'cls': cls,
            'spec': gen_obj(d, t, cls, [d.pick([2, 5, 10, 20, 40])])}


def run(c, cx):
    t = tables.TABLES[c['v']]
    ty = ('o', c['cls'])
    mod = tables.classes(c['v'])
    spec = c['spec']
    orig = clone(spec)
    n = sum(1 for _ in walk(t, ty, spec))
    cx.nontrivial(n > 2)
    cx.label(c['cls'], 'size>%d' % (10 if n > 10 else 3 if n > 3 else 0))
    want = canon(t, ty, spec)
    cls = getattr(mod, c['cls'])
    with sut('parse'):
        obj = cls(spec, '#')
    with sut('dump'):
        dumped = obj.dump()
    check(isinstance(dumped, dict), 'a dump is a JSON object', got=repr(dumped))
    with sut('dump is JSON'):
        text = json.dumps(dumped)
        norm = canon(t, ty, json.loads(text))
    same(norm, want, '%s %s: dump(parse(spec)) lost or changed something' % (
        c['v'], c['cls']))
    # nothing but defined keys is invented
    with sut('parse the dump'):
        again = cls(json.loads(text), '#').dump()
    same(canon(t, ty, again), want, 'the dump does not survive another round')
    same(spec, orig, 'parsing or dumping changed the document')
    with sut('dump again'):
        same(obj.dump(), dumped, 'two dumps of one object differ')
    # the dump of a part is the part of the dump
    for toks, typ, val in walk(t, ty, spec):
        if typ[0] in ('o', 'm', 'l') and toks:
            with sut('dump of a part'):
                part = obj.resolve(list(toks)).dump()
                got = canon(t, typ, part)
            same(got, canon(t, typ, val), 'dump of the part at %s' % '/'.join(toks))


SUBS = [
    Sub('v1_2', lambda: cases(g, '1.2'), run, 3000, 50000),
    Sub('v2_0', lambda: cases(g, '2.0'), run, 4000, 60000),
    Sub('v3_0_0', lambda: cases(g, '3.0.0'), run, 4000, 60000),
]
