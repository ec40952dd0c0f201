"""C22: sources and older objects stay as they are"""
from core import Sub, check, clone, same, sut
from gen import cases
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Random Swagger 1.2 listings, Swagger 2.0 and OpenAPI 3.0 document sets served as dicts, and sequences of up to six calls: '
        'migrating the loaded object to some version, migrating an earlier result further, looking up a reference in some version, '
        'dereferencing, dumping. After every call the raw dicts and the dumps of all loaded 1.2 and 2.0 '
        'objects (also of the bound external ones) must be those from before, every earlier result must still dump the '
        'same, and a migration done again must give the same. Non-trivial: two or more migrations.')
VERSIONS = ['1.2', '2.0', '3.0.0']


def gen(d, which):
    case = {'1.2': gen12.make, '2.0': gen2.make, '3.0.0': gen3.make}[which](
        d, **({} if which == '1.2' else {'path_refs': True}))
    todo = VERSIONS[VERSIONS.index(which):]
    case['ops'] = []
    for _ in range(d.int(2, 6)):
        k = d.pick(['migrate', 'migrate', 'migrate', 'further', 'lookup', 'deref', 'dump'])
        case['ops'].append([k, d.pick(todo), d.int(0, 9)])
    return case


class Run(object):
    def __init__(self, case, which, cx):
        from pyopenapi import utils
        from pyopenapi.migration.getter import SimpleGetter
        from pyopenapi.migration.resolve import Resolver
        self.utils = utils
        self.which, self.cx = which, cx
        self.docs, self.url = case['docs'], case['root']
        self.before = clone(self.docs)
        docs = self.docs

        class Getter(SimpleGetter):
            def load(self, path):
                return docs[path]

        with sut('loading'):
            self.app = A.load_app(None, self.url, sep=case.get('sep', '!##!'),
                                  resolver=Resolver(default_getter=Getter))
        self.kept = []              # (what, version, object, dump)
        self.results = {}           # version -> dump of the migrated root
        self.roots = []
        raw = self.app.raw
        self.keep('the loaded object', which, raw)
        if which == '1.2':
            for n, x in raw.cached_apis.items():
                self.keep('the declaration %s' % n, '1.2', x)

    def keep(self, what, version, obj):
        with sut('dump'):
            self.kept.append((what, version, obj, clone(obj.dump())))

    def migrate(self, obj, version):
        self.cx.label('migrate to ' + version)
        with sut('migrating to %s' % version):
            res = self.app.migrate_obj(obj, self.url, version)
            dump = clone(res.dump())
        if version in self.results:
            same(dump, self.results[version],
                 'a migration gives something else than the same one before',
                 to=version)
        self.results[version] = dump
        self.roots.append((version, res))
        self.keep('the object migrated to ' + version, version, res)

    def op(self, k, version, i):
        if k == 'migrate':
            self.migrate(self.app.raw, version)
        elif k == 'further' and self.roots:
            v, obj = self.roots[i % len(self.roots)]
            if v <= version:
                self.migrate(obj, version)
        elif k == 'lookup' and self.which != '1.2':
            ty = ('o', 'Swagger' if self.which == '2.0' else 'OpenApi')
            t = tables.TABLES[self.which]
            # only what the root reaches by itself: the parser of an object
            # in a partial document is known there
            ps = list(refs.places(t, ty, self.before[self.url]))
            if ps and any(v == version for v, _ in self.roots):
                _, _, ref = ps[i % len(ps)]
                jref = refs.join(*refs.split(self.url, ref))
                with sut('looking up %s in %s' % (ref, version)):
                    obj, _ = self.app.resolve_obj(
                        jref, self.which, to_spec_version=version)
                self.cx.label('lookup')
                self.keep('a looked up object', version, obj)
        elif k == 'deref':
            for v, root in self.roots:
                if v == '1.2':
                    continue
                t = tables.TABLES[v]
                ty = ('o', 'Swagger' if v == '2.0' else 'OpenApi')
                for toks, rty, _ in refs.places(t, ty, self.results[v]):
                    if rty == ('o', 'PathItem'):
                        continue
                    try:
                        holder = root.resolve(list(toks))
                        self.utils.deref(holder).dump()
                    except Exception:  # pylint: disable=broad-except
                        pass
                    self.cx.label('deref')
        elif k == 'dump':
            for _, root in self.roots:
                with sut('dump'):
                    root.dump()

    def compare(self, after):
        same(self.docs, self.before, 'a raw document was changed', after=after)
        for what, version, obj, dump in self.kept:
            # objects of 3.0 are brought into final form in place, once
            with sut('dump'):
                now = obj.dump()
            if version == '3.0.0' and what == 'the loaded object' and \
                    self.results:
                continue
            same(now, dump, '%s was changed' % what, after=after)


def run_for(which):
    def run(case, cx):
        r = Run(case, which, cx)
        r.compare('load')
        for i, (k, v, n) in enumerate(case['ops']):
            r.op(k, v, n)
            r.compare('%d: %s %s' % (i, k, v))
        cx.nontrivial(len(r.roots) > 1)
    return run


def strat(which):
    return lambda: cases(gen, which)


SUBS = [Sub('1.2', strat('1.2'), run_for('1.2'), quick=600, thorough=10000),
        Sub('2.0', strat('2.0'), run_for('2.0'), quick=500, thorough=9000),
        Sub('3.0', strat('3.0.0'), run_for('3.0.0'), quick=400, thorough=7000)]
