"""C31: the prepare hook and the versions an application reports"""
import copy

from core import Sub, check, clone, same, sut
from gen import cases
import app as A
import gen12
import gen2
import gen3
import refs
import tables

ASSUMPTIONS = ['when both an object and a part of it went through a hook that returns copies, what the '
               'reference of the part gives is not checked']
RULE = ('Random document sets of the three versions with external parts, an application whose prepare hook records its calls and returns '
        'the object, a copy of it, or the object with a new child, and up to five migrations and lookups. Checked after each: '
        'the root went through the hook once per version, in order, with its reference; what the caller gets is what the hook returned; '
        'looking up the reference of any call in its version gives what the hook returned for it last; everything a '
        'reference of the result names is below some reference the hook saw; a child added at 2.0 is in the 3.0 result; the '
        'reported versions. Non-trivial: the hook saw more than the root, or several versions.')
VERSIONS = ['1.2', '2.0', '3.0.0']
MAKE = {'1.2': gen12.make, '2.0': gen2.make, '3.0.0': gen3.make}
DOCS = {'url': 'http://by.the/hook', 'description': 'added by the hook'}


def gen(d):
    which = d.pick(VERSIONS + ['2.0'])
    kw = {} if which == '1.2' else {'path_refs': True}
    if which == '2.0':
        kw['focus'] = d.pick([None, 'refs', 'paths'])
    case = MAKE[which](d, **kw)
    case['which'] = which
    case['hook'] = d.pick(['same', 'copy', 'copy', 'child'])
    case['ops'] = []
    for _ in range(d.int(1, 5)):
        case['ops'].append([d.pick(['migrate', 'migrate', 'further', 'lookup', 'lookup',
                                    'again']),
                            d.pick([v for v in VERSIONS if v >= which]),
                            d.int(0, 20)])
    if which == '2.0' and d.flag(1, 3):
        case['part'] = d.int(1, 20)
        case['ops'] = [['migrate', '2.0', 0]] if d.flag() else []
    return case


class Hooked(A.App):
    def __init__(self, kind, *args, **kw):
        super(Hooked, self).__init__(*args, **kw)
        self.kind = kind
        self.calls = []             # (version, jref, given, returned)

    def prepare_obj(self, obj, jref):
        out = obj
        if self.kind == 'copy':
            out = copy.copy(obj)
            out.verif_mark = len(self.calls)
        elif self.kind == 'child' and type(obj).__name__ == 'Swagger':
            new = tables.classes('2.0').ExternalDocumentation(dict(DOCS), '#/new')
            obj.attach_child('externalDocs', new)
        self.calls.append((obj.__swagger_version__, jref, obj, out))
        return out


def norm(jref):
    url, _, frag = jref.partition('#')
    return url + '#' + frag


def identity(obj):
    """the object behind a weak proxy"""
    return obj.dump.__self__


class Run(object):
    def __init__(self, case, cx):
        self.case, self.cx = case, cx
        self.which, self.url = case['which'], case['root']
        self.app = Hooked(case['hook'], self.url, sep=case.get('sep', '!##!'),
                          resolver=A.mem_resolver(case['docs']))
        with sut('loading'):
            self.raw = self.app.load_obj(self.url)
        check(self.app.original_spec_version == self.which,
              'version of the loaded document', got=self.app.original_spec_version)
        check(not self.app.calls, 'the hook was called when loading')
        check(not self.app.current_spec_version,
              'a version is reported before any migration',
              got=self.app.current_spec_version)
        self.roots = []
        self.current = None
        self.redone = set()

    def migrate(self, obj, to):
        n = len(self.app.calls)
        start = obj.__swagger_version__
        with sut('migrating to ' + to):
            res = self.app.migrate_obj(obj, self.url, to)
        new = self.app.calls[n:]
        mine = [c for c in new if norm(c[1]) == self.url + '#']
        steps = VERSIONS[VERSIONS.index(start):VERSIONS.index(to) + 1]
        # an object of 1.2 has no reference, whether it is shown is not said
        check([c[0] for c in mine if c[0] != '1.2'] ==
              [v for v in steps if v != '1.2'],
              'the root went through the hook in other steps', want=steps,
              got=[c[:2] for c in new])
        if to != '1.2':
            check(res is mine[-1][3],
                  'the caller got something else than the hook returned')
            check(type(res).__name__ == {'2.0': 'Swagger', '3.0.0': 'OpenApi'}[to],
                  'the migrated root has the wrong type', got=type(res).__name__)
        if self.case['hook'] == 'child' and to == '3.0.0':
            with sut('dump'):
                got = clone(res.dump().get('externalDocs'))
            if start != '3.0.0':
                same(got, DOCS, 'a child the hook added at 2.0 is not in the '
                     'result of 3.0')
        self.current = to
        self.roots.append((to, res))
        self.covered(to, res)

    def covered(self, version, res):
        if version == '1.2':
            return
        t = tables.TABLES[version]
        with sut('dump'):
            dump = clone(res.dump())
        seen = [refs.split('', c[1]) for c in self.app.calls if c[0] == version]
        for toks, ty, ref in refs.places(t, ('o', type(res).__name__), dump):
            if version == '2.0' and toks[0] in ('parameters', 'responses'):
                continue    # 2.0 looks at these where they are used
            url, tk = refs.split(self.url, ref)
            check(any(u == url and tk[:len(p)] == p for u, p in seen),
                  'an object that is referred to never went through the hook',
                  ref=ref, at=toks, version=version)

    def lookups(self):
        """the last result for each reference"""
        last = {}
        for v, jref, _, out in self.app.calls:
            last[v, norm(jref)] = (jref, out)
        return sorted(last.items(), key=lambda x: x[0])

    def lookup_all(self):
        for (v, _), (jref, out) in self.lookups():
            if v == '1.2':
                continue
            with sut('looking up what was prepared: %s in %s' % (jref, v)):
                obj, j = self.app.resolve_obj(jref, v, to_spec_version=v)
            url, toks = refs.split('', jref)
            # in a cycle a part is put into the whole before the hook saw it
            part = any(w == v and refs.split('', x)[0] == url and
                       len(refs.split('', x)[1]) < len(toks) and
                       toks[:len(refs.split('', x)[1])] == refs.split('', x)[1]
                       for w, x, _, _ in self.app.calls)
            check(identity(obj) is identity(out) or
                  part and (self.case['hook'] == 'copy' or
                            (v, norm(jref)) in self.redone),
                  'looking up the reference the hook was called with gives '
                  'something else than the hook returned', jref=jref, version=v,
                  got=repr(identity(obj)), want=repr(out),
                  mark=(getattr(obj, 'verif_mark', None),
                        getattr(out, 'verif_mark', None)))
            check(norm(j) == norm(jref), 'looked up with another reference',
                  got=j, want=jref)

    def lookup(self, to, n):
        if self.which == '1.2' or not any(v == to for v, _ in self.roots):
            return
        t = tables.TABLES[self.which]
        ty = ('o', 'Swagger' if self.which == '2.0' else 'OpenApi')
        ps = list(refs.places(t, ty, self.case['docs'][self.url]))
        if not ps:
            return
        ref = refs.join(*refs.split(self.url, ps[n % len(ps)][2]))
        before = len(self.app.calls)
        with sut('looking up %s in %s' % (ref, to)):
            obj, j = self.app.resolve_obj(ref, self.which, to_spec_version=to)
            again, j2 = self.app.resolve_obj(ref, self.which, to_spec_version=to)
        check(identity(obj) is identity(again) and j == j2,
              'the same lookup gives another object the second time', ref=ref,
              calls=[c[:2] for c in self.app.calls[before:]])
        self.cx.label('lookup')


    def again(self, n):
        """a part of a migrated document, by itself once more"""
        raw = self.case['docs'][self.url]
        if self.which != '2.0' or ('3.0.0', True) not in [
                (v, True) for v, _ in self.roots]:
            return
        pool = [x for x in ('definitions', 'responses', 'paths') if raw.get(x)]
        pool = [[x, k] for x in pool for k in sorted(raw[x])]
        if not pool:
            return
        toks = pool[n % len(pool)]
        ref = refs.join(self.url, toks)
        with sut('looking up %s in 3.0.0' % ref):
            obj, at = self.app.resolve_obj(ref, '2.0', to_spec_version='3.0.0')
            kind = type(identity(obj)).__name__
        part = self.raw
        with sut('the part %s' % toks):
            part = part.resolve(list(toks))
        before = len(self.app.calls)
        with sut('migrating %s by itself' % ref):
            res = self.app.migrate_obj(part, ref, '3.0.0')
        mine = [c for c in self.app.calls[before:] if c[0] == '3.0.0' and c[3] is res]
        check(mine, 'a part that is migrated again is not what the hook returned',
              calls=[c[:2] for c in self.app.calls[before:]])
        check(norm(mine[-1][1]) == norm(at), 'the hook saw a part with another '
              'reference than where it is', got=mine[-1][1], want=at)
        check(type(res).__name__ == kind, 'a part becomes another kind of object',
              got=type(res).__name__, want=kind)
        self.steps(before, ref, at)
        for c in self.app.calls[before:]:
            self.redone.add((c[0], norm(c[1])))
        self.cx.label('part again')

    def steps(self, before, ref, at):
        """a part, too, is shown in every version it is migrated to"""
        got = {c[0] for c in self.app.calls[before:]
               if norm(c[1]) == norm(ref if c[0] == '2.0' else at)}
        same(sorted(got), ['2.0', '3.0.0'], 'versions in which the hook saw a part',
             ref=ref, calls=[c[:2] for c in self.app.calls[before:]])

    def part(self, n):
        t = tables.TABLES[self.which]
        if self.which != '2.0' or any(v == '3.0.0' for v, _ in self.roots):
            return False
        raw = self.case['docs'][self.url]
        pool = [['definitions', k] for k in sorted(raw.get('definitions') or {})
                if not list(refs.places(t, ('o', 'Schema'), raw['definitions'][k]))]
        if not pool:
            return False
        ref = refs.join(self.url, pool[n % len(pool)])
        with sut('looking up %s in 3.0.0' % ref):
            before = len(self.app.calls)
            obj, j = self.app.resolve_obj(ref, '2.0', to_spec_version='3.0.0')
            ver = obj.__swagger_version__
        same([ver, norm(j)], ['3.0.0', ref], 'a part of another version')
        self.steps(before, ref, j)
        self.cx.label('part alone')
        return True

    def versions(self, k):
        check(self.app.original_spec_version == self.which,
              'the version of the document changed', after=k,
              got=self.app.original_spec_version)
        check((self.app.current_spec_version or None) == self.current,
              'the version of the application', after=k,
              got=self.app.current_spec_version, want=self.current)


def run(case, cx):
    r = Run(case, cx)
    cx.label(case['hook'], case['which'])
    for k, to, n in case['ops']:
        if k == 'migrate':
            r.migrate(r.raw, to)
        elif k == 'further' and r.roots:
            v, obj = r.roots[n % len(r.roots)]
            if v <= to:
                r.migrate(obj, to)
        elif k == 'lookup':
            r.lookup(to, n)
        elif k == 'again':
            r.again(n)
        r.lookup_all()
        r.versions(k)
    # a part alone in a version the root is not migrated to; the root of that
    # version would have one of its own, so nothing may follow
    if case.get('part') and r.part(case['part']):
        r.versions('part')
    seen = {(c[0], norm(c[1])) for c in r.app.calls}
    cx.label('%d objects' % min(len(seen), 6))
    cx.nontrivial(len(seen) > 1)


SUBS = [Sub('hook', lambda: cases(gen), run, quick=1600, thorough=30000)]
