"""C10: every $ref is bound to the object it names"""
import gc
import re

from core import Sub, check, clone, must_raise, same, sut
from gen import canon, cases
import app as A
import gen
import gen2
import gen3
import refs
import tables

RULE = ('Sets of up to five Swagger 2.0 or OpenAPI 3.0 documents with references of every kind between them, in any spelling, '
        'to named objects, parts of schemas and whole documents, in chains and cycles, names needing escaping. '
        'Every reference reached from the root must be bound to an object equal to the value an independent '
        'resolver finds in the raw documents, of the right kind, the very object of the tree when it is in the root '
        'document; dereferencing must end at the end of the chain, and fail on a pure cycle. '
        'Non-trivial: at least two references.')


def real(obj):
    return obj.get_path.__self__


def plain(t, ty, val, base):
    return canon(t, ty, refs.absolute(t, ty, clone(val), base))


class Checker(object):
    def __init__(self, case, version, cx):
        from pyopenapi import utils, errs
        self.utils, self.errs = utils, errs
        self.docs, self.root, self.v = case['docs'], case['root'], version
        self.t = tables.TABLES[version]
        self.cx = cx
        with sut('loading'):
            self.app = A.create_app(self.docs, self.root, version)
        # bound objects are weak proxies: nothing but what the application
        # keeps may hold them
        if len(self.docs) > 1:
            gc.collect()
        self.seen = set()
        self.n = 0

    def visit(self, obj, ty, url, raw):
        for toks, want, ref in refs.places(self.t, ty, raw):
            self.n += 1
            where = '%s at /%s' % (url, '/'.join(toks))
            with sut('finding the reference'):
                holder = obj.resolve(list(toks)) if toks else obj
                attrs = holder.get_attrs('migration')
                bound, absref = attrs.ref_obj, attrs.normalized_ref
            turl, ttoks, tval = refs.target(self.docs, url, ref)
            key = refs.join(turl, ttoks)
            check(bound is not None, 'a reference is not bound', at=where, ref=ref)
            check(absref and refs.join(*refs.split(url, absref)) == key,
                  'a reference was normalized to another place', at=where,
                  ref=ref, got=absref, want=key)
            self.equal(bound, want, turl, tval, 'is bound to', where, ref)
            if turl == self.root:
                with sut('resolve in the root'):
                    there = self.app.root.resolve(list(ttoks))
                check(real(bound) is there, 'a reference is bound to a copy of '
                      'an object of the root document', at=where, ref=ref)
            else:
                self.cx.label('external target')
            if ttoks[-2:-1] in (('properties', ), ('allOf', )) or \
                    ttoks[-1:] in (('items', ), ('additionalProperties', )):
                self.cx.label('part of a schema')
            self.deref(holder, want, url, ref, where)
            if key not in self.seen:
                self.seen.add(key)
                self.lookup(key, bound, turl, ttoks)
                if turl != self.root:
                    self.visit(bound, want, turl, tval)

    def equal(self, obj, ty, url, raw, what, where, ref):
        with sut('using what a reference %s' % what):
            cls, val = obj.__class__.__name__, obj.dump()
        want = refs.class_of(ty, raw)
        check(not want or cls == want, 'a reference %s an object of the wrong '
              'kind' % what, at=where, ref=ref, got=cls, want=want)
        same(plain(self.t, ty, val, url), plain(self.t, ty, raw, url),
             'a reference %s another object' % what, where=where, ref=ref)

    def deref(self, holder, ty, url, ref, where):
        if ty == ('o', 'PathItem'):
            return
        try:
            furl, _, fval = refs.final(self.docs, url, {'$ref': ref})
        except refs.Cycle:
            self.cx.label('pure cycle')
            must_raise('dereferencing a pure cycle',
                       lambda: self.utils.deref(holder),
                       self.errs.CycleDetectionError)
            return
        with sut('deref'):
            end = self.utils.deref(holder)
        if '$ref' in refs.target(self.docs, url, ref)[2]:
            self.cx.label('chain')
        self.equal(end, ty, furl, fval, 'is dereferenced to', where, ref)

    def lookup(self, key, bound, turl, ttoks):
        with sut('resolve_obj'):
            obj, jref = self.app.resolve_obj(key, self.v)
        check(real(obj) is real(bound), 'resolve_obj gives another object than '
              'the one bound', ref=key)
        check(refs.join(*refs.split(self.root, jref)) == key,
              'resolve_obj reports another place', got=jref, want=key)
        if turl == self.root:
            local = key[len(turl):]
            with sut('resolve_obj of a local reference'):
                obj, _ = self.app.resolve_obj(local, self.v)
            check(real(obj) is real(bound),
                  'a local reference gives another object', ref=local)


def run_for(version, root_cls):
    def run(case, cx):
        c = Checker(case, version, cx)
        c.visit(c.app.root, ('o', root_cls), c.root, c.docs[c.root])
        cx.nontrivial(c.n >= 2)
        cx.label('%d+ references' % (c.n if c.n < 3 else 10 if c.n > 9 else 3))
    return run


def renamed(v, sec, name, new):
    """the same with another name for what is called `name` below `sec`"""
    old = re.compile('%s/%s(?=/|$)' % (sec, name))
    if isinstance(v, dict):
        return {k: {new if x == name else x: renamed(y, sec, name, new)
                    for x, y in w.items()} if k == sec and isinstance(w, dict)
                else renamed(w, sec, name, new) for k, w in v.items()}
    if isinstance(v, list):
        return [renamed(x, sec, name, new) for x in v]
    return old.sub('%s/%s' % (sec, new), v) if isinstance(v, str) else v


def gen2_0(d):
    case = gen2.make(d, focus='refs', path_refs=True, pure_cycles=True)
    if d.flag(1, 5):
        # names might be empty
        sec, name = d.pick(['definitions', 'properties']), d.pick(gen.PLAIN[:4])
        case['docs'] = {u: renamed(doc, sec, name, '')
                        for u, doc in case['docs'].items()}
    return case


def g2():
    return cases(gen2_0)


def g3():
    return cases(gen3.make)


SUBS = [Sub('2.0', g2, run_for('2.0', 'Swagger'), quick=700, thorough=15000),
        Sub('3.0', g3, run_for('3.0.0', 'OpenApi'), quick=1200, thorough=25000)]
