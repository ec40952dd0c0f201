"""What the references of an object, and of all it leads to, are bound to."""
from core import clone, sut
import refs
import tables

SWAGGER, OPENAPI = ('o', 'Swagger'), ('o', 'OpenApi')
TOP = {'2.0': (tables.V20, SWAGGER), '3.0.0': (tables.V30, OPENAPI)}


def bindings(obj, version, url):
    """{place: what its reference is bound to}, of everything `obj` leads to"""
    t, top = TOP[version]
    out = {}

    def visit(obj, ty, base):
        for toks, want, ref in refs.places(t, ty, obj.dump() or {}):
            holder = obj.resolve(list(toks)) if toks else obj
            attrs = holder.get_attrs('migration')
            bound = attrs.ref_obj
            key = refs.join(*refs.split(base, ref))
            val = bound if bound is None else clone(bound.dump())
            end = None
            if want != ('o', 'PathItem'):
                try:
                    end = clone(utils.deref(holder).dump())
                except errs.CycleDetectionError:
                    end = 'a cycle'
            out.setdefault((base, '/'.join(toks)), (key, val, end))
            if bound is not None and key not in seen:
                seen.add(key)
                visit(bound, want, key.split('#')[0])

    from pyopenapi import errs, utils
    seen = set()
    with sut('using the references of an object of %s' % version):
        visit(obj, top, url)
    return out
