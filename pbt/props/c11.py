"""C11: effective path items"""
from core import Sub, check, clone, same, sut
from gen import canon, cases
from model23 import Model, norm3, OPENAPI
import app as A
import gen2
import gen3
import refs
import tables

RULE = ('Sets of up to four Swagger 2.0 or OpenAPI 3.0 documents whose path items refer to each other in random chains and '
        'cycles, each with a random subset of operations, parameters (and servers). Every path item with a reference '
        'reached from the root is merged and compared, child by child, with the first one along the chain that has '
        'it, in 2.0, in 3.0, and in 3.0 upgraded from 2.0; afterwards every path item is compared with its source. '
        'Non-trivial: a chain of two or more references, or a cycle.')

SHAPE = {'2.0': ['get', 'put', 'post', 'delete', 'options', 'head', 'patch',
                 'parameters'],
         '3.0.0': ['get', 'put', 'post', 'delete', 'options', 'head', 'patch',
                   'trace', 'parameters', 'servers']}


def real(obj):
    return obj.get_path.__self__


def merged(item_at, url, toks, kinds):
    """{kind: (url, toks, value)} of what is effective, and the chain length"""
    out, seen = {}, []
    while (url, toks) not in seen:
        seen.append((url, toks))
        item = item_at(url, toks)
        for k in kinds:
            v = item.get(k)
            if v is not None and v != [] and k not in out:
                out[k] = (url, toks, item[k])
        if not item.get('$ref'):
            return out, seen, False
        url, toks = refs.split(url, item['$ref'])
    return out, seen, True


def run_for(src, dst):
    kinds = SHAPE[dst]
    t = tables.TABLES[dst]

    def run(case, cx):
        from pyopenapi import utils
        docs, root = case['docs'], case['root']
        with sut('loading'):
            app = A.create_app(docs, root, dst)
        # all as absolute values of the target version
        if src == dst:
            def item_at(url, toks):
                v = clone(refs.at(docs[url], toks))
                return canon(t, ('o', 'PathItem'), refs.absolute(
                    t, ('o', 'PathItem'), v, url))
        else:
            m = Model(docs, root)
            conv = m.convert()

            def item_at(url, toks):
                v = refs.at(conv, toks) if url == root else \
                    m.path_item(url, refs.at(docs[url], toks))
                return norm3(('o', 'PathItem'), v, url)

        def view(obj, url, ty=('o', 'PathItem')):
            if src == dst:
                return canon(t, ty, refs.absolute(t, ty, obj.dump(), url))
            return norm3(ty, obj.dump(), url)

        seen = {}
        for p in docs[root]['paths']:
            at, obj = (root, ('paths', p)), None
            while at not in seen:
                with sut('reaching a path item'):
                    obj = app.root.paths[p] if obj is None else \
                        obj.get_attrs('migration').ref_obj
                check(obj is not None, 'a path item reference is not bound')
                seen[at] = obj
                item = item_at(*at)
                if not item.get('$ref'):
                    break
                at = refs.split(at[0], item['$ref'])
        for (url, toks), obj in seen.items():
            item = item_at(url, toks)
            where = refs.join(url, toks)
            with sut('final'):
                fin = utils.final(obj)
            if not item.get('$ref'):
                check(real(fin) is real(obj),
                      'a path item without reference is not its own final', at=where)
                continue
            want, chain, cyc = merged(item_at, url, toks, kinds)
            cx.nontrivial(len(chain) > 2 or cyc)
            if cyc:
                cx.label('cycle')
            cx.label('chain of %d' % min(len(chain), 4))
            if len({u for u, _ in chain}) > 1:
                cx.label('crossing documents')
            for k in kinds:
                with sut('reading the effective path item'):
                    child = getattr(fin, k)
                if k not in want:
                    check(not child, 'the effective path item has something '
                          'no path item along the chain has', at=where, kind=k,
                          chain=[refs.join(*x) for x in chain])
                    continue
                check(child is not None and child != [],
                      'the effective path item lacks something',
                      at=where, kind=k, chain=[refs.join(*x) for x in chain])
                ourl, otoks, val = want[k]
                got = view(child, ourl, t['PathItem'].children[k])
                same(got, val, 'the effective path item does not have the '
                     'nearest definition', where=where, kind=k,
                     owner=refs.join(ourl, otoks))
        # nothing was changed by all this
        for (url, toks), obj in seen.items():
            with sut('dump'):
                got = view(obj, url)
            same(got, item_at(url, toks),
                 'a path item was changed by merging', at=refs.join(url, toks))
    return run


def g2():
    return cases(gen2.make, focus='paths', path_refs=True)


def g3():
    return cases(gen3.make, focus='paths')


SUBS = [Sub('2.0', g2, run_for('2.0', '2.0'), quick=500, thorough=10000),
        Sub('upgraded', g2, run_for('2.0', '3.0.0'), quick=500, thorough=10000),
        Sub('3.0', g3, run_for('3.0.0', '3.0.0'), quick=600, thorough=12000)]
