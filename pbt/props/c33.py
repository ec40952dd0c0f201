"""C33: a failed load or migration leaves nothing behind"""
from core import Sub, check, clone, same, sut
from gen import cases
from bound import bindings
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Document sets of the three versions, an application whose getter fails at up to four chosen fetches (it raises, or '
        'delivers nothing or half of a document) and whose prepare hook raises at chosen calls. Loading, migrating and '
        'looking up are tried again after each failure until they succeed: a failure has to be that of the getter or of '
        'the hook, and the result, what every reference is bound to and what every reference gives when looked up '
        'must be those of an application where nothing failed. With a document that never arrives, or a reference '
        'that names nothing, each attempt has to fail again. Non-trivial: something failed.')
VERSIONS = ['1.2', '2.0', '3.0.0']
MAKE = {'1.2': gen12.make, '2.0': gen2.make, '3.0.0': gen3.make}
ROOTS = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}
KINDS = ['raise', 'raise', 'half', 'nothing']


class Fault(Exception):
    pass


class Hooked(A.App):
    plan = ()
    calls = 0
    failed = 0

    def prepare_obj(self, obj, jref):
        self.calls += 1
        if self.calls in self.plan:
            self.failed += 1
            raise Fault('the hook failed on purpose')
        return obj


class Site(object):
    """documents that can be fetched, or not"""

    def __init__(self, docs, plan=(), gone=()):
        self.docs, self.plan, self.gone = docs, dict(plan), set(gone)
        self.n = self.failed = self.bad = 0

    def resolver(self):
        import json
        from pyopenapi.migration.getter import SimpleGetter
        from pyopenapi.migration.resolve import Resolver
        site = self

        class FaultyGetter(SimpleGetter):
            def load(self, path):
                site.n += 1
                kind = 'raise' if path in site.gone else site.plan.get(site.n)
                if kind:
                    site.failed += 1
                if kind == 'raise':
                    raise Fault('the getter failed on purpose')
                if kind:
                    site.bad += 1
                text = json.dumps(site.docs[path])
                if kind == 'nothing':
                    return ''
                return text[:max(1, len(text) // 2)] if kind == 'half' else text

        return Resolver(default_getter=FaultyGetter)


def norm(val):
    return clone(val or {})


def everything(app, case, to):
    """the root, its references, and what references of documents give"""
    out = {'root': clone(app.root.dump())}
    if to != '1.2':
        out['bound'] = {'#'.join(k): list(v) for k, v in
                        bindings(app.root, to, case['root']).items()}
    return out


def lookups(case, to):
    v = case['which']
    if v == '1.2':
        return []
    out = []
    t = tables.TABLES[v]
    for _, _, ref in refs.places(t, ('o', ROOTS[v]), case['docs'][case['root']]):
        key = refs.join(*refs.split(case['root'], ref))
        if key not in out:
            out.append(key)
    return out


def look(app, case, key, to):
    obj, at = app.resolve_obj(key, case['which'], to_spec_version=to)
    return [obj.__class__.__name__, clone(obj.dump()), at]


def attempt(what, fn, app, site, cx):
    """call until it works, each failure must have been caused"""
    for n in range(40):
        before, bad = site.failed + app.failed, site.bad
        versions = app.original_spec_version, app.current_spec_version
        try:
            return fn()
        except Exception as e:      # pylint: disable=broad-except
            if site.failed + app.failed == before:
                with sut('%s (attempt %d)' % (what, n + 1)):
                    raise
            if site.bad == bad:
                check(isinstance(e, Fault), 'a failure does not reach the caller '
                      'as it is', what=what, got=repr(e)[:200])
            else:
                cx.label('failed by bad text')
            same([app.original_spec_version, app.current_spec_version],
                 list(versions), 'a failed call changed the reported versions', what=what)
        cx.label('tried again: ' + what.split(' ')[0])
        cx.nontrivial(True)
    check(False, 'does not succeed although nothing fails any more', what=what)


def run(case, cx):
    docs, root, to = case['docs'], case['root'], case['to']
    sep = case.get('sep', '!##!')
    keys = lookups(case, to)
    with sut('loading without any failure'):
        app = A.load_app(clone(docs), root, sep=sep)
    ops = []
    for what, arg in case['ops']:
        if what == 'migrate':
            with sut('migrating without any failure'):
                ops.append((what, arg, norm(app.migrate_obj(app.raw, root, arg).dump())))
        elif keys:
            # not everything can be looked up before its document is migrated
            key = keys[arg % len(keys)]
            try:
                ops.append((what, key, look(app, case, key, to)))
            except Exception:       # pylint: disable=broad-except
                cx.label('not a lookup')
    with sut('migrating without any failure'):
        app.root = app.migrate_obj(app.raw, root, to)
        want = everything(app, case, to)
    found = {}
    for k in keys:
        try:
            found[k] = look(app, case, k, to)
        except Exception:       # pylint: disable=broad-except
            cx.label('not a lookup')
    versions = [app.original_spec_version, app.current_spec_version]

    site = Site(clone(docs), [(k, v) for k, v in case['fetches']])
    app = Hooked(root, resolver=site.resolver(), sep=sep)
    app.plan = case['hooks']

    app.raw = attempt('loading', lambda: app.load_obj(root), app, site, cx)
    for what, arg, res in ops:
        if what == 'migrate':
            got = attempt('migrating to ' + arg, lambda: norm(
                app.migrate_obj(app.raw, root, arg).dump()), app, site, cx)
        else:
            got = attempt('looking up %s first' % arg,
                          lambda: look(app, case, arg, to), app, site, cx)
            cx.label('looked up first')
        same(got, res, 'after a failure a step gives something else',
             step=[what, arg])
    app.root = attempt('migrating to ' + to,
                       lambda: app.migrate_obj(app.raw, root, to), app, site, cx)
    with sut('using the migrated object'):
        got = everything(app, case, to)
    same(got, want, 'after a failure the result is another')
    for k in found:
        got = attempt('looking up ' + k, lambda: look(app, case, k, to), app, site, cx)
        same(got, found[k], 'after a failure a lookup gives something else', ref=k)
    same([app.original_spec_version, app.current_spec_version], versions,
         'after a failure other versions are reported')


def gen(d, which):
    kw = {} if which == '1.2' else {'path_refs': True}
    if which == '2.0':
        kw['focus'] = d.pick([None, 'refs', 'paths'])
    if which == '3.0.0':
        kw['focus'] = d.pick([None, 'paths'])
    case = MAKE[which](d, **kw)
    case['which'] = which
    case['to'] = d.pick([v for v in VERSIONS if v >= which])
    case['ops'] = []
    for _ in range(d.int(0, 3)):
        case['ops'].append(['look', d.int(0, 20)] if d.flag() else
                           ['migrate', d.pick([v for v in VERSIONS
                                               if which <= v <= case['to']])])
    case['fetches'] = sorted([[n, d.pick(KINDS)] for n in
                              {d.int(1, len(case['docs']) + 3)
                               for _ in range(d.int(0, 4))}])
    case['hooks'] = sorted({d.int(1, 9) for _ in range(d.int(0, 2))}) \
        if d.flag(1, 3) else []
    return case


def run_gone(case, cx):
    """a failure that does not go away"""
    docs, root, to, which = case['docs'], case['root'], case['to'], case['which']
    sep = case.get('sep', '!##!')
    docs = clone(docs)
    others = sorted(u for u in docs if u != root)
    gone = [others[case['gone'] % len(others)]] if others else []
    site = Site(docs, gone=gone)
    app = A.App(root, resolver=site.resolver(), sep=sep)
    results = []
    for n in range(case['times']):
        try:
            obj = app.load_obj(root)
            obj = app.migrate_obj(obj, root, to)
            results.append('done')
        except Fault:
            results.append('failed')
        except Exception as e:          # pylint: disable=broad-except
            results.append(type(e).__name__)
    cx.label(results[0])
    cx.nontrivial(results[0] != 'done')
    check(results[0] in ('done', 'failed'), 'a failure of the getter is not '
          'reported as it is', got=results[0])
    check(len(set(results)) == 1, 'the same failure does not occur when '
          'trying again', attempts=results)


def gen_gone(d, which):
    case = gen(d, which)
    case['gone'] = d.int(0, 4)
    case['times'] = d.int(2, 3)
    return case


def strat(fn, which):
    return lambda: cases(fn, which)


SUBS = [Sub('2.0', strat(gen, '2.0'), run, quick=500, thorough=10000),
        Sub('3.0', strat(gen, '3.0.0'), run, quick=400, thorough=8000),
        Sub('1.2', strat(gen, '1.2'), run, quick=200, thorough=3000),
        Sub('gone 2.0', strat(gen_gone, '2.0'), run_gone, quick=300, thorough=5000),
        Sub('gone 3.0', strat(gen_gone, '3.0.0'), run_gone, quick=300, thorough=5000),
        Sub('gone 1.2', strat(gen_gone, '1.2'), run_gone, quick=100, thorough=1000)]
