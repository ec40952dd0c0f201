"""C26: applications and objects do not influence each other"""
import json
import os
import signal
import tempfile
import threading
import time
import traceback

from core import CASE_CPU, Sub, Violation, CaseTimeout, check, clone, same
from gen import cases, walk
import app as A
import gen12
import gen2
import gen3
import refs
import tables

RULE = ('Two or three applications over random document sets of the three versions, which mostly share their URLs while the contents differ, '
        'and a random interleaving of calls on them: load, migrate to some version, migrate further, look up a reference, dereference, dump, '
        'attach a new child to some object, attach an attribute to some object. The interleaving runs in one fresh process and the calls '
        'of each application alone in another fresh process each; everything observable (dumps, references, versions, kinds of errors) must '
        'be the same. Attaching a child may change that place of that object only, and an attribute must show on no other object. '
        'Non-trivial: two or more applications that were migrated or edited, or edits of a migrated object. '
        'In a third of the cases the applications have the same getter, hook and class. Also: several applications that load the same file, '
        'with another content each time. Also: each application in its own thread, the threads changing, in a random order, whenever one fetches a document or is in its prepare hook.')

VERSIONS = ['1.2', '2.0', '3.0.0']
MAKE = {'1.2': gen12.make, '2.0': gen2.make, '3.0.0': gen3.make}
KIDS = {'externalDocs': {'url': 'http://new/docs'},
        'contact': {'name': 'somebody new'},
        'license': {'name': 'a new license'},
        'xml': {'name': 'anew'},
        'info': {'title': 'a new title', 'version': 'n.e.w',
                 'description': 'new'}}
OPS = ['load', 'migrate', 'migrate', 'migrate', 'further', 'lookup', 'lookup',
       'deref', 'dump', 'attach', 'attach', 'attr']


def gen(d, nslots):
    first = d.pick(VERSIONS)
    slots = []
    for i in range(nslots):
        which = first if i == 0 or d.flag(3, 4) else d.pick(VERSIONS)
        kw = {'maxres': 2} if which == '1.2' else {'path_refs': True}
        s = MAKE[which](d, **kw)
        s['which'] = which
        slots.append(s)
    root = slots[0]['root']
    for s in slots[1:]:
        # the same URL for different content, where that changes no meaning
        if s['root'] != root and s['which'] == '1.2' == first and d.flag(1, 2):
            s['docs'], s['root'] = move12(s, root), root
        elif d.flag(1, 3):
            # the same paths on another host
            s.update(json.loads(json.dumps(s).replace(
                'example.com', 'second.net').replace('example.org', 'second.org')))
    ops = []
    for _ in range(d.int(3, 5 + 3 * nslots)):
        s = d.int(0, nslots - 1)
        k = d.pick(OPS)
        if k not in ('load', 'migrate') and s not in [o[0] for o in ops] and d.flag(4, 5):
            k = 'migrate'
        ops.append([s, k, d.int(0, 2), d.int(0, 40)])
    # the applications may have the same getter, hook and class
    return {'slots': slots, 'ops': ops, 'shared': d.flag(1, 3)}


def move12(s, root):
    out = {}
    for u, doc in s['docs'].items():
        if u == s['root']:
            out[root] = doc
        else:
            out[u] = doc
    for api in s['docs'][s['root']]['apis']:
        old = _folder(s['root']) + api['path'][1:]
        new = _folder(root) + api['path'][1:]
        if old in s['docs']:
            out.pop(old, None)
            out[new] = s['docs'][old]
    return out


def _folder(url):
    last = url.rsplit('/', 1)[-1]
    if '.' in last:
        return url[:-len(last)]
    return url + '/'


# whose call this is: its documents, and what to do where it may be interrupted
HERE = threading.local()


def kinds():
    """an application class and a resolver"""
    from pyopenapi.migration.getter import SimpleGetter
    from pyopenapi.migration.resolve import Resolver

    class Paused(A.App):
        def prepare_obj(self, obj, jref):
            HERE.pause()
            return super(Paused, self).prepare_obj(obj, jref)

    class Getter(SimpleGetter):
        def load(self, path):
            if path not in HERE.docs:
                raise IOError('no such document: %s' % path)
            return json.dumps(HERE.docs[path])

    def hook(url):
        HERE.pause()
        return url

    return Paused, lambda: Resolver(url_load_hook=hook, default_getter=Getter)


class Slot(object):
    """one application and what is seen of it"""

    def __init__(self, case, made):
        from pyopenapi import utils
        self.utils = utils
        self.case = case
        self.which = case['which']
        cls, resolver = made
        self.app = cls(case['root'], sep=case.get('sep', '!##!'),
                       resolver=resolver())
        self.raw = None
        self.roots = []             # (version, object)
        self.marks = []             # (object, value)
        self.keep = []

    def load(self):
        if self.raw is None:
            self.raw = self.app.load_obj(self.case['root'])
        return self.raw

    def everything(self):
        out = []
        if self.raw is not None:
            out.append((self.which, self.raw))
        out.extend(self.roots)
        return out

    def place(self, n, kids):
        """some object of some tree of this application"""
        trees = self.everything()
        if not trees:
            return None
        version, root = trees[n % len(trees)]
        cls = type(root).__name__
        t = tables.TABLES[version]
        dumped = clone(root.dump())
        locs = [(toks, ty) for toks, ty, _ in walk(t, ('o', cls), dumped)
                if ty[0] == 'o' and ty[1] != 'Reference' and
                (not kids or set(t[ty[1]].children) & set(KIDS))]
        if not locs:
            return None
        toks, ty = locs[(n * 7) % len(locs)]
        return version, root, toks, ty[1]

    def op(self, k, i, n):
        version = VERSIONS[i]
        if k == 'load':
            return self.load().dump()
        if k == 'migrate':
            if VERSIONS.index(self.which) > i:
                version = '3.0.0'
            raw = self.load()
            if version == '1.2':
                return None
            res = self.app.migrate_obj(raw, self.case['root'], version)
            self.roots.append((version, res))
            return [res.dump(), self.app.original_spec_version,
                    self.app.current_spec_version]
        if k == 'further':
            if not self.roots:
                return None
            v, obj = self.roots[n % len(self.roots)]
            if v == '1.2':
                return None
            res = self.app.migrate_obj(obj, self.case['root'], '3.0.0')
            self.roots.append(('3.0.0', res))
            return res.dump()
        if k == 'lookup':
            if self.which == '1.2' or self.raw is None or not self.roots:
                return None
            t = tables.TABLES[self.which]
            ty = ('o', 'Swagger' if self.which == '2.0' else 'OpenApi')
            ps = list(refs.places(t, ty, self.case['docs'][self.case['root']]))
            if not ps:
                return None
            _, _, ref = ps[n % len(ps)]
            to = self.roots[n % len(self.roots)][0]
            obj, jref = self.app.resolve_obj(
                refs.join(*refs.split(self.case['root'], ref)), self.which,
                to_spec_version=to)
            self.keep.append(obj)
            return [ref, jref, obj.dump()]
        if k == 'deref':
            out = []
            for v, root in self.roots:
                ty = ('o', 'Swagger' if v == '2.0' else 'OpenApi')
                if v == '1.2':
                    continue
                for toks, rty, _ in refs.places(tables.TABLES[v], ty,
                                                clone(root.dump())):
                    if rty == ('o', 'PathItem'):
                        continue
                    try:
                        obj = self.utils.deref(root.resolve(list(toks)))
                        out.append([list(toks), obj.dump()])
                    except Exception as e:  # pylint: disable=broad-except
                        out.append([list(toks), type(e).__name__])
            return out
        if k == 'dump':
            return [x.dump() for _, x in self.everything()]
        if k == 'attach':
            return self.attach(n)
        if k == 'attr':
            return self.attr(n)
        raise AssertionError(k)

    def attach(self, n):
        at = self.place(n, True)
        if at is None:
            return None
        version, root, toks, cls = at
        t = tables.TABLES[version]
        kids = sorted(set(t[cls].children) & set(KIDS))
        name = kids[n % len(kids)]
        kty = t[cls].children[name]
        if kty[0] != 'o':
            return None
        spec = {k: v for k, v in KIDS[name].items() if k in t[kty[1]].fields}
        new = getattr(tables.classes(version), kty[1])(spec, '#/new')
        obj = root.resolve(list(toks))
        others = [(v, x, clone(x.dump())) for v, x in self.everything()
                  if x is not root]
        want = clone(root.dump())
        obj.attach_child(name, new)
        if getattr(obj, name) is not new:
            return 'VIOLATION the attached child is not there'
        node = want
        for x in toks:
            node = node[int(x)] if isinstance(node, list) else node[x]
        node[name] = spec
        d = diff(root.dump(), want)
        if d:
            return 'VIOLATION attaching %s to %s of version %s: %s' % (
                name, '/'.join(toks), version, d)
        for v, x, was in others:
            if version == v == '3.0.0':
                continue            # may share parts
            d = diff(x.dump(), was)
            if d:
                return ('VIOLATION attaching %s to %s of version %s changed the '
                        'object of version %s: %s' % (name, '/'.join(toks),
                                                      version, v, d))
        return [list(toks), name]

    def attr(self, n):
        from pyopenapi.migration.spec.attr import AttributeGroup
        group = type('Group', (AttributeGroup, ), {
            '__attributes__': {'mark': dict(), 'other': dict(default='none')}})
        at = self.place(n, False)
        if at is None:
            return None
        version, root, toks, cls = at
        obj = root.resolve(list(toks))
        if not hasattr(obj, 'get_attrs'):
            return None
        got = obj.get_attrs('verif', group)
        old = [m for o, m in self.marks if o is obj]
        if got.mark != (old[-1] if old else None) or got.other != 'none':
            return 'VIOLATION a fresh attribute has a value: %r %r' % (
                got.mark, got.other)
        got.mark = n
        self.marks.append((obj, n))
        for v, x in self.everything():
            for tk, ty, _ in walk(tables.TABLES[v], ('o', type(x).__name__),
                                  clone(x.dump())):
                if ty[0] != 'o':
                    continue
                o = x.resolve(list(tk))
                if not hasattr(o, 'get_attrs'):
                    continue
                g = o.get_attrs('verif')
                want = [m for y, m in self.marks if y is o]
                if (g.mark if g else None) != (want[-1] if want else None):
                    return 'VIOLATION attribute of %s shows on %s of %s' % (
                        '/'.join(toks), '/'.join(tk), v)
        return [list(toks), cls]


def diff(a, b):
    from core import first_diff
    d = first_diff(json.loads(json.dumps(a)), json.loads(json.dumps(b)))
    return None if d is None else repr(d)[:500]


class Baton(object):
    """threads of which one runs at a time, changing at chosen points only"""

    def __init__(self, ids, order):
        self.order, self.step = order, 0
        self.alive = list(ids)
        self.turn = None
        self.cond = threading.Condition()

    def _next(self):
        if not self.alive:
            self.turn = None
        else:
            pick = self.order[self.step % len(self.order)] if self.order else 0
            self.step += 1
            self.turn = self.alive[pick % len(self.alive)]
        self.cond.notify_all()

    def _wait(self, me):
        while self.turn != me:
            self.cond.wait()

    def pause(self):
        """called by whatever thread has the turn"""
        with self.cond:
            me = self.turn
            self._next()
            self._wait(me)

    def run(self, fns):
        def body(me, fn):
            with self.cond:
                self._wait(me)
            try:
                fn(self.pause)
            finally:
                with self.cond:
                    self.alive.remove(me)
                    self._next()
        ts = [threading.Thread(target=body, args=(me, fn), daemon=True)
              for me, fn in fns]
        for t in ts:
            t.start()
        with self.cond:
            self._next()
        end = time.time() + 120
        for t in ts:
            t.join(max(0.1, end - time.time()))


def threads(case, ops, order):
    """the calls of each application in its own thread, switching where it
    fetches a document and in its prepare hook"""
    out = {}
    made = kinds() if case['shared'] else None

    def calls(s, mine):
        def go(pause):
            out[s] = history(case, mine, pause, made)
        return go

    used = sorted(set(o[0] for o in ops))
    Baton(used, order).run(
        [(s, calls(s, [o for o in ops if o[0] == s])) for s in used])
    return [out.get(s) for s in used]


def history(case, ops, pause=None, made=None):
    slots = {}
    seen = []
    made = made or (kinds() if case['shared'] else None)
    HERE.pause = pause or (lambda: None)
    for s, k, i, n in ops:
        try:
            HERE.docs = case['slots'][s]['docs']
            if s not in slots:
                slots[s] = Slot(case['slots'][s], made or kinds())
            res = slots[s].op(k, i, n)
        except CaseTimeout:
            raise
        except Exception as e:  # pylint: disable=broad-except
            tb = traceback.extract_tb(e.__traceback__)
            res = ['error', type(e).__name__]
            if 'pyopenapi' not in tb[-1].filename:
                res.append(str(e)[:300])
        seen.append(json.loads(json.dumps(res)))
    # and at the end, all of it again
    last = {}
    for s, slot in slots.items():
        try:
            last[str(s)] = [json.loads(json.dumps(x.dump()))
                            for _, x in slot.everything()]
        except Exception as e:  # pylint: disable=broad-except
            last[str(s)] = type(e).__name__
    return seen, last


def fresh(fn, *args):
    """run in a child of this process, which itself never loads a document"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
            try:
                out = {'ok': fn(*args)}
            except CaseTimeout:
                out = {'timeout': True}
            except BaseException:  # pylint: disable=broad-except
                out = {'broken': traceback.format_exc()}
            signal.setitimer(signal.ITIMER_PROF, 0)
            with os.fdopen(w, 'w') as fh:
                json.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    out = json.loads(text) if text else {'broken': 'no answer'}
    if out.get('timeout'):
        raise Violation('a history did not finish within %d s' % CASE_CPU)
    if 'broken' in out:
        raise RuntimeError(out['broken'])
    return out['ok']


def run(case, cx):
    ops = case['ops']
    seen, last = fresh(history, case, ops)
    used = sorted(set(o[0] for o in ops))
    busy = set()
    for s in used:
        mine = [i for i, o in enumerate(ops) if o[0] == s]
        alone, alone_last = fresh(history, case, [ops[i] for i in mine])
        for i, a in zip(mine, alone):
            what = 'application %d, call %d: %s' % (s, i, ops[i][1])
            for side, x in (('together', seen[i]), ('alone', a)):
                check(not (isinstance(x, str) and x.startswith('VIOLATION')),
                      '%s (%s): %s' % (what, side, x))
            same(seen[i], a, 'an application together with others behaves '
                 'differently from alone: ' + what)
            if a is not None:
                err = isinstance(a, list) and a and a[0] == 'error'
                cx.label(ops[i][1] + (' error' if err else ''))
                if err:
                    continue
                if ops[i][1] in ('migrate', 'attach', 'attr', 'lookup'):
                    busy.add(s)
        same(last[str(s)], alone_last[str(s)],
             'an application together with others ends differently from alone',
             app=s)
    cx.nontrivial(len(busy) > 1)
    cx.label('busy %d' % len(busy))


def gen_threads(d):
    case = gen(d, d.int(2, 3))
    case['order'] = [d.int(0, 5) for _ in range(d.int(1, 12))]
    return case


def run_threads(case, cx):
    ops = case['ops']
    used = sorted(set(o[0] for o in ops))
    got = fresh(threads, case, ops, case['order'])
    for s, g in zip(used, got):
        check(g is not None, 'a thread did not come to its end', app=s)
        mine = [o for o in ops if o[0] == s]
        want = fresh(history, case, mine)
        for o, a, b in zip(mine, g[0], want[0]):
            for x in (a, b):
                check(not (isinstance(x, str) and x.startswith('VIOLATION')), str(x))
            same(a, b, 'an application in a thread beside others behaves '
                 'differently from alone', app=s, call=o[1])
        same(g[1], want[1], 'an application in a thread beside others ends '
             'differently from alone', app=s)
    cx.nontrivial(len(used) > 1)


def gen_file(d):
    def schema():
        return {'type': d.pick(['string', 'integer', 'object', 'number'])}

    steps = []
    for _ in range(d.int(2, 5)):
        steps.append({
            'version': d.pick(['2.0', '3.0.0']), 'title': d.pick(['a', 'b', 'c']),
            'local': schema(), 'other': schema(),
            'url': d.flag(1, 3), 'own': d.flag(1, 4)})
    return {'steps': steps, 'later': d.flag()}


def run_file(case, cx):
    """the same file, with another content each time"""
    # the same path for all cases
    top = os.path.join(tempfile.gettempdir(), 'c26-%d' % os.getpid())
    os.makedirs(top, exist_ok=True)
    try:
        made = []
        for n, st in enumerate(case['steps']):
            made.append(one_file(top, n, st))
            if not case['later']:
                look(made[-1], case['steps'][n], n)
        for n, (app, st) in enumerate(zip(made, case['steps'])):
            look(app, st, n)
    finally:
        for f in os.listdir(top):
            os.unlink(os.path.join(top, f))
        os.rmdir(top)
    cx.nontrivial(len({json.dumps([s['local'], s['other']]) for s in case['steps']}) > 1)


def one_file(top, n, st):
    from pyopenapi.migration.resolve import Resolver
    from core import sut
    defs = {'L': st['local'], 'R': {'$ref': 'other.json#/O'}}
    doc = {'info': {'title': st['title'], 'version': '1'}, 'paths': {}}
    if st['version'] == '2.0':
        doc.update(swagger='2.0', definitions=defs)
    else:
        doc.update(openapi='3.0.0', components={'schemas': defs})
    path = os.path.join(top, 'swagger.json')
    for name, content in ((path, doc), (os.path.join(top, 'other.json'), {'O': st['other']})):
        with open(name, 'w') as fh:
            json.dump(content, fh)
    url = 'file://' + path if st['url'] else path
    with sut('application %d' % n):
        app = A.App(url, resolver=Resolver() if st['own'] else None)
        app.raw = app.load_obj(url)
        app.root = app.migrate_obj(app.raw, url, '3.0.0')
    return app


def look(app, st, n):
    from core import sut
    from pyopenapi import utils
    with sut('application %d' % n):
        s = app.root.components.schemas
        got = [app.original_spec_version, app.root.info.title,
               s['L'].type, utils.deref(s['R']).type]
    same(got, [st['version'], st['title'], st['local']['type'], st['other']['type']],
         'an application has what another one loaded', app=n)


SUBS = [Sub('file', lambda: cases(gen_file), run_file, quick=400, thorough=6000),
        Sub('threads', lambda: cases(gen_threads), run_threads, quick=300, thorough=6000),
        Sub('two', lambda: cases(gen, 2), run, quick=600, thorough=16000),
        Sub('three', lambda: cases(gen, 3), run, quick=200, thorough=6000)]
