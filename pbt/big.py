"""Makes something in a generated document set big: long lists and maps, deep
nesting, long chains of references.  Ten and more matter: '1' and '10' share a
prefix, and sort otherwise than 1 and 10."""
import json
import re

import gen2
import tables
from gen import walk

N = 12


def count(d):
    return d.pick([N, 11, 10, 24])


def chain(d, docs, places, cls, last):
    """named objects, each a reference to the next one, over the documents in
    `places`: {url: path of the map}; the reference to the first, absolute"""
    urls = sorted(places)
    n = count(d)
    name = d.pick(['n%d', '%d', 'Pet%d', '%d~1'])
    used = set()
    for u in urls:
        at = docs[u]
        for t in places[u]:
            at = at.get(t) or {}
        used.update(at)
    if used & {name % i for i in range(n)}:
        # something else might be referred to in there
        name = 'chained%d'
    us = [d.pick(urls) for _ in range(n)]
    for i in range(n):
        at = docs[us[i]]
        for t in places[us[i]]:
            at = at.setdefault(t, {})
        if i == n - 1:
            at[name % i] = last
        else:
            at[name % i] = {'$ref': gen2.spell(
                d, us[i], us[i + 1], places[us[i + 1]] + (name % (i + 1), ))}
    return us[0], places[us[0]] + (name % 0, )


def fixed(docs):
    """whether something refers to a parameter by its index"""
    return re.search(r'[$]ref": "[^"]*/parameters/[0-9]', json.dumps(docs))


def deep(d, kinds):
    """a schema in a schema in a schema"""
    out = {'type': 'integer', 'title': 'innermost'}
    for i in range(d.pick([15, 16, 30])):
        k = d.pick(kinds)
        t = {'title': str(i)}
        if k in ('allOf', 'oneOf', 'anyOf'):
            t[k] = [out]
        elif k == 'properties':
            t[k] = {'p': out}
        else:
            t[k] = out
        out = t
    return out


def schemas(docs, typed):
    return [(u, v) for u in sorted(docs) for _, ty, v in typed(u)
            if ty == ('o', 'Schema') and '$ref' not in v]


def schema(d, sch, v, url, target, kinds):
    k = d.int(0, 3)
    if k == 0:
        ps = v.setdefault('properties', {})
        for i in range(count(d)):
            ps['p%d' % i] = {'title': str(i)}
        v['required'] = list(v.get('required') or []) + ['p%d' % i for i in range(N)]
        if target:
            ps['p%d' % d.int(0, 9)] = {'$ref': gen2.spell(d, url, *target)}
    elif k == 1:
        f = d.pick([x for x in kinds if x.endswith('Of')])
        v[f] = list(v.get(f) or []) + [{'title': str(i)} for i in range(count(d))]
        if target:
            v[f][-2] = {'$ref': gen2.spell(d, url, *target)}
    elif k == 2:
        v.setdefault('properties', {})['deep'] = deep(d, kinds)
    else:
        v['enum'] = list(range(count(d)))


def two(d, case, refs=True):
    docs, root = case['docs'], case['root']

    def typed(u):
        ty = ('o', 'Swagger') if not (u != root and ('type' in docs[u] or 'title' in docs[u])) \
            else ('o', 'Schema')
        return walk(tables.V20, ty, docs[u])

    part = [u for u in docs if u == root or isinstance(docs[u].get('definitions'), dict)]
    kinds = ['allOf', 'items', 'properties', 'additionalProperties']
    k = d.pick(['schema', 'schema', 'params', 'shared', 'chain', 'responses', 'paths', 'lists'])
    ops = [(u, v) for u in sorted(docs) for _, ty, v in typed(u) if ty == ('o', 'Operation')]
    items = [(u, v) for u in sorted(docs) for _, ty, v in typed(u) if ty == ('o', 'PathItem')]
    if k == 'schema':
        target = None
        if refs and d.flag():
            target = chain(d, docs, {u: ('definitions', ) for u in part}, 'Schema', {'type': 'object'})
        ss = schemas(docs, typed)
        if ss:
            u, v = d.pick(ss)
            schema(d, None, v, u, target, kinds)
    elif k in ('params', 'shared') and (ops if k == 'params' else items):
        u, v = d.pick(ops if k == 'params' else items)
        new = [{'in': d.pick(['query', 'header']), 'name': 'q%d' % i, 'type': 'string'}
               for i in range(count(d))]
        old = v.get('parameters') or []
        v['parameters'] = new + old if d.flag() and not fixed(docs) else old + new
    elif k == 'chain' and refs and ops and len(part) > 1:
        # those named in the root document are no references
        part.remove(root)
        kind = d.pick(['parameters', 'responses'])
        last = {'in': 'query', 'name': 'chained', 'type': 'integer'} \
            if kind == 'parameters' else {'description': 'chained', 'schema': {'type': 'integer'}}
        u, v = d.pick(ops)
        ref = {'$ref': gen2.spell(d, u, *chain(d, docs, {x: (kind, ) for x in part}, kind, last))}
        if kind == 'parameters':
            v.setdefault('parameters', []).append(ref)
        else:
            v.setdefault('responses', {})['599'] = ref
    elif k == 'responses' and ops:
        u, v = d.pick(ops)
        for i in range(count(d)):
            v.setdefault('responses', {}).setdefault(str(200 + i), {'description': str(i)})
    elif k == 'paths':
        for i in range(count(d)):
            docs[root]['paths'].setdefault('/n%d' % i, {
                'get': {'responses': {'200': {'description': str(i)}}}})
    else:
        doc = docs[root]
        doc['tags'] = (doc.get('tags') or []) + [{'name': 't%d' % i} for i in range(count(d))]
        for u, v in ops[:1]:
            v['tags'] = ['t%d' % i for i in range(N)]
            v['produces'] = ['application/x%d' % i for i in range(N)]
    return case


def three(d, case, typed, refs=True):
    docs, root = case['docs'], case['root']
    part = [u for u in docs if u == root or 'components' in docs[u]]
    kinds = ['allOf', 'oneOf', 'anyOf', 'not', 'items', 'properties', 'additionalProperties']
    k = d.pick(['schema', 'schema', 'params', 'chain', 'chain', 'paths', 'lists'])
    ops = [(u, v) for u in sorted(docs) for _, ty, v in typed(u) if ty == ('o', 'Operation')]
    if k == 'schema':
        target = None
        if refs and d.flag():
            target = chain(d, docs, {u: ('components', 'schemas') for u in part},
                           'Schema', {'type': 'object'})
        ss = schemas(docs, typed)
        if ss:
            u, v = d.pick(ss)
            schema(d, None, v, u, target, kinds)
    elif k == 'params' and ops:
        u, v = d.pick(ops)
        old = v.get('parameters') or []
        new = [{'in': 'query', 'name': 'q%d' % i} for i in range(count(d))]
        v['parameters'] = old + new
    elif k == 'chain' and refs and ops:
        what = d.pick(['parameters', 'responses', 'requestBodies', 'callbacks'])
        last = {'parameters': {'in': 'query', 'name': 'chained'},
                'responses': {'description': 'chained'},
                'requestBodies': {'content': {}},
                'callbacks': {'/x': {'summary': 'chained'}}}[what]
        u, v = d.pick(ops)
        ref = {'$ref': gen2.spell(d, u, *chain(
            d, docs, {x: ('components', what) for x in part}, what, last))}
        if what == 'parameters':
            v.setdefault('parameters', []).append(ref)
        elif what == 'requestBodies':
            # unless something refers to a part of one
            if 'requestBody/' not in json.dumps(docs):
                v['requestBody'] = ref
        else:
            v.setdefault(what, {})['599'] = ref
    elif k == 'paths':
        for i in range(count(d)):
            docs[root]['paths'].setdefault('/n%d' % i, {
                'get': {'responses': {'200': {'description': str(i)}}}})
    else:
        doc = docs[root]
        doc['tags'] = (doc.get('tags') or []) + [{'name': 't%d' % i} for i in range(count(d))]
        doc['servers'] = (doc.get('servers') or []) + [
            {'url': 'http://h%d' % i} for i in range(count(d))]
        for u, v in ops[:1]:
            v['tags'] = ['t%d' % i for i in range(N)]
            v['security'] = [{'s%d' % i: []} for i in range(N)]
    return case


def one(d, case):
    """Swagger 1.2: the declarations"""
    urls = [u for u in sorted(case['docs']) if u != case['root']]
    if not urls:
        return case
    u = d.pick(urls)
    doc = case['docs'][u]
    i = urls.index(u)
    ops = [o for a in doc.get('apis') or [] for o in a.get('operations') or []]
    ms = doc.get('models') or {}
    k = d.pick(['paths', 'params', 'models', 'props', 'scopes', 'subs'])
    if k == 'params' and ops:
        o = d.pick(ops)
        new = [{'paramType': 'query', 'name': 'q%d' % j, 'type': 'string'}
               for j in range(count(d))]
        old = o.get('parameters') or []
        o['parameters'] = new + old if d.flag() else old + new
    elif k == 'models' or (k == 'subs' and not ms):
        for j in range(count(d)):
            n = 'N%d_%d' % (i, j)
            doc.setdefault('models', {})[n] = {'id': n, 'properties': {
                'next': {'$ref': 'N%d_%d' % (i, max(j - 1, 0))}}}
    elif k == 'props' and ms:
        m = ms[d.pick(sorted(ms))]
        for j in range(count(d)):
            m.setdefault('properties', {})['p%d' % j] = {'type': 'string', 'description': str(j)}
        m['required'] = list(m.get('required') or []) + ['p%d' % j for j in range(N)]
    elif k == 'subs':
        # a long line of heirs
        n = count(d)
        for j in range(n):
            m = {'id': 'S%d_%d' % (i, j), 'properties': {}}
            if j < n - 1:
                m['subTypes'] = ['S%d_%d' % (i, j + 1)]
            ms[m['id']] = m
    elif k == 'scopes' and ops:
        d.pick(ops)['authorizations'] = {'a': [{'scope': 's%d' % j} for j in range(N)]}
    else:
        for j in range(count(d)):
            doc['apis'].append({'path': '/n%d/%d' % (i, j), 'operations': [
                {'method': 'GET', 'nickname': 'n%d' % j, 'type': 'void', 'parameters': []}]})
    return case
