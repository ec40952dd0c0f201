import os
import posixpath
import re
from urllib.parse import urljoin, urlsplit, unquote

from core import Sub, check, same, sut, must_raise
from gen import cases, enc, name

RULE = ('Base URLs (http, https, file and other schemes; ports, one to four folders, several '
        'extensions) and references (fragment only, sibling, sub-folder, '
        'parent folders beyond the root, "./", absolute path, absolute URL), '
        'with and without JSON pointers of odd tokens; the expected result is '
        'RFC 3986 resolution as the standard library does it. Non-trivial '
        'when the reference leaves the folder of the base or has a pointer.')
ASSUMPTIONS = ['network-path references ("//host/x"), bases with a query and '
               'references ending in a dot segment are not generated (a query on an absolute URL is, when it is split)']

FOLDERS = ['api', 'v1', 'a.b', 'x-y', 'json', 'swagger', 'sub dir', u'\u00e9t\u00e9',
           'definitions', 'v1.json', '.shared', 'a.', '..b', 'c..d',
           '...b', '....v1', 'a%20b', 'a+b', "it's", '(x)', '@v', '~u', 'a&b=c', 'a;b', ';v=1', '$r']
# not at the beginning of a relative reference
LATER = FOLDERS + ['a:b', 'c:', 'http:']
FILES = ['swagger.json', 'User.json', 'user.yaml', 'a.yml', 'b', 'api.v2.json', 'x;v=1', 'a;b.json', 'b.json;v=2',
         'Pet', 'swagger.yaml', 'json', 'yaml.json', '.pet.json', 'a..b.json', '...pet.json',
         'a.yml.json', 'b.json.yaml', 'x.JSON', 'yml', 'pet.xml']


def folders(d, hi=3, of=FOLDERS):
    return [d.pick(of) for _ in range(d.int(0, hi))]


def base_url(d):
    root = d.pick(['http://test.com', 'https://localhost:8080', 'file://',
                   'http://a', 'https://user@h.com', 'http://[::1]:8080',
                   'ftp://files.h', 's3://bucket', 'mem:', 'a+b-c.d://h', 's://bucket', 'x:'])
    return '/'.join([root] + folders(d, of=LATER) + [d.pick(FILES)])


def pointer(d):
    return ''.join('/' + enc(name(d)) for _ in range(d.int(1, 3)))


def relref(d):
    k = d.int(0, 5)
    if k == 0:
        return ''
    segs = []
    if k == 5:
        return '/' + '/'.join(folders(d) + [d.pick(FILES)])
    for _ in range(d.int(0, 4)):
        segs.append(d.pick((['..', 'a:b'] if segs else []) + ['..', '.', 'sub', 'api', 'a.b', '..', '.shared', 'x.', '..b', '...b', '....c']))
    return '/'.join(segs + [d.pick(FILES)])


def g_norm(d):
    frag = d.pick([None, '', 'ptr', 'ptr', 'ptr'])
    ref = base_url(d) if d.flag(1, 5) else relref(d)
    if frag == 'ptr':
        ref += '#' + pointer(d)
    elif frag == '' or not ref:
        ref += '#'
    return {'url': base_url(d), 'ref': ref}


def resolved(url, part):
    """RFC 3986 resolution, the standard library only does it for some schemes"""
    if re.match(r'[a-z][a-z0-9+.-]*:', part):
        return part
    scheme, _, rest = url.partition(':')
    if rest.startswith('//'):
        return scheme + urljoin('http:' + rest, part)[len('http'):]
    return scheme + ':' + urljoin('http://h' + rest, part)[len('http://h'):]


def r_norm(c, cx):
    from pyopenapi.utils import normalize_jr, jr_split
    url, ref = c['url'], c['ref']
    part, _, frag = ref.partition('#')
    cx.nontrivial('..' in part or frag or ':' in part)
    target = resolved(url, part) if part else url
    want = target + ('#' + frag if frag else '')
    with sut('normalize_jr'):
        got = normalize_jr(ref, url)
        again = normalize_jr(got, url)
        other = normalize_jr(got, 'http://elsewhere/x/y.json')
        none = normalize_jr(None, url)
    same(got, want, 'reference resolved to something else', url=url, ref=ref)
    same(again, got, 'normalizing twice', url=url, ref=ref)
    same(other, got, 'an absolute reference depends on the base')
    check(none is None, 'nothing normalizes to something')
    with sut('jr_split'):
        u, p = jr_split(got)
    same([u, p], [target, '#' + frag], 'split of an absolute reference',
         ref=got)
    if not part:
        with sut('normalize_jr without base'):
            lone = normalize_jr(ref)
        same(lone, '#' + frag, 'a local reference without base', ref=ref)


def g_split(d):
    kind = d.pick(['url', 'path', 'relpath', 'local'])
    if kind == 'url':
        u = base_url(d)
    elif kind == 'path':
        u = '/' + '/'.join(folders(d, of=LATER) + [d.pick(FILES)])
    elif kind == 'relpath':
        u = '/'.join(folders(d, 2) + [d.pick(FILES)])
    else:
        u = ''
    if kind == 'url' and u.startswith('http') and d.flag(1, 3):
        u += d.pick(['?version=2', '?a=b&c=d', '?path=/x/../y.json'])
    return {'kind': kind, 'url': u, 'frag': pointer(d) if d.flag(2, 3) else ''}


def r_split(c, cx):
    from pyopenapi.utils import jr_split, normalize_url
    url, frag, kind = c['url'], c['frag'], c['kind']
    cx.nontrivial(frag)
    cx.label(kind)
    with sut('jr_split'):
        u, p = jr_split(url + ('#' + frag if frag else ''))
        hashed = jr_split(url + '#' + frag)
    same(p, '#' + frag, 'pointer part', url=url)
    same(list(hashed), [u, p], 'an empty fragment makes a difference')
    if kind in ('url', 'local'):
        same(u, url, 'url part')
    else:
        check(u.startswith('file:///'), 'a path becomes a file url', got=u)
        same(unquote(urlsplit(u).path), os.path.abspath(url), 'path in the url')
    with sut('normalize_url'):
        n = normalize_url(url)
        same(n, u, 'normalize_url and jr_split disagree')
        same(normalize_url(n), n, 'normalize_url twice')
    with sut('jr_split'):
        same(list(jr_split(u + p)), [u, p], 'splitting the joined parts')


def g_join(d):
    root = d.pick(['http://test.com', 'https://localhost:8080', 'file://', 'http://a'])
    fs = folders(d)
    return {'root': root, 'folders': fs, 'slash': d.flag(), 'file': d.pick(FILES),
            'lead': d.flag(1, 3), 'query': d.pick(['', '', '?a=b'])}


def r_join(c, cx):
    from pyopenapi.utils import url_join, url_dirname
    path = ''.join('/' + x for x in c['folders'])
    cx.nontrivial(c['folders'])
    base = c['root'] + path + ('/' if c['slash'] else '')
    q = c['query']
    want = c['root'] + path + '/' + c['file'] + q
    with sut('url_join'):
        got = url_join(base + q, ('/' if c['lead'] else '') + c['file'])
    same(got, want, 'url_join', base=base + q, name=c['file'])
    with sut('url_dirname'):
        dn = url_dirname(want)
    if c['file'].rsplit('.', 1)[-1] in ('json', 'yaml', 'yml') and '.' in c['file']:
        w = urlsplit(c['root'] + path + q)
        g_ = urlsplit(dn)
        same([g_.scheme, g_.netloc, g_.path.rstrip('/'), g_.query],
             [w.scheme, w.netloc, w.path.rstrip('/'), w.query],
             'folder of a document', url=want)
        if not q:
            with sut('url_join'):
                same(url_join(dn, c['file']), want, 'dirname then join')
    else:
        same(dn, want, 'something that is not a document has no folder')


def g_rel(d):
    segs = [d.pick(['..', '.', 'a', 'b.json', 'api', '..', '.a', '..a', 'a..', '...a', 'a...', '...a...'])
            for _ in range(d.int(0, 7))]
    return {'root': d.pick(['http://h', 'https://h:1', 'file://']),
            'segs': segs + [d.pick(FILES)]}


def r_rel(c, cx):
    from pyopenapi.utils import derelativise_url
    cx.nontrivial('..' in c['segs'])
    url = c['root'] + '/' + '/'.join(c['segs'])
    want = c['root'] + posixpath.normpath('/' + '/'.join(c['segs']))
    with sut('derelativise_url'):
        got = derelativise_url(url)
        same(got, want, 'dot segments', url=url)
        same(derelativise_url(got), got, 'dot segments removed twice')


EXT = ('.json', '.yaml', '.yml')


def ext(path):
    e = os.path.splitext(path)[1]
    return e if e in EXT else ''


def g_patch(d):
    return {'base': '/' + '/'.join(folders(d, of=LATER) + ([d.pick(FILES)] if d.flag() else [])),
            'path': '/' + '/'.join(folders(d, of=LATER) + [d.pick(FILES)])}


def r_patch(c, cx):
    from pyopenapi.utils import patch_path, path2url, normalize_url
    base, path = c['base'], c['path']
    cx.nontrivial(ext(base) != ext(path))
    with sut('patch_path'):
        got = patch_path(base, path)
        again = patch_path(base, got)
    same(got[:len(path)], path, 'the path is kept', base=base)
    check(got[len(path):] in ('', ) + EXT, 'only an extension is added', got=got, base=base)
    check(ext(got), 'the path of a document has an extension', got=got, base=base)
    if ext(base):
        same(ext(got), ext(base), 'the extension of the base', path=path)
    elif ext(path):
        same(got, path, 'it has an extension already', base=base)
    else:
        same(got, path + '.json', 'the default extension', base=base)
    same(again, got, 'patching twice')
    with sut('path2url'):
        u = path2url(path)
    check(u.startswith('file:///') and not set(u) & set(' #?'), 'a file url', got=u)
    same(unquote(urlsplit(u).path), path, 'the path of the file url')
    with sut('normalize_url'):
        same(normalize_url(path), u, 'the url of a path')
    for bad in ('?a=b', '//h' + urlsplit(u).path):
        must_raise('neither a path nor a url: %s' % bad, lambda: normalize_url(bad))


SUBS = [
    Sub('normalize_jr', lambda: cases(g_norm), r_norm, 12000, 200000),
    Sub('jr_split', lambda: cases(g_split), r_split, 8000, 120000),
    Sub('url_join_dirname', lambda: cases(g_join), r_join, 6000, 80000),
    Sub('patch', lambda: cases(g_patch), r_patch, 4000, 60000),
    Sub('derelativise', lambda: cases(g_rel), r_rel, 6000, 80000),
]
