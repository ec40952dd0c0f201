"""Thin driver around the code under test: an ApiBase subclass whose documents
come from memory.  Only API that the library's own documentation and tests use."""
import json

from pyopenapi import utils, consts
from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi.migration.resolve import Resolver


class App(ApiBase):
    def __init__(self, url, url_load_hook=None, resolver=None,
                 sep=consts.SCOPE_SEPARATOR):
        super(App, self).__init__(
            url, url_load_hook=url_load_hook, resolver=resolver, sep=sep)
        self.raw = None
        self.root = None
        self.prepared = []

    def prepare_obj(self, obj, jref):
        self.prepared.append(jref)
        return obj


def mem_resolver(docs, loads=None, hook=None):
    """Resolver serving {url: doc} from memory; doc is a JSON value or a str.
    `loads` (a list) collects every URL that is fetched, in order."""

    class MemGetter(SimpleGetter):
        def load(self, path):
            if loads is not None:
                loads.append(path)
            if path not in docs:
                raise IOError('no such document: %s' % path)
            doc = docs[path]
            if isinstance(doc, str):
                return doc
            return json.dumps(doc)

    return Resolver(url_load_hook=hook, default_getter=MemGetter)


def load_app(docs, url, loads=None, sep=consts.SCOPE_SEPARATOR, resolver=None):
    app = App(url, resolver=resolver or mem_resolver(docs, loads), sep=sep)
    app.raw = app.load_obj(url)
    return app


def create_app(docs, url, version, loads=None, sep=consts.SCOPE_SEPARATOR,
               resolver=None):
    app = load_app(docs, url, loads, sep, resolver)
    app.root = app.migrate_obj(app.raw, url, version)
    return app
