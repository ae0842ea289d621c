# -*- coding: utf-8 -*-
"""Access to the code under test, through its public API only."""
import json

from pyswagger import App
from pyswagger.getter import SimpleGetter
from pyswagger.resolve import Resolver

URL = 'http://doc.test/api/swagger.json'


def getter_of(docs, log=None):
    """a getter class serving url -> dict/text from memory"""
    def load(url):
        if log is not None:
            log.append(url)
        d = docs[url]
        return d if isinstance(d, (str, bytes)) else json.dumps(d)

    class Mem(SimpleGetter):
        __simple_getter_callback__ = load
    return Mem


def load(docs, url=URL, log=None, **kw):
    if 'swagger' in docs or 'swaggerVersion' in docs:
        docs = {url: docs}
    kw.setdefault('resolver', Resolver(default_getter=getter_of(docs, log)))
    return App.load(url, **kw)


def app_of(docs, url=URL, strict=True, log=None, **kw):
    a = load(docs, url, log, **kw)
    a.prepare(strict=strict)
    return a


def doc_with(paths=None, **kw):
    d = dict(swagger='2.0', info=dict(title='t', version='1'), host='api.test', basePath='/v1', paths=paths or {})
    d.update(kw)
    return d


def one_op(params, method='get', path='/op', consumes=None, produces=None, definitions=None, responses=None, **kw):
    """a document with a single operation"""
    op = dict(operationId='op', parameters=params, responses=responses or {'200': {'description': 'ok'}})
    if consumes is not None:
        op['consumes'] = consumes
    if produces is not None:
        op['produces'] = produces
    op.update(kw)
    d = doc_with({path: {method: op}})
    if definitions:
        d['definitions'] = definitions
    return d


def plain(p):
    """the JSON form of a produced value"""
    if isinstance(p, dict):
        return dict((k, plain(v)) for k, v in p.items())
    if isinstance(p, (list, tuple)):
        return [plain(v) for v in p]
    if hasattr(p, 'to_json'):
        return p.to_json()
    return p
