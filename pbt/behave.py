# -*- coding: utf-8 -*-
"""What an application does with a list of calls, in plain comparable form."""
import json

from . import ops, sut
from .engine import outcome


def jp(*ts):
    return '/'.join(t.replace('~', '~0').replace('/', '~1') for t in ts)


def find(app, path, method, prefix='#/paths/'):
    return getattr(app.resolve(prefix + jp(path)), method)


def request_plain(req, tmp=None):
    """a prepared request; multipart payloads are given unencoded"""
    return dict(method=req.method, url=req.url, path=req.path, base=req.base_path, query=[list(x) for x in req.query],
                header=dict((k.lower(), v) for k, v in req.header.items()), data=repr(sut.plain(req.data)), body=sut.plain(req._p['body']),
                files=sorted((k, repr(f.filename)) for k, v in req.files.items() for f in (v if isinstance(v, list) else [v])),
                schemes=list(req.schemes), security=plain_security(req._security))


def plain_security(s):
    """scopes play no role in requests"""
    return None if not s else [sorted(x) for x in s]


def response_plain(r):
    return dict(status=r.status, raw=r.raw, data=sut.plain(r.data), header=dict((k.lower(), sut.plain(v)) for k, v in r.header.items()))


def one(op, c, tmp=None):
    """outcome of a call and of its response"""
    out = {}
    made = outcome(lambda: op(**dict((k, ops.materialise(v, tmp)) for k, v in c['args'].items())))
    if made[0] != 'ok':
        out['made'] = made[:2]
        made = None
    else:
        req, resp = made[1]

        def go():
            if c.get('consume'):
                req.consume(c['consume'])
            req.prepare(scheme='http', handle_files=False)
            return request_plain(req)
        out['request'] = short(outcome(go))
    if c.get('resp'):
        from pyswagger.io import Response
        resp = made[1][1] if made else Response(op)
        r = c['resp']

        def give():
            resp.apply_with(status=r['status'], header=r['headers'])
            if r['body'] is not None:
                resp.apply_with(raw=json.dumps(r['body']))
            return response_plain(resp)
        out['response'] = short(outcome(give))
    return out


def short(o):
    return list(o) if o[0] == 'ok' else list(o[:2])


def all_calls(app, calls, tmp=None, prefix='#/paths/'):
    return [one(find(app, c['path'], c['method'], prefix), c, tmp) for c in calls]
