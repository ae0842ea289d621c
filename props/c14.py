# -*- coding: utf-8 -*-
from urllib.parse import unquote, urlsplit

from pbt import sut
from pbt.engine import Part, fail, check as ensure, outcome
from pbt.wire import Sent, client_with

RULE = ("media: declared consumes/produces on operation and document, a payload kind and the caller's choices; the announced media types "
        "or the refusal are compared with the reference rules. scheme: declared schemes, client schemes, preference and url options; the URL "
        "that reaches the transport is checked. Non-trivial: a choice or option is made, or a refusal is expected.")

CONS = ['application/json', 'text/json', 'text/plain', 'application/x-www-form-urlencoded', 'multipart/form-data', 'application/json; charset=utf-8',
        'application/xml']
PROD = ['application/json', 'text/plain', 'application/xml', 'image/png', 'application/json; charset=utf-8']
HAS_CODEC = ('application/json', 'text/json', 'text/plain')


def some(g, seq):
    return g.weighted([(2, None), (1, []), (5, g.sample(seq, 1, 3))])


def gen_media(g):
    return dict(payload=g.choice([None, 'body', 'body', 'form', 'file']), op_c=some(g, CONS), doc_c=some(g, CONS), op_p=some(g, PROD), doc_p=some(g, PROD),
                consume=g.choice(CONS) if g.bool(0.5) else None, produce=g.choice(PROD) if g.bool(0.5) else None,
                client=g.bool(0.4))


def check_media(case, cx):
    payload = case['payload']
    ps, args = [], {}
    if payload == 'body':
        ps, args = [dict(name='b', schema={'type': 'string'}, **{'in': 'body'})], dict(b='x')
    elif payload:
        ps, args = [dict(name='f', type='string', **{'in': 'formData'})], dict(f='x')
    if payload == 'file':
        import io
        ps.append(dict(name='u', type='file', **{'in': 'formData'}))
        args['u'] = dict(filename='n', data=io.BytesIO(b'1'))
    d = sut.one_op(ps, 'post')
    op = d['paths']['/op']['post']
    for o, k, v in ((op, 'consumes', case['op_c']), (d, 'consumes', case['doc_c']), (op, 'produces', case['op_p']), (d, 'produces', case['doc_p'])):
        if v is not None:
            o[k] = v
    req, resp = sut.app_of(d).op['op'](**args)
    if case['consume'] and payload in (None, 'body'):
        r = req.consume(case['consume'])
        ensure(r is req, 'consume() is no fluent call')
    if case['produce']:
        r = req.produce(case['produce'])
        ensure(r is req, 'produce() is no fluent call')
    cons = case['op_c'] or case['doc_c'] or []
    prods = case['op_p'] or case['doc_p'] or []
    ct, refuse = None, False
    if payload == 'body':
        ct = case['consume'] or (cons[0] if cons else 'application/json')
        refuse = bool(cons and ct not in cons)
        if not refuse and ct.split(';')[0] not in HAS_CODEC:
            refuse = True
    elif payload == 'form':
        ct = 'application/x-www-form-urlencoded'
        refuse = bool(cons and ct not in cons)
    elif payload == 'file':
        ct = 'multipart/form-data'
        refuse = bool(cons and ct not in cons)
    accept = case['produce'] or (prods[0] if prods else None)
    if prods and accept not in prods:
        refuse = True
    if case.get('client'):
        # sent, the choices are kept
        def go():
            with Sent() as sent:
                client_with(['http']).request((req, resp))
            ensure(len(sent.requests) == 1, 'requests sent')
        got = outcome(go)
        cx.label('by a client')
    else:
        got = outcome(lambda: req.prepare())
    cx.label('refuse' if refuse else 'send', payload or 'none')
    cx.nontrivial(refuse or case['consume'] or case['produce'] or len(cons) > 1 or len(prods) > 1)
    if refuse:
        ensure(got[0] == 'raise', 'prepared although %r/%r are not declared (consumes %r, produces %r)' % (ct, accept, cons, prods))
        return
    ensure(got[0] == 'ok', 'refused: %r' % (got,))
    h = dict((k.lower(), v) for k, v in req.header.items())
    gct = h.pop('content-type', None)
    ensure(h.pop('accept', None) == accept, 'Accept %r, expected %r' % (req.header.get('Accept'), accept))
    if payload == 'file' and case.get('client'):
        gct = 'multipart/form-data'     # the boundary is up to the client
    if payload == 'file':
        ensure((gct or '').split(';')[0] == ct, 'content type %r' % gct)
    else:
        ensure(gct == ct, 'content type %r, expected %r' % (gct, ct))
    ensure(not h, 'other headers %r' % h)


SCH = ['http', 'https', 'ws', 'wss']


def gen_scheme(g):
    opt = {}
    if g.bool(0.4):
        opt['url_netloc'] = g.choice(['localhost:9001', 'other.test', '127.0.0.1:80', 'u@h.test'])
    if g.bool(0.3):
        opt['url_scheme'] = g.choice(['http', 'https', 'ws'])
    return dict(op=g.weighted([(2, None), (1, []), (3, g.sample(SCH, 1, 3))]), doc=g.weighted([(2, None), (1, []), (3, g.sample(SCH, 1, 3))]),
                url=g.choice(['http', 'https']), client=g.sample(SCH, 1, 3), prefer=g.choice(SCH) if g.bool(0.5) else None, opt=opt,
                path=g.choice(['/op', '/a b', '/a/b/', '/a;x=1']), host=g.choice([None, 'api.test', 'api.test:8080']), times=g.int(1, 2),
                tmpl=g.choice(['/op/{p}', '/op/{p}/', '/{p}', '/op;v=1/{p}', '/op/{p};w', '/op//{p}.json']), base=g.choice(['/v1', None, '', '/', '/v1/']))


def check_scheme(case, cx):
    d = sut.one_op([dict(name='q', type='string', **{'in': 'query'})], 'get', case['tmpl'])
    item = d['paths'][case['tmpl']]['get']
    item['parameters'].append(dict(name='p', required=True, type='string', **{'in': 'path'}))
    item.update({} if case['op'] is None else dict(schemes=case['op']))
    d.update({} if case['doc'] is None else dict(schemes=case['doc']))
    d.pop('host')
    d.pop('basePath')
    if case['base'] is not None:
        d['basePath'] = case['base']
    if case['host']:
        d['host'] = case['host']
    url = '%s://doc.test/api/swagger.json' % case['url']
    app = sut.app_of(d, url=url)
    eff = case['op'] or case['doc'] or [case['url']]
    avail = set(eff) & set(case['client'])
    refuse = not avail or (case['prefer'] and case['prefer'] not in avail)
    req, resp = app.op['op'](p=case['path'], q='1 &')
    if case['prefer']:
        req.scheme = case['prefer']
    cx.label('refuse' if refuse else 'send', *case['opt'])
    cx.nontrivial(refuse or case['prefer'] or case['opt'] or len(avail) > 1)
    with Sent() as sent:
        for _ in range(case['times']):
            got = outcome(lambda: client_with(case['client']).request((req, resp), opt=dict(case['opt'])))
            if refuse:
                ensure(got[0] == 'raise' and not sent.requests, 'sent %r though schemes are %r, client %r, preferred %r' % (
                    [r.url for r in sent.requests], eff, case['client'], case['prefer']))
                continue
            ensure(got[0] == 'ok', 'refused: %r (schemes %r, client %r, preferred %r)' % (got, eff, case['client'], case['prefer']))
            # requests encodes URLs of the schemes it knows only
            u = urlsplit(req.url)
            if 'url_scheme' in case['opt']:
                ensure(u.scheme == case['opt']['url_scheme'], 'url %r' % req.url)
            else:
                ensure(u.scheme == case['prefer'] if case['prefer'] else u.scheme in avail, 'url %r, available %r, preferred %r' % (req.url, avail, case['prefer']))
            ensure(u.netloc == case['opt'].get('url_netloc', case['host'] or 'doc.test'), 'url %r' % req.url)
            want = (case['base'] or '') + case['tmpl']
            ensure(u.path.count('/') == want.count('/') and unquote(u.path) == want.replace('{p}', case['path']) and not u.query and not u.fragment, 'url %r' % req.url)
            ensure(sent.last.url.split('?')[0] == req.url, 'transport got %r for %r' % (sent.last.url, req.url))


PARTS = [Part('media', gen_media, check_media, 8000), Part('scheme', gen_scheme, check_scheme, 5000)]
