# -*- coding: utf-8 -*-
import copy
import itertools
import json
import re
from urllib.parse import urlsplit

from pyswagger import Security
from pyswagger.core import BaseClient

from pbt import sut, ops, values, multipart, clients
from pbt.clients import norm
from pbt.engine import Part, fail, eq, outcome, check as ensure
from pbt.gen import LETTERS, WORD

RULE = ("deliver: an operation with parameters at every place, arguments for them, caller headers in every documented form, authorizations and a scripted answer; "
        "it is sent with each of the three clients to a server that records what arrives (raw HTTP over loopback, WSGI for Flask). What arrives is compared with "
        "the prepared request, what is returned with the answer read by the operation's declaration. in_flight: 2-5 calls of one "
        "operation are sent at the same time by the Tornado client (one for all or one each) and answered in a chosen order; each must arrive whole and get its own "
        "answer. compose: compose_headers as a client of one's own uses it, several times for one request; nothing is lost, and neither the request's nor the caller's "
        "headers change. Non-trivial: payload, caller headers or a declared answer; several calls; headers of both sides.")
ASSUMPTIONS = ["names and values of headers are ASCII", "repeated caller headers without joining are only kept by the Tornado client (existing tests ask the others for the last one)",
               "the webapp2 client is for Python 2 only and can not be run here", "no path segment is '.' or '..'", "redirections with a Location are not part of it",
               "the requests and Flask clients encode multipart payloads themselves, their names of fields and files are plain"]

HVAL = WORD[:20] + u' .;=/%&()'


def htext(g, lo=0):
    return (g.text(HVAL, lo, 8) or (u'v' if lo else u'')).strip() or (u'v' if lo else u'')


FIELD = LETTERS[:5] + u'_-.[]'


def arguments_for(g, ps):
    args = ops.arguments(g, ps)
    for p in ps:
        n = p['name']
        if n not in args:
            continue
        if p['in'] == 'header' and p.get('type') == 'string' and values.kind(p) in ('str', 'byte'):
            args[n] = htext(g)
        if p['in'] == 'path' and args[n] in (u'.', u'..', b'.', b'..', u''):
            args[n] = u'v' if values.kind(p) in ('str', 'byte') else args[n]
        if ops.is_file(p):
            for f in args[n] if isinstance(args[n], list) else [args[n]]:
                f['filename'] = u'' if f['__file__'] != 'disk' and g.bool(0.15) else u'f' + g.text(LETTERS[:4] + u'._-', 0, 4)
    return args


def gen(g):
    ps, path, payload = ops.operation(g)
    used = set(p['name'] for p in ps)
    for p in ps:
        if p['in'] == 'header' and p.get('type') == 'string':
            p.pop('default', None)
        if p['in'] == 'formData':
            p['name'] = ops.name(g, used, FIELD)
            p.pop('default', None)
    args = arguments_for(g, ps)
    method = g.choice(['post', 'put', 'patch', 'delete'] if payload else ['get', 'get', 'post', 'put', 'delete', 'head', 'options', 'patch'])
    own = [p['name'] for p in ps if p['in'] == 'header']
    hk = g.weighted([(3, None), (2, 'dict'), (3, 'list')])
    join = g.bool(0.35)
    headers = None
    if hk:
        names = [u'X-One', u'X-Two', u'x-three', u'Accept-Language', u'If-Match'] + ([u'x-one', u'X-TWO'] if hk == 'list' else [])
        hs = []
        for _ in range(g.int(0, 4)):
            n = g.choice(names)
            hs.append((n, htext(g, 1)))
        if own and join and g.bool():
            hs.append((g.choice([own[0], own[0].upper()]), htext(g, 1)))
        headers = hs
    secs = g.weighted([(3, None), (1, 'header'), (1, 'query'), (1, 'basic')])
    decls, answer = gen_answer(g)
    which = g.sample(['requests', 'flask', 'tornado'], 1, 3) if g.bool(0.5) else ['requests', 'flask', 'tornado']
    stay = g.bool(0.1)
    if stay:
        # a redirection is an answer for those that don't follow it
        answer['status'] = g.choice([301, 302, 303, 307, 308])
        answer['headers'].append((u'Location', g.choice([u'/else', u'http://127.0.0.1:9/x', u'op'])))
        which = [w for w in which if w != 'tornado'] or ['requests']
    return dict(params=ps, path=path, payload=payload, args=args, method=method, hk=hk, headers=headers, join=join, sec=secs, decls=decls, answer=answer,
                scheme=g.choice([None, 'http', 'https']), produces=g.choice([None, ['application/json'], ['text/plain', 'application/json']]),
                clients=which, again=g.bool(0.3), stay=stay)


HN = [u'X-N', u'x-text', u'X-List', u'Etag', u'X-Day']


def gen_answer(g):
    decls = {}
    for c in g.sample(['200', '404', 'default'], 1, 3):
        d = {'description': c}
        if g.bool(0.7):
            d['schema'] = g.choice([{'type': 'integer'}, {'type': 'string'}, {'type': 'object', 'properties': {'a': {'type': 'string', 'format': 'date'}}},
                                    {'type': 'array', 'items': {'type': 'boolean'}}])
        hs = dict((n, {u'X-N': {'type': 'integer'}, u'x-text': {'type': 'string'}, u'X-List': {'type': 'array', 'items': {'type': 'integer'}},
                       u'Etag': {'type': 'string'}, u'X-Day': {'type': 'string', 'format': 'date'}}[n]) for n in g.subset(HN, 0.4))
        if hs:
            d['headers'] = hs
        decls[c] = d
    return decls, answer_for(g, decls)


def answer_for(g, decls):
    status = g.weighted([(5, 200), (2, 404), (1, 201), (1, 204), (1, 500), (1, 418), (1, 302), (1, 400), (0.5, 304), (1, 503)])
    s = decls.get(str(status), decls.get('default', {})).get('schema')
    v = {'integer': 7, 'string': u'\u00e9x', 'object': {'a': '2011-02-03', 'b': [1]}, 'array': [True, False]}[s['type']] if s else None
    k = g.weighted([(5, 'json'), (2, 'text'), (1, 'none'), (1, 'broken')])
    body, hs = b'', []
    if k == 'json':
        body = json.dumps(v).encode()
        hs.append((g.choice([u'Content-Type', u'content-type']), g.choice([u'application/json', u'application/json; charset=utf-8'])))
    elif k == 'text':
        body = u'plain \u00e9'.encode('utf-8')
        hs.append((u'Content-Type', u'text/plain'))
    elif k == 'broken':
        body = b'{"a'
        hs.append((u'Content-Type', u'application/json'))
    for _ in range(g.int(0, 4)):
        n = g.choice(HN)
        if n == u'Etag' and any(x == n for x, _ in hs):
            continue
        t = {u'X-N': u'%d' % g.int(0, 9), u'x-text': htext(g, 1), u'X-List': u'1,%d' % g.int(0, 9), u'Etag': u'"e"', u'X-Day': u'2011-02-0%d' % g.int(1, 9)}[n]
        hs.append((g.choice([n, n.lower(), n.upper()]), t))
    return dict(status=status, headers=hs, body=body)


def build(case, tmp):
    app = sut.app_of(doc_of(case))
    args = dict((k, ops.materialise(v, tmp)) for k, v in case['args'].items())
    req, resp = app.op['op'](**args)
    sec = None
    if case['sec']:
        sec = Security(app)
        sec.update_with('s', ('usr', 'pa ss') if case['sec'] == 'basic' else u'k&y')
    return app, req, resp, sec


def doc_of(case):
    d = sut.one_op(case['params'], case['method'], case['path'], consumes=ops.consumes_for(case['payload']), produces=case['produces'], responses=case['decls'])
    d['schemes'] = ['http', 'https']
    if case['sec']:
        d['securityDefinitions'] = {'s': {'type': 'basic'} if case['sec'] == 'basic' else {'type': 'apiKey', 'in': case['sec'], 'name': u'X-Key'}}
        d['paths'][case['path']][case['method']]['security'] = [{'s': []}]
    return d


def check(case, cx):
    # what shall arrive, and be made of the answer
    app, want, resp, sec = build(case, cx.tmp)
    if sec:
        sec(want)
    want.prepare(scheme=case['scheme'] or 'http', handle_files=False)
    dots = any(s in ('.', '..', '') for s in urlsplit('x:' + want.url.partition(':')[2]).path.split('/')[1:])
    a = case['answer']
    lost = a['status'] in (204, 304) or case['method'] == 'head'
    raw = b'' if lost else a['body']
    app2, _, resp2, _ = build(case, cx.tmp)
    exp = outcome(lambda: resp2.apply_with(status=a['status'], header=a['headers'], raw=raw))
    cx.nontrivial(bool(case['payload'] or case['headers'] or case['decls'].get(str(a['status']))))
    cx.label('payload %s' % case['payload'], 'status %d' % a['status'], 'headers %s%s' % (case['hk'], ' joined' if case['join'] else ''))
    for which in case['clients']:
        _, req, res, sec = build(case, cx.tmp)
        if case['scheme']:
            req.scheme = case['scheme']
        hs = case['headers']
        if case['hk'] == 'dict':
            hs = dict(hs)
        elif case['hk'] == 'list':
            hs = list(hs)
        opt = {'join_headers': True} if case['join'] else {}
        opt.update(clients.options(which))
        before = copy.deepcopy((opt, hs))
        for n in range(3 if case['again'] else 1):
            seen, got = clients.send(which, (req, res), a, opt, hs, sec, case.get('stay', False))
            if n:
                cx.label('again')
            one(case, cx, which, want, dots, seen, hs)
            if which == 'tornado' and any(v.startswith('text/') for k, v in a['headers'] if k.lower() == 'content-type') and not case.get('exact'):
                cx.label('tornado, answer in text')     # a known finding: always read as JSON
            else:
                answered(case, which, got, res, exp, resp2, a, raw)
            eq((opt, hs), before, which + ': options and headers of the caller were changed')


def one(case, cx, which, want, dots, seen, hs):
    if len(seen) != 1:
        fail('%s: %d requests arrived' % (which, len(seen)))
    s = seen[0]
    cx.label(which)
    eq(s.method, case['method'].upper(), which + ': method')
    if not dots:
        path = urlsplit('x:' + want.url.partition(':')[2]).path
        if which == 'flask':
            eq(s.raw_path, clients.unquote_to_bytes(path), which + ': path')
            eq(s.host, 'api.test', which + ': host')
            if case['scheme']:
                eq(s.scheme, case['scheme'], which + ': scheme')
        else:
            eq(s.segments(), [clients.unquote_to_bytes(x) for x in path.split('/')], which + ': path')
    else:
        cx.label('dots')
    got, exp = s.pairs(), [tuple(p) for p in want.query]
    if which == 'flask':
        got, exp = (sorted(x, key=lambda p: p[0]) for x in (got, exp))
    eq(got, exp, which + ': query')
    headers(case, cx, which, want, s, hs)
    payload(case, cx, which, want, s)


def headers(case, cx, which, want, s, hs):
    given = list(hs.items()) if isinstance(hs, dict) else hs or []
    own = [(k, v) for k, v in want.header.items() if k.lower() != 'content-type']
    for n in set(norm(k) for k, _ in own + given):
        if n == 'content-type':
            continue
        mine = [v for k, v in own if norm(k) == n]
        theirs = [v for k, v in given if norm(k) == n]
        got = s.values(n)
        if case['join'] and hs is not None:
            pieces = mine + theirs
            if not any(got == [','.join(p)] for p in itertools.permutations(pieces)):
                fail('%s: header %r arrived as %r, expected %r joined' % (which, n, got, pieces))
            cx.label('joined %d' % len(pieces))
        elif which == 'tornado' or len(mine + theirs) == 1:
            if sorted(got) != sorted(mine + theirs) and got != [','.join(mine + theirs)]:
                fail('%s: header %r arrived as %r, expected %r' % (which, n, got, mine + theirs))
        else:
            ensure(len(got) == 1 and got[0] in mine + [[v for k, v in given if k == x][-1] for x in set(k for k, v in given if norm(k) == n)], '%s: header %r arrived as %r, expected %r' % (which, n, got, theirs[-1:]))


def payload(case, cx, which, want, s):
    ct = (s.values('content-type') or [''])[0]
    if any(ops.is_file(p) and p['name'] in case['args'] for p in case['params']) and want.files:
        fields = [tuple(p) for p in want._p['formData']]
        try:
            parts = multipart.parse(ct, s.body)
        except ValueError as e:
            fail('%s: %s in %r' % (which, e, s.body))
        got = [(n, c.decode('utf-8')) for n, f, h, c in parts if f is None]
        if which == 'flask':
            got, fields = (sorted(x, key=lambda p: p[0]) for x in (got, fields))
        eq(got, fields, which + ': form fields')
        files = []
        for p in case['params']:
            if ops.is_file(p) and p['name'] in case['args']:
                v = case['args'][p['name']]
                for f in v if isinstance(v, list) else [v]:
                    files.append((p['name'], f))
        got = [(n, f, h, c) for n, f, h, c in parts if f is not None]
        ensure(len(got) == len(files), '%s: %d files, expected %d' % (which, len(got), len(files)))
        for n in set(n for n, _ in files):
            for (_, f, h, c), (_, w) in zip([x for x in got if x[0] == n], [x for x in files if x[0] == n]):
                ensure(f.split('/')[-1] == w['filename'], '%s: name of file %r, expected %r' % (which, f, w['filename']))
                eq(c, ops.file_bytes(w), '%s: content of file' % which)
                t = w['header'].get('Content-Type')
                ensure(t is None or h.get('content-type') == t, '%s: type of file %r, expected %r' % (which, h.get('content-type'), t))
        cx.label('files')
    elif want._p['formData']:
        ensure(ct.split(';')[0] == 'application/x-www-form-urlencoded', '%s: content type %r' % (which, ct))
        got, fields = clients.pairs(s.body), [tuple(p) for p in want._p['formData']]
        if which == 'flask':
            got, fields = (sorted(x, key=lambda p: p[0]) for x in (got, fields))
        eq(got, fields, which + ': form fields')
        cx.label('form')
    elif want._p['body']:
        eq(ct, want.header['Content-Type'], which + ': content type')
        eq(s.body.decode('utf-8'), want.data, which + ': body')
        cx.label('body')
    else:
        eq(s.body, b'', which + ': body')


def answered(case, which, got, res, exp, want, a, raw):
    if exp[0] == 'raise':
        ensure(isinstance(got, Exception), '%s: the answer is not refused: %r' % (which, got))
        return
    if isinstance(got, Exception):
        fail('%s: %s: %s' % (which, type(got).__name__, got))
    ensure(got is res, which + ': another response came back')
    eq(got.status, a['status'], which + ': status')
    eq(got.raw, raw, which + ': raw')
    for k, v in want.header.items():
        eq(got.header[k] if k in got.header else None, v, '%s: header %s' % (which, k))
    eq(sut.plain(got.data), sut.plain(want.data), which + ': data')


# -- several requests at a time ------------------------------------------------
def gen_flight(g):
    base = gen(g)
    case = dict((k, base[k]) for k in ('params', 'path', 'payload', 'method', 'sec', 'decls', 'produces', 'scheme'))
    calls = []
    for i in range(g.int(2, 5)):
        hs = [(u'X-One', htext(g, 1)) for _ in range(g.int(0, 2))]
        calls.append(dict(args=arguments_for(g, case['params']), answer=answer_for(g, case['decls']), headers=hs, hk='list', join=g.bool(0.3), sec=bool(case['sec']) and g.bool(0.6)))
    return dict(case, calls=calls, order=g.sample(list(range(len(calls))), len(calls), len(calls)), shared=g.bool(0.7))


def check_flight(case, cx):
    subs = [dict(case, **dict(c, sec=case['sec'])) for c in case['calls']]
    app, _, _, holder = build(subs[0], cx.tmp)
    pairs, wants, exps, hss = [], [], [], []
    for i, (c, sub) in enumerate(zip(case['calls'], subs)):
        _, want, resp, sec = build(sub, cx.tmp)
        if sec and c['sec']:
            sec(want)
        want.prepare(scheme=case['scheme'] or 'http', handle_files=False)
        a = c['answer']
        raw = b'' if a['status'] in (204, 304) or case['method'] == 'head' else a['body']
        exps.append((outcome(lambda: resp.apply_with(status=a['status'], header=a['headers'], raw=raw)), resp, raw))
        wants.append(want)
        req, res = app.op['op'](**dict((k, ops.materialise(v, cx.tmp)) for k, v in c['args'].items()))
        if case['scheme']:
            req.scheme = case['scheme']
        pairs.append((req, res))
        hss.append(c['headers'] + [(u'X-Call', u'%d' % i)])
    seen, got = clients.in_flight([c['answer'] for c in case['calls']], case['order'], pairs, hss,
                                  [{'join_headers': True} if c['join'] else {} for c in case['calls']], [holder if c['sec'] else None for c in case['calls']], case['shared'])
    cx.nontrivial()
    cx.label('%d at a time' % len(pairs), 'payload %s' % case['payload'])
    for i, (c, sub) in enumerate(zip(case['calls'], subs)):
        a, (exp, resp, raw) = c['answer'], exps[i]
        mine = [x for x in seen if [v for n in x.values('x-call') for v in n.split(',')] == [u'%d' % i]]
        dots = any(s in ('.', '..', '') for s in urlsplit('x:' + wants[i].url.partition(':')[2]).path.split('/')[1:])
        one(sub, cx, 'tornado', wants[i], dots, mine, hss[i])
        if any(v.startswith('text/') for k, v in a['headers'] if k.lower() == 'content-type'):
            cx.label('answer in text')     # a known finding: always read as JSON
        else:
            answered(sub, 'tornado, call %d' % i, got[i], pairs[i][1], exp, resp, a, raw)


# -- headers for clients of one's own -------------------------------------------
class Own(BaseClient):
    __schemes__ = set(['http'])


def gen_compose(g):
    names = [u'X-One', u'x-one', u'Accept', u'accept', u'X-Two']
    own = [(n, htext(g, 1)) for n in g.sample([u'X-One', u'X-Two', u'X-Own'], 0, 2)]
    uses = []
    for _ in range(g.int(1, 4)):
        k = g.choice(['list', 'dict', 'none'])
        hs = [(g.choice(names), htext(g, 1)) for _ in range(g.int(0, 4))]
        uses.append(dict(kind=k, headers=list(dict(hs).items()) if k == 'dict' else hs, as_dict=g.bool(), join=g.bool(), opt=g.choice(['dict', 'none'])))
    return dict(own=own, produces=g.bool(), uses=uses)


def check_compose(case, cx):
    ps = [{'name': n, 'in': 'header', 'type': 'string'} for n, _ in case['own']]
    app = sut.app_of(sut.one_op(ps, 'get', produces=['text/plain'] if case['produces'] else None))
    req, _ = app.op['op'](**dict(case['own']))
    req.prepare(scheme='http')
    mine = sorted(case['own'] + ([(u'Accept', u'text/plain')] if case['produces'] else []))
    client = Own()
    cx.nontrivial(any(u['headers'] and u['kind'] != 'none' for u in case['uses']) and mine)
    for u in case['uses']:
        k, join = u['kind'], u['join']
        given = None if k == 'none' else dict(u['headers']) if k == 'dict' else list(u['headers'])
        before = copy.deepcopy(given)
        opt = {'join_headers': True} if join else ({} if u['opt'] == 'dict' else None)
        got = client.compose_headers(req, given, opt, as_dict=u['as_dict'])
        what = 'compose_headers of %r beside %r (%s%s)' % (given, mine, 'dict' if u['as_dict'] else 'list', ', joined' if join else '')
        cx.label(k, 'dict' if u['as_dict'] else 'list', 'joined' if join else 'apart')
        eq(given, before, 'headers of the caller')
        eq(sorted(req.header.items()), mine, 'headers of the request')
        theirs = [] if k == 'none' else u['headers']
        if not u['as_dict']:
            ensure(isinstance(got, list), '%s is %r' % (what, got))
        pairs = list(got.items()) if u['as_dict'] else [tuple(x) for x in got]
        if k != 'none' and join:
            want = {}
            for n, v in mine + theirs:
                want.setdefault(n.lower(), []).append(v)
            ensure(len(pairs) == len(want), '%s is %r' % (what, pairs))
            for n, v in pairs:
                vs = want.pop(n.lower(), None)
                ensure(vs is not None and any(v == ','.join(p) for p in itertools.permutations(vs)), '%s is %r' % (what, pairs))
        elif u['as_dict']:
            # one value per name as it is spelled, that of the request if it has one
            want = dict(theirs)
            want.update(mine)
            ensure(dict(pairs) == want or set(dict(pairs)) == set(want) and all(v in [x for m, x in mine + theirs if m == n] for n, v in pairs), '%s is %r' % (what, pairs))
        else:
            eq(sorted(pairs), sorted(mine + theirs), what)


PARTS = [Part('deliver', gen, check, 1600), Part('in_flight', gen_flight, check_flight, 300), Part('compose', gen_compose, check_compose, 800)]
