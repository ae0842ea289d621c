# -*- coding: utf-8 -*-
import copy
import json
import sys
import threading

import flask
import requests

from pyswagger import App, Security
from pyswagger.getter import DictGetter
from pyswagger.contrib.client import flask as _f, requests as _r
from pyswagger.primitives import render as _render

from pbt import sut, ops, docgen, behave, wire, clients, values, zygote
from pbt.engine import Part, fail, eq, outcome, check as ensure, HarnessError

RULE = ("history: one or two documents (two of them may be variants of each other: the same names, other contents), 1-4 calls for each, and a history of up to 14 "
        "steps over the applications (build, prepare, reset, send, send again, answer, broken answer, failing calls, dump, validate, resolve, render, load, changing "
        "what was returned). Whatever a call gives - when it is made, sent again, and at the end of the history - is what it gives in a freshly loaded "
        "application in a process nothing has happened in yet. threads: 2-4 threads build, prepare and answer calls of the same applications at the same time, with the same outcome. Non-trivial: a request was sent and 3 further steps took place / 4 calls in threads.")
ASSUMPTIONS = ["the steps of a history are sequential, and a request is not shared by threads (nothing in the library claims that)",
               "a stream given as a file is not used for a second request",
               "authorizations are part of a request: a client with credentials leaves them in the request it sends (known finding)"]


def gen(g):
    docs = []
    for i in range(g.int(1, 2)):
        if i and g.bool(0.5):
            d = variant(g, docs[0])
        else:
            d = docgen.document(g, names=docgen.PLAIN, max_paths=2, max_defs=3, meta=False, cyclic=g.bool(0.3))
            d['host'] = 'api.test'
            d['schemes'] = ['http', 'https']
            for path, m, op, item in docgen.operations(d):
                op.pop('schemes', None)
            if g.bool(0.4):
                rich_default(g, d)
        docs.append(d)
    calls = []
    for ai, d in enumerate(docs):
        for c in docgen.calls(g, d, g.int(1, 3)):
            c['app'] = ai
            c['send'] = dict(client=g.choice(['requests', 'flask']), hk=g.choice([None, 'dict', 'list']), join=g.bool(0.3), sec=g.bool(0.5))
            if c['resp']:
                # a server gives text
                b = c['resp']['body']
                c['resp'] = dict(c['resp'], status=c['resp']['status'])
            calls.append(c)
    steps = []
    for _ in range(g.int(3, 14)):
        k = g.weighted([(5, 'build'), (4, 'send'), (3, 'again'), (2, 'prepare'), (1, 'reset'), (2, 'answer'), (1.5, 'broken'), (0.8, 'lost'), (1, 'wrong'), (1, 'dump'), (0.5, 'validate'),
                        (1, 'resolve'), (0.5, 'render'), (0.7, 'load'), (1.5, 'spoil'), (1, 'probe'), (0.5, 'security')])
        steps.append((k, g.int(0, 7), g.int(0, 7)))
    return dict(docs=docs, calls=calls, pristine=g.bool(0.25 if len(docs) > 1 else 0.04), steps=steps, headers=[(u'X-One', u'1'), (u'X-Two', u'2')])


def rich_default(g, d):
    """an object with a nested default, used by a response"""
    ops_ = list(docgen.operations(d))
    if not ops_:
        return
    _, _, op, _ = g.choice(ops_)
    c = g.choice(sorted(op['responses']))
    if '$ref' in op['responses'][c]:
        return
    p = g.choice([{'type': 'object', 'default': {'x': {'y': [1]}, 'z': [1, 2]}}, {'type': 'array', 'items': {'type': 'object'}, 'default': [{'x': {'y': []}}]},
                  {'type': 'array', 'items': {'type': 'integer'}, 'default': [1, 2]}, {'default': {'a': [1]}}, {'type': 'array', 'items': {}, 'default': [[1], {'a': 1}]}])
    op['responses'][c] = dict(op['responses'][c], schema={'type': 'object', 'properties': {'dd': p}})


def variant(g, d):
    """the same names and places, other contents"""
    d = copy.deepcopy(d)

    def go(o):
        if isinstance(o, dict):
            t = o.get('type')
            if t in ('integer', 'number', 'boolean') and 'default' not in o and 'enum' not in o and g.bool(0.5):
                for k in ('minimum', 'maximum', 'multipleOf', 'exclusiveMinimum', 'exclusiveMaximum', 'format'):
                    o.pop(k, None)
                o['type'] = 'string'
            for k in sorted(o):
                if k in ('properties', 'definitions', 'parameters', 'responses', 'paths', 'headers') and isinstance(o[k], dict):
                    for n in sorted(o[k]):
                        go(o[k][n])
                elif k not in ('default', 'enum', 'example', 'examples'):
                    go(o[k])
        elif isinstance(o, list):
            for x in o:
                go(x)
    go(d)
    if g.bool():
        d['basePath'] = '/w'
    return d


# -- what calls give, in plain form -----------------------------------------
def load(doc):
    urls = [sut.URL]
    a = App.load(sut.URL, getter=DictGetter(urls, {sut.URL: doc}))
    eq(urls, [sut.URL], 'list of urls of the caller')
    a.prepare(strict=False)
    return a


def build(app, c):
    return behave.find(app, c['path'], c['method'])(**dict((k, stream(v)) for k, v in c['args'].items()))


def stream(v):
    return ops.materialise(v, None)


def prepared(req, scheme='http', handle=False):
    def go():
        req.prepare(scheme=scheme, handle_files=handle)
        return behave.request_plain(req) if not handle else 'multipart' if req.files else behave.request_plain(req)
    return plain(outcome(go))


def answered(resp, c):
    r = c['resp']

    def go():
        resp.apply_with(status=r['status'], header=r['headers'])
        if r['body'] is not None:
            resp.apply_with(raw=json.dumps(r['body']))
        return behave.response_plain(resp)
    return plain(outcome(go))


def sent(pair, c, headers, sec, tool=None):
    """sends a request; what arrived and what was returned"""
    s, r = c['send'], c['resp']
    a = dict(status=r['status'], headers=[(k, v.encode('utf-8').decode('latin-1')) for k, v in r['headers']] + [(u'Content-Type', u'application/json')],
             body=json.dumps(r['body']).encode() if r['body'] is not None else b'null')
    a['headers'] = [(k, v) for k, v in a['headers'] if all(32 <= ord(x) < 127 for x in v)]
    opt = {'join_headers': True} if s['join'] else {}
    hs = {'dict': headers[0], 'list': headers[1], None: None}[s['hk']]
    if s['client'] == 'flask':
        seen, got = clients.send('flask', pair, a, opt, hs, sec)
        # names of files and boundaries are werkzeug's
        arrived = [(x.method, x.host, x.raw_path, sorted(x.pairs()), head(x.headers), digest(x.body, (x.values('content-type') or [''])[0])) for x in seen]
    else:
        with wire.Sent() as w:
            w.answer = a
            got = clients.attempt(lambda: (tool or wire.client_with(['http', 'https'], sec)).request(pair, opt, hs))
            arrived = [(x.method, x.url, head(x.headers.items()), digest(body(x), text(x.headers.get('Content-Type', '')))) for x in w.requests]
    if isinstance(got, Exception):
        return arrived, type(got).__name__
    return arrived, behave.response_plain(got)


def head(hs):
    return sorted((k.lower(), text(v)) for k, v in hs if not k.lower().startswith('content-'))


def text(v):
    return v.decode('latin-1') if isinstance(v, bytes) else v


def body(rq):
    b = rq.body
    return b.encode('utf-8') if isinstance(b, str) else b if isinstance(b, bytes) else b'' if b is None else repr(b).encode('utf-8')


def digest(b, ct):
    if ct.startswith('multipart/'):
        mark = ct.partition('boundary=')[2].strip('"').encode()
        return sorted(repr(p) for p in b.split(b'--' + mark))
    if ct.startswith('application/x-www-form-urlencoded'):
        return sorted(b.split(b'&'))
    try:
        return json.loads(b)
    except ValueError:
        return b


def plain(o):
    if o[0] != 'ok':
        return list(o[:2])
    return ['ok', o[1]]


def fresh(doc, c, headers):
    """everything a call gives, in applications of its own"""
    out = {}
    app, app2 = load(doc), load(doc)
    made = outcome(lambda: build(app, c))
    if made[0] != 'ok':
        out['made'] = list(made[:2])
    else:
        out['made'] = 'ok'
        out['prepared'] = prepared(made[1][0])
        out['whole'] = prepared(build(app, c)[0], 'https', True)
        if c['resp']:
            out['sent'] = sent(build(app2, c), c, caller_headers(headers), credentials(app2, c))
    if c['resp']:
        out['answered'] = answered(response_of(app if made[0] != 'ok' else app2, c), c)
    return out


def fresh_all(docs, calls, headers):
    return [fresh(copy.deepcopy(docs[c['app']]), c, headers) for c in calls], [load(copy.deepcopy(d)).dump() for d in docs]


def response_of(app, c):
    from pyswagger.io import Response
    return Response(behave.find(app, c['path'], c['method']))


def caller_headers(hs):
    return dict(hs), list(hs)


def credentials(app, c):
    if not c['send']['sec'] or not app.root.securityDefinitions:
        return None
    s = Security(app)
    give_credentials(app, s)
    return s


def give_credentials(app, s):
    for n, d in app.root.securityDefinitions.items():
        s.update_with(n, (u'u', u'p') if d.type == 'basic' else u'tok')


# -- the history --------------------------------------------------------------
def check(case, cx):
    zygote.start()
    try:
        if case['pristine']:
            cx.label('reference from a pristine process')
            want, dumps = zygote.run(fresh_all, case['docs'], case['calls'], case['headers'])
        else:
            want, dumps = fresh_all(case['docs'], case['calls'], case['headers'])
    except HarnessError as e:
        if 'Error' in str(e):
            fail('in a fresh application: %s' % str(e)[-300:])
        raise
    h = History(case, cx, want, dumps)
    for n, (k, a, b) in enumerate(case['steps']):
        try:
            h.step(k, a, b)
        except Exception as e:
            e.args = (u'step %d (%s): %s' % (n, k, e),) + e.args[1:]
            raise
    h.probe('at the end')
    cx.nontrivial(h.nsent > 0 and len(case['steps']) > 3)


class History(object):
    def __init__(self, case, cx, want, dumps):
        self.case, self.cx, self.want, self.dumps = case, cx, want, dumps
        self.docs = copy.deepcopy(case['docs'])
        self.apps = [load(d) for d in self.docs]
        self.headers = caller_headers(case['headers'])
        self.pool = {}
        self.slots = []
        self.nsent = 0
        self.secs = {}

    def calls(self, i):
        return i % len(self.case['calls'])

    def step(self, k, a, b):
        cx, calls = self.cx, self.case['calls']
        if k in ('dump', 'validate', 'resolve', 'load', 'security'):
            cx.label(k)
            ai = a % len(self.apps)
            app = self.apps[ai]
            if k == 'dump':
                eq(app.dump(), self.dumps[ai], 'dump')
            elif k == 'validate':
                outcome(lambda: app.validate(strict=False))
            elif k == 'resolve':
                for n in sorted(self.docs[ai].get('definitions', {})):
                    app.resolve('#/definitions/' + n)
            elif k == 'load':
                load(self.docs[ai])
            else:
                give_credentials(app, Security(app))
            return
        if not calls:
            return
        if k == 'probe':
            self.probe('probe')
            return
        if k in ('build', 'wrong', 'render') or not self.slots:
            ci = self.calls(a)
            c = calls[ci]
            app = self.apps[c['app']]
            if k == 'wrong':
                cx.label('failing call')
                bad = dict((n, stream(v)) for n, v in list(c['args'].items())[b % 2:])
                bad[u'nobody'] = 1
                ensure(outcome(lambda: behave.find(app, c['path'], c['method'])(**bad))[0] == 'raise', 'an unknown argument is accepted')
            elif k == 'render':
                from pyswagger.primitives.render import Renderer
                outcome(lambda: Renderer().render_all(behave.find(app, c['path'], c['method'])))
            else:
                self.made(ci, app)
            return
        ci, req, resp, args = self.slots[a % len(self.slots)]
        c, w = calls[ci], self.want[ci]
        cx.label(k)
        if k in ('send', 'again'):
            if not c['resp']:
                return
            for n in range(2 if k == 'again' else 1):
                self.send(ci, req, resp)
        elif k == 'lost':
            # nobody answers
            with wire.Sent() as sent_:
                sent_.answer = None
                hs = [None, self.headers[0], self.headers[1]][b % 3]
                ensure(outcome(lambda: wire.client_with(['http', 'https']).request((req, resp), {}, hs))[0] == 'raise', 'an answer came from nowhere')
        elif k == 'prepare':
            req.reset()
            if b % 2:
                eq(prepared(req), w['prepared'], 'prepared after reset') if not c['send']['sec'] else prepared(req)
            else:
                eq(prepared(req, 'https', True), w['whole'], 'prepared after reset') if not c['send']['sec'] else prepared(req, 'https', True)
            schemes = ['http']
            if b % 4 == 1:
                req.reset()
                prepared(req, schemes)
                eq(schemes, ['http'], 'list of schemes of the caller')
            if b % 3 == 0:
                outcome(lambda: req._patch({'url_netloc': 'other.test'}))
        elif k == 'reset':
            req.reset()
            resp.reset()
            eq([resp.status, dict(resp.header.items()), resp.data, resp.raw], [None, {}, None, None], 'response after reset')
            if b % 2:
                ensure(outcome(lambda: resp.apply_with(raw=b'{}'))[0] == 'raise', 'a body is taken before there is a status, after reset')
        elif k == 'answer' and c['resp']:
            resp.reset()
            eq(answered(resp, c), w['answered'], 'answer')
        elif k == 'broken':
            outcome(lambda: resp.apply_with(status=[200, 404, 999][b % 3], header={'X-A': 'x', 'X-B': 'y'}))
            outcome(lambda: resp.apply_with(raw=[b'{"a', b'[1]', b'"x"', b'{}', b'3'][b % 5]))
        elif k == 'spoil':
            spoil(resp.data)
            spoil(resp.header)

    def made(self, ci, app):
        c, w = self.case['calls'][ci], self.want[ci]
        if ci in self.pool and not has_stream(c['args']):
            args = self.pool[ci]        # the caller's arguments, used again
        else:
            args = dict((n, stream(v)) for n, v in c['args'].items())
            self.pool[ci] = args
        r = outcome(lambda: behave.find(app, c['path'], c['method'])(**args))
        eq('ok' if r[0] == 'ok' else list(r[:2]), w['made'], 'call of %s %s' % (c['method'], c['path']))
        if r[0] == 'ok':
            self.slots.append((ci, r[1][0], r[1][1], args))
        self.same_args(ci)

    def same_args(self, ci):
        c = self.case['calls'][ci]
        if ci in self.pool and not has_stream(c['args']):
            eq(self.pool[ci], c['args'], 'arguments of the caller')

    def send(self, ci, req, resp):
        c, w = self.case['calls'][ci], self.want[ci]
        if c['app'] not in self.secs:
            self.secs[c['app']] = credentials(self.apps[c['app']], {'send': {'sec': True}})
        sec = self.secs[c['app']] if c['send']['sec'] else None
        if self.case.get('exact') and self.secs[c['app']]:
            # before, somebody sent it with his credentials
            sent((req, resp), c, self.headers, self.secs[c['app']])
        self.nsent += 1
        eq(sent((req, resp), c, self.headers, sec), w['sent'], 'sent')
        eq(self.headers, caller_headers(self.case['headers']), 'headers of the caller')

    def probe(self, what):
        """every call anew"""
        for ci, c in enumerate(self.case['calls']):
            app, w = self.apps[c['app']], self.want[ci]
            r = outcome(lambda: build(app, c))
            eq('ok' if r[0] == 'ok' else list(r[:2]), w['made'], what + ': call')
            if r[0] == 'ok':
                eq(prepared(r[1][0]), w['prepared'], what + ': request')
                if c['resp']:
                    self.send(ci, *build(app, c))
            if c['resp']:
                eq(answered(response_of(app, c), c), w['answered'], what + ': answer')
            self.same_args(ci)
        for ai, app in enumerate(self.apps):
            eq(app.dump(), self.dumps[ai], what + ': dump')
            eq(self.docs[ai], self.case['docs'][ai], what + ': document of the caller')


def has_stream(v):
    if isinstance(v, dict):
        return '__file__' in v or any(has_stream(x) for x in v.values())
    if isinstance(v, list):
        return any(has_stream(x) for x in v)
    return False


def spoil(v, n=0):
    """what somebody may do with a value he got"""
    if n > 6:
        return
    if isinstance(v, dict) or hasattr(v, 'items') and hasattr(v, '__setitem__'):
        for k in list(v.keys()):
            spoil(v[k], n + 1)
        v['spoiled'] = ['yes']
    elif isinstance(v, list):
        for x in list(v):
            spoil(x, n + 1)
        v.append('spoiled')


# -- several threads ----------------------------------------------------------
def gen_threads(g):
    case = gen(g)
    del case['steps']
    case['orders'] = [[g.int(0, 7) for _ in range(g.int(3, 8))] for _ in range(g.int(2, 4))]
    return case


def check_threads(case, cx):
    calls = case['calls']
    docs = copy.deepcopy(case['docs'])
    apps = [load(d) for d in docs]

    def one(app, c):
        made = outcome(lambda: build(app, c))
        out = ['ok' if made[0] == 'ok' else list(made[:2])]
        if made[0] == 'ok':
            out.append(prepared(made[1][0]))
            out.append(prepared(build(app, c)[0], 'https', True))
        if c['resp']:
            out.append(answered(response_of(app, c), c))
        return out
    want = [one(load(copy.deepcopy(case['docs'][c['app']])), c) for c in calls]
    found = []

    def work(order):
        for n in order:
            if calls:
                i = n % len(calls)
                found.append((i, outcome(lambda: one(apps[calls[i]['app']], calls[i]))))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    try:
        ts = [threading.Thread(target=work, args=(o,)) for o in case['orders']]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, r in found:
        if r[0] != 'ok':
            fail('%s %s in a thread: %r' % (calls[i]['method'], calls[i]['path'], r[1:]))
        eq(r[1], want[i], '%s %s in a thread' % (calls[i]['method'], calls[i]['path']))
    eq(docs, case['docs'], 'documents of the caller')
    cx.nontrivial(len(found) > 3)
    cx.label('%d threads' % len(case['orders']))


PARTS = [Part('history', gen, check, 350), Part('threads', gen_threads, check_threads, 100)]
