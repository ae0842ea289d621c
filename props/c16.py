# -*- coding: utf-8 -*-
import base64
from urllib.parse import parse_qsl, urlsplit

from pbt import sut
from pbt.engine import Part, fail, check as ensure, raises
from pbt.gen import WORD, TRICKY, LETTERS
from pbt.wire import Sent, client_with

RULE = ("history: a document with 1-4 security schemes and 2-4 operations, and a history of registrations and (re-)sent requests through clients with and "
        "without holder; headers and query on the wire are compared with the reference for every request. Non-trivial: at least one request is sent "
        "after a registration of a scheme it requires.")
ASSUMPTIONS = ["schemes of one document do not claim the same header or query name, user names and passwords are ASCII"]

NAMES = ['s1', 'key', 'o-auth', 'basic auth', u'n\u00e9']


def gen(g):
    defs, used = {}, set()
    for n in g.sample(NAMES, 1, 4):
        t = g.choice(['basic', 'apiKey', 'apiKey', 'oauth2'])
        if t in used and t != 'apiKey':
            t = 'apiKey'
        used.add(t)
        if t == 'basic':
            defs[n] = dict(type='basic')
        elif t == 'oauth2':
            flow = g.choice(['implicit', 'implicit', 'password', 'application', 'accessCode'])
            defs[n] = dict(type='oauth2', flow=flow, scopes={'r': 'x', 'w': 'y'} if g.bool(0.8) else {})
            if flow in ('implicit', 'accessCode'):
                defs[n]['authorizationUrl'] = 'http://a.test'
            if flow != 'implicit':
                defs[n]['tokenUrl'] = 'http://t.test'
        else:
            defs[n] = dict(type='apiKey', name=g.choice(['X-Key', 'api_key', 'k', 'token']) + str(len(defs)), **{'in': g.choice(['header', 'query'])})
        if g.bool(0.2):
            defs[n]['description'] = g.text(LETTERS, 1, 3)
    names = list(defs)

    def sec():
        k = g.weighted([(3, 'list'), (1, 'none'), (1, 'empty')])
        if k == 'none':
            return None
        if k == 'empty':
            return []
        return [dict((n, ['r'] if defs.get(n, {}).get('type') == 'oauth2' and g.bool() else []) for n in g.sample(names + ['undefined'], 1, 3)) for _ in range(g.int(1, 2))]
    ops = [dict(security=sec(), q=g.bool()) for _ in range(g.int(2, 4))]

    def action(k=None):
        k = k or g.weighted([(5, 'send'), (2, 'register'), (2, 'resend'), (1, 'unknown')])
        if k == 'register':
            n = g.choice(names)
            t = defs[n]['type']
            if t == 'basic':
                return ('register', n, (g.text(WORD + TRICKY.replace(':', ''), 1, 6), g.text(WORD + TRICKY, 0, 6)))
            if t == 'apiKey' and defs[n]['in'] == 'query':
                return ('register', n, g.text(WORD + TRICKY + u'\u00e9', 1, 8))
            return ('register', n, g.text(WORD + u'-._~+/=', 1, 10))
        if k == 'unknown':
            return ('unknown', g.choice(['nope', '', 'S1', 'basic']))
        return (k, g.int(0, 3), g.bool(0.15), g.text(LETTERS, 0, 3))
    # parameters that claim the place of a credential
    over = []
    for n in names:
        if g.bool(0.15) and defs[n]['type'] in ('basic', 'apiKey'):
            name, where = place(defs[n])
            if where == 'header':
                over.append(dict(name=g.choice([name, name.lower(), name.upper()]), type='string', **{'in': 'header'}))
            else:
                over.append(dict(name=name, type='array', items={'type': 'string'}, collectionFormat=g.choice(['multi', 'multi', 'csv']), **{'in': 'query'}))
    return dict(defs=defs, ops=ops, doc=sec(), actions=g.list(lambda: action('register'), 1, 4, 2) + g.list(action, 1, 10, 5), over=over)


def place(d):
    if d['type'] == 'basic':
        return 'Authorization', 'header'
    if d['type'] == 'oauth2':
        return 'access_token', 'header'
    return d['name'], d['in']


def given(p, text):
    return text if p['in'] == 'header' else [text, text + 'x', text][:1 + len(text) % 3]


def check(case, cx):
    paths = {}
    for i, o in enumerate(case['ops']):
        op = dict(operationId='op%d' % i, parameters=[dict(name='q', type='string', **{'in': 'query'}), dict(name='X-H', type='string', **{'in': 'header'})] + case.get('over', []),
                  responses={'200': {'description': ''}})
        if o['security'] is not None:
            op['security'] = o['security']
        paths['/p%d' % i] = {'get': op}
    d = sut.doc_with(paths, securityDefinitions=case['defs'])
    if case['doc'] is not None:
        d['security'] = case['doc']
    from pyswagger import Security
    app = sut.app_of(d)
    holder = Security(app)
    secured, plain = client_with(['http'], holder), client_with(['http'])
    creds, made = {}, []
    with Sent() as sent:
        for a in case['actions']:
            if a[0] == 'register':
                holder.update_with(a[1], a[2])
                creds[a[1]] = a[2]
                continue
            if a[0] == 'unknown':
                raises(lambda: holder.update_with(a[1], 'x'), ValueError)
                continue
            if a[0] == 'resend' and made:
                i, text, rr = made[a[1] % len(made)]
                client = secured
            else:
                i, text = a[1] % len(case['ops']), a[3]
                rr = app.op['op%d' % i](**(dict([('q', text), ('X-H', text)] + [(p['name'], given(p, text)) for p in case.get('over', [])]) if text else {}))
                client = plain if a[2] else secured
                if client is secured:
                    made.append((i, text, rr))
            client.request(rr)
            verify(case, sent.last, i, text, creds if client is secured else {}, cx)


def verify(case, rq, i, text, creds, cx):
    sec = case['ops'][i]['security']
    sec = sec if sec is not None else (case['doc'] or [])
    need = set(n for r in sec for n in r if n in creds)
    q = [('q', text)] if text else []
    h = {'x-h': text} if text else {}
    taken = [place(case['defs'][n]) for n in need]
    taken = [(n.lower() if w == 'header' else n, w) for n, w in taken]
    for p in case.get('over', []) if text else []:
        k = p['name'].lower() if p['in'] == 'header' else p['name']
        if (k, p['in']) in taken:
            cx.label('claimed by a parameter')
        elif p['in'] == 'header':
            h[k] = text
        elif p['collectionFormat'] == 'multi':
            q.extend((k, v) for v in given(p, text))
        else:
            q.append((k, ','.join(given(p, text))))
    for n in need:
        d, c = case['defs'][n], creds[n]
        cx.label(d['type'] + (' ' + d['in'] if 'in' in d else ''))
        cx.nontrivial()
        if d['type'] == 'basic':
            h['authorization'] = 'Basic ' + base64.b64encode(('%s:%s' % tuple(c)).encode('ascii')).decode('ascii')
        elif d['type'] == 'oauth2':
            h['access_token'] = c
        elif d['in'] == 'header':
            h[d['name'].lower()] = c
        else:
            q.append((d['name'], c))
    got = parse_qsl(urlsplit(rq.url).query, keep_blank_values=True)
    if sorted(got) != sorted(q):
        fail('query %r, expected %r (required %r)' % (got, q, sec))
    gh = dict((k.lower(), v) for k, v in rq.headers.items())
    for k in ('user-agent', 'accept-encoding', 'connection', 'content-length'):
        gh.pop(k, None)
    if gh.get('accept') == '*/*':
        gh.pop('accept')
    if gh != h:
        fail('headers %r, expected %r (required %r)' % (gh, h, sec))


PARTS = [Part('history', gen, check, 7000)]
