# -*- coding: utf-8 -*-
import copy

from pyswagger import utils

from pbt import sut, docgen
from pbt.engine import Part, fail, eq, check as ensure
from pbt.gen import LETTERS

RULE = ("inherit: path items and operations that declare parameters (inline or referred to), media types, security and schemes at generated levels; the effective "
        "ones of every operation, its URL and a request from it are compared with a direct reading, and document and path items must be as declared "
        "afterwards. Non-trivial: at least one inherited and one overridden or own parameter, or two operations of one path.")
ASSUMPTIONS = ["an operation and its path item do not use one name at different locations, and the operation's own list of media types is not empty (known findings)"]

TYPES = [{'type': 'string'}, {'type': 'string', 'minLength': 1}, {'type': 'string', 'format': 'password'}, {'type': 'string', 'maxLength': 99}]
MEDIA = ['application/json', 'text/json', 'application/xml', 'text/plain', 'application/x-www-form-urlencoded']
URLS = ['http://doc.test/api/swagger.json', 'https://doc.test:99/s', 'mem:/nowhere/swagger.json', 'ws://x.test/']
OTHER = 'other.json'


class Gen(object):
    def __init__(self, g):
        self.g, self.n, self.other = g, 0, {'parameters': {}, 'items': {}}
        self.doc = sut.doc_with()
        self.doc.pop('host')
        self.doc.pop('basePath')
        self.flat = []

    def param(self, name, where):
        """a declaration with a marker, maybe referred to"""
        g = self.g
        self.n += 1
        d = dict(g.choice(TYPES), name=name, description=u'm%d' % self.n, **{'in': where})
        if where == 'path':
            d['required'] = True
        elif g.bool(0.2):
            d['required'] = True
        k = g.weighted([(5, 'inline'), (1.5, 'local'), (1, 'other'), (0.5, 'hop')])
        key = u'k%d' % self.n
        if k == 'inline':
            return d
        if k == 'other':
            self.other['parameters'][key] = d
            return {'$ref': OTHER + '#/parameters/' + key}
        self.doc.setdefault('parameters', {})[key] = d
        if k == 'hop':
            self.other['parameters'][key] = {'$ref': 'swagger.json#/parameters/' + key} if 0 else dict(d)
            self.doc['parameters'][key] = {'$ref': OTHER + '#/parameters/' + key}
        return {'$ref': '#/parameters/' + key}

    def build(self):
        g, d = self.g, self.doc
        if g.bool(0.6):
            d['host'] = g.choice(['api.test', 'api.test:8080', '127.0.0.1'])
        if g.bool(0.6):
            d['basePath'] = g.choice(['/v1', '/', '/a/b', '/v1/', ''])
        if g.bool(0.5):
            d['schemes'] = g.sample(['http', 'https', 'ws'], 0, 3)
        for k in ('consumes', 'produces'):
            if g.bool(0.6):
                d[k] = g.sample(MEDIA, 0, 3)
        d['securityDefinitions'] = {'b': {'type': 'basic'}, 'k': {'type': 'apiKey', 'name': 'x', 'in': 'query'}, 'o': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://o/', 'scopes': {'r': 'x'}}}
        if g.bool(0.5):
            d['security'] = self.security()
        for i in range(g.int(1, 3)):
            with g.span():
                self.path(i)
        return d

    def security(self):
        g = self.g
        return [dict((n, ['r'] if n == 'o' else []) for n in g.sample(['b', 'k', 'o'], 0, 2)) for _ in range(g.int(0, 2))]

    def path(self, i):
        g = self.g
        inpath = g.sample([u'x', u'y', u'a'], 0, 2)
        path = g.choice([u'/p%d' % i, u'/p%d/' % i, u'/p%d.q/r' % i]) + u''.join(u'/{%s}' % n for n in inpath)
        at_item = g.subset(inpath, 0.6)
        item = {}
        shared = [(n, 'path') for n in at_item]
        for n in [u'a', u'b', u'c', u'd', u'A']:
            for w in ('query', 'header', 'formData'):
                # names differ by letter case, those of headers do not
                if n not in inpath and not (w == 'header' and n.isupper()) and g.bool(0.22 if w == 'query' else 0.1):
                    shared.append((n, w))
        shared = g.shuffle(shared)
        names = [n for n, _ in shared]
        params = [self.param(n, w) for n, w in shared]
        if params or g.bool(0.1):
            item['parameters'] = params
        for m in g.sample(docgen.METHODS, 1, 4):
            with g.span():
                op = {'responses': {'200': {'description': u''}}}
                own = [(n, 'path') for n in inpath if n not in at_item or g.bool(0.3)]
                for n, w in shared:
                    if w != 'path' and names.count(n) == 1 and g.bool(0.35):
                        own.append((n, w))
                for n in [u'b', u'c', u'e', u'f', u'B', u'A']:
                    for w in ('query', 'header', 'formData'):
                        if n not in names and n not in inpath and not (w == 'header' and n.isupper()) and g.bool(0.12):
                            own.append((n, w))
                own = g.shuffle(own)
                if own or g.bool(0.2):
                    op['parameters'] = [self.param(n, w) for n, w in own]
                for k in ('consumes', 'produces'):
                    if g.bool(0.4):
                        op[k] = g.sample(MEDIA, 1, 2)
                if g.bool(0.4):
                    op['schemes'] = g.sample(['http', 'https', 'wss'], 0, 2)
                if g.bool(0.4):
                    op['security'] = self.security()
                if g.bool(0.4):
                    op['operationId'] = u'o%d%s' % (i, m)
                item[m] = op
        how = g.weighted([(5, 'inline'), (1, 'other')])
        if how == 'other':
            key = u'i%d' % i

            def away(o):
                if isinstance(o, dict):
                    return dict((k, ('swagger.json' + v if v.startswith('#') else v[len(OTHER):]) if k == '$ref' else away(v)) for k, v in o.items())
                return [away(v) for v in o] if isinstance(o, list) else o
            self.other['items'][key] = (item)
            self.doc['paths'][path] = {'$ref': OTHER + '#/items/' + key}
            self.flat.append((path, item, True))
        else:
            self.doc['paths'][path] = item
            self.flat.append((path, item, False))


def gen(g):
    b = Gen(g)
    doc = b.build()
    url = g.choice(URLS)
    # references in a path item of the other file are relative to that file
    name = url.rsplit('/', 1)[1] or 's'
    if not url.rsplit('/', 1)[1]:
        url += 's'

    def away(o):
        if isinstance(o, dict):
            return dict((k, (name + v if v.startswith('#') else v[len(OTHER):]) if k == '$ref' else away(v)) for k, v in o.items())
        return [away(v) for v in o] if isinstance(o, list) else o
    flat = [(p, it) for p, it, _ in b.flat]
    other = dict(parameters=b.other['parameters'], items=away(b.other['items']))
    order = g.shuffle([(p, m) for p, it in flat for m in docgen.METHODS if m in it])
    return dict(doc=doc, other=other, url=url, items=flat, order=order)


def lookup(case, p):
    n = 0
    while '$ref' in p and n < 9:
        f, _, ptr = p['$ref'].partition('#')
        sec, key = ptr[1:].split('/')
        p = (case['other'] if f == OTHER else case['doc'])[sec][key]
        n += 1
    return p


def check(case, cx):
    doc, url = case['doc'], case['url']
    base = url.rsplit('/', 1)[0]
    docs = {url: copy.deepcopy(doc), base + '/' + OTHER: copy.deepcopy(case['other'])}
    app = sut.app_of(docs, url=url, strict=False)
    items = dict(case['items'])
    scheme, _, rest = url.partition(':')
    rest = rest[2:] if rest.startswith('//') else ''
    host = doc.get('host') or rest.split('/')[0] or 'localhost'
    basep = doc.get('basePath')
    cx.label('from ' + scheme, 'host' if 'host' in doc else 'no host')
    kinds = set()

    def verify(when):
        for path, m in case['order']:
            raw, item = items[path][m], items[path]
            op = getattr(app.root.paths[path], m)
            at = '%s %s %s: ' % (when, m, path)
            own = [lookup(case, p) for p in raw.get('parameters', [])]
            keys = set((p['name'], p['in']) for p in own)
            shared = [lookup(case, p) for p in item.get('parameters', [])]
            eff = own + [p for p in shared if (p['name'], p['in']) not in keys]
            kinds.update(k for k, c in (('inherited', len(eff) > len(own)), ('own', own), ('overridden', len(eff) < len(own) + len(shared))) if c)
            got = [utils.final(p) for p in op.parameters or []]
            eq(sorted((p.name, getattr(p, 'in'), p.description, p.type, p.minLength, p.required or False) for p in got),
               sorted((p['name'], p['in'], p['description'], p['type'], p.get('minLength'), p.get('required', False)) for p in eff), at + 'parameters')
            for k in ('consumes', 'produces'):
                eq(list(getattr(op, k) or []), raw[k] if k in raw else doc.get(k, []), at + k)
                kinds.add(k + (' own' if k in raw else ' inherited' if k in doc else ' none'))
            eq(op.security, raw['security'] if 'security' in raw else doc.get('security'), at + 'security')
            want = raw.get('schemes') or doc.get('schemes') or [scheme]
            kinds.add('schemes ' + ('own' if raw.get('schemes') else 'inherited' if doc.get('schemes') else 'of url'))
            eq((op.method, op.path, op.base_path, op.url), (m, path, basep, '//' + host + (basep or '') + path), at + 'place')
            args = dict((p['name'], u'v' + p['name']) for p in eff)
            req, _ = op(**args)
            eq(list(req.schemes), list(want), at + 'schemes of the request')
            if any(p['in'] == 'formData' for p in eff) and 'application/x-www-form-urlencoded' not in (op.consumes or ['application/x-www-form-urlencoded']):
                continue
            req.prepare(scheme='http', handle_files=False)
            full = path
            for p in eff:
                if p['in'] == 'path':
                    full = full.replace('{%s}' % p['name'], u'v' + p['name'])
            eq((req.method, req.url, req.path, req.base_path), (m, 'http://' + host + (basep or '') + full, full, basep), at + 'request')
            eq(sorted(req.query), sorted((p['name'], u'v' + p['name']) for p in eff if p['in'] == 'query'), at + 'query')
            hs = dict((k, v) for k, v in req.header.items() if k not in ('Accept', 'Content-Type'))
            eq(hs, dict((p['name'], u'v' + p['name']) for p in eff if p['in'] == 'header'), at + 'headers')
            form = [p for p in eff if p['in'] == 'formData']
            if form:
                eq(sorted(req.data.split('&')), sorted('%s=v%s' % (p['name'], p['name']) for p in form), at + 'form')
    verify('first')
    verify('again')
    # what was declared is still there
    for k in ('consumes', 'produces', 'schemes'):
        eq(list(getattr(app.root, k)), doc.get(k, []), k + ' of the document')
    eq(app.root.security, doc.get('security'), 'security of the document')
    for path, item in case['items']:
        got = [utils.final(p).description for p in app.root.paths[path].parameters]
        eq(got, [lookup(case, p)['description'] for p in item.get('parameters', [])], 'parameters of path item ' + path)
        for m in docgen.METHODS:
            eq(getattr(app.root.paths[path], m) is not None, m in item, 'operation %s of %s' % (m, path))
    cx.label(*kinds)
    cx.nontrivial(('inherited' in kinds and ('own' in kinds or 'overridden' in kinds)) or any(sum(m in it for m in docgen.METHODS) > 1 for _, it in case['items']))


PARTS = [Part('inherit', gen, check, 4000)]
