# -*- coding: utf-8 -*-
"""Whole Swagger 2.0 documents, a reference resolver for them, and arguments."""
from . import values, ops
from .gen import LETTERS, WORD, TRICKY, UNI, ANY
from .values import kind

NAMES = LETTERS[:8] + u'_-./~$ :{}[]%#?&=' + UNI[:3]
PLAIN = LETTERS[:8] + u'_'
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
MEDIA = ['application/json', 'text/json', 'text/plain', 'application/xml', 'application/x-www-form-urlencoded', 'multipart/form-data', 'application/json; charset=utf-8']
STATUS = ['200', '201', '204', '400', '404', '500', 'default']


def esc(n):
    return n.replace('~', '~0').replace('/', '~1')


class Opt(object):
    """what a generated document may contain"""
    refs = True          # $ref to definitions, parameters, responses, path items
    cyclic = False       # schema references may form cycles
    meta = True          # fields without influence on requests (docs, xml, examples, vendor extensions)
    limits = True        # limits of values
    allof = True
    discriminator = True
    names = NAMES        # characters of names of components
    files = True
    item_refs = True
    defaults = True
    max_paths = 3
    max_defs = 4
    kinds = values.ALL
    security = True
    readonly = True
    digits = 0           # probability of names that are numbers

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(Opt, k), k
            setattr(self, k, v)


class Doc(object):
    def __init__(self, g, opt=None):
        self.g, self.o = g, opt or Opt()
        g = self.g
        self.def_names = self.fresh(g.int(0, self.o.max_defs))
        self.par_names = self.fresh(g.int(0, 2)) if self.o.refs else []
        self.res_names = self.fresh(g.int(0, 2)) if self.o.refs else []
        self.sec_names = self.fresh(g.int(0, 3)) if self.o.security else []
        self.opids = set()

    def fresh(self, n, chars=None):
        out = []
        for i in range(n):
            x = self.g.text(chars or self.o.names, 1, 5, 2)
            if self.o.digits and self.g.bool(self.o.digits):
                x = u'%d' % self.g.int(0, 999)
            while x in out or not x.strip():
                x += u'%d' % i
            out.append(x)
        return out

    def text(self, hi=8):
        return self.g.text(ANY, 1, hi, 3)

    def maybe(self, d, p=0.3, **fs):
        for k, f in fs.items():
            if self.g.bool(p):
                d[k.replace('_', '$') if k == '_ref' else k] = f()

    def meta(self, d, p=0.2, **fs):
        if self.o.meta:
            self.maybe(d, p, **fs)
            if self.g.bool(0.06):
                d['x-' + self.g.text(LETTERS, 1, 3)] = self.g.choice([1, u'x', {'a': [1]}, None, [], False])

    def docs(self):
        d = {'url': u'http://d.test/' + self.g.text(LETTERS, 0, 4)}
        self.meta(d, 0.4, description=self.text)
        return d

    # -- the whole -----------------------------------------------------
    def build(self):
        g = self.g
        d = {'swagger': '2.0', 'info': self.info(), 'paths': {}}
        self.maybe(d, 0.5, host=lambda: g.choice(['api.test', 'api.test:8080']), basePath=lambda: g.choice(['/v1', '/', '', '/a/b', '/v1/']),
                   schemes=lambda: g.sample(['http', 'https', 'ws'], 0, 2), consumes=lambda: g.sample(MEDIA, 0, 3), produces=lambda: g.sample(MEDIA, 0, 3))
        self.meta(d, 0.4, externalDocs=self.docs, tags=lambda: [self.tag(n) for n in self.fresh(g.int(0, 3))])
        if self.sec_names:
            d['securityDefinitions'] = dict((n, self.sec_scheme()) for n in self.sec_names)
            if g.bool(0.5):
                d['security'] = self.security()
        if self.def_names:
            d['definitions'] = {}
            for i, n in enumerate(self.def_names):
                with g.span():
                    self.allowed = self.def_names if self.o.cyclic else self.def_names[i + 1:]
                    d['definitions'][n] = self.schema(2)
        self.allowed = self.def_names
        if self.par_names:
            used = set()
            d['parameters'] = {}
            for n in self.par_names:
                d['parameters'][n] = self.param(g.choice(['query', 'header', 'query', 'formData']), used, refs=False)
        if self.res_names:
            d['responses'] = dict((n, self.response(False)) for n in self.res_names)
        self.doc = d
        for i in range(g.int(1, self.o.max_paths)):
            with g.span():
                path, item = self.path_item(i)
                d['paths'][path] = item
        if self.o.refs and self.o.item_refs and g.bool(0.15):
            t = g.choice(sorted(d['paths']))
            if '{' not in t and '$ref' not in d['paths'][t]:
                for m in METHODS:       # the same operation at two paths must not have an id
                    d['paths'][t].get(m, {}).pop('operationId', None)
                d['paths'][u'/ref' + g.text(LETTERS, 1, 3)] = {'$ref': '#/paths/' + esc(t)}
        return d

    def info(self):
        d = {'title': u'T', 'version': u'1'}
        if not self.o.meta:
            return d
        g = self.g
        self.meta(d, 0.3, description=self.text, termsOfService=self.text,
                  contact=lambda: dict((k, self.text()) for k in g.subset(['name', 'url', 'email'])),
                  license=lambda: dict([('name', self.text())] + ([('url', self.text())] if g.bool() else [])))
        return d

    def tag(self, n):
        d = {'name': n}
        self.meta(d, 0.4, description=self.text, externalDocs=self.docs)
        return d

    def sec_scheme(self):
        g = self.g
        t = g.choice(['basic', 'apiKey', 'oauth2'])
        d = {'type': t}
        if t == 'apiKey':
            d.update(name=g.text(LETTERS, 1, 4), **{'in': g.choice(['header', 'query'])})
        elif t == 'oauth2':
            d.update(flow=g.choice(['implicit', 'accessCode']), authorizationUrl='http://o.test/a', scopes=dict((n, self.text()) for n in self.fresh(g.int(1, 2))))
            if d['flow'] == 'accessCode':
                d['tokenUrl'] = 'http://o.test/t'
        self.meta(d, description=self.text)
        return d

    def security(self):
        g = self.g
        return [dict((n, ['s'] if self.doc_type(n) == 'oauth2' and g.bool() else []) for n in g.sample(self.sec_names, 1, 2)) for _ in range(g.int(1, 2))]

    def doc_type(self, n):
        return None

    # -- schemas -------------------------------------------------------
    def ref(self, n, where='definitions'):
        return {'$ref': '#/%s/%s' % (where, esc(n))}

    def schema(self, depth):
        g = self.g
        with g.span():
            k = g.weighted([(5, 'scalar'), (2 if depth else 0, 'array'), (4 if depth else 0, 'object'),
                            (3 if self.o.refs and self.allowed else 0, 'ref'), (1.5 if depth and self.o.allof else 0, 'allOf'), (0.3, 'any')])
            if k == 'ref':
                return self.ref(g.choice(self.allowed))
            if k == 'scalar':
                d = self.scalar(True)
            elif k == 'array':
                d = {'type': 'array', 'items': self.schema(depth - 1)}
                if self.o.limits:
                    self.maybe(d, 0.2, minItems=lambda: g.int(0, 1), maxItems=lambda: g.int(1, 5), uniqueItems=g.bool)
                self.array_default(d)
            elif k == 'object':
                d = self.obj(depth)
            elif k == 'allOf':
                d = {'allOf': [self.ref(g.choice(self.allowed)) if self.o.refs and self.allowed and g.bool() else self.obj(depth - 1) for _ in range(g.int(1, 3))]}
                if g.bool(0.5):
                    d.update(self.obj(depth - 1))
            else:
                d = {}
            self.meta(d, 0.12, title=self.text, description=self.text, example=lambda: g.choice([1, u'x', {'a': None}, [1, None, {}], True, {}, 0, False, u'']),
                      xml=lambda: dict((k, self.text()) if k in ('name', 'prefix', 'namespace') else (k, True) for k in g.subset(['name', 'prefix', 'namespace', 'attribute', 'wrapped'])),
                      externalDocs=self.docs)
            return d

    def obj(self, depth):
        g = self.g
        d = {'type': 'object'} if g.bool(0.8) else {}
        names = self.fresh(g.int(0, 3))
        if names or g.bool(0.1):
            d['properties'] = dict((n, self.schema(max(0, depth - 1))) for n in names)
        if self.o.readonly:
            for n in names:
                p = d['properties'][n]
                if '$ref' not in p and g.bool(0.06):
                    p['readOnly'] = True
        req = [n for n in g.subset(names, 0.3) if not d['properties'][n].get('readOnly')]
        if req:
            d['required'] = req
        a = g.weighted([(6, None), (1, True), (1, False), (1, 'schema')])
        if a == 'schema':
            a = self.schema(max(0, depth - 1))
        if a is not None:
            d['additionalProperties'] = a
        if self.o.meta:
            self.maybe(d, 0.08, maxProperties=lambda: g.int(3, 9), minProperties=lambda: g.int(0, 1))
        if self.o.discriminator and names and g.bool(0.08):
            d['discriminator'] = g.choice(names)
        return d

    def scalar(self, schema=False):
        """type, format, limits, enum, default"""
        g = self.g
        d = values.scalar(g, self.o.kinds)
        k = kind(d)
        if self.o.limits and g.bool(0.3):
            if k in ('int', 'num'):
                self.maybe(d, 0.4, minimum=lambda: g.int(-9, 0) if g.bool() else g.int(-90, 0) / 10.0, maximum=lambda: g.int(0, 99),
                           exclusiveMinimum=g.bool, exclusiveMaximum=g.bool)
                if g.bool(0.2):
                    d['multipleOf'] = g.choice([1, 2, 5])
            elif k == 'str':
                self.maybe(d, 0.4, minLength=lambda: g.int(0, 2), maxLength=lambda: g.int(3, 9), pattern=lambda: u'^.*$')
                if g.bool(0.25):
                    d['enum'] = [g.text(LETTERS, 0, 3) for _ in range(g.int(1, 3))]
        if self.o.defaults and g.bool(0.1):
            d['default'] = ops.jsonable(d, values.value(g, d, text=True)) if k not in ('byte',) else u'YQ=='
            if isinstance(d['default'], float) and abs(d['default']) > 1e15:
                d['default'] = 1.5
        return d

    def array_default(self, d):
        g, it = self.g, d['items']
        if not self.o.defaults or any(k in it for k in ('enum', 'minimum', 'maximum', 'multipleOf', 'minLength', 'maxLength', 'format', '$ref', 'default')) or not g.bool(0.2):
            return
        if it.get('type') in ('integer', 'string', 'boolean'):
            c = {'integer': [2, 1, 0], 'string': [u'b', u'a', u''], 'boolean': [True, False]}[it['type']]
            n = d.get('maxItems', 4)
            d['default'] = g.list(lambda: g.choice(c), 1, n) if n > 1 else [c[0]]

    def param(self, where, used, refs=True):
        g = self.g
        if where == 'body':
            d = {'name': self.pname(used), 'in': 'body', 'schema': self.schema(2)}
            if g.bool():
                d['required'] = True
        elif where == 'file':
            d = {'name': self.pname(used), 'in': 'formData', 'type': 'file'}
        else:
            d = {'name': self.pname(used, where), 'in': where}
            if g.bool(0.2):
                it = self.scalar()
                it.pop('default', None)
                d.update(type='array', items=it)
                if g.bool(0.15):
                    d['items'] = {'type': 'array', 'items': it, 'collectionFormat': 'ssv'}
                if g.bool(0.5):
                    d['collectionFormat'] = g.choice(['csv', 'ssv', 'tsv', 'pipes'] + (['multi'] if where in ('query', 'formData') else []))
                if self.o.limits:
                    self.maybe(d, 0.1, minItems=lambda: g.int(0, 1), maxItems=lambda: g.int(1, 5), uniqueItems=g.bool)
                self.array_default(d)
            else:
                d.update(self.scalar())
            if where == 'path':
                d['required'] = True
                d.pop('default', None)
            elif g.bool(0.3):
                d['required'] = g.bool(0.7)
            if self.o.meta and g.bool(0.05):
                d['allowEmptyValue'] = True
        self.meta(d, 0.15, description=self.text)
        return d

    def pname(self, used, where=None):
        n = ops.name(self.g, used, ops.HEADER_CHARS if where == 'header' else ops.NAME_CHARS.replace(u' ', u'') if where == 'path' else ops.NAME_CHARS)
        return n

    def response(self, refs=True):
        g = self.g
        if refs and self.o.refs and self.res_names and g.bool(0.25):
            return self.ref(g.choice(self.res_names), 'responses')
        d = {'description': self.text() if self.o.meta else u'd'}
        if g.bool(0.6):
            d['schema'] = self.schema(2)
        if g.bool(0.3):
            d['headers'] = {}
            for n in g.sample(['X-A', 'X-B', 'ETag'], 1, 2):
                h = self.scalar()
                h.pop('default', None)
                if g.bool(0.2):
                    h = {'type': 'array', 'items': h, 'collectionFormat': g.choice(['csv', 'pipes'])}
                self.meta(h, 0.2, description=self.text)
                d['headers'][n] = h
        self.meta(d, 0.15, examples=lambda: {'application/json': {'a': [1, u'x']}})
        return d

    def path_item(self, i):
        g = self.g
        used = set()
        path = u'/p%d' % i + g.choice([u'', u'/', u'/' + g.text(LETTERS + u'-_.~', 1, 4)])
        shared = []
        for _ in range(g.weighted([(3, 0), (2, 1), (1, 2)])):
            shared.append(self.param(g.choice(['query', 'header', 'path']), used))
        tmpl = [p for p in shared if p['in'] == 'path']
        item = {}
        if shared or g.bool(0.05):
            item['parameters'] = [p for p in shared]
        npath = [self.param('path', used) for _ in range(g.weighted([(3, 0), (2, 1)]))]
        for p in tmpl + npath:
            path += u'/{%s}' % p['name']
        for m in g.sample(METHODS, 0 if g.bool(0.05) else 1, 3):
            with g.span():
                item[m] = self.operation(set(used), npath, shared)
        return path, item

    def operation(self, used, npath, shared):
        g = self.g
        op = {'responses': {}}
        for c in g.sample(STATUS, 1, 3):
            op['responses'][c] = self.response()
        if g.bool(0.85):
            n = u'op%d' % len(self.opids)
            self.opids.add(n)
            op['operationId'] = n
        ps = [dict(p) for p in npath]
        for p in shared:
            if p['in'] != 'path' and g.bool(0.2):       # overridden by the operation
                q = dict(self.param(p['in'], set()), name=p['name'])
                ps.append(q)
        payload = g.choice([None, None, 'body', 'form', 'file' if self.o.files else 'form'])
        for _ in range(g.int(0, 3)):
            ps.append(self.param(g.choice(['query', 'query', 'header']), used))
        if payload == 'body':
            ps.append(self.param('body', used))
        elif payload:
            ps += [self.param('formData', used) for _ in range(g.int(1, 2))]
            if payload == 'file':
                ps.append(self.param('file', used))
        if self.o.refs and payload != 'body' and g.bool(0.3):
            for n in g.sample(self.par_names, 0, 1):
                p = self.doc['parameters'][n]
                if p['name'].lower() not in used:
                    used.add(p['name'].lower())
                    ps.append(self.ref(n, 'parameters'))
        if ps or g.bool(0.1):
            op['parameters'] = g.shuffle(ps)
        need = {'form': 'application/x-www-form-urlencoded', 'file': 'multipart/form-data'}.get(payload)
        self.maybe(op, 0.3, produces=lambda: g.sample(MEDIA, 0, 2), schemes=lambda: g.sample(['http', 'https', 'ws', 'wss'], 0, 2))
        if need or g.bool(0.3):
            op['consumes'] = g.shuffle(([need] if need else []) + [m for m in g.sample(MEDIA, 0, 2) if m != need])
        for k in ('consumes', 'produces'):
            if op.get(k) == [] and self.doc.get(k):     # clears those of the document, but is lost on dump (known finding)
                del op[k]
        if self.sec_names and g.bool(0.3):
            op['security'] = self.security()
        if g.bool(0.5):
            op['tags'] = self.fresh(g.int(0, 2), PLAIN)
        self.meta(op, 0.15, summary=self.text, description=self.text, externalDocs=self.docs, deprecated=lambda: True)
        return op


def document(g, **kw):
    return Doc(g, Opt(**kw)).build()


# -- reference resolver ----------------------------------------------------
def lookup(doc, ref):
    assert ref.startswith('#/')
    o = doc
    for t in ref[2:].split('/'):
        t = t.replace('~1', '/').replace('~0', '~')
        o = o[int(t)] if isinstance(o, list) else o[t]
    return o


def deref(doc, o):
    n = 0
    while isinstance(o, dict) and '$ref' in o and n < 20:
        o = lookup(doc, o['$ref'])
        n += 1
    return o


def operations(doc):
    """(path, method, operation, path item), path item references followed"""
    for path in sorted(doc['paths']):
        item = doc['paths'][path]
        real = dict(deref(doc, item))
        for k, v in item.items():
            if k != '$ref':
                real[k] = v
        for m in METHODS:
            if m in real:
                yield path, m, real[m], real


def params(doc, op, item):
    own = [deref(doc, p) for p in op.get('parameters', [])]
    keys = set((p['name'], p['in']) for p in own)
    return own + [p for p in (deref(doc, q) for q in item.get('parameters', [])) if (p['name'], p['in']) not in keys]


# -- plausible values ------------------------------------------------------
def value(g, doc, s, depth=4, wild=0.04):
    """a value that mostly fits the schema"""
    s = deref(doc, s)
    if g.bool(wild):
        return g.choice([1, u'x', None, [], {}, True, 1.5])
    if s.get('enum'):
        return g.choice(s['enum'])
    t = s.get('type')
    if t == 'array':
        return g.list(lambda: value(g, doc, s['items'], depth - 1, wild), 0, 3, 1.5) if depth > 0 else []
    if t == 'object' or 'properties' in s or 'allOf' in s:
        out = {}
        if depth <= 0:
            return out
        seen = []
        flat(doc, s, seen, 0)
        for x in seen:
            for n, p in x.get('properties', {}).items():
                if n in x.get('required', []) or g.bool(0.6):
                    if not deref(doc, p).get('readOnly') or g.bool(0.1):
                        out.setdefault(n, value(g, doc, p, depth - 1, wild))
            if g.bool(0.15):
                a = x.get('additionalProperties', True)
                out[u'x' + g.text(LETTERS, 0, 2)] = value(g, doc, a, depth - 1, wild) if isinstance(a, dict) else g.choice([1, u'x', None])
        return out
    if t is None:
        return g.choice([1, u'x', [1], {'a': 1}, True])
    return fit(g, s, depth)


def flat(doc, s, out, n):
    s = deref(doc, s)
    out.append(s)
    if n < 6 and len(out) < 12:
        for a in s.get('allOf', []):
            flat(doc, a, out, n + 1)


def fit(g, s, depth=0):
    if 'minimum' in s or 'maximum' in s or 'multipleOf' in s:
        m = s.get('multipleOf', 1)
        lo, hi = s.get('minimum', -20), s.get('maximum', 20)
        lo, hi = int(lo), int(hi)
        v = g.int(lo, max(lo, hi)) if g.bool(0.9) else hi + 1
        return v - v % m
    if 'minLength' in s or 'maxLength' in s:
        return g.text(ANY, s.get('minLength', 0), s.get('maxLength', 9))
    return values.value(g, s, text=True, alphabet=WORD[:10] + u' &/%+=\u00e9')


def argument(g, doc, p, tmpfiles=True):
    if p['in'] == 'body':
        return value(g, doc, p['schema'])
    if p.get('type') == 'file':
        return {'__file__': 'bytes', 'header': {}, 'data': values.some_bytes(g), 'filename': u'f.txt'}
    if p.get('type') == 'array':
        it = p['items']
        if it.get('type') == 'array':
            return g.list(lambda: g.list(lambda: fit(g, it['items']) if not it['items'].get('enum') else g.choice(it['items']['enum']), 1, 3), 0, 3)
        return g.list(lambda: fit(g, it) if not it.get('enum') else g.choice(it['enum']), 0, 3)
    if p.get('enum'):
        return g.choice(p['enum'])
    if p['in'] == 'path':
        v = fit(g, p)
        return v
    return fit(g, p)


def arguments(g, doc, op, item, p_opt=0.6):
    out = {}
    for p in params(doc, op, item):
        if (p.get('required') and g.bool(0.97)) or (not p.get('required') and g.bool(p_opt)):
            out[p['name']] = argument(g, doc, p)
    if g.bool(0.03):
        out['nobody'] = 1
    return out


def calls(g, doc, n=4):
    """[(path, method, arguments, consume, produce, response)]"""
    allops = list(operations(doc))
    out = []
    if not allops:
        return out
    for _ in range(n):
        path, m, op, item = g.choice(allops)
        with g.span():
            out.append(dict(path=path, method=m, args=arguments(g, doc, op, item), resp=response(g, doc, op)))
    return out


def response(g, doc, op):
    code = g.choice(sorted(op['responses']))
    d = deref(doc, op['responses'][code])
    status = 418 if code == 'default' else int(code)
    body = None
    if g.bool(0.8):
        body = wire(value(g, doc, d['schema'], wild=0.02)) if 'schema' in d else g.choice([1, u'x'])
    hs = []
    for n, h in d.get('headers', {}).items():
        v = value(g, doc, h, wild=0.02)
        hs.append((n, text(h, v)))
    return dict(status=status, body=body, headers=hs)


def text(s, v):
    if isinstance(v, list):
        sep = ops.SEP.get(s.get('collectionFormat'), u',')
        return sep.join(text(s.get('items', {}), x) for x in v)
    v = wire(v)
    return v if isinstance(v, str) else u'%s' % (v,)


def wire(v):
    import datetime
    import uuid
    if isinstance(v, dict):
        return dict((k, wire(x)) for k, x in v.items())
    if isinstance(v, list):
        return [wire(x) for x in v]
    if isinstance(v, datetime.datetime):
        return values.iso(v)
    if isinstance(v, (datetime.date, uuid.UUID)):
        return u'%s' % v
    if isinstance(v, bytes):
        return u'YQ=='
    return v
