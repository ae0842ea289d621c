# -*- coding: utf-8 -*-
import json
from urllib.parse import unquote

from pyswagger.primitives import Primitive, MimeCodec

from pbt import sut
from pbt.engine import Part, fail, eq, check as ensure, outcome, raises
from pbt.gen import LETTERS

RULE = ("prim: factories with generated registrations (own and built-in types and formats, one or two passes, before or after loading), operations whose "
        "parameters, bodies, responses and headers use them at any depth; every converted value is compared with a reference conversion, and a second "
        "application is not affected. codec: histories of registering, unregistering, sending and receiving over two codec sets and generated spellings of "
        "media types. Non-trivial: at least one value handled by a registration, at least one use of a registered codec.")
ASSUMPTIONS = ["a handler for a type without format leaves the built-in formats of this type alone",
               "codecs are registered by plain media types (without parameters)", "handled objects are not composed by allOf"]

LEAVES = [('string', None), ('string', 'enc'), ('integer', None), ('integer', 'enc'), ('integer', 'int32'), ('number', None), ('boolean', None), ('string', 'uuid'),
          ('x-money', None), ('x-money', 'eur'), ('string', 'foo')]
REGS = LEAVES + [('object', 'enc'), ('array', 'enc'), ('object', None), ('number', 'int32')]
BUILTIN = {'string': [None, '', 'email', 'uuid', 'password', 'byte', 'binary', 'date', 'date-time'], 'integer': [None, 'int32', 'int64'],
           'number': [None, 'float', 'double', 'int32', 'int64'], 'boolean': [None, ''], 'array': [None, ''], 'object': [None, '']}


class Box(object):
    """what the registered handlers make"""
    def __init__(self, tag, v, read):
        self.tag, self.v, self.read, self.passed = tag, v, read, 0

    def __str__(self):
        return '<%s:%s:%s:%s>' % (self.tag, self.v, self.passed, self.read)

    def to_json(self):
        return ['box', self.tag, self.v, self.passed, self.read]


def creator(tag, t, f):
    def create(obj, val, ctx):
        if (obj.type, obj.format) != (t, f) and not (f is None and obj.type == t):
            fail('handler of %r got an object of %r' % ((t, f), (obj.type, obj.format)))
        return Box(tag, val, ctx.get('read'))
    return create


def second(obj, ret, val, ctx):
    ret.passed += 1
    return val


def factory_of(regs):
    f = Primitive()
    register(f, regs)
    return f


def register(f, regs):
    for i, (t, fm, two) in enumerate(regs):
        if two:
            f.register(t, fm, creator('h%d' % i, t, fm), second)
        else:
            f.register(t, fm, creator('h%d' % i, t, fm))


# -- generation ------------------------------------------------------------
class Gen(object):
    def __init__(self, g):
        self.g = g
        regs = g.sample(REGS, 0, 4)
        self.regs = [(t, f, g.bool(0.4)) for t, f in regs]
        self.plainobj = ('object', None) not in regs
        own = [l for l in LEAVES if l[0] != 'x-money'] + [r for r in regs if r[0] == 'x-money'] + [l for l in regs if l in LEAVES] * 3
        if g.bool(0.05):
            own = LEAVES
        self.leaves = own
        self.fmt = dict((t, [None] + [f for t2, f in regs if t2 == t and f]) for t in ('object', 'array'))
        self.defs = {}
        for n in g.sample(['A', 'B'], 0, 2):
            self.defs[n] = self.schema(2)

    def leaf(self, default=True):
        g = self.g
        t, f = g.choice(self.leaves)
        s = {'type': t}
        if f is not None:
            s['format'] = f
        if default and g.bool(0.2):
            s['default'] = self.value(s)
        return s

    def schema(self, depth):
        g = self.g
        k = g.weighted([(4, 'leaf'), (3 if depth else 0, 'obj'), (2 if depth else 0, 'arr'), (1 if self.defs else 0, 'ref')])
        if k == 'leaf':
            return self.leaf()
        if k == 'ref':
            return {'$ref': '#/definitions/' + g.choice(sorted(self.defs))}
        if k == 'arr':
            s = {'type': 'array', 'items': self.schema(depth - 1)}
        else:
            s = {'type': 'object', 'properties': dict((n, self.schema(depth - 1)) for n in g.sample(['a', 'b', 'c'], 0, 3))}
            if g.bool(0.3):
                s['additionalProperties'] = self.schema(depth - 1)
        f = g.choice(self.fmt[s['type']])
        if f:
            s['format'] = f
        elif s['type'] == 'object' and self.plainobj and g.bool(0.25):
            s['allOf'] = [{'type': 'object', 'properties': dict((n, self.schema(depth - 1)) for n in g.sample(['d', 'e'], 1, 2))}]
        return s

    def value(self, s):
        g = self.g
        if '$ref' in s:
            return self.value(self.defs[s['$ref'][14:]])
        t = s['type']
        if t in ('integer', 'number'):
            return g.int(-99, 99)
        if t == 'boolean':
            return g.bool()
        if t == 'array':
            return [self.value(s['items']) for _ in range(g.int(0, 3))]
        if t == 'object':
            out = {}
            for o in [s] + s.get('allOf', []):
                for n, p in o.get('properties', {}).items():
                    if g.bool(0.8):
                        out[n] = self.value(p)
            if s.get('additionalProperties') and 'allOf' not in s and g.bool():
                out['x'] = self.value(s['additionalProperties'])
            return out
        if s.get('format') == 'uuid':
            return u'c1b0b6ac-5f0d-4a3c-8b1e-%012d' % g.int(0, 99)
        return g.text(LETTERS, 1, 4)


def gen_prim(g):
    b = Gen(g)
    params = []
    for i in range(g.int(0, 4)):
        with g.span():
            s = b.leaf()
            where = g.choice(['query', 'header', 'path', 'formData'])
            if g.bool(0.3):
                s = {'type': 'array', 'items': b.leaf(False), 'collectionFormat': g.choice(['csv', 'pipes'] + (['multi'] if where in ('query', 'formData') else []))}
            v = None if 'default' in s and g.bool(0.5) and where != 'path' else b.value(s)
            if isinstance(v, list) and not v:
                v = [b.value(s['items'])]
            params.append((dict(s, name='p%d' % i, required=(where == 'path'), **{'in': where}), v))
    form = any(p['in'] == 'formData' for p, _ in params)
    body = (b.schema(3), None) if not form and g.bool(0.7) else None
    if body:
        body = (body[0], b.value(body[0]))
    resp = b.schema(3) if g.bool(0.7) else None
    headers = []
    for i in range(g.int(0, 2)):
        s = b.leaf(False)
        if g.bool(0.3):
            s = {'type': 'array', 'items': s}
        v = b.value(s)
        headers.append((s, v or [b.value(s['items'])] if isinstance(v, list) else v))
    return dict(regs=b.regs, defs=b.defs, params=params, body=body, resp=resp and (resp, b.value(resp)), headers=headers, late=g.bool(0.3))


# -- reference ---------------------------------------------------------------
class Refused(Exception):
    pass


class Model(object):
    def __init__(self, regs, defs):
        self.defs, self.n = defs, 0
        self.own = {}
        for i, (t, f, two) in enumerate(regs):
            self.own[t, f] = ('h%d' % i, two)

    def handler(self, t, f):
        if (t, f) in self.own:
            return self.own[t, f]
        if f in BUILTIN.get(t, []):
            return None
        if (t, None) in self.own:
            return self.own[t, None]
        if t not in BUILTIN:
            raise Refused()
        return None

    def conv(self, s, v, read):
        """-> plain structure; boxes as lists"""
        while '$ref' in s:
            s = self.defs[s['$ref'][14:]]
        if v is None:
            v = s.get('default')
        if v is None:
            return None
        t = s['type']
        h = self.handler(t, s.get('format'))
        if h:
            self.n += 1
            return ['box', h[0], v, 1 if h[1] else 0, read]
        if t == 'array':
            if isinstance(v, str):
                v = v.split({'csv': ',', 'pipes': '|'}[s.get('collectionFormat', 'csv')])
            return [self.conv(s['items'], x, read) for x in v]
        if t == 'object':
            out, left = {}, dict(v)
            for o in [s] + s.get('allOf', []):
                for n, p in o.get('properties', {}).items():
                    if n in v:
                        out[n] = self.conv(p, left.pop(n), read)
                    else:
                        while '$ref' in p:
                            p = self.defs[p['$ref'][14:]]
                        if 'default' in p:
                            out[n] = self.conv(p, p['default'], read)
            for n, x in left.items():
                a = s.get('additionalProperties')
                out[n] = self.conv(a, x, read) if a else x
            return out
        if t in ('integer', 'number'):
            return float(v) if t == 'number' and s.get('format') != 'int32' else int(v)
        if t == 'boolean':
            return v if isinstance(v, bool) else v == 'True'
        return v


def text(x):
    if isinstance(x, list) and x and x[0] == 'box':
        return '<%s:%s:%s:%s>' % (x[1], x[2], x[3], x[4])
    return str(x)


def texts(s, x):
    """text(s) of a converted parameter"""
    if s['type'] == 'array' and not (x and x[0] == 'box'):
        f = s.get('collectionFormat', 'csv')
        ts = [text(y) for y in x]
        return ts if f == 'multi' else [{'csv': ',', 'pipes': '|'}[f].join(ts)]
    return [text(x)]


def check_prim(case, cx):
    ps = [p for p, _ in case['params']]
    path = '/op' + ''.join('/{%s}' % p['name'] for p in ps if p['in'] == 'path')
    if case['body']:
        ps = ps + [{'name': 'body', 'in': 'body', 'schema': case['body'][0]}]
    r = {'description': u''}
    if case['resp']:
        r['schema'] = case['resp'][0]
    if case['headers']:
        r['headers'] = dict(('X-H%d' % i, s) for i, (s, _) in enumerate(case['headers']))
    doc = sut.one_op(ps, 'post', path, definitions=case['defs'], responses={'200': r})
    f = Primitive()
    if not case['late']:
        register(f, case['regs'])
    app = sut.app_of(doc, prim=f)
    if case['late']:
        register(f, case['regs'])
    ensure(app.prim_factory is f, 'prim_factory')
    n = use(case, app, Model(case['regs'], case['defs']))
    cx.label('registered late' if case['late'] else 'registered before', 'refused' if n is None else 'used')
    cx.nontrivial(n)
    # others are not affected
    plain = sut.app_of(doc)
    ensure(plain.prim_factory is not f, 'prim_factory is shared')
    use(case, plain, Model([], case['defs']))


def use(case, app, m):
    args = dict((p['name'], v) for p, v in case['params'] if v is not None)
    try:
        want = [(p, m.conv(p, v, False)) for p, v in case['params']]
        body = None
        if case['body']:
            args['body'] = case['body'][1]
            body = m.conv(case['body'][0], case['body'][1], False)
    except Refused:
        raises(lambda: app.op['op'](**args))
        return None
    req, resp = app.op['op'](**args)
    req.prepare(scheme='http')
    segs = [unquote(x) for x in req.path.split('/')[2:]]
    eq(segs, [texts(p, x)[0] for p, x in want if p['in'] == 'path'], 'path')
    for place, got in (('query', req.query), ('header', sorted((k, v) for k, v in req.header.items() if k[0] == 'p')), ('formData', req._p['formData'])):
        eq([tuple(x) for x in got], [(p['name'], t) for p, x in want if p['in'] == place for t in texts(p, x)], place)
    if case['body'] and body != {}:
        eq(json.loads(req.data), body, 'body')
    try:
        wh = [[m.conv(s, v if not isinstance(v, list) else ','.join(map(str, v)), True)] if s['type'] == 'array' else [m.conv(s, str(v), True)] for s, v in case['headers']]
        wb = m.conv(case['resp'][0], case['resp'][1], True) if case['resp'] else None
    except Refused:
        raises(lambda: receive(case, resp))
        return None
    receive(case, resp)
    for i, w in enumerate(wh):
        eq([sut.plain(x) for x in resp.header['X-H%d' % i]], w, 'header %d' % i)
    eq(sut.plain(resp.data), wb, 'response')
    return m.n


def receive(case, resp):
    resp.apply_with(status=200, header=[('Content-Type', 'application/json')] + [('X-H%d' % i, v if isinstance(v, str) else ','.join(map(str, v)) if isinstance(v, list)
                    else str(v)) for i, (_, v) in enumerate(case['headers'])])
    resp.apply_with(raw=json.dumps(case['resp'][1] if case['resp'] else 1))


# -- codecs --------------------------------------------------------------
TYPES = ['application/x-a', 'text/x-b', 'application/json', 'text/plain', 'application/vnd.c+json']
DEFAULTS = {'application/json': 'json', 'text/json': 'json', 'text/plain': 'plain'}


def spell(g, mt, params=True):
    if g.bool(0.4):
        mt = g.choice([mt.upper(), mt.title(), mt.capitalize(), mt[:-1] + mt[-1].upper()])
    if params and g.bool(0.4):
        mt += g.choice(['; charset=utf-8', ';v=1', ' ; a="b;c"', ';'])
    return mt


def gen_codec(g):
    steps = []
    for _ in range(g.int(1, 9)):
        with g.span():
            k = g.weighted([(3, 'send'), (3, 'receive'), (3, 'register'), (1.5, 'unregister'), (1, 'codec')])
            mt = g.choice(TYPES)
            steps.append((k, g.int(0, 1), spell(g, mt, k not in ('register', 'unregister')), mt, g.int(0, 3), g.choice(['inline', 'M'])))
    return dict(steps=steps, shared=g.bool(0.2), given=g.bool(), title=g.choice([None, u'T', u'M', u'N']))


class Codec(object):
    def __init__(self, n, log):
        self.n, self.log = n, log

    def marshal(self, value, **kw):
        self.log.append(('marshal', self.n, sut.plain(value), kw))
        return 'c%d' % self.n

    def unmarshal(self, data, **kw):
        self.log.append(('unmarshal', self.n, data, kw))
        return {'n': self.n}


def check_codec(case, cx):
    log = []
    mimes = sorted(set(s[2] for s in case['steps']))
    paths = {}
    for i, mt in enumerate(mimes):
        for kind in ('inline', 'M'):
            sch = {'type': 'object', 'properties': {'n': {'type': 'integer'}}} if kind == 'inline' else {'$ref': '#/definitions/M'}
            paths['/%s%d' % (kind, i)] = {'post': dict(operationId='%s%d' % (kind, i), consumes=['x/y', mt], parameters=[{'name': 'b', 'in': 'body', 'schema': sch}],
                                                       responses={'200': {'description': u'', 'schema': sch}})}
    doc = sut.doc_with(paths, definitions={'M': {'type': 'object', 'format': 'fm', 'properties': {'n': {'type': 'integer'}}}})
    if case.get('title'):
        doc['definitions']['M']['title'] = case['title']
    if case['shared']:
        codecs = [MimeCodec()] * 2
        model = [dict(DEFAULTS)] * 2
    else:
        codecs = [MimeCodec() if case['given'] else None, None]
        model = [dict(DEFAULTS), dict(DEFAULTS)]
    apps = [sut.app_of(doc, mime_codec=c) if c else sut.app_of(doc) for c in codecs]
    codecs = [c or a.mime_codec for c, a in zip(codecs, apps)]
    for c, a in zip(codecs, apps):
        ensure(a.mime_codec is c, 'mime_codec of the application')
    used = 0
    for k, w, mt, base, n, kind in case['steps']:
        del log[:]
        c, m, app = codecs[w], model[w], apps[w]
        have = m.get(base)
        kw = dict(name='M' if kind == 'M' else None, _type='object', _format='fm' if kind == 'M' else None)
        if k == 'register':
            c.register(mt, Codec(n, log))
            m[base] = n
        elif k == 'unregister':
            if have is None:
                raises(lambda: c.unregister(mt))
            else:
                c.unregister(mt)
                del m[base]
        elif k == 'codec':
            got = c.codec(mt)
            ensure((got is None) == (have is None) and (not isinstance(have, int) or got.n == have), 'codec(%r) is %r, expected %r' % (mt, got, have))
        elif k == 'send':
            req, _ = app.op['%s%d' % (kind, mimes.index(mt))](b={'n': n})
            req.consume(mt)
            if have is None:
                raises(lambda: req.prepare(scheme='http'))
                continue
            if have == 'plain':
                continue
            req.prepare(scheme='http')
            eq(req.header['Content-Type'], mt, 'content type')
            if have == 'json':
                eq(json.loads(req.data), {'n': n}, 'body')
                eq(log, [], 'codecs used')
            else:
                used += 1
                eq(req.data, 'c%d' % have, 'body')
                eq(log, [('marshal', have, {'n': n}, kw)], 'codecs used')
        else:
            _, resp = app.op['%s%d' % (kind, mimes.index(mt))](b={'n': n})
            go = lambda: resp.apply_with(status=200, header={'content-Type': mt}, raw='{"n": %d}' % n)
            if have is None:
                raises(go)
                continue
            if have == 'plain':
                continue
            go()
            if have == 'json':
                eq(sut.plain(resp.data), {'n': n}, 'data')
                eq(log, [], 'codecs used')
            else:
                used += 1
                eq(sut.plain(resp.data), {'n': have}, 'data')
                eq(log, [('unmarshal', have, '{"n": %d}' % n, kw)], 'codecs used')
    cx.label('shared' if case['shared'] else 'own')
    cx.nontrivial(used)


PARTS = [Part('prim', gen_prim, check_prim, 4000), Part('codec', gen_codec, check_codec, 4000)]
