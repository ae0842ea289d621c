# -*- coding: utf-8 -*-
import copy

from pyswagger import utils

from pbt import sut, compose
from pbt.compose import esc
from pbt.engine import Part, fail, eq, check as ensure
from pbt.gen import LETTERS

RULE = ("aggregate: definitions, some in a second document, composed by allOf (inline or by reference, aliases, any depth, optionally cyclic) with marked "
        "properties and fields that are defined at several levels; the effective schema of every one, wherever it is used, is compared with a direct "
        "reading, and the dump with the document. Non-trivial: at least one schema that composes two others or one that composes others.")
ASSUMPTIONS = ["when two composed schemas, neither of which composes the other, define one property or field, either is accepted",
               "enum is not among the fields compared"]

ROOT, OTHER = 'http://h.test/api/swagger.json', 'http://h.test/api/sub/o.json'
REL = {(ROOT, ROOT): '', (OTHER, OTHER): '', (ROOT, OTHER): 'sub/o.json', (OTHER, ROOT): '../swagger.json'}
NAMES = [u'A', u'B', u'C', u'D', u'E', u'a/b', u'F']
PROPS = [u'a', u'b', u'c', u'd', u'items', u'x/y']
FIELDS = ['title', 'description', 'maxProperties', 'discriminator', 'minProperties', 'default', 'example']


class Gen(object):
    def __init__(self, g):
        self.g, self.n = g, 0
        n = g.int(1, 6)
        names = NAMES[:n]
        self.home = dict((x, OTHER if g.bool(0.25) else ROOT) for x in names)
        self.names = names
        self.cyclic = g.bool(0.3)
        self.defs = {}
        for i, x in enumerate(names):
            with g.span():
                self.at = self.home[x]
                self.rest = names if self.cyclic else names[i + 1:]
                if self.rest and g.bool(0.1):
                    self.defs[x] = self.ref()
                else:
                    self.defs[x] = self.schema(2)

    def ref(self):
        t = self.g.choice(self.rest)
        return {'$ref': REL[self.at, self.home[t]] + '#/definitions/' + esc(t)}

    def mark(self):
        self.n += 1
        return self.n

    def opaque(self):
        m = u'm%d' % self.mark()
        return self.g.choice([m, self.n, [m], [m, u'x', m], {'m': m}, {'m': [m]}, {'m': {m: 1}}])

    def prop(self, depth):
        g = self.g
        k = g.weighted([(5, 'plain'), (2 if self.rest else 0, 'ref'), (1 if depth else 0, 'deep'), (1 if depth else 0, 'array')])
        if k == 'ref':
            return self.ref()
        if k == 'deep':
            return self.schema(depth - 1)
        if k == 'array':
            return {'type': 'array', 'items': self.ref() if self.rest and g.bool() else self.schema(depth - 1), 'title': u'm%d' % self.mark()}
        return {'type': g.choice(['string', 'integer', 'boolean']), 'title': u'm%d' % self.mark()}

    def schema(self, depth):
        g = self.g
        d = {}
        if g.bool(0.6):
            d['type'] = 'object'
        ns = g.sample(PROPS, 0, 3)
        if ns:
            d['properties'] = dict((n, self.prop(depth)) for n in ns)
        rq = g.sample(PROPS, 0, 2)
        if rq:
            d['required'] = rq
        for f in FIELDS:
            if g.bool(0.2):
                d[f] = g.choice(PROPS[:4]) if f == 'discriminator' else self.opaque() if f in ('default', 'example') else u'm%d' % self.mark() if f in ('title', 'description') else self.mark()
        if depth and g.bool(0.15):
            d['additionalProperties'] = self.prop(depth - 1)
        if depth and g.bool(0.6):
            d['allOf'] = [self.ref() if self.rest and g.bool(0.65) else self.schema(depth - 1) for _ in range(g.int(1, 3))]
        return d


def gen(g):
    b = Gen(g)
    b.at, b.rest = ROOT, b.names
    uses = []
    for _ in range(g.int(0, 3)):
        where = g.choice(['body', 'response', 'sharedbody', 'sharedresponse'])
        b.at = ROOT
        uses.append((where, b.ref() if g.bool(0.4) else b.schema(1)))
    return dict(defs=b.defs, home=b.home, cyclic=b.cyclic, uses=uses, order=g.shuffle(b.names))


def docs_of(case):
    root = sut.doc_with(definitions={}, parameters={}, responses={})
    other = {'definitions': {}}
    for n in case['order']:
        (root if case['home'][n] == ROOT else other)['definitions'][n] = copy.deepcopy(case['defs'][n])
    for i, (w, s) in enumerate(case['uses']):
        s = copy.deepcopy(s)
        op = {'responses': {'200': {'description': u''}}}
        root['paths'][u'/u%d' % i] = {'post': op}
        if w == 'body':
            op['parameters'] = [{'name': 'b', 'in': 'body', 'schema': s}]
        elif w == 'response':
            op['responses']['200']['schema'] = s
        elif w == 'sharedbody':
            root['parameters']['p%d' % i] = {'name': 'b', 'in': 'body', 'schema': s}
            op['parameters'] = [{'$ref': '#/parameters/p%d' % i}]
        else:
            root['responses']['r%d' % i] = {'description': u'', 'schema': s}
            op['responses']['200'] = {'$ref': '#/responses/r%d' % i}
    return {ROOT: root, OTHER: other}


class Ref(object):
    """direct reading"""
    def __init__(self, defs):
        self.defs = defs

    def deref(self, s):
        n = 0
        while '$ref' in s:
            s = self.defs[s['$ref'].partition('#/definitions/')[2].replace('~1', '/').replace('~0', '~')]
            n += 1
            if n > 20:
                return None
        return s

    def closure(self, s, out=None):
        out = [] if out is None else out
        s = self.deref(s)
        if s is None or any(s is x for x in out):
            return out
        out.append(s)
        for m in s.get('allOf', []):
            self.closure(m, out)
        return out

    def options(self, s, f, prop=False, seen=()):
        """acceptable definitions of a field (property) in the effective schema"""
        s = self.deref(s)
        if s is None or any(s is x for x in seen):
            return []
        d = s.get('properties', {}) if prop else s
        if f in d:
            return [d[f]]
        out = []
        for m in s.get('allOf', []):
            out += self.options(m, f, prop, seen + (s,))
        return out


def check(case, cx):
    docs = docs_of(case)
    app = sut.app_of(copy.deepcopy(docs), url=ROOT, strict=False)
    r = Ref(case['defs'])
    todo = []
    for n in case['order']:
        if '$ref' in case['defs'][n] and r.deref(case['defs'][n]) is None:
            continue
        if case['home'][n] == ROOT:
            todo.append((n, case['defs'][n], app.root.definitions[n]))
    for i, (w, s) in enumerate(case['uses']):
        op = app.root.paths[u'/u%d' % i].post
        o = utils.final(op.parameters[0]).schema if 'body' in w else utils.final(op.responses['200']).schema
        todo.append(('use %d' % i, s, o))
    sizes = []
    for n, raw, obj in todo:
        verify(r, raw, obj, n, 0 if case['cyclic'] else 3)     # places inside a recursive composition are judged by their own declaration only
        sizes.append(len(r.closure(raw)) - 1)
    cx.label('composes %d' % min(4, max(sizes or [0])), 'external' if OTHER in case['home'].values() else 'one document')
    cx.nontrivial(max(sizes or [0]) >= 2)
    # what was composed from is as declared
    d = app.dump()
    for n in case['order']:
        if case['home'][n] == ROOT:
            eq(plain(d['definitions'][n] or {}, None), plain(case['defs'][n], ROOT), 'definition %s after preparation' % n)


def plain(s, base):
    """absolute references, without empty things"""
    if isinstance(s, dict):
        out = {}
        for k, v in s.items():
            if k == '$ref' and base:
                f, _, p = v.partition('#')
                v = ({'sub/o.json': OTHER, '../swagger.json': ROOT, '': base}[f]) + '#' + p
            v = plain(v, base)
            if v not in ({}, [], None):
                out[k] = v
        return out
    if isinstance(s, list):
        return [plain(x, base) or {} for x in s]
    return s


def verify(r, raw, obj, at, depth):
    raw = r.deref(raw)
    if raw is None:
        return
    obj = utils.deref(obj)
    f = utils.final(obj)
    parts = r.closure(raw)
    names = set(n for p in parts for n in p.get('properties', {}))
    eq(sorted(f.properties), sorted(names), at + ': properties of the effective schema')
    eq(sorted(f.required or []), sorted(set(n for p in parts for n in p.get('required', []))), at + ': required')
    for k in FIELDS + ['type']:
        opts = r.options(raw, k)
        got = getattr(f, k)
        ensure(got in (opts or [None]), '%s: %s is %r, expected one of %r' % (at, k, got, opts))
    for n in names:
        opts = r.options(raw, n, True)
        same(r, opts, f.properties[n], '%s/%s' % (at, n), depth)
    opts = r.options(raw, 'additionalProperties')
    if opts:
        ensure(hasattr(f.additionalProperties, 'properties'), '%s: additionalProperties is %r' % (at, f.additionalProperties))
        same(r, opts, f.additionalProperties, at + '/+', depth)
    else:
        eq(f.additionalProperties, True, at + ': additionalProperties')
    # the schema itself is as declared
    eq(sorted(obj.properties), sorted(raw.get('properties', {})), at + ': own properties')
    eq(sorted(obj.required or []), sorted(raw.get('required', [])), at + ': own required')
    eq(len(obj.allOf or []), len(raw.get('allOf', [])), at + ': own allOf')


def same(r, opts, obj, at, depth):
    """the object is one of the options, and effective in itself"""
    msgs = []
    real = []
    for o in opts:
        o = r.deref(o)
        if o is None:       # refers to itself
            return
        if not any(o is x for x in real):
            real.append(o)
    if not real:
        return
    got = utils.deref(obj)
    for o in real:
        if getattr(got, 'title') == o.get('title') and got.type == o.get('type') and sorted(got.properties) == sorted(o.get('properties', {})) \
                and sorted(got.required or []) == sorted(o.get('required', [])):
            if depth:
                if len(real) == 1:
                    verify(r, o, obj, at, depth - 1)
                if o.get('type') == 'array':
                    same(r, [o['items']], utils.final(got).items, at + '/*', depth - 1)
            return
    fail('%s: %r is none of %r' % (at, got.title, [o.get('title') for o in real]))


PARTS = [Part('aggregate', gen, check, 3000)]
