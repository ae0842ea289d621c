# -*- coding: utf-8 -*-
import copy
import gc
import json

from pyswagger import App
from pyswagger.getter import SimpleGetter
from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0 import parser as P

from pbt import sut, docgen, behave
from pbt.engine import Part, fail, eq, check as ensure, outcome
from props import c04, c18
from props.c03 import ref

RULE = ("resolve: 2-5 files of schemas, parameters, responses and path items that refer to each other (also in circles), and a history of resolutions in which the n-th "
        "fetch of a step fails in a chosen way; a step in which a fetch failed must raise, every other step must give the same tree of objects (references "
        "followed) as an application of its own in which nothing failed. prepare: a fetch fails while a document of several files is loaded and prepared: the failure "
        "must be raised; loading again with the same resolver gives the same dump and the same requests and responses, and so does preparing again, if it does "
        "not raise. prepare12: the same for Swagger 1.2. Non-trivial: a fetch has failed and something was resolved afterwards.")
ASSUMPTIONS = ["a document that could be fetched is not fetched again, so the repaired source is one that could not be fetched or read at all"]

ROOT = 'http://h.test/api/swagger.json'
FILES = ['http://h.test/api/b.json', 'http://h.test/api/sub/c.yaml', 'http://h.test/d.json', 'http://o.test/e.json', 'http://h.test/api/f']
CTX = dict(schema=P.SchemaContext, parameter=P.ParameterContext, response=P.ResponseContext)
FAULTS = ['io', 'interrupt', 'key', 'text', 'yaml', 'empty', 'none']


class Faulty(object):
    """a source of documents whose n-th fetch from now on fails"""

    def __init__(self, docs):
        self.docs, self.left, self.kind, self.hit, self.n = docs, None, None, 0, 0

    def plan(self, left, kind=None):
        self.left, self.kind, self.hit = left, kind, 0

    def fetch(self, url):
        self.n += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.hit += 1
                return self.broken(url)
        return json.dumps(self.docs[url])

    def broken(self, url):
        k = self.kind
        if k == 'io':
            raise IOError('no route to %s' % url)
        if k == 'interrupt':
            raise KeyboardInterrupt()
        if k == 'key':
            raise KeyError(url)
        if k == 'text':
            return u'{"swagger": "2.0", "info": '
        if k == 'yaml':
            return u'a: b: c: [}'
        if k == 'empty':
            return u'{}'
        return None

    def resolver(self):
        fetch = self.fetch

        class Mem(SimpleGetter):
            __simple_getter_callback__ = lambda url: fetch(url)
        return Resolver(default_getter=Mem)


def attempt(f):
    try:
        return outcome(f)
    except KeyboardInterrupt:
        return ('raise', 'KeyboardInterrupt', '')


# -- resolve -------------------------------------------------------------------
def gen_resolve(g):
    files = [ROOT] + g.sample(FILES, 1, 4)
    entries = []
    for f in files:
        for i in range(g.int(1, 3)):
            k = 'schema' if f == ROOT else g.weighted([(6, 'schema'), (0.7, 'parameter'), (0.7, 'response')])
            entries.append((f, k, u'%s%d' % (g.choice([u'a', u'b', u'a/b', u'x']), i)))
    cyc = g.bool(0.4)
    docs = dict((f, {}) for f in files)
    docs[ROOT] = sut.doc_with({u'/p': {'get': {'operationId': 'g', 'responses': {'200': {'description': 'd'}}}}}, definitions={})
    flat = set(f for f in files if f != ROOT and g.bool(0.3))

    def ptr(e):
        return '#/' + docgen.esc(e[2]) if e[0] in flat else '#/definitions/' + docgen.esc(e[2])

    def schema(src, me, depth=2):
        t = [e for e in entries if e[1] == 'schema' and (cyc or entries.index(e) > me) and e[0] != ROOT or e[0] == src == ROOT and e[1] == 'schema' and (cyc or entries.index(e) > me)]
        k = g.weighted([(4 if t else 0, 'ref'), (1, 'leaf'), (2 if depth else 0, 'obj'), (1 if depth else 0, 'arr'), (1 if depth and t else 0, 'all'), (0.7 if depth else 0, 'addp')])
        if k == 'ref':
            e = g.choice(t)
            return {'$ref': ref(src, e[0], ptr(e), g.choice(['rel', 'abs', 'path']))}
        if k == 'leaf':
            return {'type': g.choice([u'integer', u'string', u'boolean']), 'description': u'%s %d' % (src, me)}
        if k == 'obj':
            return {'type': 'object', 'properties': dict((n, schema(src, me, depth - 1)) for n in g.subset([u'p', u'q', u'r/s'], 0.6))}
        if k == 'arr':
            return {'type': 'array', 'items': schema(src, me, depth - 1)}
        if k == 'all':
            return {'allOf': [schema(src, me, depth - 1) for _ in range(g.int(1, 2))]}
        return {'type': 'object', 'additionalProperties': schema(src, me, depth - 1)}

    for i, e in enumerate(entries):
        f, k, n = e
        s = schema(f, i)
        if f == ROOT and '://' in json.dumps(s) or f == ROOT and '../' in json.dumps(s):
            pass
        if k == 'parameter':
            s = {'name': u'b', 'in': 'body', 'schema': s}
        elif k == 'response':
            s = {'description': u'r', 'schema': s}
        (docs[f] if f in flat else docs[f].setdefault('definitions', {}))[n] = s
    targets = [(e[0] + ptr(e), e[1]) for e in entries]
    steps = []
    for _ in range(g.int(2, 8)):
        steps.append(dict(t=g.choice(targets), fault=(g.int(0, 3), g.choice(FAULTS)) if g.bool(0.5) else None, deep=g.bool(0.2)))
    return dict(docs=docs, steps=steps, collect=g.bool(0.3))


def loose(docs):
    """the root document refers to nothing outside, so that everything is fetched by later steps"""
    def go(o):
        if isinstance(o, dict):
            r = o.get('$ref')
            if isinstance(r, str) and not r.startswith('#') and not r.startswith(ROOT + '#'):
                return {'type': 'string'}
            return dict((k, go(v)) for k, v in o.items())
        return [go(v) for v in o] if isinstance(o, list) else o
    return dict((u, go(d) if u == ROOT else d) for u, d in docs.items())


def tree(o, depth=7):
    """an object with everything it refers to, unfolded"""
    if depth < 0:
        return '...'
    if hasattr(o, '_children_'):
        d = dict((k, plain(getattr(o, k, None))) for k in ('type', 'format', 'description', 'name', 'in', '$ref'))
        kids = o._children_
        d['kind'] = type(o).__name__ if type(o).__name__ not in ('weakproxy', 'weakcallableproxy', 'ProxyType') else o.__class__.__name__
        d['children'] = dict((k, tree(v, depth - 1)) for k, v in kids.items())
        r = getattr(o, 'ref_obj', None)
        if getattr(o, '$ref', None):
            d['target'] = tree(r, depth - 1) if r is not None else None
        return d
    return plain(o)


def plain(v):
    return v if v is None or isinstance(v, (str, int, bool)) else repr(v)


def check_resolve(case, cx):
    docs = loose(case['docs'])
    src = Faulty(copy.deepcopy(docs))
    app = App.load(ROOT, resolver=src.resolver())
    app.prepare(strict=False)
    failed = after = 0
    seen, held = {}, []

    def expected(t):
        if t[0] not in seen:
            a = App.load(ROOT, resolver=Faulty(copy.deepcopy(docs)).resolver())
            a.prepare(strict=False)
            r = outcome(lambda: tree(a.resolve(t[0], CTX[t[1]])))
            if r[0] != 'ok':
                fail('%s is not resolved when nothing fails: %r' % (t[0], r[1:]))
            seen[t[0]] = r[1]
        return seen[t[0]]

    for i, s in enumerate(case['steps'] + [dict(t=s['t'], fault=None) for s in case['steps']]):
        want = expected(s['t'])
        src.plan(*(s['fault'] or (None,)))
        got = attempt(lambda: app.resolve(s['t'][0], CTX[s['t'][1]]))
        hit = src.hit
        src.plan(None)
        if hit:
            failed += 1
            cx.label('fault ' + s['fault'][1], 'fault at fetch %d' % s['fault'][0])
            ensure(got[0] == 'raise', 'step %d: a fetch failed (%s), and %s is resolved' % (i, s['fault'][1], s['t'][0]))
            if case['collect'] and failed == 1:
                gc.collect()
        else:
            if got[0] != 'ok':
                fail('step %d: %s is not resolved, though nothing fails now: %r' % (i, s['t'][0], got[1:]))
            if failed:
                after += 1
            t = outcome(lambda: tree(got[1]))
            ensure(t[0] == 'ok', 'step %d: what %s gives can not be used: %r' % (i, s['t'][0], t[1:]))
            eq(t[1], want, 'step %d: %s' % (i, s['t'][0]))
            held.append((s['t'][0], got[1], want))
    for n, o, want in held:
        eq(tree(o), want, 'at the end: %s' % n)
    cx.nontrivial(failed and after)
    cx.label('failed %d' % min(failed, 4))


# -- prepare -------------------------------------------------------------------
def gen_prepare(g):
    c = c04.gen(g)
    return dict(docs=c['docs'], calls=c['calls'], at=g.int(0, len(c['docs']) - 1 if g.bool(0.8) else 1), kind=g.choice(FAULTS))


def check_prepare(case, cx):
    common(case, cx, case['docs'], c04.ROOT, {}, lambda a: behave.all_calls(a, case['calls'], cx.tmp), False)


def gen_prepare12(g):
    c = c18.gen(g)
    c['where'] = g.choice(['json', 'plain'])
    return dict(api=c, at=g.int(0, len(c['res'])), kind=g.choice(FAULTS))


def check_prepare12(case, cx):
    c = case['api']
    url, docs = c18.files_of(c, cx.tmp)
    common(case, cx, docs, url, dict(sep=c['sep']), lambda a: c18.plain_calls(a, c['calls'], cx.tmp, url), True)


def dumped(app):
    r = outcome(app.dump)
    return r if r[0] == 'ok' else r[:2]


def common(case, cx, docs, url, kw, calls, v12):
    clean = Faulty(copy.deepcopy(docs))
    fresh = App.load(url, resolver=clean.resolver(), **kw)
    fresh.prepare(strict=False)
    want = (dumped(fresh), calls(fresh))
    src = Faulty(copy.deepcopy(docs))
    res = src.resolver()
    src.plan(case['at'], case['kind'])
    loaded = []

    def go():
        a = App.load(url, resolver=res, **kw)
        loaded.append(a)
        a.prepare(strict=False)
    got = attempt(go)
    hit = src.hit
    src.plan(None)
    cx.label('files %d' % min(len(docs), 4), 'hit' if hit else 'no fetch failed')
    if not hit:
        ensure(got[0] == 'ok', 'nothing failed, and it raises %r' % (got[1:],))
    else:
        cx.label('fault ' + case['kind'], 'while preparing' if loaded else 'while loading')
        ensure(got[0] == 'raise', 'fetch %d failed (%s), and the application is prepared' % (case['at'], case['kind']))
        cx.nontrivial()
        again = attempt(lambda: loaded[0].prepare(strict=False)) if loaded else ('raise',)
        if again[0] == 'ok':
            cx.label('prepared again')
            gc.collect()
            eq((dumped(loaded[0]), calls(loaded[0])), want, 'application prepared again')
    new = App.load(url, resolver=res, **kw)
    new.prepare(strict=False)
    eq((dumped(new), calls(new)), want, 'application loaded again')


PARTS = [Part('resolve', gen_resolve, check_resolve, 1500), Part('prepare', gen_prepare, check_prepare, 500), Part('prepare12', gen_prepare12, check_prepare12, 200)]
