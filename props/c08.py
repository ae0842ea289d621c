# -*- coding: utf-8 -*-
import copy
import itertools
import json

from pyswagger import utils, errs
from pyswagger.scan import Scanner
from pyswagger.scanner import CycleDetector

from pbt import sut
from pbt.engine import Part, fail, eq, check as ensure, raises

RULE = ("walk: directed graphs of up to 8 vertices with any edges (doubled ones, loops), searched from every vertex in any order, against an independent "
        "enumeration of elementary cycles; large: graphs of many shared vertices, with few cycles. docs: definitions over two documents whose references (properties, items, "
        "additionalProperties, allOf, aliases, nested targets) form any graph, used by operations directly, by shared or foreign parameters and responses; "
        "cycles of parameters, responses and path items; strict preparation raises exactly when schema references can be followed forever, and without strict "
        "values go through every operation. big: layered, ring-shaped and dense documents. Non-trivial: at least one reference between definitions (docs), at "
        "least three edges (walk).")
ASSUMPTIONS = ["a cycle of parameters, responses or path items is no error in itself (existing tests)",
               "a schema that is only an alias of itself has no values; producing one raises the cycle error"]

ROOT, OTHER = 'http://h.test/api/swagger.json', 'http://h.test/api/sub/o.json'
REL = {(ROOT, ROOT): '', (OTHER, OTHER): '', (ROOT, OTHER): 'sub/o.json', (OTHER, ROOT): '../swagger.json'}


# -- walk ---------------------------------------------------------------
def gen_walk(g):
    n = g.int(1, 8 if g.bool(0.3) else 6)
    names = g.choice([list(range(n)), [u'v%d' % i for i in range(n)], [u'http://h/#/definitions/%s' % c for c in u'abcdefgh'[:n]]])
    p = g.choice([0.1, 0.2, 0.3, 0.45, 0.0]) if n > 6 else g.choice([0.15, 0.3, 0.5, 0.8, 0.0])
    edges = []
    for a in range(n):
        for b in range(n):
            if g.bool(p):
                edges.append((a, b))
                if g.bool(0.1):
                    edges.append((a, b))
    edges = g.shuffle(edges) if len(edges) < 40 else edges
    return dict(names=names, edges=edges, starts=g.shuffle(range(n)), known=g.bool(0.2), tuples=g.bool(0.3))


def cycles(adj, allowed):
    """elementary cycles, each as closed walk from its smallest vertex"""
    out = set()
    for s in allowed:
        stack = [(s, (s,))]
        while stack:
            v, path = stack.pop()
            for w in adj.get(v, ()):
                if w == s:
                    out.add(path + (s,))
                elif w > s and w not in path and w in allowed:
                    stack.append((w, path + (w,)))
    return out


def reach(adj, s):
    seen, todo = set([s]), [s]
    while todo:
        for w in adj.get(todo.pop(), ()):
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def check_walk(case, cx):
    names = case['names']
    lists = dict((n, []) for n in names)
    for a, b in case['edges']:
        lists[names[a]].append(names[b])
    adj = dict((k, set(v)) for k, v in lists.items())
    before = copy.deepcopy(lists)
    ofn = (lambda v: tuple(lists[v])) if case['tuples'] else (lambda v: lists[v])
    every = cycles(adj, set(names))
    for s in names:
        want = cycles(adj, reach(adj, s))
        got = utils.walk(s, ofn)
        ensure(isinstance(got, list) and all(isinstance(c, list) for c in got), 'no list of lists: %r' % (got,))
        eq(sorted(got), sorted(map(list, want)), 'cycles from %r' % (s,))
    # accumulated over several starts, as the detector does
    cyc = [list(sorted(every)[0])] if every and case['known'] else []
    for i in case['starts']:
        cyc = utils.walk(names[i], ofn, cyc)
    eq(sorted(cyc), sorted(map(list, every)), 'cycles of the whole graph')
    eq(lists, before, 'the graph is left alone')
    cx.label('cycles %d' % min(8, len(every)))
    cx.nontrivial(len(case['edges']) >= 3)


def gen_large(g):
    """layers of shared vertices, some in small cycles"""
    layers = [g.int(1, 3) for _ in range(g.int(4, 40))]
    loops = [g.bool(0.15) for _ in layers]
    return dict(layers=layers, loops=loops, skip=g.bool(0.3), rev=g.bool(0.3))


def check_large(case, cx):
    names, edges = [], []
    rows = []
    for i, w in enumerate(case['layers']):
        rows.append([u'%02d-%d' % (i, j) for j in range(w)])
    if case['rev']:
        rows = [[u'%02d' % (99 - int(x[:2])) + x[2:] for x in r] for r in rows]
    adj = {}
    for i, r in enumerate(rows):
        for v in r:
            adj[v] = list(rows[i + 1]) if i + 1 < len(rows) else []
            if case['skip'] and i + 2 < len(rows):
                adj[v] += rows[i + 2]
        if case['loops'][i]:
            for a, b in zip(r, r[1:] + r[:1]):
                adj[a] = [b] + adj[a]
    want = []
    for i, r in enumerate(rows):
        if case['loops'][i]:
            c = sorted(r)
            want.append(c + c[:1] if len(r) < 3 or not case['rev'] else c + c[:1])
    calls = [0]
    n = sum(case['layers'])

    def ofn(v):
        calls[0] += 1
        if calls[0] > 60 * n * n:
            fail('%d vertices: search does not come to an end' % n)
        return list(adj[v])
    got = []
    for s in [rows[0][0], rows[len(rows) // 2][0]]:
        got = utils.walk(s, ofn, got)
    first = reach(adj, rows[0][0]) | reach(adj, rows[len(rows) // 2][0])
    want = [c for c in want if c[0] in first]
    eq(sorted(got), sorted(want), 'cycles')
    cx.label('loops' if want else 'acyclic')
    cx.nontrivial(n > 8)


# -- documents -----------------------------------------------------------
class Gen(object):
    def __init__(self, g):
        self.g, self.n, self.holes, self.locs = g, 0, [], []
        self.left = g.int(1, 14)
        self.mixed = g.bool(0.15)       # any keyword anywhere
        n = g.int(1, 6)
        self.home, self.defs = {}, {}
        self.names = [u'ABCDEF'[i] for i in range(n)]
        for i, x in enumerate(self.names):
            self.home[x] = OTHER if g.bool(0.25) else ROOT
            with g.span():
                self.defs[x] = self.schema(self.home[x], ['definitions', x], i, 2, 'alias' if g.bool(0.12) else 'obj' if g.bool(0.75) else None)

    def hole(self, url, i, objonly):
        h = {'$ref': None}
        self.holes.append((h, url, i, objonly))
        return h

    def schema(self, url, at, i, depth, kind=None):
        g = self.g
        if kind is None:
            kind = g.weighted([(3, 'str'), (3, 'ref'), (2 if depth else 0, 'obj'), (2 if depth else 0, 'arr')])
        if kind in ('ref', 'alias') and self.left <= 0:
            kind = 'str' if kind == 'ref' else 'obj'
        if kind in ('ref', 'alias'):
            self.left -= 1
        if kind == 'str':
            self.locs.append((url, at, i, 'str'))
            return {'type': 'string'}
        if kind in ('ref', 'alias'):
            self.locs.append((url, at, i, 'ref'))
            return self.hole(url, i, False)
        self.locs.append((url, at, i, kind))
        if kind == "arr" and not (self.mixed and depth):
            return {'type': 'array', 'items': self.schema(url, at + ['items'], i, max(0, depth - 1))}
        d = {'type': 'object' if kind == 'obj' else 'array'}
        if self.mixed and depth and g.bool(0.6):
            d['items'] = self.schema(url, at + ['items'], i, max(0, depth - 1))
        names = []
        for _ in range(g.int(0, 3)):
            self.n += 1
            names.append(u'p%d' % self.n)
        if names:
            d['properties'] = dict((x, self.schema(url, at + ['properties', x], i, max(0, depth - 1))) for x in names)
        if depth and g.bool(0.2):
            d['additionalProperties'] = self.schema(url, at + ['additionalProperties'], i, max(0, depth - 1))
        if depth and g.bool(0.3):
            d['allOf'] = []
            for k in range(g.int(1, 2)):
                if g.bool(0.7):
                    self.locs.append((url, at + ['allOf', str(k)], i, 'ref'))
                    d['allOf'].append(self.hole(url, i, True))
                else:
                    d['allOf'].append(self.schema(url, at + ['allOf', str(k)], i, max(0, depth - 1), "obj"))
        return d

    def fill(self, how):
        g = self.g
        for h, url, i, objonly in self.holes:
            pool = [l for l in self.locs if not objonly or l[3] == 'obj']
            if how == 'down' or (how == 'mostly' and not g.bool(0.15)):
                pool = [l for l in pool if l[2] > i]
            tops = [l for l in pool if len(l[1]) == 2]
            if tops and g.bool(0.7):
                pool = tops
            if not pool:
                h.clear()
                h['type'] = 'object' if objonly else 'string'
            else:
                u, at, _, _ = g.choice(pool)
                h['$ref'] = REL[url, u] + '#/' + '/'.join(at)


def gen_docs(g):
    b = Gen(g)
    uses = []
    for k in range(g.int(0, 3)):
        where = g.choice(['body', 'response', 'sharedbody', 'sharedresponse', 'foreignbody', 'foreignresponse', 'foreignpath'])
        url = OTHER if where.startswith('foreign') else ROOT
        before = len(b.locs)
        s = b.schema(url, None or ['x'], -1, 1, 'ref' if g.bool(0.6) else None)
        del b.locs[before:]
        uses.append((where, s))
    b.fill(g.choice(['down', 'mostly', 'free']))
    return dict(mixed=b.mixed, home=b.home, defs=b.defs, uses=uses, loops=g.subset(['parameter', 'response', 'path'], 0.15))


def docs_of(case):
    root = sut.doc_with(definitions={}, parameters={}, responses={})
    other = {'definitions': {}, 'parameters': {}, 'responses': {}, 'items': {}}
    for n in sorted(case['defs']):
        (root if case['home'][n] == ROOT else other)['definitions'][n] = copy.deepcopy(case['defs'][n])
    for i, (w, s) in enumerate(case['uses']):
        s = copy.deepcopy(s)
        op = {'operationId': 'u%d' % i, 'responses': {'200': {'description': u''}}}
        item = {'post': op}
        root['paths'][u'/u%d' % i] = item
        if w in ('body', 'foreignpath'):
            op['parameters'] = [{'name': 'b', 'in': 'body', 'schema': s}]
        elif w == 'response':
            op['responses']['200']['schema'] = s
        elif w.endswith('body'):
            h, u = (other, 'sub/o.json') if w == 'foreignbody' else (root, '')
            h['parameters']['p%d' % i] = {'name': 'b', 'in': 'body', 'schema': s}
            op['parameters'] = [{'$ref': u + '#/parameters/p%d' % i}]
        else:
            h, u = (other, 'sub/o.json') if w == 'foreignresponse' else (root, '')
            h['responses']['r%d' % i] = {'description': u'', 'schema': s}
            op['responses']['200'] = {'$ref': u + '#/responses/r%d' % i}
        if w == 'foreignpath':
            other['items']['i%d' % i] = item
            root['paths'][u'/u%d' % i] = {'$ref': 'sub/o.json#/items/i%d' % i}
    ok = {'responses': {'200': {'description': u''}}}
    if 'parameter' in case['loops']:
        root['parameters'].update({'la': {'$ref': '#/parameters/lb'}, 'lb': {'$ref': '#/parameters/la'}})
    if 'response' in case['loops']:
        root['responses'].update({'la': {'$ref': 'sub/o.json#/responses/lb'}})
        other['responses']['lb'] = {'$ref': '../swagger.json#/responses/la'}
    if 'path' in case['loops']:
        root['paths'].update({u'/la': {'$ref': '#/paths/~1lb', 'get': ok}, u'/lb': {'$ref': '#/paths/~1la', 'put': copy.deepcopy(ok)}})
    return {ROOT: root, OTHER: other}


class Graph(object):
    """following references by the raw documents"""
    def __init__(self, docs):
        self.docs = docs

    def target(self, url, ref):
        f, _, p = ref.partition('#')
        url = {'sub/o.json': OTHER, '../swagger.json': ROOT, '': url}[f]
        d = self.docs[url]
        for t in p.split('/')[1:]:
            t = t.replace('~1', '/').replace('~0', '~')
            d = d[int(t)] if isinstance(d, list) else d[t]
        return url, p, d

    def refs(self, s):
        """references anywhere in a schema"""
        out = [s['$ref']] if '$ref' in s else []
        for v in s.get('properties', {}).values():
            out += self.refs(v)
        for v in s.get('allOf', []):
            out += self.refs(v)
        for k in ('items', 'additionalProperties'):
            if isinstance(s.get(k), dict):
                out += self.refs(s[k])
        return out

    def endless(self, url, s):
        """can references be followed forever"""
        done, stack = set(), set()

        def visit(url, s, key):
            if key in done:
                return False
            if key in stack:
                return True
            stack.add(key)
            for r in self.refs(s):
                u, p, t = self.target(url, r)
                if visit(u, t, (u, p)):
                    return True
            stack.discard(key)
            done.add(key)
            return False
        return visit(url, s, None)

    def real(self, url, s, seen=()):
        """behind aliases; None when there is nothing"""
        while '$ref' in s:
            u, p, s = self.target(url, s['$ref'])
            if (u, p) in seen:
                return url, None
            url, seen = u, seen + ((u, p),)
        return url, s

    def members(self, url, s, out):
        if any(s is x for _, x in out):
            return out
        out.append((url, s))
        for m in s.get('allOf', []):
            u, m = self.real(url, m)
            if m is None:
                return None
            if self.members(u, m, out) is None:
                return None
        return out

    def value(self, url, s, depth, k):
        """some value; None when there is none (of this depth)"""
        url, s = self.real(url, s)
        if s is None or depth < 0:
            return None
        if s.get('type') == 'string':
            return u's%d' % next(k)
        if s.get('type') == 'array':
            n = next(k) % 3
            vs = [self.value(url, s['items'], depth - 1, k) for _ in range(n)]
            return [v for v in vs if v is not None]
        ms = self.members(url, s, [])
        if ms is None:
            return None
        for u, m in ms:
            ps = list(m.get('properties', {}).values()) + [m[x] for x in ('additionalProperties',) if x in m]
            if any(self.real(u, p)[1] is None for p in ps):     # has a part without any meaning
                return None
        out = {}
        for u, m in ms:
            for n, p in sorted(m.get('properties', {}).items()):
                v = self.value(u, p, depth - 1, k)
                if v is not None:
                    out[n] = v
        if len(ms) == 1 and isinstance(s.get('additionalProperties'), dict):
            v = self.value(url, s['additionalProperties'], depth - 1, k)
            if v is not None:
                out[u'x%d' % next(k)] = v
        return out


def check_docs(case, cx):
    docs = docs_of(case)
    gr = Graph(docs)
    root = docs[ROOT]
    starts = [(ROOT, s) for s in root['definitions'].values()]
    for w, s in case['uses']:
        starts.append((OTHER if w.startswith('foreign') else ROOT, s))
    want = any(gr.endless(u, s) for u, s in starts)
    if want:
        raises(lambda: sut.app_of(copy.deepcopy(docs), url=ROOT), errs.CycleDetectionError)
        app = sut.app_of(copy.deepcopy(docs), url=ROOT, strict=False)
    else:
        app = sut.app_of(copy.deepcopy(docs), url=ROOT)
    # every cycle that is reported is one
    c = CycleDetector()
    Scanner(app).scan(root=app.root, route=[c])
    ensure(bool(c.cycles['schema']) == want, 'reported: %r' % c.cycles['schema'])
    keys = [tuple(x) for x in c.cycles['schema']]
    ensure(len(keys) == len(set(keys)), 'a cycle is reported twice: %r' % keys)
    for cyc in c.cycles['schema']:
        ensure(len(cyc) > 1 and cyc[0] == cyc[-1] == min(cyc) and len(set(cyc)) == len(cyc) - 1, 'no closed walk from its smallest vertex: %r' % cyc)
        for a, b in zip(cyc, cyc[1:]):
            u, _, p = a.partition('#')
            _, _, s = gr.target(u if u else ROOT, '#' + p)
            outs = [gr.target(u, r)[:2] for r in gr.refs(s)]
            ensure(tuple(b.split('#', 1)) in [(x, y) for x, y in outs], '%s does not refer to %s' % (a, b))
    for kind, k in (('parameter', 'parameter'), ('response', 'response'), ('path_item', 'path')):
        ensure(bool(c.cycles[kind]) == (k in case['loops']) or kind == 'path_item', '%s: %r' % (kind, c.cycles[kind]))
    # usable
    k = itertools.count()
    depths = 0
    for i, (w, s) in enumerate(case['uses'] if not case.get('mixed') else []):
        url = OTHER if w.startswith('foreign') else ROOT
        op = app.op['u%d' % i]
        if w == 'foreignpath':
            w = 'body'
        for depth in (0, 2, 4):
            v = gr.value(url, s, depth, k)
            if v is None:
                if gr.real(url, s)[1] is None:
                    if 'body' in w:
                        raises(lambda: op(b=u'x'), errs.CycleDetectionError)
                    cx.label('alias loop')
                continue
            depths = max(depths, depth)
            req, res = op(b=v) if 'body' in w else op()
            req.prepare(scheme='http')
            if 'body' in w:
                eq(json.loads(req.data), v, 'body of depth %d' % depth)
            else:
                res.apply_with(status=200, header={'Content-Type': 'application/json'}, raw=json.dumps(v))
                eq(sut.plain(res.data), v, 'response of depth %d' % depth)
    cx.label('cyclic' if want else 'acyclic', *['%s loop' % x for x in case['loops']])
    cx.nontrivial('$ref' in repr(case['defs']))


# -- big -----------------------------------------------------------------
def gen_big(g):
    shape = g.choice(['layers', 'ring', 'dense', 'chain'])
    hi = dict(layers=40, ring=40, dense=16, chain=120)[shape]
    n = g.int(2, hi)
    return dict(shape=shape, n=n, via=[g.choice(['properties', 'items', 'additionalProperties', 'allOf', 'alias']) for _ in range(4)], loop=g.bool(0.3),
                width=g.int(2, 4), where=g.choice(['definitions', 'body']), order=g.shuffle(range(n)) if g.bool() else None)


def check_big(case, cx):
    n, shape, via = case['n'], case['shape'], case['via']
    defs = {}
    name = lambda i: u'D%03d' % i
    for i in range(n):
        if shape == 'layers':
            out = [i + 1] * case['width'] if i + 1 < n else []
        elif shape == 'ring':
            out = [(i + 1) % n, (i + 2) % n]
        elif shape == 'dense':
            out = [j for j in range(n) if j != i]
        else:
            out = [i + 1] if i + 1 < n else []
        if i == n - 1 and case['loop']:
            out = out + [i]
        d = {'type': 'object', 'properties': {}}
        for k, j in enumerate(out):
            r = {'$ref': '#/definitions/' + name(j)}
            v = via[k % len(via)]
            if v == 'items':
                d['properties']['i%d_%d' % (i, k)] = {'type': 'array', 'items': r}
            elif v == 'additionalProperties' and v not in d:
                d[v] = r
            elif v == 'allOf':
                d.setdefault('allOf', []).append(r)
            else:
                d['properties']['q%d_%d' % (i, k)] = r
        defs[name(i)] = d
    if case['order']:
        defs = dict((name(i), defs[name(i)]) for i in case['order'])
    kw = {}
    paths = {}
    if case['where'] == 'body':
        paths = {'/p': {'post': {'operationId': 'p', 'parameters': [{'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/D000'}}],
                                 'responses': {'200': {'description': u''}}}}}
    doc = sut.doc_with(paths, definitions=defs)
    cyclic = shape in ('ring', 'dense') or case['loop']
    if cyclic:
        raises(lambda: sut.app_of(copy.deepcopy(doc)), errs.CycleDetectionError)
    else:
        sut.app_of(copy.deepcopy(doc))
    app = sut.app_of(copy.deepcopy(doc), strict=False)
    if paths:
        req, _ = app.op['p'](b={})
        eq(json.loads(req.prepare(scheme='http').data), {}, 'body')
    cx.label(shape, 'cyclic' if cyclic else 'acyclic')
    cx.nontrivial(n > 3)


PARTS = [Part('walk', gen_walk, check_walk, 3000), Part('large', gen_large, check_large, 300),
         Part('docs', gen_docs, check_docs, 2400), Part('big', gen_big, check_big, 200)]
