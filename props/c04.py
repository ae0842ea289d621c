# -*- coding: utf-8 -*-
import copy
import gc
import posixpath

from pbt import sut, docgen, behave
from pbt.engine import Part, fail, eq, check as ensure
from pbt.gen import LETTERS
from props.c03 import objects, ref

RULE = ("moved: in a generated document without references some schemas, parameters, responses and path items are moved to other places of the document or to "
        "other files (through hops, shared by equal content) and referred to; requests, accepted inputs and parsed responses of generated calls must stay "
        "the same. Non-trivial: at least one call and two references.")
ASSUMPTIONS = ["a path item refers with fields beside, but no field is given on both sides", "discriminators are left out, as they name a definition"]

KINDS = ['schema', 'parameter', 'response', 'path_item']
SECTION = dict(schema='definitions', parameter='parameters', response='responses')
NAMES = [u'a', u'ab', u'abc', u'b', u'a/b', u'a~b', u'x y', u'0', u'A', u'%41', u'$ref', u'properties', u'\u00e9']
FILES = ['http://h.test/api/other.json', 'http://h.test/api/sub/o.yaml', 'http://h.test/x.json', 'http://o.test/api/swagger.json', 'http://h.test/api/swagger', 'http://h.test/api/a b.json']
ROOT = 'http://h.test/api/swagger.json'


class Sym(object):
    """a reference to entry n"""
    def __init__(self, n):
        self.n = n


def get(doc, ts):
    for t in ts:
        doc = doc[int(t)] if isinstance(doc, list) else doc[t]
    return doc


def put(doc, ts, v):
    o = get(doc, ts[:-1])
    if isinstance(o, list):
        o[int(ts[-1])] = v
    else:
        o[ts[-1]] = v


def places(doc):
    out = []
    for ts, kind, raw in objects({'paths': doc['paths']}, 'swagger', [], []):
        if kind in KINDS:
            out.append((ts, kind))
    return out


def gen(g):
    doc = docgen.document(g, refs=False, discriminator=False, max_defs=0, meta=g.bool(0.2), max_paths=2)
    doc['host'], doc['schemes'] = 'api.test', ['http']
    ps = places(doc)
    # the same content at several places
    for _ in range(g.weighted([(3, 0), (2, 1), (1, 2)])):
        ss = [ts for ts, k in ps if k == 'schema']
        if len(ss) >= 2:
            a, b = g.choice(ss), g.choice(ss)
            if a[:len(b)] != b and b[:len(a)] != a:
                x = copy.deepcopy(get(doc, a))
                if not (isinstance(x, dict) and x.get('readOnly')):
                    put(doc, b, x)
                ps = places(doc)
    base = copy.deepcopy(doc)
    calls = docgen.calls(g, doc, 4)
    # move, innermost first
    moved = g.sample(ps, 1, 7)
    moved.sort(key=lambda p: (-len(p[0]), p[0]))
    entries, place, seen = [], {}, {}
    used = set()
    files = [ROOT] + g.sample(FILES, 0, 3)
    whole = dict((f, f != ROOT and g.bool(0.35)) for f in files)
    nrefs = 0

    def entry(kind, content):
        """an entry that holds the content; its number"""
        with g.span():
            f = g.choice(files)
            if whole[f] and (f, None) in used:
                f = ROOT
            if kind == 'path_item':         # reached at several paths
                for o in content.values():
                    if isinstance(o, dict):
                        o.pop('operationId', None)
            if whole[f] and f != ROOT and content:
                where = None
                used.add((f, None))
            else:
                if whole[f]:
                    f = ROOT
                if f == ROOT:
                    sec = [SECTION[kind]] if kind != 'path_item' else ['paths']
                else:
                    sec = g.choice([[SECTION.get(kind, 'paths')], [SECTION.get(kind, 'paths')], [u'any', u'where/it'], [], [u'list', 0]])
                n = g.choice(NAMES)
                if sec == ['paths']:
                    n = u'/moved' + n.replace(u'{', u'')
                while (f, tuple(sec), n) in used:
                    n += u'1'
                used.add((f, tuple(sec), n))
                where = sec + [n]
            entries.append(dict(file=f, where=where, content=content))
            return len(entries) - 1

    for ts, kind in moved:
        content = get(doc, ts)
        if '$ref' in content:
            continue
        key = (kind, repr(content) if not any(isinstance(x, Sym) for x in flat(content)) else id(content))
        if kind == 'path_item':
            keep = {}
            if g.bool(0.5):
                ks = g.subset(sorted(content), 0.4)
                keep = dict((k, content[k]) for k in ks)
                content = dict((k, v) for k, v in content.items() if k not in keep)
            n = entry(kind, content)
            for _ in range(g.weighted([(4, 0), (1, 1)])):
                n = entry(kind, {'$ref': Sym(n)})
            keep['$ref'] = Sym(n)
            put(doc, ts, keep)
        else:
            if key in seen and g.bool(0.7):
                n = seen[key]
            else:
                n = entry(kind, content)
                for _ in range(g.weighted([(4, 0), (1, 1), (0.5, 2)])):
                    n = entry(kind, {'$ref': Sym(n)})
                seen[key] = n
            put(doc, ts, {'$ref': Sym(n)})
        nrefs += 1
    style = lambda: g.choice(['rel', 'rel', 'dot', 'up', 'path', 'abs'])
    docs = {ROOT: doc}
    for e in entries:
        if e['file'] not in docs and e['where'] is not None:
            docs[e['file']] = dict(swagger='2.0', info={'title': 'o', 'version': '1'}, paths={}) if g.bool(0.4) else {}
    for e in entries:
        if e['where'] is None:
            docs[e['file']] = e['content']
            continue
        o = docs[e['file']]
        for t in e['where'][:-1]:
            if isinstance(o, dict):
                o = o.setdefault(t, [{}] if t == u'list' else {})
            else:
                o = o[t]
        o[e['where'][-1]] = e['content']

    def target(src, n):
        e = entries[n]
        ptr = '' if e['where'] is None else '/'.join(['#'] + [docgen.esc(u'%s' % t) for t in e['where']])
        return ref(src, e['file'], ptr, style())

    def render(o, src):
        if isinstance(o, dict):
            return dict((k, render(v, src)) for k, v in o.items())
        if isinstance(o, list):
            return [render(v, src) for v in o]
        return target(src, o.n) if isinstance(o, Sym) else o
    # contents are shared with the documents, so render once per file
    docs = dict((u, render(d, u)) for u, d in docs.items())
    return dict(base=base, docs=docs, calls=calls, n=nrefs, hops=len(entries) - nrefs, pick=[(len(ts), k) for ts, k in moved], alone=g.bool(0.12))


def flat(o):
    if isinstance(o, dict):
        for v in o.values():
            for x in flat(v):
                yield x
    elif isinstance(o, list):
        for v in o:
            for x in flat(v):
                yield x
    else:
        yield o


def check(case, cx):
    cx.nontrivial(case['calls'] and case['n'] >= 2)
    cx.label('files %d' % len(case['docs']), *['moved ' + k for _, k in case['pick']])
    if case['hops'] > 0:
        cx.label('hops')
    want = behave.all_calls(sut.app_of({ROOT: copy.deepcopy(case['base'])}, url=ROOT, strict=False), case['calls'], cx.tmp)
    app = sut.app_of(copy.deepcopy(case['docs']), url=ROOT, strict=False)
    if case.get('alone'):
        # operations are all that is kept of the application
        cx.label('application dropped')
        left = [behave.find(app, c['path'], c['method']) for c in case['calls']]
        app = None
        gc.collect()
        got = [behave.one(o, c, cx.tmp) for o, c in zip(left, case['calls'])]
    else:
        got = behave.all_calls(app, case['calls'], cx.tmp)
    for c, a, b in zip(case['calls'], got, want):
        eq(a, b, '%s %s with %r' % (c['method'], c['path'], c['args']))
        cx.label('request %s' % (b['request'][0] if 'request' in b else 'refused'), 'response %s' % b['response'][0])


PARTS = [Part('moved', gen, check, 1800)]
