# -*- coding: utf-8 -*-
import copy
import posixpath
from urllib.parse import urljoin, urlsplit

from pyswagger import App, utils
from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0 import parser as P

from pbt import sut, docgen, behave
from pbt.engine import Part, fail, eq, check as ensure, raises, outcome
from pbt.gen import LETTERS, ANY, CTRL
from props.c01 import CHILD

RULE = ("algebra: composing and splitting generated names and references against RFC 6901/3986 readings. resolve: every object of a generated document is "
        "resolved by its pointer in four ways and must be the object reached through attributes. nothing: mutated pointers that name nothing (by the raw "
        "document) must raise. files: schemas, parameters, responses and path items spread over generated files refer to each other; markers tell whether "
        "each reference led to its target, and the log of fetches must have no file twice. Non-trivial: 3+ names / 10+ objects / 2+ files with 3+ entries.")
ASSUMPTIONS = ["references are written without percent-encoding in their fragment", "names hold no control characters"]


# -- algebra -----------------------------------------------------------------
def gen_algebra(g):
    names = g.list(lambda: g.text(ANY + u'~~//01', 0, 6), 0, 5)
    seg = LETTERS[:4] + u'-_.~'
    base = u'%s://%s/%s' % (g.choice(['http', 'https', 'file']), g.choice(['h.test', 'h.test:80', 'u.test']), u'/'.join(g.text(seg, 1, 3) for _ in range(g.int(0, 3))))
    if g.bool(0.8):
        base += g.choice(['/swagger.json', '/s.yaml', '/x'])
    if g.bool(0.15):
        base += '?k=1'
    ref = u'/'.join(g.choice([u'..', u'.', g.text(LETTERS, 1, 2), g.text(LETTERS, 1, 2), g.choice([u'', u'.', u'..', u'...']) + g.text(LETTERS, 1, 1) + g.choice([u'', u'.', u'...'])])
                    for _ in range(g.int(0, 4)))
    head = g.choice([u'', u'', u'', u'/', u'//o.test/', u'http://o.test/'])
    ref = head + (ref.replace(u'.', u'd') if 'o.test' in head else ref)
    tail = g.text(LETTERS + u'_-. ', 1, 4).strip(' .')
    ref += (u'' if ref.endswith('/') or not ref else u'/') + u'f' + tail + g.choice([u'.json', u'.yaml', u''])
    if g.bool(0.1):
        ref += '?v=2'
    return dict(names=names, base=base, ref=ref, frag=g.bool(0.7), local=g.bool(0.3))


def check_algebra(case, cx):
    names = case['names']
    cx.nontrivial(len(names) >= 2 or '..' in case['ref'])
    want = '/'.join(['#'] + [docgen.esc(n) for n in names])
    p = utils.jp_compose(list(names), base='#')
    if names:
        eq(p, want, 'jp_compose of a list')
    q = '#'
    for n in names:
        q = utils.jp_compose(n, base=q)
    eq(q, want, 'jp_compose name by name')
    eq(utils.jp_split(want), ['#'] + names, 'jp_split')
    eq(utils.jr_split(case['base'] + want), (case['base'], want), 'jr_split')
    eq(utils.jp_compose(None, base='#/a'), '#/a', 'jp_compose of nothing')
    # relative references
    if case['local']:
        eq(utils.normalize_jr(want, case['base']), case['base'] + (want if names else ''), 'local reference')
        return
    frag = want if case['frag'] and names else ''
    got = utils.normalize_jr(case['ref'] + frag, case['base'])
    full = urljoin(case['base'], case['ref'])
    if '://' in case['ref']:
        full = case['ref']
    eq(got, full + frag, 'reference %r in %r' % (case['ref'] + frag, case['base']))


# -- objects of a document ------------------------------------------------------
def objects(raw, kind, tokens, out):
    out.append((tokens, kind, raw))
    for f, (ct, k) in CHILD.get(kind, {}).items():
        v = raw.get(f)
        if v is None or (ct == 'addp' and isinstance(v, bool)):
            continue
        if ct in ('one', 'addp'):
            objects(v, k, tokens + [f], out)
        elif ct == 'list':
            for i, x in enumerate(v):
                objects(x, k, tokens + [f, str(i)], out)
        else:
            for n, x in v.items():
                objects(x, k, tokens + [f, n], out)
    return out


def walk(root, tokens):
    """through attributes, items and keys"""
    o = root
    for t in tokens:
        o = o[int(t)] if isinstance(o, list) else o[t] if isinstance(o, dict) else getattr(o, t)
    return o


def real(proxy):
    return proxy.dump.__self__


NAMEABLE = ['type', 'format', 'title', 'name', 'in', 'operationId', 'description', 'required', 'collectionFormat', 'summary', 'maxLength', 'minimum']


def gen_resolve(g):
    doc = docgen.document(g)
    doc['basePath'] = '/v1'
    return dict(doc=doc, picks=[g.int(0, 1000) for _ in range(6)], url=g.choice([sut.URL, 'http://doc.test', 'https://doc.test/a.b/c?x=1', 'mem://x/y.json']))


def check_resolve(case, cx):
    doc, url = case['doc'], case['url']
    app = sut.app_of(copy.deepcopy(doc), url=url, strict=False)
    objs = objects(doc, 'swagger', [], [])
    cx.nontrivial(len(objs) >= 10)
    cx.label('url ' + url)
    for i, (ts, kind, raw) in enumerate(objs):
        if any(t == '$ref' for t in ts):
            continue
        ptr = '/'.join(['#'] + [docgen.esc(t) for t in ts])
        want = walk(app.root, ts)
        cx.label('kind ' + kind)
        if isinstance(want, dict):      # kept as plain value
            eq(app.resolve(ptr), raw, ptr)
            continue
        for jref in (ptr, url + ptr if ts else url):
            got = app.resolve(jref)
            ensure(real(got) is want, 'resolve(%r) is not the object at %s' % (jref, ts))
        for n in NAMEABLE:
            if n in raw and kind not in ('path_item', 'swagger') and n != 'required':
                eq(getattr(got, n), raw[n], '%s of %s' % (n, ptr))
        # in cascade: resolve a prefix, then go on from there
        cut = case['picks'][i % 6] % (len(ts) + 1)
        head = app.resolve('/'.join(['#'] + [docgen.esc(t) for t in ts[:cut]]) if cut else url)
        rest = ts[cut:]
        if hasattr(head, 'resolve'):
            got = head.resolve(list(rest))
            ensure(real(got) is want, 'resolve(%r).resolve(%r) is another object' % (ts[:cut], rest))
            if len(rest) == 1:
                ensure(real(head.resolve(rest[0])) is want, 'resolve(%r).resolve(%r) is another object' % (ts[:cut], rest[0]))
        else:
            ensure(real(walk(head, rest)) is want, 'resolve(%r) has another object at %r' % (ts[:cut], rest))
        if kind == 'path_item':
            ensure(real(app.s(ts[1])) is want, 's(%r)' % ts[1])
            ensure(real(app.s(ts[1][1:])) is want, 's(%r)' % ts[1][1:])


# -- pointers to nothing -----------------------------------------------------------
BAD = ['zzz', 'resolve', 'dump', '_parent_', '__class__', '_children_', 'final', 'ref_obj', 'update_field', '_field_names_', '999', '-1', '', '0', 'a', 'x/y', 'Get', 'cached_schemes', 'url',
       'merge', 'is_set', 'name', 'type', 'properties', 'keys', '__len__', '1']


def gen_nothing(g):
    doc = docgen.document(g, max_paths=2)
    objs = objects(doc, 'swagger', [], [])
    lists = [ts for ts, k, o in objs if ts and ts[-1].isdigit()]
    bad = []
    for _ in range(5):
        ts = list(g.choice(objs)[0])
        if lists and g.bool(0.3):
            ts = list(g.choice(lists))
            ts[-1] = g.choice([str(int(ts[-1]) + g.int(1, 4)), u'-1', u'-2', u'', u'-', u'a', u'1.0', u'0x0', u' 0', u'+0'])
            bad.append(ts)
            continue
        k = g.choice(['append', 'replace', 'drop', 'longer', 'shorter', 'deep', 'case', 'case'])
        if k == 'append' or not ts:
            ts.append(g.choice(BAD))
        elif k == 'replace':
            ts[g.int(0, len(ts) - 1)] = g.choice(BAD)
        elif k == 'drop' and len(ts) > 1:
            ts.pop(g.int(0, len(ts) - 2))
        elif k == 'case':
            # names in the document are case sensitive
            i = g.choice([len(ts) - 1, g.int(0, len(ts) - 1)])
            ts[i] = ts[i].upper() if g.bool() else ts[i].swapcase()
        elif k == 'deep':
            ts += [g.choice(['title', 'type', 'name', 'description', 'operationId', 'responses', 'parameters']), g.choice(BAD)]
        else:
            i = g.int(0, len(ts) - 1)
            ts[i] = ts[i] + g.choice([u'a', u'x', u'~', u'/']) if k == 'longer' else ts[i][:-1]
        bad.append(ts)
    return dict(doc=doc, bad=bad, abs=g.bool(), inref=g.choice([None, None, 'definitions', 'parameters', 'responses', 'paths']))


def names_nothing(doc, ts):
    """decided on the raw document; None when preparation may have put something there"""
    o, kind = doc, 'swagger'
    for i, t in enumerate(ts):
        if isinstance(o, list):
            if not t.isdigit():
                return True
            if int(t) >= len(o):
                return None if ts[i - 1] == 'parameters' or kind in ('operation', 'path_item') else True
            o = o[int(t)]
        elif isinstance(o, dict):
            if isinstance(kind, tuple) or kind is None:         # a map of names, or a plain value
                if t not in o:
                    return True
                o = o[t]
                kind = kind[0] if kind else None
                continue
            if kind == 'path_item' and '$ref' in o:
                return None
            if t not in o:
                # a field left out may have a default, or be inherited; a name that is no field is nothing
                return None if t in FIELDS[kind] else True
            ct, k = CHILD.get(kind, {}).get(t, (None, None))
            o = o[t]
            kind = (k,) if ct == 'dict' else k
        else:
            return True
    return False


FIELDS = {}


def fields_of(kind):
    o = {'swagger': P.SwaggerContext, 'info': P.InfoContext, 'path_item': P.PathItemContext, 'operation': P.OperationContext, 'parameter': P.ParameterContext,
         'schema': P.SchemaContext, 'response': P.ResponseContext, 'header': P.HeaderContext, 'items': P.ItemsContext, 'sec': P.SecuritySchemeContext,
         'tag': P.TagContext, 'docs': P.ExternalDocumentationContext, 'contact': P.ContactContext, 'license': P.LicenseContext, 'xml': P.XMLObjectContext}[kind]
    return o.__swagger_ref_object__.__swagger_fields__


for _k in ['swagger', 'info', 'path_item', 'operation', 'parameter', 'schema', 'response', 'header', 'items', 'sec', 'tag', 'docs', 'contact', 'license', 'xml']:
    FIELDS[_k] = set(fields_of(_k)) | set(['$ref'])


def check_nothing(case, cx):
    doc = case['doc']
    app = sut.app_of(copy.deepcopy(doc), strict=False)
    case_objs = objects(doc, 'swagger', [], [])
    n = 0
    for ts in case['bad']:
        why = names_nothing(doc, ts)
        cx.label('nothing' if why else 'left open' if why is None else 'something')
        if not why:
            continue
        n += 1
        ptr = '/'.join(['#'] + [docgen.esc(t) for t in ts])
        raises(lambda: app.resolve((app.url if case['abs'] else '') + ptr))
        # in a file that is loaded for it
        other = 'http://other.test/o.json'
        kinds = [k for x, k, _ in case_objs if x == ts[:len(x)] and k in PARSER]
        for parser in [PARSER[k] for k in kinds[-1:]] + [P.SchemaContext]:
            far = sut.app_of({sut.URL: sut.one_op([]), other: dict((k, copy.deepcopy(v)) for k, v in doc.items() if k != 'swagger')}, url=sut.URL)
            raises(lambda: far.resolve(other + ptr, parser=parser))
    cx.nontrivial(n)
    k = case['inref']
    if k:
        # a reference to nothing in the document itself
        bad = copy.deepcopy(doc)
        nm = u'nosuch' + u'x' * 3
        r = {'$ref': '#/%s/%s' % (k, nm)}
        if k == 'definitions':
            bad.setdefault('definitions', {})[u'broken'] = {'type': 'object', 'properties': {u'p': r}}
        elif k == 'paths':
            bad['paths'][u'/broken'] = r
        else:
            bad['paths'][u'/broken'] = {'get': {'parameters': [r] if k == 'parameters' else [], 'responses': {'200': r if k == 'responses' else {'description': u''}}}}
        cx.label('broken ' + k)
        raises(lambda: sut.app_of(bad, strict=False))


# -- several files ---------------------------------------------------------------
KINDS = [(5, 'schema'), (1.5, 'parameter'), (1.5, 'response'), (1, 'path_item')]
PARSER = dict(schema=P.SchemaContext, parameter=P.ParameterContext, response=P.ResponseContext, path_item=P.PathItemContext)
FNAMES = ['a.json', 'httpd.json', 'b.json', 'defs.yaml', 'ab.json', 'a b.json', u'\u00e9.json', 'a', 'x.yml', 'swagger2.json', 'a.json.json', 'a+b.json', 'c,d;e.json']
DIRS = ['', 'a', 'a/b', 'a.b', 'x y', 'b', 'api']
ENTRY = [u'a', u'ab', u'abc', u'b', u'a/b', u'a~b', u'A', u'a b', u'~1', u'0', u'ref', u'properties', u'a.b', u'%41', u'a#b', u'a?b']


def gen_files(g):
    root = 'http://h.test/' + g.choice(['swagger.json', 'api/swagger.json', 'api/v1/s.json', 'api', 'api/v1/'])
    urls = [root]
    for _ in range(g.int(1, 4)):
        u = g.choice(['http://h.test/', 'http://h.test/', 'http://o.test/']) + posixpath.join(g.choice(DIRS), g.choice(FNAMES))
        if u not in urls:
            urls.append(u)
    whole = [False] + [g.bool(0.3) for _ in urls[1:]]
    entries = []            # dict(file, kind, name or None, refs)
    for f, u in enumerate(urls):
        for i in range(1 if whole[f] else g.int(1, 4)):
            kind = g.weighted(KINDS)
            name = None if whole[f] else g.choice(ENTRY)
            if any(e['file'] == f and e['kind'] == kind and e['name'] == name for e in entries):
                continue
            entries.append(dict(file=f, kind=kind, name=name))
    entries = g.shuffle(entries)
    # a later entry is never referred to from a yet later one: no cycles
    for i, e in enumerate(entries):
        e['mark'] = u'm%d' % i
        e['refs'] = []
        later = [j for j in range(i + 1, len(entries)) if ok(e['kind'], entries[j]['kind'])]
        for j in g.sample(later, 0, 2):
            how = g.choice(HOWS[e['kind'], entries[j]['kind']])
            e['refs'].append(dict(to=j, how=how, style=g.choice(['rel', 'rel', 'dot', 'up', 'path', 'abs', 'net'])))
            if how == 'self':
                e['refs'] = e['refs'][-1:]
                break
    return dict(urls=urls, entries=entries, root=[dict(to=j, style=g.choice(['rel', 'dot', 'path', 'abs'])) for j in g.sample(range(len(entries)), 1, 4)],
                swagger=[True] + [g.bool(0.4) for _ in urls[1:]], order=g.bool())


HOWS = {('schema', 'schema'): ['prop', 'prop', 'allOf', 'items', 'addp', 'self'], ('parameter', 'schema'): ['body'], ('parameter', 'parameter'): ['self'],
        ('response', 'schema'): ['schema'], ('response', 'response'): ['self'], ('path_item', 'parameter'): ['param'], ('path_item', 'response'): ['resp'],
        ('path_item', 'path_item'): ['self'], ('path_item', 'schema'): ['body']}


def ok(a, b):
    return (a, b) in HOWS


SECTION = dict(schema='definitions', parameter='parameters', response='responses', path_item='paths')


def pointer(e):
    if e['name'] is None:
        return ''
    n = (u'/' if e['kind'] == 'path_item' else u'') + e['name']
    return '#/%s/%s' % (SECTION[e['kind']], docgen.esc(n))


def ref(src, dst, frag, style):
    """a reference from one url to another that leads there by RFC 3986"""
    if src == dst:
        return frag or src
    s, d = urlsplit(src), urlsplit(dst)
    if style == 'abs' or s.netloc != d.netloc:
        return ('//' + d.netloc + d.path if style == 'net' else dst) + frag
    if style in ('path', 'net'):
        return d.path + frag
    r = posixpath.relpath(d.path, posixpath.dirname(s.path)) + ('/' if d.path.endswith('/') else '')
    if style == 'dot':
        r = './' + r
    elif style == 'up':
        here = posixpath.basename(posixpath.dirname(s.path))
        r = ('../%s/' % here if here else '../') + r
    return r + frag


def build(case):
    """url -> document"""
    urls, entries = case['urls'], case['entries']
    docs = [dict() for _ in urls]
    for u, d, sw in zip(urls, docs, case['swagger']):
        if sw:
            d.update(swagger='2.0', info=dict(title='t', version='1'), paths={})
    for e in entries:
        o = content(case, e)
        if e['name'] is None:
            docs[e['file']] = o
        else:
            n = (u'/' if e['kind'] == 'path_item' else u'') + e['name']
            docs[e['file']].setdefault(SECTION[e['kind']], {})[n] = o
    # uses of the root
    d = docs[0]
    for i, r in enumerate(case['root']):
        e = entries[r['to']]
        x = {'$ref': ref(urls[0], urls[e['file']], pointer(e), r['style'])}
        path = u'/use%d' % i
        if e['kind'] == 'path_item':
            d['paths'][path] = x
            continue
        op = {'parameters': [], 'responses': {'200': {'description': u''}}}
        if e['kind'] == 'schema':
            op['parameters'].append({'name': 'b', 'in': 'body', 'schema': x})
        elif e['kind'] == 'parameter':
            op['parameters'].append(x)
        else:
            op['responses']['200'] = x
        d['paths'][path] = {'post': op}
    return dict(zip(urls, docs))


def content(case, e):
    urls, entries = case['urls'], case['entries']
    m = {'type': 'string', 'enum': [e['mark']]}

    def target(r):
        t = entries[r['to']]
        return {'$ref': ref(urls[e['file']], urls[t['file']], pointer(t), r['style'])}
    for r in e['refs']:
        if r['how'] == 'self':
            return target(r)
    if e['kind'] == 'schema':
        s = {'type': 'object', 'properties': {e['mark']: m}, 'required': [e['mark']]}
        for i, r in enumerate(e['refs']):
            x = target(r)
            if r['how'] == 'prop':
                s['properties'][u'p%d%s' % (i, e['mark'])] = x
            elif r['how'] == 'items':
                s['properties'][u'p%d%s' % (i, e['mark'])] = {'type': 'array', 'items': x}
            elif r['how'] == 'allOf':
                s.setdefault('allOf', []).append(x)
            else:
                s['properties'][u'p%d%s' % (i, e['mark'])] = {'type': 'object', 'additionalProperties': x}
        return s
    if e['kind'] == 'parameter':
        if e['refs']:
            return {'name': e['mark'], 'in': 'body', 'schema': target(e['refs'][0])}
        return {'name': e['mark'], 'in': 'query', 'type': 'string', 'enum': [e['mark']]}
    if e['kind'] == 'response':
        return {'description': e['mark'], 'schema': target(e['refs'][0]) if e['refs'] else m}
    op = {'summary': e['mark'], 'parameters': [], 'responses': {'200': {'description': u'', 'schema': m}}}
    for r in e['refs'][:1]:
        if r['how'] == 'param':
            op['parameters'].append(target(r))
        elif r['how'] == 'resp':
            op['responses']['200'] = target(r)
        else:
            op['parameters'].append({'name': 'b', 'in': 'body', 'schema': target(r)})
    return {'post': op}


def good(case, e, bad=None):
    """a value of a schema entry that holds its marker and those of all it refers to"""
    for r in e['refs']:
        if r['how'] == 'self':
            return good(case, case['entries'][r['to']], bad)
    v = {e['mark']: e['mark'] if bad != e['mark'] else u'wrong'}
    for i, r in enumerate(e['refs']):
        x = good(case, case['entries'][r['to']], bad)
        if r['how'] == 'allOf':
            v.update(x)
        else:
            v[u'p%d%s' % (i, e['mark'])] = [x] if r['how'] == 'items' else {u'k': x} if r['how'] == 'addp' else x
    return v


def marks(v):
    out = []
    for k, x in v.items():
        for y in x if isinstance(x, list) else x.values() if isinstance(x, dict) and u'k' in x else [x]:
            if isinstance(y, dict):
                out += marks(y)
            else:
                out.append(y)
    return out


def final_of(case, e):
    while e['refs'] and e['refs'][0]['how'] == 'self':
        e = case['entries'][e['refs'][0]['to']]
    return e


def try_op(case, op, e, cx):
    """the operation behaves as the entry says"""
    e = final_of(case, e)
    kind = e['kind']

    def body(name, t):
        v = good(case, t)
        rq, _ = op(**{name: v})
        rq.prepare(handle_files=False)
        eq(sut.plain(rq._p['body'][name]), v, 'body of %s' % t['mark'])
        for m in marks(v):
            raises(lambda: op(**{name: good(case, t, bad=m)}))

    def response(t):
        from pyswagger.io import Response
        import json

        def give(v):
            return Response(op).apply_with(status=200, raw=json.dumps(v), header={'Content-Type': 'application/json'})
        if t['refs']:
            s = case['entries'][t['refs'][0]['to']]
            eq(sut.plain(give(good(case, s)).data), good(case, s), 'response body of %s' % t['mark'])
            for m in marks(good(case, s)):
                raises(lambda: give(good(case, s, bad=m)))
        else:
            eq(sut.plain(give(t['mark']).data), t['mark'], 'response body')
            raises(lambda: give(u'wrong'))
    if kind == 'schema':
        body('b', e)
    elif kind == 'parameter':
        if e['refs']:
            body(e['mark'], case['entries'][e['refs'][0]['to']])
        else:
            rq, _ = op(**{e['mark']: e['mark']})
            rq.prepare(handle_files=False)
            eq(rq.query, [(e['mark'], e['mark'])], 'query')
            raises(lambda: op(**{e['mark']: u'wrong'}))
    elif kind == 'response':
        response(e)
    else:
        eq(op.summary, e['mark'], 'summary')
        for r in e['refs'][:1]:
            t = case['entries'][r['to']]
            if r['how'] == 'resp':
                response(final_of(case, t))
            elif r['how'] == 'param':
                try_op(case, op, t, cx)
            else:
                body('b', t)
        if not e['refs'] or e['refs'][0]['how'] != 'resp':
            response(dict(e, refs=[]))


def check_files(case, cx):
    urls, entries = case['urls'], case['entries']
    docs = build(case)
    log = []
    used = set(e['file'] for e in entries)
    cx.nontrivial(len(used) >= 2 and len(entries) >= 3)
    app = sut.app_of(copy.deepcopy(docs), url=urls[0], strict=False, log=log)
    ensure(len(log) == len(set(log)), 'fetched twice: %s' % log)
    for i, r in enumerate(case['root']):
        e = entries[r['to']]
        cx.label('use ' + e['kind'], 'style ' + r['style'])
        for x in e['refs']:
            cx.label('%s -%s-> %s' % (e['kind'], x['how'], entries[x['to']]['kind']))
        op = getattr(app.resolve('#/paths/~1use%d' % i), 'post')
        try_op(case, op, e, cx)
    # every entry, by its absolute reference
    for e in (entries if case['order'] else reversed(entries)):
        got = app.resolve(urls[e['file']] + pointer(e), PARSER[e['kind']])
        raw = content(case, e)
        if '$ref' in raw:
            u = final_of(case, entries[e['refs'][0]['to']]) if 0 else entries[e['refs'][0]['to']]
            eq(getattr(got, '$ref'), urls[u['file']] + pointer(u), 'reference of %s' % e['mark'])
        elif e['kind'] == 'schema':
            ensure(e['mark'] in got.properties, 'resolve(%r) gave another schema: %s' % (urls[e['file']] + pointer(e), sorted(got.properties)))
        elif e['kind'] == 'parameter':
            eq(got.name, e['mark'], 'name of the parameter')
        elif e['kind'] == 'response':
            eq(got.description, e['mark'], 'description of the response')
        else:
            eq(got.post.summary, e['mark'], 'operation of the path item')
    ensure(len(log) == len(set(log)), 'fetched twice: %s' % log)
    for u in urls[1:]:
        raises(lambda: app.resolve(u + '#/definitions/nosuchthing', P.SchemaContext))
    raises(lambda: app.resolve('http://h.test/nosuchfile.json#/definitions/a', P.SchemaContext))


PARTS = [Part('algebra', gen_algebra, check_algebra, 3000), Part('resolve', gen_resolve, check_resolve, 800),
         Part('nothing', gen_nothing, check_nothing, 1200), Part('files', gen_files, check_files, 1500)]
