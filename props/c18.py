# -*- coding: utf-8 -*-
import copy
import json
import os
import tempfile
from urllib.parse import urlsplit

from pyswagger import App

from pbt import sut, docgen, behave
from pbt.engine import Part, fail, eq, raises, check as ensure
from pbt.gen import LETTERS
from props.c01 import norm, prepared

RULE = ("upgrade: a generated Swagger 1.2 listing with its resource files (models with inheritance, allowMultiple, arrays, files, ranges, authorizations, base paths); "
        "a reference conversion gives the 2.0 document it stands for. The loaded application's dump, its operations and models by (resource, name) and its requests "
        "and responses are compared with those of that document, and again with those of its own dump. refuse: the same with something 2.0 can not express "
        "(different hosts or schemes, references in parameters or items), which must be refused. Non-trivial: at least one operation with parameters or a model.")
ASSUMPTIONS = ["paths of resources and operations start with a slash, base paths do not end with one", "the key of a model is its id, no model is named like a primitive type",
               "no empty consumes/produces lists inside of an operation", "grouping of several authorizations is not judged (1.2 does not define it)",
               "responseMessages play no role (known finding)", "a response with a schema may be without description (an existing test asks for it)"]

PRIM = [('string', None), ('integer', 'int32'), ('integer', 'int64'), ('integer', None), ('number', 'float'), ('number', 'double'), ('number', None), ('boolean', None),
        ('string', 'date'), ('string', 'date-time'), ('string', 'byte')]
MIMES = ['application/json', 'application/xml', 'text/plain']


def prim(g, extra=True):
    t, f = g.choice(PRIM)
    out = {'type': t}
    if f:
        out['format'] = f
    if not extra:
        return out
    if t in ('integer', 'number') and g.bool(0.4):
        lo = g.int(-9, 9)
        hi = lo + g.int(0, 9)
        for k, v in (('minimum', lo), ('maximum', hi)):
            if g.bool(0.75):
                if t == 'number' and g.bool(0.4):
                    v = v + 0.5
                out[k] = v if g.bool(0.25) else g.weighted([(3, u'%s' % v), (1, u'%s' % float(v))])
    if t == 'string' and not f and g.bool(0.3):
        out['enum'] = g.sample([u'a', u'bb', u'c c', u'd,e', u''], 1, 4)
    if g.bool(0.2):
        v = default(g, out)
        if v is not None:
            out['defaultValue'] = v
    return out


def num(t, v):
    return int(float(v)) if t == 'integer' else float(v)


def default(g, s):
    if s.get('enum'):
        return g.choice(s['enum'])
    if s['type'] in ('integer', 'number'):
        hi = num(s['type'], s['maximum']) if 'maximum' in s else num(s['type'], s.get('minimum', 0)) + 5
        lo = num(s['type'], s['minimum']) if 'minimum' in s else hi - 5
        return g.int(int(lo), int(hi)) if s['type'] == 'integer' else g.choice([lo, hi])
    if s['type'] == 'boolean':
        return g.bool()
    if not s.get('format'):
        return g.text(LETTERS[:5], 0, 3)
    return {'date': u'2015-01-02', 'date-time': u'2015-01-02T03:04:05Z'}.get(s['format'])


def datatype(g, models, extra=True, key='$ref', arrays=True):
    k = g.weighted([(4, 'prim'), (3, 'model' if models else 'prim'), (2, 'array' if arrays else 'prim')])
    if k == 'prim':
        return prim(g, extra)
    if k == 'model':
        return {key if g.bool(0.8) else ('type' if key == '$ref' else '$ref'): g.choice(models)} if key == 'type' else {'$ref': g.choice(models)}
    out = {'type': 'array', 'items': {'$ref': g.choice(models)} if models and g.bool(0.5) else prim(g, False)}
    if g.bool(0.25):
        out['uniqueItems'] = g.bool(0.7)
    return out


NAMES = [u'pet', u'store', u'user', u'a-b', u'x_1', u'Pet', u'p.q']
IDS = [u'Pet', u'Tag', u'Order', u'a.B', u'Pet_2', u'pet', u'List<Pet>', u'X Y']
ODDNAMES = [u'admin/user', u'a~b', u'v1/x/y']
ODDIDS = [u'A/B', u'T~1', u'%41', u'\u00e9']


def models_of(g, odd):
    ids = g.sample(IDS, 0, 4)
    if odd and g.bool(0.5):
        ids += g.sample(ODDIDS, 1, 2)
    cyc = g.bool(0.12)
    out = {}
    for i, n in enumerate(ids):
        with g.span():
            refs = ids if cyc else ids[:i]
            m = {'id': n, 'properties': {}}
            for p in g.sample([u'id', u'name', u'tags', u'kind', u'a/b', u'x-y', u'owner'], 0, 4):
                m['properties'][p] = datatype(g, refs)
                if g.bool(0.3):
                    m['properties'][p]['description'] = u'about ' + p
            if m['properties'] and g.bool(0.6):
                m['required'] = sorted(g.sample(sorted(m['properties']), 1, 3))
            if g.bool(0.3):
                m['description'] = g.text(LETTERS, 1, 5)
            out[n] = m
    free = set(ids)
    for i, n in enumerate(ids):
        subs = [x for x in ids[i + 1:] if x in free]
        if subs and g.bool(0.35):
            m = out[n]
            m['properties'][u'kind'] = {'type': 'string'}
            m['required'] = sorted(set(m.get('required', [])) | set([u'kind']))
            m['discriminator'] = u'kind'
            m['subTypes'] = g.sample(subs, 1, 2)
            free -= set(m['subTypes'])
    return out, cyc


def auths_of(g):
    out = {}
    for n in g.sample([u'key', u'oauth2', u'basic', u'other', u'a/b'], 0, 3):
        k = g.choice(['apiKey', 'basicAuth', 'oauth2'])
        if k == 'apiKey':
            out[n] = {'type': 'apiKey', 'passAs': g.choice(['header', 'query']), 'keyname': g.choice([u'api_key', u'X-Key'])}
        elif k == 'basicAuth':
            out[n] = {'type': 'basicAuth'}
        else:
            gt = {}
            kinds = g.choice([('implicit',), ('authorization_code',), ('implicit', 'authorization_code')])
            if 'implicit' in kinds:
                gt['implicit'] = {'loginEndpoint': {'url': u'http://auth.test/dialog'}, 'tokenName': u'access_token'}
            if 'authorization_code' in kinds:
                gt['authorization_code'] = {'tokenRequestEndpoint': {'url': u'http://auth.test/request', 'clientIdName': u'client_id', 'clientSecretName': u'secret'},
                                            'tokenEndpoint': {'url': u'http://auth.test/token', 'tokenName': u'code'}}
            out[n] = {'type': 'oauth2', 'grantTypes': gt}
            if g.bool(0.8):
                out[n]['scopes'] = [dict(scope=s, description=u'to ' + s) if g.bool(0.7) else dict(scope=s) for s in g.sample([u'read', u'write:pets', u'all'], 1, 3)]
    return out


def use_auths(g, auths):
    out = {}
    for n in g.sample(sorted(auths), 0, 2):
        sc = [s['scope'] for s in auths[n].get('scopes', [])]
        out[n] = [dict(scope=s) if g.bool(0.5) else dict(scope=s, description=u'd') for s in g.sample(sc, 1, 2)] if sc else []
    return out


def parameter(g, place, n, models, files):
    p = {'paramType': place, 'name': n}
    if place == 'body':
        p['name'] = u'body'
        p.update(datatype(g, models, key='type'))
        p.pop('defaultValue', None)
    elif place == 'form' and files and g.bool(0.5):
        p['type'] = g.choice(['File', 'file']) if False else 'File'
    elif g.bool(0.25) and place != 'path':
        p.update({'type': 'array', 'items': prim(g, False)})
        if g.bool(0.3):
            p['uniqueItems'] = g.bool(0.7)
    else:
        p.update(prim(g))
        if place in ('path', 'query', 'header') and g.bool(0.3):
            p['allowMultiple'] = g.bool(0.8)
    if place == 'path' or g.bool(0.3):
        p['required'] = True
    elif g.bool(0.3):
        p['required'] = False
    if g.bool(0.3):
        p['description'] = u'about ' + n
    return p


def operation(g, nick, path, models, auths, holes, inherited):
    payload = g.weighted([(3, None), (2, 'body'), (2, 'form'), (1, 'file')])
    op = {'nickname': nick, 'parameters': [parameter(g, 'path', h, models, False) for h in holes]}
    used = set(holes)
    for place in ('query', 'header'):
        for _ in range(g.weighted([(3, 0), (3, 1), (1, 2)])):
            n = (u'X-' if place == 'header' else u'') + g.text(LETTERS[:6] + u'_-', 1, 4)
            if n not in used:
                used.add(n)
                op['parameters'].append(parameter(g, place, n, models, False))
    if payload == 'body':
        op['parameters'].append(parameter(g, 'body', u'body', models, False))
    elif payload:
        for n in g.sample([u'f1', u'f2', u'f3'], 1, 3):
            op['parameters'].append(parameter(g, 'form', n, models, payload == 'file'))
    op['parameters'] = g.shuffle(op['parameters'])
    if g.bool(0.25):
        op['responseMessages'] = [put({'code': c, 'message': u'm'}, responseModel=g.choice(models) if models and g.bool() else None) for c in g.sample([400, 404, 200], 1, 2)]
    op['type'] = 'void'
    if g.bool(0.75):
        op.pop('type')
        op.update(datatype(g, models, False, key='type'))
    for k, v in (('summary', u'short'), ('notes', u'long'), ('deprecated', 'true'), ('deprecated', 'false')):
        if g.bool(0.25):
            op[k] = v
    if payload == 'file':
        op['consumes'] = [u'multipart/form-data']
    elif g.bool(0.3):
        op['consumes'] = g.sample(MIMES, 1, 2) if payload != 'form' else [u'application/x-www-form-urlencoded']
    if g.bool(0.3):
        op['produces'] = g.sample(MIMES, 1, 2)
    if g.bool(0.5):
        op['authorizations'] = use_auths(g, auths)
        if not op['authorizations'] and inherited:
            op.pop('authorizations')       # known finding
    return op, payload


def api(g, odd=True):
    auths = auths_of(g)
    listing = {'swaggerVersion': '1.2', 'apis': []}
    if g.bool(0.8):
        listing['apiVersion'] = g.choice([u'1.0', u'2', u''])
    if g.bool(0.75):
        info = dict((k, v) for k, v in (('title', u'T'), ('description', u'D'), ('termsOfServiceUrl', u'http://t.test'), ('contact', u'a@b.c'), ('license', u'Apache'),
                                        ('licenseUrl', u'http://l.test')) if g.bool(0.7) or k in ('title', 'description'))
        listing['info'] = info
    if auths or g.bool(0.2):
        listing['authorizations'] = auths
    base = g.weighted([(5, u'http://api.test'), (2, u'https://api.test'), (1, u'http://api.test:8080'), (1, u''), (1, u'https://h')])
    same = g.choice([u'/api', u'/v1', u'']) if g.bool(0.7) else None
    names = g.sample(NAMES, 1, 3)
    if odd and g.bool(0.2):
        names.append(g.choice(ODDNAMES))
    res, cyclic, taken = {}, False, set()
    for name in names:
        with g.span():
            models, cyc = models_of(g, odd)
            cyclic = cyclic or cyc
            r = {'swaggerVersion': '1.2', 'basePath': base + (same if same is not None else g.choice([u'/api', u'/v1', u'', u'/api/v2'])), 'apis': []}
            if not r['basePath']:
                r['basePath'] = u'/r'
            if g.bool(0.8):
                r['resourcePath'] = u'/' + name
            if g.bool(0.5):
                r['apiVersion'] = u'1.0'
            if models or g.bool(0.3):
                r['models'] = models
            for k in ('consumes', 'produces'):
                if g.bool(0.3):
                    r[k] = g.sample(MIMES, 1, 2)
            if g.bool(0.4):
                r['authorizations'] = use_auths(g, auths)
            nicks = [u'get', u'add', u'list All', u'x.y', u'find', u'remove', u'do']
            for _ in range(g.weighted([(1, 1), (3, 2), (1, 0), (1, 3)])):
                holes = g.sample([u'id', u'key'], 0, 2) if g.bool(0.5) else []
                path = u'/' + g.choice([name.split(u'/')[0].replace(u'~', u'-'), u'things', u'a.b']) + u''.join(u'/{%s}' % h for h in holes) + (u'/x' if g.bool(0.2) else u'')
                entry = {'path': path, 'operations': []}
                if g.bool(0.2):
                    entry['description'] = u'd'
                for _ in range(g.weighted([(3, 1), (2, 2)])):
                    if not nicks:
                        break
                    nick = g.choice(nicks)
                    op, payload = operation(g, nick, path, sorted(models), auths, holes, bool(r.get('authorizations')))
                    ms = ['POST', 'PUT', 'PATCH'] if payload else ['GET', 'DELETE', 'HEAD', 'OPTIONS', 'POST']
                    op['method'] = g.choice(ms)
                    k = (r['basePath'] + path, op['method'])
                    if k in taken:
                        continue
                    taken.add(k)
                    nicks.remove(nick)
                    entry['operations'].append(op)
                r['apis'].append(entry)
            res[name] = r
            e = {'path': u'/' + name}
            if g.bool(0.4):
                e['description'] = u'about ' + name
            listing['apis'].append(e)
    return dict(listing=listing, res=res, sep=g.weighted([(6, u'!##!'), (2, u'!--!'), (1, u'.'), (1, u'/')]), where=g.choice(['docs', 'json', 'disk']), cyclic=cyclic)


# -- reference conversion ------------------------------------------------------
def esc(n):
    return n.replace(u'~', u'~0').replace(u'/', u'~1')


def to20(case):
    lst, sep = case['listing'], case['sep']
    e = {'swagger': '2.0', 'basePath': u'', 'info': {}, 'paths': {}, 'definitions': {}, 'securityDefinitions': {}, 'tags': [], 'schemes': ['http', 'https']}
    i = lst.get('info', {})
    put(e['info'], version=lst.get('apiVersion'), title=i.get('title'), description=i.get('description'), termsOfService=i.get('termsOfServiceUrl'))
    if i.get('contact'):
        e['info']['contact'] = {'email': i['contact']}
    if i.get('license') or i.get('licenseUrl'):
        e['info']['license'] = put({}, name=i.get('license'), url=i.get('licenseUrl'))
    for n, a in lst.get('authorizations', {}).items():
        s = e['securityDefinitions'][n] = {'type': 'basic' if a['type'] == 'basicAuth' else a['type']}
        if a['type'] == 'apiKey':
            s.update({'in': a['passAs'], 'name': a['keyname']})
        if a['type'] == 'oauth2':
            gt = a['grantTypes']
            put(s, authorizationUrl=gt.get('implicit', {}).get('loginEndpoint', {}).get('url'), tokenUrl=gt.get('authorization_code', {}).get('tokenEndpoint', {}).get('url'))
            s['flow'] = 'implicit' if 'implicit' in gt else 'accessCode'
            s['scopes'] = dict((x['scope'], x.get('description', u'')) for x in a.get('scopes', []))
    for entry in lst['apis']:
        name = entry['path'][1:]
        r = case['res'][name]
        e['tags'].append({'name': name})
        u = urlsplit(r['basePath'])
        if any(x['operations'] for x in r['apis']):
            if u.netloc:
                e['host'] = u.netloc
            if u.scheme == 'https':
                e['schemes'] = ['https']

        def ref(m):
            return '#/definitions/' + esc(name + sep + m)

        def schema(d):
            if '$ref' in d:
                return {'$ref': ref(d['$ref'])}
            if d['type'] not in ('integer', 'number', 'string', 'boolean', 'array'):
                return {'$ref': ref(d['type'])}
            s = limits(d, put({'type': d['type']}, format=d.get('format'), uniqueItems=d.get('uniqueItems'), enum=d.get('enum'), default=d.get('defaultValue')))
            if 'items' in d:
                s['items'] = schema(d['items'])
            return s
        for n, m in r.get('models', {}).items():
            s = e['definitions'].setdefault(name + sep + n, {})
            s['properties'] = dict((k, put(schema(v), description=v.get('description'))) for k, v in m['properties'].items())
            put(s, required=m.get('required'), discriminator=m.get('discriminator'), description=m.get('description'))
            for t in m.get('subTypes', []):
                e['definitions'].setdefault(name + sep + t, {}).setdefault('allOf', []).append({'$ref': ref(n)})
        for x in r['apis']:
            for op in x['operations']:
                o = e['paths'].setdefault(u.path + x['path'], {})[op['method'].lower()] = {'operationId': op['nickname'], 'tags': [name], 'parameters': [], 'responses': {'default': {}}}
                put(o, summary=op.get('summary'), description=op.get('notes'), consumes=op.get('consumes', r.get('consumes')), produces=op.get('produces', r.get('produces')))
                if op.get('deprecated') == 'true':
                    o['deprecated'] = True
                au = op.get('authorizations', r.get('authorizations', {}))
                if au:
                    o['security'] = [{n: [y['scope'] for y in v]} for n, v in au.items()]
                if op.get('type') != 'void':
                    o['responses']['default']['schema'] = schema(op)
                o['responses']['default']['description'] = u''
                for m in op.get('responseMessages', []) if case.get('exact') else []:
                    o['responses'][u'%s' % m['code']] = put({'description': m['message']}, schema={'$ref': ref(m['responseModel'])} if 'responseModel' in m else None)
                for p in op['parameters']:
                    q = put({'name': p['name'], 'in': {'form': 'formData'}.get(p['paramType'], p['paramType'])}, required=p.get('required'), description=p.get('description'))
                    o['parameters'].append(q)
                    if p['paramType'] == 'body':
                        q['schema'] = schema(p)
                    elif p.get('allowMultiple') and 'items' not in p:
                        q.update(type='array', collectionFormat='csv', items=limits(p, put({'type': p['type']}, format=p.get('format'), enum=p.get('enum'))))
                        put(q, uniqueItems=p.get('uniqueItems'))
                        if 'defaultValue' in p:
                            q['default'] = [p['defaultValue']]
                    else:
                        q['type'] = p['type'].lower()
                        limits(p, put(q, format=p.get('format'), enum=p.get('enum'), default=p.get('defaultValue'), uniqueItems=p.get('uniqueItems')))
                        if 'items' in p:
                            q.update(collectionFormat='csv', items=dict(p['items']))
    return e


def put(o, **kw):
    o.update((k, v) for k, v in kw.items() if v is not None)
    return o


def limits(d, s):
    for k in ('minimum', 'maximum'):
        if k in d:
            s[k] = num(d['type'], d[k])
    return s


# -- running -------------------------------------------------------------------
def files_of(case, tmp):
    """(root url, {url: document}) and where to load it from"""
    if case['where'] == 'disk' and all(u'/' not in n for n in case['res']):
        d = tempfile.mkdtemp(dir=tmp)
        for n, r in [(u'resource_list', case['listing'])] + sorted(case['res'].items()):
            with open(os.path.join(d, n + '.json'), 'w') as f:
                json.dump(r, f)
        return d if len(case['res']) % 2 else os.path.join(d, 'resource_list.json'), None
    if case['where'] == 'json':
        root, base = 'http://doc.test/x/resource_list.json', 'http://doc.test/x/'
    else:
        root, base = 'http://doc.test/api-docs', 'http://doc.test/api-docs/'
    docs = dict((base + n, r) for n, r in case['res'].items())
    docs[root] = case['listing']
    return root, docs


def load12(case, tmp):
    url, docs = files_of(case, tmp)
    strict = not case['cyclic']
    if docs is None:
        app = App.load(url, sep=case['sep'])
    else:
        app = sut.load(copy.deepcopy(docs), url, sep=case['sep'])
    app.prepare(strict=strict)
    return app


def plainly(d, flow=False):
    for s in d.get('securityDefinitions', {}).values():
        if s.get('flow') == 'access_code' and not flow:
            s['flow'] = 'accessCode'       # known finding
    for k in ('host', 'basePath'):
        if d.get(k) in (u'', u'/'):
            d.pop(k)
    d.get('tags', []).sort(key=lambda t: t['name'])
    for item in d.get('paths', {}).values():
        for o in item.values():
            if isinstance(o, dict) and 'security' in o:
                o['security'] = sorted((n, sorted(v or [])) for r in o['security'] for n, v in r.items())
    return d


def plain_calls(app, calls, tmp, url):
    out = behave.all_calls(app, calls, tmp)
    for o in out:
        if o.get('request', [None])[0] == 'ok':
            r = o['request'][1]
            if r['security'] is not None:
                r['security'] = sorted(n for x in r['security'] for n in x)
    return out


def ids(case, out):
    """a discriminator holds the id of the 1.2 model, not the name of its definition"""
    names = {}
    for n, r in case['res'].items():
        for m in r.get('models', {}):
            k = n + case['sep'] + m
            names[k] = m
            names[json.dumps(k)[1:-1]] = json.dumps(m)[1:-1]
            names[repr(json.dumps(k)[1:-1])[1:-1]] = repr(json.dumps(m)[1:-1])[1:-1]

    def walk(x):
        if isinstance(x, str):
            for k in sorted(names, key=len, reverse=True):
                x = x.replace(k, names[k])
            return x
        if isinstance(x, dict):
            return dict((k, walk(v)) for k, v in x.items())
        return type(x)([walk(v) for v in x]) if isinstance(x, (list, tuple)) else x
    return walk(out)


def gen(g):
    case = api(g)
    e = to20(case)
    case['calls'] = docgen.calls(g, e, 3)
    return case


def descr(d):
    for item in d.get('paths', {}).values():
        for o in item.values():
            for r in o.get('responses', {}).values():
                if r and 'schema' in r and not r.get('description'):
                    r.pop('description', None)
    return d


def reorder(e, d):
    """the order of parameters has no meaning"""
    for path, item in e['paths'].items():
        for m, o in item.items():
            there = [(p.get('in'), p.get('name')) for p in (d.get('paths') or {}).get(path, {}).get(m, {}).get('parameters', None) or []]
            o['parameters'].sort(key=lambda p: there.index((p['in'], p['name'])) if (p['in'], p['name']) in there else 99)


def check(case, cx):
    e = to20(case)
    n = sum(len(i) for i in e['paths'].values())
    cx.label(case['where'], 'operations %s' % min(n, 4), 'models %s' % min(len(e['definitions']), 4))
    if case['cyclic']:
        cx.label('cyclic')
    if any('allOf' in s for s in e['definitions'].values()):
        cx.label('subTypes')
    cx.nontrivial(e['definitions'] or any(o['parameters'] for i in e['paths'].values() for o in i.values()))
    app = load12(case, cx.tmp)
    eq(app.version, '1.2', 'version')
    url = app.url
    d = app.dump()
    reorder(e, d)
    want = plainly(norm(prepared(descr(copy.deepcopy(e)), url)), True)
    json.dumps(d)
    got = plainly(norm(descr(copy.deepcopy(d))), case.get('exact', False))
    eq(got, want, 'dump')
    strict = not case['cyclic']
    ref = sut.app_of({url: copy.deepcopy(e)}, url, strict=strict, sep=case['sep'])
    d.setdefault('paths', {})
    for item in d['paths'].values():
        for o in item.values():
            for r in (o.get('security') if isinstance(o, dict) else None) or []:
                r.update((k, []) for k, v in r.items() if v is None)       # known finding of C01
    again = sut.app_of({url: copy.deepcopy(d)}, url, strict=strict, sep=case['sep'])
    a = plain_calls(app, case['calls'], cx.tmp, url)
    eq(a, ids(case, plain_calls(ref, case['calls'], cx.tmp, url)), 'calls of the 1.2 document and of the 2.0 document')
    eq(ids(case, plain_calls(again, case['calls'], cx.tmp, url)), a, 'calls of the dump and of the 1.2 document')
    for name, r in case['res'].items():
        for x in r['apis']:
            for op in x['operations']:
                p = urlsplit(r['basePath']).path + x['path']
                o = app.op[name, op['nickname']]
                eq((o.path, o.method.lower(), o.operationId), (p, op['method'].lower(), op['nickname']), 'operation %s of resource %s' % (op['nickname'], name))
        for m in r.get('models', {}):
            s = app.m[name, m]
            ensure(s is app.resolve('#/definitions/' + esc(name + case['sep'] + m)) or s.dump() == app.resolve('#/definitions/' + esc(name + case['sep'] + m)).dump(),
                   'model %s of resource %s' % (m, name))


# -- what can not be converted ---------------------------------------------------
def gen_refuse(g):
    case = api(g, odd=False)
    ops = [(n, x, o) for n, r in sorted(case['res'].items()) for x in r['apis'] for o in x['operations']]
    kinds = ['host'] + (['ref', 'items ref', 'items type', 'body form'][:3] if ops else [])
    k = g.choice(kinds)
    case['what'] = k
    if k == 'host':
        a, b = g.choice([(u'http://api.test', u'http://other.test'), (u'http://h', u'http://h:8080'), (u'http://h', u'https://h'), (u'http://ab', u'http://a'),
                         (u'http://api.test', u'ftp://api.test'), (u'https://a.test', u'https://a.test.org')])
        if g.bool():
            a, b = b, a
        bp = g.choice([u'', u'/api'])
        names = [u'one', u'two'] + ([u'three'] if g.bool(0.3) else [])
        case['res'] = {}
        case['listing']['apis'] = [{'path': u'/' + n} for n in names]
        for i, n in enumerate(names):
            path = g.choice([u'/' + n, u'/same/' + n])
            case['res'][n] = {'swaggerVersion': '1.2', 'basePath': (b if i == 1 else a) + bp,
                              'apis': [{'path': path, 'operations': [{'method': 'GET', 'nickname': u'get', 'type': 'void', 'parameters': []}]}]}
    else:
        _, _, o = g.choice(ops)
        place = g.choice([u'query', u'header', u'form'])
        p = {'paramType': place, 'name': u'bad'}
        if k == 'ref':
            p['$ref'] = u'Pet'
        elif k == 'items ref':
            p.update({'type': 'array', 'items': {'$ref': u'Pet'}})
        else:
            p.update({'type': 'array', 'items': {'type': u'Pet'}})
        o['parameters'] = [q for q in o['parameters'] if q['paramType'] != 'body' or place != 'form'] + [p]
    return case


def check_refuse(case, cx):
    cx.label(case['what'])
    cx.nontrivial()
    raises(lambda: load12(case, cx.tmp))


PARTS = [Part('upgrade', gen, check, 900), Part('refuse', gen_refuse, check_refuse, 250)]
