# -*- coding: utf-8 -*-
import copy
import io
import os
import tempfile

from pyswagger import App, errs

from pbt import sut, docgen
from pbt.engine import Part, fail, eq, outcome, check as ensure
from props import c02, c18
from props.c01 import CHILD
from props.c18 import esc

RULE = ("v12: a valid generated Swagger 1.2 API with 0 to 4 defects put in at random places; the result of validation (non-strict, before and after preparation) is compared "
        "with the entries a reference validator finds in the JSON, and the strict forms must raise ValidationError exactly when there are entries. v20: the same "
        "for 2.0 documents and their one rule (read-only properties among the required). Non-trivial: at least one entry, or a valid document with an operation and a model.")
ASSUMPTIONS = ["at most one operation without nickname per resource (more of them can not be loaded)",
               "the location of an operation without nickname is that of the operations of its resource (an existing test asks for it)",
               "after preparation a 2.0 document is not validated again (merged parameters occur twice then)"]


# -- reference validator for 1.2 --------------------------------------------------
def entries12(listing, res):
    out = []

    def add(path, kls, msg):
        out.append(((path, kls), msg))

    def need(path, kls, o, *names):
        for n in names:
            if o.get(n) is None:
                add(path, kls, 'requirement %s not meet.' % n)

    def datatype(path, kls, o):
        if o.get('type') is None and o.get('$ref') is None:
            add(path, kls, 'type or $ref should be existed.')
        if (o.get('type') == 'array') != (o.get('items') is not None):
            add(path, kls, 'array should be existed along with items')
        if o.get('uniqueItems') is not None and o.get('type') != 'array':
            add(path, kls, 'uniqueItems is only used for array type.')
        if (o.get('items') or {}).get('type') == 'void':
            add(path + '/items', 'Items', 'void is only allowed in Operation object.')

    if 'info' in listing:
        need('#/info', 'Info', listing['info'], 'title', 'description')
    auths = listing.get('authorizations', {})
    for n, a in auths.items():
        p = '#/authorizations/' + esc(n)
        need(p, 'Authorization', a, 'type')
        if a.get('type') == 'apiKey':
            for k in ('passAs', 'keyname'):
                if not a.get(k):
                    add(p, 'Authorization', 'need "%s" for apiKey' % k)
        if a.get('type') == 'oauth2' and a.get('grantTypes') is None:
            add(p, 'Authorization', 'need "grantTypes" for oauth2')
        for i, s in enumerate(a.get('scopes', [])):
            need(p + '/scopes/%d' % i, 'Scope', s, 'scope')
        gt = a.get('grantTypes')
        if gt is not None:
            q = p + '/grantTypes'
            if gt.get('implicit') is None and gt.get('authorization_code') is None:
                add(q, 'GrantType', 'Either implicit or authorization_code should be defined.')
            if gt.get('implicit') is not None:
                need(q + '/implicit', 'Implicit', gt['implicit'], 'loginEndpoint')
                if gt['implicit'].get('loginEndpoint') is not None:
                    need(q + '/implicit/loginEndpoint', 'LoginEndpoint', gt['implicit']['loginEndpoint'], 'url')
            ac = gt.get('authorization_code')
            if ac is not None:
                need(q + '/authorization_code', 'AuthorizationCode', ac, 'tokenRequestEndpoint', 'tokenEndpoint')
                for k, kls in (('tokenRequestEndpoint', 'TokenRequestEndpoint'), ('tokenEndpoint', 'TokenEndpoint')):
                    if ac.get(k) is not None:
                        need(q + '/authorization_code/' + k, kls, ac[k], 'url')
    for name, r in res.items():
        p = '#/apis/' + esc(name)
        need(p, 'Resource', r, 'swaggerVersion', 'basePath')
        for x in r['apis']:
            for o in x['operations']:
                q = p + '/apis' + ('/' + esc(o['nickname']) if o.get('nickname') is not None else '')
                need(q, 'Operation', o, 'method', 'nickname')
                datatype(q, 'Operation', o)
                for n, v in o.get('authorizations', {}).items():
                    if n not in auths:
                        add(q, 'Operation', 'auth %s not found in resource list' % n)
                    elif auths[n].get('type') in ('basicAuth', 'apiKey') and v != []:
                        add(q, 'Operation', 'auth %s should be an empty list' % n)
                    for i, s in enumerate(v):
                        need(q + '/authorizations/%s/%d' % (esc(n), i), 'Authorizations', s, 'scope')
                for i, m in enumerate(o.get('responseMessages', [])):
                    need(q + '/responseMessages/%d' % i, 'ResponseMessage', m, 'code', 'message')
                for i, a in enumerate(o.get('parameters', [])):
                    w = q + '/parameters/%d' % i
                    need(w, 'Parameter', a, 'paramType', 'name')
                    datatype(w, 'Parameter', a)
                    if a.get('allowMultiple'):
                        if a.get('paramType') not in ('path', 'query', 'header'):
                            add(w, 'Parameter', 'allowMultiple should be applied on path, header, or query parameters')
                        if a.get('type') == 'array':
                            add(w, 'Parameter', 'array Type with allowMultiple is not supported.')
                    if a.get('paramType') == 'body' and a.get('name') not in (u'', u'body'):
                        add(w, 'Parameter', 'body parameter with invalid name: %s' % a.get('name'))
                    if a.get('type') == 'File':
                        if a.get('paramType') != 'form':
                            add(w, 'Parameter', 'File parameter should be form type: %s' % a.get('name'))
                        if 'multipart/form-data' not in (o.get('consumes') or r.get('consumes') or []):
                            add(w, 'Parameter', 'File parameter should consume multipart/form-data: %s' % a.get('name'))
                    if a.get('type') == 'void':
                        add(w, 'Parameter', 'void is only allowed in Operation object.')
        for n, m in r.get('models', {}).items():
            q = p + '/models/' + esc(n)
            need(q, 'Model', m, 'id')
            for k, v in m['properties'].items():
                w = q + '/properties/' + esc(k)
                datatype(w, 'Property', v)
                if v.get('type') == 'void':
                    add(w, 'Property', 'void is only allowed in Operation object.')
    return out


# -- defects ------------------------------------------------------------------------
def places(case):
    """kind of object -> the objects of this kind"""
    l, out = case['listing'], {}

    def add(k, o):
        if o is not None:
            out.setdefault(k, []).append(o)
    add('info', l.get('info'))
    for n, a in sorted(l.get('authorizations', {}).items()):
        add('auth', a)
        for s in a.get('scopes', []):
            add('scope', s)
        gt = a.get('grantTypes')
        add('grant', gt)
        if gt:
            add('implicit', gt.get('implicit'))
            add('url', (gt.get('implicit') or {}).get('loginEndpoint'))
            add('code', gt.get('authorization_code'))
            for k in ('tokenRequestEndpoint', 'tokenEndpoint'):
                add('url', (gt.get('authorization_code') or {}).get(k))
    for n, r in sorted(case['res'].items()):
        add('resource', r)
        for x in r['apis']:
            for o in x['operations']:
                add('operation', o)
                add('datatype', o)
                for p in o['parameters']:
                    add('parameter', p)
                    add('datatype', p)
                    add('items', p.get('items'))
                for m in o.get('responseMessages', []):
                    add('message', m)
                for v in o.get('authorizations', {}).values():
                    for s in v:
                        add('scope', s)
        for _, m in sorted(r.get('models', {}).items()):
            add('model', m)
            for _, p in sorted(m['properties'].items()):
                add('property', p)
                add('datatype', p)
                add('items', p.get('items'))
    return out


DROPS = {'info': ['title', 'description'], 'auth': ['type', 'passAs', 'keyname', 'grantTypes'], 'scope': ['scope'], 'grant': ['implicit', 'authorization_code'], 'implicit': ['loginEndpoint'],
         'url': ['url'], 'code': ['tokenRequestEndpoint', 'tokenEndpoint'], 'resource': ['swaggerVersion', 'basePath'], 'operation': ['method', 'nickname', 'consumes'],
         'datatype': ['type', '$ref', 'items'], 'parameter': ['paramType', 'name'], 'message': ['code', 'message'], 'model': ['id']}


def harm(g, case):
    ps = places(case)
    k = g.choice(sorted(ps))
    o = g.choice(ps[k])
    how = []
    there = [n for n in DROPS.get(k, []) if n in o]
    if there:
        how += ['drop'] * 2
    how += {'auth': ['blank', 'nokind'], 'grant': ['empty'], 'operation': ['unknown auth', 'auth scopes', 'auth scopes'], 'datatype': ['unique', 'items', 'array', 'void'],
            'parameter': ['multiple', 'file', 'file', 'place', 'rename'], 'items': ['void', 'void']}.get(k, [])
    if not how:
        return
    h = g.choice(how)
    if h == 'drop':
        n = g.choice(there)
        if n == 'nickname' and any(x.get('nickname') is None for r in case['res'].values() if any(o is y for a in r['apis'] for y in a['operations'])
                                   for a in r['apis'] for x in a['operations']):
            return
        o.pop(n)
    elif h == 'blank':
        for n in ('passAs', 'keyname'):
            if n in o and g.bool(0.7):
                o[n] = u''
    elif h == 'nokind':
        o['type'] = g.choice(['basicAuth', 'apiKey', 'oauth2'])
    elif h == 'empty':
        o.clear()
    elif h == 'unknown auth':
        o.setdefault('authorizations', {})[g.choice([u'nobody', u'a/b', u'key', u'oauth2'])] = g.choice([[], [{'scope': u'read'}]])
    elif h == 'auth scopes':
        names = sorted(case['listing'].get('authorizations', {}))
        if names:
            o.setdefault('authorizations', {})[g.choice(names)] = g.choice([[], [{'scope': u'read'}], [{'description': u'd'}, {'scope': u'x'}]])
    elif h == 'unique':
        o['uniqueItems'] = g.bool()
    elif h == 'items':
        o['items'] = g.choice([{'type': 'string'}, {'$ref': u'Nope'}, {}])
    elif h == 'array':
        o['type'] = 'array'
    elif h == 'void':
        o['type'] = 'void'
    elif h == 'multiple':
        o['allowMultiple'] = True
    elif h == 'file':
        o['type'] = 'File'
    elif h == 'place':
        o['paramType'] = g.choice(['query', 'form', 'body', 'header'])
    elif h == 'rename':
        o['name'] = g.choice([u'zz', u'', u'body'])


def gen12(g):
    case = c18.api(g)
    for _ in range(g.weighted([(2, 1), (1, 0), (2, 2), (1, 4)])):
        harm(g, case)
    case['where'] = g.choice(['docs', 'json'])
    return case


def the_list(r):
    return sorted(((x[0][0], x[0][1]), x[1]) for x in r)


def strict_agrees(f, bad, what, also_ok=False):
    o = outcome(f)
    if bad and o[:2] != ('raise', 'ValidationError'):
        fail('%s of a document with %d entries: %r' % (what, bad, o))
    if not bad and o[0] != 'ok' and (o[1] == 'ValidationError' or not also_ok):
        fail('%s of a document without entries: %r' % (what, o))


def check12(case, cx):
    want = the_list(entries12(case['listing'], case['res']))
    url, docs = c18.files_of(case, cx.tmp)

    def load():
        return sut.load(copy.deepcopy(docs), url, sep=case['sep'])
    app = load()
    got = the_list(app.validate(strict=False))
    eq(got, want, 'entries')
    eq(the_list(app.validate(strict=False)), want, 'entries, asked again')
    strict_agrees(lambda: app.validate(), len(want), 'strict validation')
    strict_agrees(lambda: app.validate(strict=True), len(want), 'strict validation')
    strict_agrees(lambda: load().prepare(), len(want), 'strict preparation', case['cyclic'] or case.get('harmed', True))
    app = load()
    o = outcome(lambda: app.prepare(strict=False))
    if o[0] == 'ok':
        cx.label('prepared')
        eq(the_list(app.validate(strict=False)), want, 'entries after preparation')
    elif o[1] == 'ValidationError':
        fail('validation error without strict')
    cx.label('entries %s' % min(len(want), 4))
    for _, m in want:
        cx.label(' '.join(m.split()[:3]))
    cx.nontrivial(want or any(r.get('models') and any(x['operations'] for x in r['apis']) for r in case['res'].values()))


# -- 2.0 -------------------------------------------------------------------------------
def schemas(o, kind, path, out):
    if kind == 'schema':
        out.append((path, o))
    for k, v in o.items():
        ct, ck = CHILD.get(kind, {}).get(k, (None, None))
        p = path + '/' + esc(k)
        if ct == 'one' or (ct == 'addp' and isinstance(v, dict)):
            schemas(v, ck, p, out)
        elif ct == 'dict':
            for n, x in v.items():
                schemas(x, ck, p + '/' + esc(n), out)
        elif ct == 'list':
            for i, x in enumerate(v):
                schemas(x, ck, p + '/%d' % i, out)
    return out


def entries20(doc):
    out = []
    for path, s in schemas(doc, 'swagger', '#', []):
        for n in s.get('required', []):
            if s.get('properties', {}).get(n, {}).get('readOnly'):
                out.append(((path, 'Schema'), 'ReadOnly property in required list: %s' % n))
    return out


def gen20(g):
    doc = docgen.document(g)
    for path, s in sorted(schemas(doc, 'swagger', '#', []), key=lambda x: x[0]):
        for n, p in sorted(s.get('properties', {}).items()):
            if p.get('readOnly') and n in s.get('required', []):
                p.pop('readOnly')
    with_props = [s for _, s in sorted(schemas(doc, 'swagger', '#', []), key=lambda x: x[0]) if s.get('properties')]
    for _ in range(g.weighted([(2, 1), (1, 0), (2, 3)])):
        if with_props:
            s = g.choice(with_props)
            n = g.choice(sorted(s['properties']))
            w = g.weighted([(3, 'both'), (1, 'required'), (1, 'readOnly'), (1, 'false')])
            if w in ('both', 'required', 'false') and n not in s.get('required', []):
                s['required'] = s.get('required', []) + [n]
            if w in ('both', 'readOnly'):
                s['properties'][n]['readOnly'] = True
            if w == 'false':
                s['properties'][n]['readOnly'] = False
    return dict(doc=doc, yaml=g.bool(0.25))


def check20(case, cx):
    doc = case['doc']
    want = the_list(entries20(doc))
    if case['yaml']:
        cx.label('yaml')
        url = os.path.join(tempfile.mkdtemp(dir=cx.tmp), 'swagger.yaml')
        with io.open(url, 'w', encoding='utf-8') as f:
            f.write(c02.text(doc, 'yaml-num'))

        def load():
            return App.load(url)
    else:
        def load():
            return sut.load(copy.deepcopy(doc))
    app = load()
    eq(the_list(app.validate(strict=False)), want, 'entries')
    eq(the_list(app.validate(strict=False)), want, 'entries, asked again')
    strict_agrees(lambda: app.validate(), len(want), 'strict validation')
    cyc = outcome(lambda: load().prepare(strict=False))
    if cyc[0] != 'ok':
        fail('preparation without strict: %r' % (cyc,))
    o = outcome(lambda: load().prepare())
    if want or o[0] == 'ok' or o[1] != 'CycleDetectionError':
        strict_agrees(lambda: load().prepare(strict=True), len(want), 'strict preparation')
    cx.label('entries %s' % min(len(want), 4))
    for (p, _), _ in want:
        cx.label(p.split('/')[1])
    cx.nontrivial(want or doc.get('definitions'))


PARTS = [Part('v12', gen12, check12, 1100), Part('v20', gen20, check20, 400)]
