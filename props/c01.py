# -*- coding: utf-8 -*-
import copy
import json

from pbt import sut, docgen, behave
from pbt.engine import Part, fail, eq, check as ensure

RULE = ("dump: a generated document (all field kinds, references, composition); its dump before preparation is compared with the document, after "
        "preparation with a reference model of preparation, and a reload of the dump must dump and behave (requests, responses) the same. "
        "Non-trivial: at least one operation with parameters or schemas, and at least 25 fields.")
ASSUMPTIONS = ["no null, empty list or empty object inside a plain value (scopes, example), no empty Schema, no list with duplicates to be merged, and no empty "
               "security list of an operation (known findings)",
               "a vendor extension is not kept"]

# specification default of a field, by kind of object
DEFAULT = {
    'schema': dict(additionalProperties=True),
    'items': dict(collectionFormat='csv'),
    'header': dict(collectionFormat='csv'),
    'parameter': dict(collectionFormat='csv', allowEmptyValue=False),
    'operation': dict(deprecated=False),
}
# fields that hold objects of the specification: name -> (container, kind)
CHILD = {
    'swagger': dict(info=('one', 'info'), paths=('dict', 'path_item'), definitions=('dict', 'schema'), parameters=('dict', 'parameter'), responses=('dict', 'response'),
                    securityDefinitions=('dict', 'sec'), tags=('list', 'tag'), externalDocs=('one', 'docs')),
    'info': dict(contact=('one', 'contact'), license=('one', 'license')),
    'tag': dict(externalDocs=('one', 'docs')),
    'path_item': dict([(m, ('one', 'operation')) for m in docgen.METHODS], parameters=('list', 'parameter')),
    'operation': dict(parameters=('list', 'parameter'), responses=('dict', 'response'), externalDocs=('one', 'docs')),
    'parameter': dict(schema=('one', 'schema'), items=('one', 'items')),
    'items': dict(items=('one', 'items')),
    'header': dict(items=('one', 'items')),
    'response': dict(schema=('one', 'schema'), headers=('dict', 'header')),
    'schema': dict(items=('one', 'schema'), properties=('dict', 'schema'), allOf=('list', 'schema'), additionalProperties=('addp', 'schema'), xml=('one', 'xml'), externalDocs=('one', 'docs')),
}


def nested(v):
    """an empty list inside a plain value: known finding"""
    if isinstance(v, dict):
        return dict((k, None if x == [] else nested(x)) for k, x in v.items())
    return [None if x == [] else nested(x) for x in v] if isinstance(v, list) else v


def dumpable(doc):
    """without what is lost on dump (known findings)"""
    def plain(v, top=True):
        if v is None or (v in ([], {}) and not isinstance(v, (bool, int, float))):
            return v if top else 0
        if isinstance(v, dict):
            return dict((k, plain(x, False)) for k, x in v.items())
        if isinstance(v, list):
            out = []
            for x in v:
                x = plain(x, False)
                if x not in out:        # duplicates are lost when merged
                    out.append(x)
            return out
        return v

    def obj(d, kind):
        for k, v in list(d.items()):
            ct, ck = CHILD.get(kind, {}).get(k, (None, None))
            if k == 'externalDocs':
                d[k] = plain(v)
            elif ct == 'one' or (ct == 'addp' and isinstance(v, dict)):
                obj(v, ck)
            elif ct == 'dict':
                for x in v.values():
                    obj(x, ck)
            elif ct == 'list':
                for x in v:
                    obj(x, ck)
            elif k in ('example', 'examples', 'default', 'enum'):
                d[k] = plain(v)
            elif k == 'security':
                d[k] = [dict((n, s or [u's']) for n, s in r.items()) for r in v]
        if kind == 'schema' and not norm(d, kind):
            d['title'] = u'any'
    obj(doc, 'swagger')
    return doc


def norm(d, kind='swagger', exact=False):
    """normal form: without vendor extensions, fields at default or empty"""
    out = {}
    for k, v in (d or {}).items():
        if k.startswith('x-'):
            continue
        ct, ck = CHILD.get(kind, {}).get(k, (None, None))
        if ct == 'addp':
            v = v if isinstance(v, bool) else norm(v, ck, exact)
            if v == {}:
                v = True
        elif ct == 'one':
            v = norm(v, ck, exact)
        elif ct == 'dict':
            v = dict((n, norm(x, ck, exact)) for n, x in v.items())
        elif ct == 'list':
            v = [norm(x, ck, exact) for x in v]
        else:
            v = nested(v) if isinstance(v, (dict, list)) and not exact else v
        if v is None or v == [] or v == {}:
            if not (ct == 'one' and k in ('schema', 'items') and v == {}):
                continue
        dv = DEFAULT.get(kind, {}).get(k)
        if dv is not None and type(v) is type(dv) and v == dv:
            continue
        out[k] = v
    return out


def prepared(doc, url):
    """reference model of what preparation makes of a document"""
    doc = copy.deepcopy(doc)

    def absolute(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == '$ref' and isinstance(v, str) and v.startswith('#'):
                    o[k] = url + v
                elif k not in ('example', 'examples', 'enum') and (k != 'default' or isinstance(v, dict)):
                    absolute(v)
        elif isinstance(o, list):
            for x in o:
                absolute(x)
    src = copy.deepcopy(doc)
    for path in list(doc['paths']):
        item = doc['paths'][path]
        if '$ref' in item:
            real = docgen.deref(src, item)
            for k, v in real.items():
                item.setdefault(k, copy.deepcopy(v))
        for m in docgen.METHODS:
            if m not in item:
                continue
            op = item[m]
            for k in ('consumes', 'produces'):
                if k not in op and doc.get(k):
                    op[k] = list(doc[k])
            if 'security' not in op and doc.get('security') is not None:
                op['security'] = copy.deepcopy(doc['security'])
            keys = set((docgen.deref(src, p)['name'], docgen.deref(src, p)['in']) for p in op.get('parameters', []))
            for p in item.get('parameters', []):
                q = docgen.deref(src, p)
                if (q['name'], q['in']) not in keys:
                    op.setdefault('parameters', []).append(copy.deepcopy(p))
    absolute(doc)
    return doc


def gen(g):
    doc = dumpable(docgen.document(g))
    return dict(doc=doc, calls=docgen.calls(g, doc, 3))


def fields(d):
    if isinstance(d, dict):
        return len(d) + sum(fields(v) for v in d.values())
    if isinstance(d, list):
        return sum(fields(v) for v in d)
    return 0


def check(case, cx):
    doc = case['doc']
    n = fields(doc)
    cx.label('fields %s' % ('<50' if n < 50 else '<150' if n < 150 else '>=150'))
    cx.nontrivial(n >= 25 and case['calls'])
    app = sut.load(copy.deepcopy(doc))
    d0 = app.raw.dump()
    json.dumps(d0)
    exact = case.get('exact', False)      # also what is a known finding
    eq(norm(d0, exact=exact), norm(doc, exact=exact), 'dump before preparation')
    app.prepare(strict=False)
    d1 = app.dump()
    eq(norm(d1, exact=exact), norm(prepared(doc, sut.URL), exact=exact), 'dump after preparation')
    d1 = json.loads(json.dumps(d1))
    again = sut.app_of(copy.deepcopy(d1), strict=False)
    eq(json.loads(json.dumps(again.dump())), d1, 'dump of the reloaded dump')
    eq(sorted(again.op.keys()), sorted(app.op.keys()), 'operations')
    # loaded from elsewhere, references still lead to the original document
    a, b = behave.all_calls(app, case['calls'], cx.tmp), behave.all_calls(again, case['calls'], cx.tmp)
    eq(b, a, 'requests and responses of the reloaded dump')
    for x in a:
        cx.label('request %s' % (x['request'][0] if 'request' in x else 'refused'), 'response %s' % x.get('response', ['none'])[0])


PARTS = [Part('dump', gen, check, 1800)]
