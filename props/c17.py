# -*- coding: utf-8 -*-
import json

from pbt import sut, values, schemas, ops
from pbt.engine import Part, fail, check as ensure, outcome
from pbt.gen import ANY, WORD, UNI, LETTERS
from pbt.values import kind

RULE = ("deliver: declarations for several status codes and default (schema and headers, inline or by reference), a response (status, headers, body), "
        "and two ways of delivering it; both must give the reference result. refuse: bodies that do not fit. Non-trivial: a schema or declared header applies.")
ASSUMPTIONS = ["header values for byte formats and floats are text of the documented form", "byte values of a body stay as sent (known finding of C09)"]

CODES = ['200', '201', '204', '400', '404', '500']
KINDS = ['str', 'int', 'num', 'bool', 'date', 'dt', 'uuid', 'email']
HNAMES = ['X-Rate', 'x-id', 'ETag', 'X-List', 'Link', 'Content-Language', 'Expires']


def gen_decl(g):
    r = {'description': ''}
    if g.bool(0.75):
        r['schema'] = schemas.schema(g, 2, KINDS)
    if g.bool(0.7):
        r['headers'] = {}
        for n in g.sample(HNAMES, 1, 4):
            if g.bool(0.3):
                r['headers'][n] = dict(type='array', items=g.choice([{'type': 'integer'}, {'type': 'boolean'}, {'type': 'string', 'format': 'date'}]),
                                       collectionFormat=g.choice(['csv', 'pipes', 'ssv']))
            else:
                r['headers'][n] = values.scalar(g, KINDS)
    return r


def gen(g):
    codes = g.sample(CODES, 0, 4)
    decls = dict((c, gen_decl(g)) for c in codes)
    if g.bool(0.6) or not decls:
        decls['default'] = gen_decl(g)
    status = int(g.choice(CODES))
    if codes and g.bool(0.6):
        status = int(g.choice(codes))
    d = decls.get(str(status)) or decls.get('default')
    body = None
    plain = False
    if g.bool(0.85):
        if d and 'type' in d.get('schema', {}) and d['schema']['type'] in ('string', 'integer', 'number', 'boolean') and g.bool():
            # any text, or nothing, is fine for a string
            plain = True
            free = kind(d['schema']) == 'str' and not any(k in d['schema'] for k in ('enum', 'minLength', 'maxLength'))
            body = ('text', g.text(ANY, 0, 8) if free else text_of(g, d['schema']))
        elif d and 'schema' in d:
            body = ('json', wire(d['schema'], schemas.value(g, d['schema'])))
        else:
            body = g.choice([('text', g.text(ANY, 0, 8)), ('json', g.choice(schemas.RAW))])
    ctype = g.choice([None, 'application/json', 'Application/JSON; charset=utf-8', 'text/json'])
    if plain:
        ctype = g.choice(['text/plain', 'text/plain; charset=utf-8', 'Text/Plain;charset=UTF-8'])
    hs = []
    declared = d.get('headers', {}) if d else {}
    for n in declared:
        for _ in range(g.weighted([(1, 0), (5, 1), (2, 2)])):
            hs.append((case_of(g, n), text_of(g, declared[n])))
    for _ in range(g.int(0, 3)):
        hs.append((g.choice(['X-Other', 'x-other', 'Server', 'Set-Cookie']), g.text(WORD + u'; =,', 0, 6)))
    hs = g.shuffle(hs)
    if ctype:
        hs.insert(g.int(0, len(hs)), (case_of(g, 'Content-Type'), ctype))
    ways = [dict(form=g.choice(['pairs', 'mapping', 'singles', 'one list each']), step=g.choice(['all', 'separate', 'status first', 'no headers step']),
                 body=g.choice(['text', 'bytes']), interim=g.choice([None, None, None, 100, 200, 404, 500]), decl=g.choice(['inline', 'ref', 'chain']), order=g.shuffle(['h', 's'])) for _ in range(2)]
    return dict(decls=decls, status=status, headers=hs, body=body, raw_only=g.bool(0.12), ways=ways)


def case_of(g, n):
    return g.choice([n, n.lower(), n.upper(), n.title()])


def text_of(g, s):
    if s['type'] == 'array':
        return ops.SEP[s['collectionFormat']].join(text_of(g, s['items']) for _ in range(g.int(1, 3)))
    v = values.value(g, s, text=True, alphabet=WORD + u'; =&%')
    k = kind(s)
    if k == 'num':
        return repr(float(v))
    if k == 'int':
        return str(v)
    if k == 'bool':
        return g.choice(['true', 'True']) if v else g.choice(['false', 'False'])
    return ops.jsonable(s, v) if k in ('date', 'dt', 'uuid') else v


def wire(s, v):
    """JSON form of a valid value"""
    t = s.get('type')
    if t == 'array':
        return [wire(s['items'], x) for x in v]
    if t == 'object' or 'properties' in s:
        a = s.get('additionalProperties', True)
        return dict((k, wire(s['properties'][k], x) if k in s['properties'] else (wire(a, x) if isinstance(a, dict) else x)) for k, x in v.items())
    k = kind(s)
    return ops.jsonable(s, v) if k in ('date', 'dt', 'uuid') else (float(v) if k == 'num' else v)


def app_for(case, how):
    decls = case['decls']
    extra = {}
    if how == 'ref':
        extra['responses'] = dict(('R' + c, d) for c, d in decls.items())
        decls = dict((c, {'$ref': '#/responses/R' + c}) for c in decls)
    elif how == 'chain':
        extra['responses'] = dict(('R' + c, d) for c, d in decls.items())
        extra['responses'].update(('S' + c, {'$ref': '#/responses/R' + c}) for c in decls)
        extra['definitions'] = {}
        for c, d in list(decls.items()):
            if 'schema' in d:
                extra['definitions']['D' + c] = d['schema']
                extra['responses']['R' + c] = dict(d, schema={'$ref': '#/definitions/D' + c})
        decls = dict((c, {'$ref': '#/responses/S' + c}) for c in decls)
    d = sut.one_op([], 'get', responses=decls)
    d.update(extra)
    return sut.app_of(d)


def deliver(case, way):
    resp = app_for(case, way['decl']).op['op']()[1]
    if case['raw_only']:
        resp.raw_body_only = True
    raw = None
    if case['body']:
        raw = json.dumps(case['body'][1]) if case['body'][0] == 'json' else case['body'][1]
        if way['body'] == 'bytes':
            raw = raw.encode('utf-8')
    hs = case['headers']
    form = way['form']
    if form == 'mapping' and len(set(k for k, _ in hs)) == len(hs):
        heads = [dict(hs)]
    elif form == 'singles':
        heads = [[h] for h in hs] or [[]]
    elif form == 'one list each':
        heads = [dict([h]) for h in hs] or [{}]
    else:
        heads = [list(hs)]
    kw = {}
    if raw is not None:
        kw['raw'] = raw
    if way.get('interim') and way['step'] != 'status first':
        # the status delivered last is the one that counts
        resp.apply_with(status=way['interim'])
    if way['step'] == 'all' and len(heads) == 1:
        resp.apply_with(status=case['status'], header=heads[0], **kw)
    else:
        # the declaration of headers is that of the status, so the status comes first
        if way['step'] == 'separate':
            resp.apply_with(status=case['status'])
        for i, h in enumerate(heads):
            if i == 0 and way['step'] != 'separate':
                resp.apply_with(status=case['status'], header=h)
            else:
                resp.apply_with(header=h)
        if kw:
            resp.apply_with(**kw)
    return resp, raw


def check(case, cx):
    decls, status = case['decls'], case['status']
    d = decls.get(str(status)) or decls.get('default') or {}
    for way in case['ways']:
        cx.label(way['form'], way['step'], way['body'], way['decl'])
        resp, raw = deliver(case, way)
        ensure(resp.status == status, 'status %r' % resp.status)
        ensure(resp.raw == raw and type(resp.raw) is type(raw), 'raw %r, delivered %r' % (resp.raw, raw))
        # headers
        want = {}
        for k, v in case['headers']:
            want.setdefault(k.lower(), []).append(v)
        got = dict((k.lower(), v) for k, v in resp.header.items())
        ensure(set(got) == set(want), 'header names %r, expected %r' % (sorted(got), sorted(want)))
        lower = dict((k.lower(), s) for k, s in d.get('headers', {}).items())
        for k, texts in want.items():
            ensure(k.upper() in resp.header, '%r in header' % k.upper())
            vals = resp.header[k.title()]
            ensure(isinstance(vals, list) and len(vals) == len(texts), 'values of %r: %r for %r' % (k, vals, texts))
            for t, v in zip(texts, vals):
                b = bad_header(lower.get(k), t, v)
                if b:
                    fail('header %r: %s' % (k, b))
            if k in lower:
                cx.nontrivial()
        # body
        if case['body'] is None or 'schema' not in d or case['raw_only']:
            ensure(resp.data is None, 'data %r though %s' % (resp.data, 'raw' if case['raw_only'] else 'no body or no schema'))
            continue
        cx.nontrivial()
        cx.label('schema ' + str(d['schema'].get('type')))
        if case['body'][0] == 'text':
            cx.label('plain text')
            b = bad_header(d['schema'], case['body'][1], resp.data)
            if b:
                fail('plain text body: %s' % b)
            continue
        b = schemas.bad_wire(d['schema'], case['body'][1], sut.plain(resp.data))
        if b:
            fail('body %s' % b)
        typed(d['schema'], case['body'][1], resp.data)


def bad_header(s, t, v):
    if s is None:
        return None if v == t else 'undeclared %r for %r' % (v, t)
    if s['type'] == 'array':
        parts = t.split(ops.SEP[s['collectionFormat']])
        if not isinstance(v, list) or len(v) != len(parts):
            return '%r for %r' % (sut.plain(v), t)
        for a, b in zip(parts, v):
            r = bad_header(s['items'], a, b)
            if r:
                return r
        return None
    k = kind(s)
    real = {'int': int, 'num': float, 'bool': lambda x: x.lower() == 'true'}.get(k, lambda x: x)(t)
    return values.bad_json(s, real, sut.plain(v)) or wrong_type(s, v)


def wrong_type(s, v):
    """dates and uuids are handed over as python objects, not as text"""
    import datetime
    import uuid
    k = kind(s)
    want = {'date': datetime.date, 'dt': datetime.datetime, 'uuid': uuid.UUID}.get(k)
    if want and not isinstance(getattr(v, 'v', None), want):
        return 'value %r of %r was not converted' % (v, s)
    return None


def typed(s, x, v, path=''):
    t = s.get('type')
    if t == 'array':
        for a, b in zip(x, v):
            typed(s['items'], a, b, path + '/*')
    elif t == 'object' or 'properties' in s:
        for k in v:
            sub = s.get('properties', {}).get(k, s.get('additionalProperties'))
            if isinstance(sub, dict):
                typed(sub, x[k], v[k], path + '/' + k)
    else:
        w = wrong_type(s, v)
        if w:
            fail('%s: %s' % (path, w))


# -- bodies that do not fit --------------------------------------------
def gen_refuse(g):
    s = g.choice([{'type': 'integer'}, {'type': 'number'}, {'type': 'string', 'format': 'date'}, {'type': 'string', 'format': 'date-time'},
                  {'type': 'string', 'format': 'uuid'}, {'type': 'object', 'required': ['a'], 'properties': {'a': {'type': 'string'}}}])
    bad = u'q!' if s['type'] != 'object' else g.choice([{}, {'b': 1}])
    where = g.choice(['top', 'prop', 'item', 'addp', 'header', 'not json', 'no status', 'unknown type'])
    if where == 'header' and s['type'] == 'object':
        s, bad = {'type': 'integer'}, u'x'
    return dict(s=s, bad=bad, where=where, code=g.choice(['200', 'default']), bytes=g.bool())


def check_refuse(case, cx):
    s, bad, where = case['s'], case['bad'], case['where']
    cx.nontrivial()
    cx.label(where)
    if where == 'prop':
        s, bad = dict(type='object', properties={'p': s}), {'p': bad}
    elif where == 'item':
        s, bad = dict(type='array', items=s), [bad]
    elif where == 'addp':
        s, bad = dict(type='object', additionalProperties=s), {'zz': bad}
    d = {'description': '', 'schema': s}
    if where == 'header':
        d = {'description': '', 'headers': {'X-H': s}}
    _, resp = sut.app_of(sut.one_op([], 'get', responses={case['code']: d})).op['op']()
    raw = json.dumps(bad)
    if case['bytes']:
        raw = raw.encode('utf-8')
    if where == 'header':
        got = outcome(lambda: resp.apply_with(status=200, header=[('X-H', bad)]))
    elif where == 'not json':
        got = outcome(lambda: resp.apply_with(status=200, raw=b'{"a": ' if case['bytes'] else '{"a": '))
    elif where == 'no status':
        got = outcome(lambda: resp.apply_with(raw='1'))
    elif where == 'unknown type':
        got = outcome(lambda: resp.apply_with(status=200, header={'Content-Type': 'application/unheard-of'}, raw=raw))
    else:
        got = outcome(lambda: resp.apply_with(status=200, raw=raw))
    ensure(got[0] == 'raise', '%s accepted by %r: %r' % (raw, d, got))


PARTS = [Part('deliver', gen, check, 6000), Part('refuse', gen_refuse, check_refuse, 1500)]
