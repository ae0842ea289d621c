# -*- coding: utf-8 -*-
import json
from urllib.parse import parse_qsl

from pbt import sut, ops, schemas, multipart, values
from pbt.engine import Part, fail, check as ensure
from pbt.gen import ANY, CTRL, LETTERS, UNI

RULE = ("body: a JSON body by a schema of depth <=3; form: url-encoded fields; multi: multipart fields and files. Each payload is read by an "
        "independent decoder. Non-trivial: nested or non-ASCII body, form values with special characters, any multipart payload.")
ASSUMPTIONS = ["multipart fields are encoded as UTF-8 (the default of prepare) or in a chosen single-byte encoding"]


def gen_body(g):
    s = schemas.schema(g, 3)
    ct = g.choice([None, ['application/json'], ['text/json'], ['application/json; charset=utf-8'], ['application/xml', 'application/json'],
                   ['Application/JSON']])
    return dict(schema=s, value=schemas.value(g, s), consumes=ct, ref=g.bool(0.3), required=g.bool(),
                choose='application/json' if ct and 'application/json' in ct and (len(ct) > 1 or g.bool()) else None,
                others=g.bool(), patch=g.choice([u'not_valid', 7, None]) if g.bool(0.1) else 0)


def check_body(case, cx):
    s, v = case['schema'], case['value']
    p = dict(name='b', schema={'$ref': '#/definitions/S'} if case['ref'] else s, required=case['required'], **{'in': 'body'})
    params = [p]
    args = dict(b=v)
    if case['others']:
        params = [dict(name='q', type='string', **{'in': 'query'}), p, dict(name='h', type='integer', **{'in': 'header'})]
        args.update(q=u'1', h=2)
    a = sut.app_of(sut.one_op(params, 'post', consumes=case['consumes'], definitions={'S': s}))
    req, _ = a.op['op'](**args)
    if case['choose']:
        req.consume(case['choose'])
    patched = isinstance(v, dict) and case.get('patch', 0) != 0
    if patched:     # as docs/md/tutorial/invalid.md tells to send invalid input
        cx.label('patched')
        req._p['body']['b'][u'zz patched'] = case.get('patch', 0)
    req.prepare()
    want = case['choose'] or (case['consumes'] or ['application/json'])[0]
    ensure(req.header['Content-Type'] == want, 'content type %r' % req.header['Content-Type'])
    cx.label(s.get('type', 'typeless'))
    cx.nontrivial(isinstance(v, (dict, list)) or not str(v).isalnum())
    try:
        doc = json.loads(req.data, parse_constant=lambda x: fail('not JSON: %s' % x))
    except ValueError as e:
        fail('payload %r is no JSON: %s' % (req.data, e))
    if patched:
        ensure(doc.pop(u'zz patched', 0) == case.get('patch', 0), 'the patched property is not sent: %r' % req.data)
    b = schemas.bad_wire(s, v, doc)
    if b:
        fail('body ' + b)


def gen_plain(g):
    d = values.scalar(g, ['str', 'str', 'str', 'int', 'num', 'bool', 'byte', 'date', 'dt', 'uuid', 'email'])
    if values.kind(d) == 'str':
        return dict(schema=dict(type='string'), value=g.text(ANY + CTRL, 0, 12))
    return dict(schema=d, value=values.value(g, d, text=True))


def check_plain(case, cx):
    s, v = case['schema'], case['value']
    a = sut.app_of(sut.one_op([dict(name='b', schema=s, **{'in': 'body'})], 'post', consumes=['text/plain']))
    req, _ = a.op['op'](b=v)
    req.prepare()
    cx.label(values.kind(s))
    cx.nontrivial(values.kind(s) != 'str' or not v.isalnum())
    ensure(isinstance(req.data, (str, bytes)) and req.header['Content-Type'] == 'text/plain', 'payload %r for %r' % (req.data, v))
    t = req.data.decode('utf-8') if isinstance(req.data, bytes) else req.data
    b = values.bad_text(s, v, t)
    if b:
        fail('payload %r for %r: %s' % (req.data, v, b))


FIELD = LETTERS[:6] + u'_-.[]&=+%;"\'\\ ' + UNI[:3]


def gen_form(g, files=False):
    used = set()
    ps = []
    for _ in range(g.int(0 if files else 1, 4)):
        p = ops.decl(g, 'formData', used)
        p['name'] = schemas.pname(g, used, FIELD)
        p.pop('default', None)
        p.pop('required', None)
        ps.append(p)
    if files:
        for _ in range(g.int(1, 3)):
            p = ops.decl(g, 'formData', used, files=True)
            p['name'] = schemas.pname(g, used, FIELD)
            p.pop('required', None)
            ps.append(p)
        ps = g.shuffle(ps)
    args = dict((p['name'], g.text(ANY + CTRL, 0, 12) if p.get('type') == 'string' and not p.get('format') else ops.value(g, p))
                for p in ps if ops.is_file(p) or g.bool(0.85))
    enc = None
    if files and g.bool(0.12) and not any(isinstance(v, bytes) for v in args.values()) and all(n['name'].isascii() for n in ps):
        enc = g.choice(['latin-1', 'iso-8859-15'])
        ps, args = narrow(ps, enc), narrow(args, enc)
    return dict(params=ps, args=args, order=g.shuffle(list(args)), consumes=g.bool(0.7), handle=not files or g.bool(0.85), encoding=enc)


def narrow(v, enc):
    if isinstance(v, str):
        return v.encode(enc, 'replace').decode(enc).replace(u'?', u'\u00df')
    if isinstance(v, dict):
        return dict((narrow(k, enc), narrow(x, enc)) for k, x in v.items())
    return [narrow(x, enc) for x in v] if isinstance(v, list) else v


def check_form(case, cx):
    ps, args = case['params'], case['args']
    ct = 'application/x-www-form-urlencoded'
    a = sut.app_of(sut.one_op(ps, 'post', consumes=[ct] if case['consumes'] else None))
    req, _ = a.op['op'](**dict((k, args[k]) for k in case['order']))
    req.prepare()
    cx.nontrivial(any(isinstance(v, str) and not v.isalnum() for v in args.values()) or len(args) > 1)
    ensure_pairs(ps, args, req, cx)


def ensure_pairs(ps, args, req, cx):
    want = [p for p in ps if p['name'] in args and not (p['type'] == 'array' and p.get('collectionFormat') == 'multi' and not args[p['name']])]
    if not want:
        ensure(req.data is None and 'Content-Type' not in req.header, 'payload %r without fields' % (req.data,))
        return
    ensure(req.header['Content-Type'] == 'application/x-www-form-urlencoded', 'content type %r' % req.header['Content-Type'])
    ensure(isinstance(req.data, str) and all(ord(c) < 128 for c in req.data), 'payload %r' % (req.data,))
    compare(want, args, parse_qsl(req.data, keep_blank_values=True, strict_parsing=True))


def compare(want, args, pairs):
    """pairs are those of the wanted parameters, in the order of declaration"""
    i = 0
    for p in want:
        v = args[p['name']]
        n = len(v) if p['type'] == 'array' and p.get('collectionFormat') == 'multi' else 1
        mine = pairs[i:i + n]
        i += n
        if len(mine) != n or any(k != p['name'] for k, _ in mine):
            fail('fields %r, expected %d of %r at %d' % (pairs, n, p['name'], i - n))
        b = ops.bad_pairs(p, v, [t for _, t in mine])
        if b:
            fail(b)
    ensure(i == len(pairs), 'fields nobody gave: %r' % pairs[i:])


def check_multi(case, cx):
    ps, args = case['params'], case['args']
    a = sut.app_of(sut.one_op(ps, 'post', consumes=['multipart/form-data', 'application/json'] if case['consumes'] else None))
    real = dict((k, ops.materialise(args[k], cx.tmp)) for k in case['order'])
    req, _ = a.op['op'](**real)
    kw, enc = ({}, 'utf-8') if not case.get('encoding') else (dict(encoding=case.get('encoding')), case.get('encoding'))
    req.prepare(handle_files=case['handle'], **kw)
    fields = [p for p in ps if not ops.is_file(p) and p['name'] in args and
              not (p['type'] == 'array' and p.get('collectionFormat') == 'multi' and not args[p['name']])]
    cx.nontrivial()
    cx.label('handled' if case['handle'] else 'raw', 'encoding %s' % case.get('encoding'))
    if not case['handle']:
        ensure('Content-Type' not in req.header, 'content type %r though the client encodes' % req.header.get('Content-Type'))
        compare(fields, args, [tuple(x) for x in req.data])
        ensure(set(req.files) == set(p['name'] for p in ps if ops.is_file(p)), 'files %r' % list(req.files))
        return
    try:
        parts = multipart.parse(req.header['Content-Type'], req.data, enc)
    except (ValueError, KeyError) as e:
        fail('payload is no multipart: %s: %r' % (e, req.data))
    pairs = [(n, c.decode(enc)) for n, f, h, c in parts if f is None]
    for n, f, h, c in parts:
        if f is None:
            ensure(not h, 'headers of a field: %r' % h)
    compare(fields, args, pairs)
    got = [(n, f, h, c) for n, f, h, c in parts if f is not None]
    for p in ps:
        if not ops.is_file(p):
            continue
        v, r = args[p['name']], real[p['name']]
        if not isinstance(v, list):
            v, r = [v], [r]
        mine = [x for x in got if x[0] == p['name']]
        got = [x for x in got if x[0] != p['name']]
        ensure(len(mine) == len(v), '%d file parts for %r, expected %d' % (len(mine), p['name'], len(v)))
        for (n, f, h, c), x, y in zip(mine, v, r):
            cx.label(x['__file__'])
            ensure(f == y['filename'], 'file name %r, given %r' % (f, y['filename']))
            ensure(h == dict((k.lower(), t) for k, t in x['header'].items()), 'headers %r, given %r' % (h, x['header']))
            b = ops.file_bytes(x, enc)
            ensure(c == b, 'content %r, given %r' % (c, b))
    ensure(not got, 'file parts nobody gave: %r' % got)


PARTS = [Part('body', gen_body, check_body, 5000), Part('plain', gen_plain, check_plain, 1000), Part('form', gen_form, check_form, 4000),
         Part('multi', lambda g: gen_form(g, True), check_multi, 4000)]
