# -*- coding: utf-8 -*-
"""Operations with parameters at every place, arguments for them, and what the
request must then contain (reference model of argument placement)."""
import io
import os

from . import values
from .gen import ANY, ASCII, CTRL, WORD, LETTERS, UNI
from .values import bad_text, kind

NAME_CHARS = LETTERS[:6] + u'_-.[]:!$@ ~'
HEADER_CHARS = WORD[:20] + u'-_'
HOSTS = ['api.test', 'api.test:8080', 'localhost']
BASES = [None, '', '/v1', '/v1/x']


def name(g, used, chars, lo=1):
    for _ in range(50):
        n = g.text(chars, lo, 5, 2)
        key = n.lower()
        if chars is HEADER_CHARS:
            key = key.replace('_', '-')     # a server by WSGI can not tell them apart
        if key not in used and n.lower() not in used and n.strip() and n != 'self':
            used.update([key, n.lower()])
            return n
    n = u'n%d' % len(used)
    used.add(n)
    return n


def leaf(g):
    return values.scalar(g, ['str', 'str', 'int', 'num', 'bool', 'byte', 'date', 'dt', 'uuid', 'email'])


def alphabet_of(place):
    if place == 'header':
        return WORD[:12] + u'&=?/#%+;:,| "\'{}\\~<>[]()@' + u'\u00e9\u4e2d'
    return ANY


def decl(g, place, used, files=False):
    """a parameter declaration"""
    plain = place == 'path'
    n = name(g, used, HEADER_CHARS if place == 'header' else (NAME_CHARS.replace(u' ', u'') if plain else NAME_CHARS))
    p = {'name': n, 'in': place}
    if place == 'body':
        p['schema'] = {'type': 'object'}
        if g.bool():
            p['required'] = True
        return p
    if files:
        p['type'] = 'file'
        if g.bool(0.25):
            p.pop('type')
            p.update(type='array', items={'type': 'file'})
    elif g.bool(0.2):
        it = leaf(g)
        while kind(it) not in ('int', 'date', 'uuid', 'bool'):
            it = g.choice([{'type': 'integer'}, {'type': 'string', 'format': 'date'}, {'type': 'boolean'}])
        p.update(type='array', items=it)
        f = g.choice([None, 'csv', 'pipes', 'ssv', 'tsv'] + (['multi', 'multi'] if place in ('query', 'formData') else []))
        if f:
            p['collectionFormat'] = f
        if g.bool(0.15) and not plain:
            p['default'] = g.list(lambda: default_of(g, it), 0, 3)
    else:
        p.update(leaf(g))
        if g.bool(0.2) and not plain:
            d = value(g, p)
            p['default'] = d if kind(p) not in ('byte', 'date', 'dt', 'uuid') else values.value(g, {'type': 'string'}, alphabet=LETTERS) if kind(p) == 'byte' else jsonable(p, d)
    if plain or g.bool(0.4):
        p['required'] = True
    elif g.bool(0.15):
        p['required'] = False
    return p


def jsonable(p, v):
    k = kind(p)
    if k == 'date':
        d = values.to_date(v)
        return u'%04d-%02d-%02d' % (d.year, d.month, d.day)
    if k == 'dt':
        return values.iso(values.to_datetime(v))
    if k == 'uuid':
        return u'%s' % values.to_uuid(v)
    return v


def default_of(g, it):
    k = kind(it)
    if k == 'bool':
        return g.bool()
    if k == 'date':
        return u'2011-0%d-11' % g.int(1, 9)
    if k == 'uuid':
        return u'123e4567-e89b-12d3-a456-42665544000%d' % g.int(0, 9)
    return values.value(g, it)


def value(g, p):
    """an argument for a parameter"""
    if p['in'] == 'body':
        return dict((g.text(LETTERS, 1, 3), g.choice([1, u'x', None, True, [1], {u'a': u'\u00e9'}])) for _ in range(g.int(0, 3)))
    if p['type'] == 'file':
        return a_file(g)
    if p['type'] == 'array':
        if p['items']['type'] == 'file':
            return g.list(lambda: a_file(g), 1, 3)
        return g.list(lambda: values.value(g, p['items'], text=True), 0, 4)
    v = values.value(g, p, text=True, alphabet=alphabet_of(p['in']))
    return v


def a_file(g):
    kind = g.choice(['bytes', 'text', 'disk'])
    h = {}
    if g.bool():
        h['Content-Type'] = g.choice(['text/plain', 'image/png', 'application/octet-stream'])
    if g.bool(0.4):
        h['Content-Transfer-Encoding'] = g.choice(['binary', '8bit', '7bit'])
    data = g.text(ANY + CTRL, 0, 12) if kind == 'text' else values.some_bytes(g)
    # a file with data needs no name
    return {'__file__': kind, 'header': h, 'data': data,
            'filename': u'' if kind != 'disk' and g.bool(0.1) else u'f' + g.text(LETTERS[:8] + u'. -_\u00e9' + (u'' if kind == 'disk' else u'"\\;='), 0, 6).strip()}


def is_file(p):
    return p.get('type') == 'file' or (p.get('type') == 'array' and p['items'].get('type') == 'file')


def materialise(v, tmp, n=[0]):
    """file arguments as the documentation asks for"""
    if isinstance(v, list):
        return [materialise(x, tmp) for x in v]
    if isinstance(v, dict) and '__file__' in v:
        f = dict(header=dict(v['header']), filename=v['filename'])
        if v['__file__'] == 'disk':
            n[0] += 1
            d = os.path.join(tmp, 'f%d' % n[0])
            os.mkdir(d)
            f['filename'] = os.path.join(d, v['filename'])
            with open(f['filename'], 'wb') as fp:
                fp.write(v['data'])
        elif v['__file__'] == 'bytes':
            f['data'] = io.BytesIO(v['data'])
        else:
            f['data'] = io.StringIO(v['data'])
        return f
    return v


def file_bytes(v, encoding='utf-8'):
    return v['data'].encode(encoding) if isinstance(v['data'], str) else v['data']


def operation(g, payload=None, lo=0, hi=5):
    """(params, path template, payload kind); payload: None, 'body', 'form', 'file'"""
    used = set()
    payload = payload or g.choice([None, 'body', 'form', 'form', 'file'])
    ps = [decl(g, g.choice(['path', 'query', 'query', 'header']), used) for _ in range(g.int(lo, hi))]
    if payload == 'body':
        ps.append(decl(g, 'body', used))
    elif payload in ('form', 'file'):
        ps += [decl(g, 'formData', used) for _ in range(g.int(1 if payload == 'form' else 0, 3))]
        if payload == 'file':
            ps += [decl(g, 'formData', used, files=True) for _ in range(g.int(1, 2))]
    ps = g.shuffle(ps)
    # template
    path = u'/' + g.text(LETTERS, 1, 4)
    for p in ps:
        if p['in'] == 'path':
            path += g.choice([u'/{%s}', u'/{%s}/' + g.text(LETTERS + u'-', 1, 3), u'-{%s}', u'/a{%s}b']) % p['name']
    return ps, path, payload


def arguments(g, ps, p_opt=0.7):
    return dict((p['name'], value(g, p)) for p in ps
                if (p.get('required') and ('default' not in p or g.bool())) or (not p.get('required') and g.bool(p_opt)))


def effective(p, args):
    """(present, value)"""
    if p['name'] in args:
        return True, args[p['name']]
    if 'default' in p:
        return True, p['default']
    return False, None


SEP = {'csv': u',', 'ssv': u' ', 'tsv': u'\t', 'pipes': u'|', None: u','}


def bad_pairs(p, v, texts):
    """None if the list of text forms is right for value v of parameter p"""
    if p['type'] != 'array':
        if len(texts) != 1:
            return '%d values for %r: %r' % (len(texts), p['name'], texts)
        return bad_text(p, v, texts[0])
    if p.get('collectionFormat') == 'multi':
        items = texts
    else:
        if len(texts) != 1:
            return '%d values for %r: %r' % (len(texts), p['name'], texts)
        items = texts[0].split(SEP[p.get('collectionFormat')]) if v or texts[0] else []
    if len(items) != len(v):
        return '%d items for %r: %r' % (len(items), p['name'], texts)
    for t, x in zip(items, v):
        b = bad_text(p['items'], x, t)
        if b:
            return b
    return None


def consumes_for(payload):
    return {'form': ['application/x-www-form-urlencoded'], 'file': ['multipart/form-data', 'application/x-www-form-urlencoded'], 'body': ['application/json']}.get(payload)
