# -*- coding: utf-8 -*-
"""Schemas of arbitrary depth, values for them, and a judge of their wire form."""
from . import values
from .gen import LETTERS, ANY, UNI, TRICKY
from .values import kind

PROP_CHARS = LETTERS[:6] + u'_-./~$ ' + UNI[:3] + u'"%'
RAW = [1, u'x', True, None, 1.5, [1, u'\u00e9'], {u'k': [None]}, u'']


def pname(g, used, chars=PROP_CHARS):
    for _ in range(30):
        n = g.text(chars, 1, 4, 2)
        if n not in used:
            used.add(n)
            return n
    n = u'n%d' % len(used)
    used.add(n)
    return n


def schema(g, depth=2, kinds=values.ALL):
    t = g.weighted([(4, 'scalar'), (2 if depth else 0, 'array'), (4 if depth else 0, 'object')])
    if t == 'scalar':
        return values.scalar(g, kinds)
    if t == 'array':
        return dict(type='array', items=schema(g, depth - 1, kinds))
    return obj(g, depth, kinds)


def obj(g, depth=2, kinds=values.ALL):
    used = set()
    s = dict(type='object') if g.bool(0.8) else {}
    names = [pname(g, used) for _ in range(g.int(0 if s else 1, 4))]
    s['properties'] = dict((n, schema(g, depth - 1, kinds)) for n in names)
    if g.bool(0.4):
        s['required'] = g.sample(names, 0)
        if not s['required']:
            del s['required']
    a = g.weighted([(4, None), (1, True), (1, False), (2 if depth else 0, 'schema')])
    if a == 'schema':
        a = schema(g, depth - 1, kinds)
    if a is not None:
        s['additionalProperties'] = a
    return s


def value(g, s, p_opt=0.7):
    """a valid value in documented representations"""
    if 'enum' in s:
        return g.choice(s['enum'])
    t = s.get('type')
    if t == 'array':
        return g.list(lambda: value(g, s['items'], p_opt), 0, 4, 2)
    if t == 'object' or 'properties' in s:
        out = {}
        for n, p in s.get('properties', {}).items():
            if n in s.get('required', []) or g.bool(p_opt):
                out[n] = value(g, p, p_opt)
        a = s.get('additionalProperties', True)
        if g.bool(0.4):
            for _ in range(g.int(1, 2)):
                n = u'x' + g.text(PROP_CHARS, 0, 3)
                if n not in s.get('properties', {}):
                    out[n] = value(g, a, p_opt) if isinstance(a, dict) else g.choice(RAW)
        return out
    return values.value(g, s)


def bad_wire(s, v, got, path=''):
    """None if `got` is the JSON form of v by schema s, else the reason"""
    t = s.get('type')
    if t == 'array':
        if not isinstance(got, list) or len(got) != len(v):
            return '%s: %r for %r' % (path, got, v)
        for i, (x, y) in enumerate(zip(v, got)):
            b = bad_wire(s['items'], x, y, '%s/%d' % (path, i))
            if b:
                return b
        return None
    if t == 'object' or 'properties' in s:
        if not isinstance(got, dict):
            return '%s: %r for %r' % (path, got, v)
        a = s.get('additionalProperties', True)
        props = s.get('properties', {})
        want = [k for k in v if k in props or a is not False]
        if set(want) != set(got):
            return '%s: keys %r, expected %r' % (path, sorted(got), sorted(want))
        for k in want:
            if k in props:
                b = bad_wire(props[k], v[k], got[k], path + '/' + k)
            elif isinstance(a, dict):
                b = bad_wire(a, v[k], got[k], path + '/' + k)
            else:
                b = None if same(v[k], got[k]) else '%s/%s: %r for raw %r' % (path, k, got[k], v[k])
            if b:
                return b
        return None
    b = values.bad_json(s, v, got)
    return '%s: %s' % (path, b) if b else None


def same(a, b):
    if type(a) is bool or type(b) is bool:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and isinstance(a, str) == isinstance(b, str)
