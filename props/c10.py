# -*- coding: utf-8 -*-
import json
import re
from fractions import Fraction

from pbt import sut
from pbt.engine import Part, fail, outcome
from pbt.gen import WORD, UNI

RULE = ("limits: a number, string or array schema with 1-5 limits (possibly split over allOf), a value near the limits, at one of 12 "
        "positions; non-trivial when the value is refused, or lies exactly on a limit. Oracle: arithmetic on exact fractions.")

POS = ['query', 'header', 'path', 'formData', 'body', 'prop', 'item', 'item2', 'addp', 'bodyitem', 'resp', 'resp_prop', 'resp_header', 'ref', 'path_item']
COMPOSABLE = ('body', 'prop', 'addp', 'bodyitem', 'resp', 'resp_prop', 'ref')


def num_limits(g, t, fmt):
    whole = t == 'integer' or fmt in ('int32', 'int64')

    def bound():
        if whole:
            return g.int(-12, 12)
        return g.weighted([(2, g.int(-12, 12)), (2, g.int(-120, 120) / 10.0)])
    s = {}
    if g.bool(0.5):
        s['minimum'] = bound()
    if g.bool(0.5):
        s['maximum'] = bound()
    for k in ('exclusiveMinimum', 'exclusiveMaximum'):
        if g.bool(0.4):
            s[k] = g.bool()
    if g.bool(0.35):
        s['multipleOf'] = g.int(1, 5) if whole else g.choice([1, 2, 3, 0.5, 0.25, 0.1, 0.3, 1.5, 0.01])
    return s


def str_limits(g):
    s = {}
    if g.bool(0.5):
        s['minLength'] = g.int(0, 4)
    if g.bool(0.5):
        s['maxLength'] = g.int(0, 5)
    if g.bool(0.3):
        s['enum'] = [g.text(WORD[:4] + u'\u00e9', 0, 4) for _ in range(g.int(1, 4))]
    return s


def mail(g):
    return u'a%s@%s.cc' % (g.text(u'bc', 0, 4), g.text(u'bc', 1, 3))


def mail_limits(g):
    s = {}
    if g.bool(0.5):
        s['minLength'] = g.int(6, 10)
    if g.bool(0.5):
        s['maxLength'] = g.int(6, 10)
    if g.bool(0.3):
        s['enum'] = [mail(g) for _ in range(g.int(1, 4))]
    return s


def arr_limits(g):
    s = {}
    if g.bool(0.6):
        s['minItems'] = g.int(0, 4)
    if g.bool(0.6):
        s['maxItems'] = g.int(0, 4)
    if g.bool(0.15):
        s['uniqueItems'] = True
    return s


def limits(g, kind, t, fmt):
    return {'num': lambda: num_limits(g, t, fmt), 'str': lambda: str_limits(g), 'mail': lambda: mail_limits(g), 'arr': lambda: arr_limits(g)}[kind]()


def gen(g):
    pos = g.choice(POS)
    kind = g.weighted([(6, 'num'), (5, 'str'), (6, 'arr'), (1, 'mail')])
    if kind == 'mail':
        t, fmt = 'string', 'email'
    elif kind == 'num':
        t, fmt = g.choice([('integer', None), ('integer', 'int32'), ('integer', 'int64'), ('number', None), ('number', 'float'),
                           ('number', 'double'), ('number', 'int32')])
    elif kind == 'str':
        t, fmt = 'string', g.choice([None, None, 'password', 'hostname'])
    else:
        t, fmt = 'array', None
    base = {'type': t}
    if fmt:
        base['format'] = fmt
    if kind == 'arr':
        ik = g.choice(['num', 'str'])
        base['items'] = dict({'type': 'integer'} if ik == 'num' else {'type': 'string'})
        if g.bool(0.5):
            base['items'].update(limits(g, ik, 'integer', None))
    parts = [limits(g, kind, t, fmt)]
    shape = 'plain'
    if pos in COMPOSABLE and g.bool(0.45):
        shape = g.choice(['own+allOf', 'typed first', 'typed last', 'nested', 'untyped own'])
        if kind == 'arr' and g.bool(0.4):
            shape = g.choice(['items apart', 'items first', 'items deep', 'no items'])
        for _ in range(g.int(1, 2, edges=False)):
            parts.append(limits(g, kind, t, fmt))
    if shape == 'no items':
        base['items'] = {'type': base['items']['type']}
    return dict(pos=pos, base=base, parts=parts, shape=shape, value=value(g, kind, base, parts))


def value(g, kind, base, parts):
    whole = base['type'] == 'integer' or base.get('format') == 'int32'
    if kind == 'num':
        bounds = [p[k] for p in parts for k in ('minimum', 'maximum') if k in p]
        m = [p['multipleOf'] for p in parts if 'multipleOf' in p]
        k = g.choice(['bound', 'off', 'mult', 'any'])
        if k in ('bound', 'off') and bounds:
            v = g.choice(bounds)
            if k == 'off':
                v = v + g.choice([-1, 1] if whole else [-1, 1, 0.5, -0.5, 1e-9, -1e-9])
        elif k == 'mult' and m:
            x = g.int(-20, 20)
            f = Fraction(repr(m[0])) * x if isinstance(m[0], float) else m[0] * x
            v = int(f) if f == int(f) and (whole or g.bool()) else float(f)
        else:
            v = g.int(-15, 15) if whole or g.bool() else g.int(-150, 150) / 10.0
        return v
    if kind == 'mail' and not g.bool(0.5):
        return g.choice([e for p in parts for e in p.get('enum', [])] or [mail(g)]) if g.bool(0.8) else g.choice([u'abcdefg', u'@bcd.cc', u'abcde@', u'a b@c d.e'])
    if kind == 'mail':
        lens = [p[k] for p in parts for k in ('minLength', 'maxLength') if k in p] or [7]
        n = max(6, g.choice(lens) + g.int(-1, 1, edges=False))
        return u'a' * (n - 5) + u'@b.cc'
    if kind == 'str':
        enums = [e for p in parts for e in p.get('enum', [])]
        lens = [p[k] for p in parts for k in ('minLength', 'maxLength') if k in p]
        if enums and g.bool(0.6):
            return g.choice(enums)
        if lens and g.bool(0.8):
            n = max(0, g.choice(lens) + g.int(-1, 1, edges=False))
        else:
            n = g.int(0, 6)
        return g.text(WORD[:4] + UNI[:3], n, n)
    lens = [p[k] for p in parts for k in ('minItems', 'maxItems') if k in p]
    n = max(0, g.choice(lens) + g.int(-1, 1, edges=False)) if lens and g.bool(0.8) else g.int(0, 5)
    it = base['items']
    ik = 'num' if it['type'] == 'integer' else 'str'
    return [value(g, ik, it, [it]) if g.bool(0.5) else (g.int(0, 3) if ik == 'num' else g.text(WORD[:2], 1, 2)) for _ in range(n)]


def frac(v):
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


def ok_num(s, v):
    if 'minimum' in s and (v < s['minimum'] or (v == s['minimum'] and s.get('exclusiveMinimum'))):
        return False
    if 'maximum' in s and (v > s['maximum'] or (v == s['maximum'] and s.get('exclusiveMaximum'))):
        return False
    if 'multipleOf' in s and (frac(v) / frac(s['multipleOf'])).denominator != 1:
        return False
    return True


def ok_str(s, v):
    return (len(v) >= s.get('minLength', 0) and len(v) <= s.get('maxLength', 1 << 30) and v in s.get('enum', [v]))


def ok(base, parts, v):
    if base['type'] == 'array':
        it = base['items']
        f = ok_num if it['type'] == 'integer' else ok_str
        if not all(f(it, x) for x in v):
            return False
        n = len(v)
        if any(p.get('uniqueItems') for p in parts):
            n = len(set(v))
        return all(p.get('minItems', 0) <= n <= p.get('maxItems', 1 << 30) for p in parts)
    if base.get('format') == 'email' and not re.match(u'^[abc]+@[abc]+[.]cc$', v):
        return False
    f = ok_str if base['type'] == 'string' else ok_num
    return all(f(p, v) for p in parts)


def build(base, parts, shape):
    if shape == 'plain':
        return dict(base, **parts[0])
    if shape == 'own+allOf':
        return dict(base, allOf=[dict(p) for p in parts[1:]], **parts[0])
    if shape == 'typed first':
        return dict(allOf=[dict(base, **parts[0])] + [dict(p) for p in parts[1:]])
    if shape == 'typed last':
        return dict(allOf=[dict(p) for p in parts[1:]] + [dict(base, **parts[0])])
    if shape == 'nested':
        return dict(allOf=[dict(allOf=[dict(p) for p in parts[1:]]), dict(base, allOf=[dict(allOf=[dict(parts[0])])])])
    if shape == 'untyped own':
        return dict(allOf=[dict(base)] + [dict(p) for p in parts[1:]], **parts[0])
    untyped = dict(base)
    items = dict(items=untyped.pop('items', None))
    if shape == 'items apart':
        return dict(untyped, allOf=[dict(p) for p in parts[1:]] + [items], **parts[0])
    if shape == 'items first':
        return dict(allOf=[items, dict(untyped, **parts[0])] + [dict(p) for p in parts[1:]])
    if shape == 'items deep':
        return dict(allOf=[dict(parts[0], allOf=[dict(untyped)]), dict(allOf=[dict(items, **parts[1])])] + [dict(p) for p in parts[2:]])
    if shape == 'no items':
        return dict(untyped, allOf=[dict(p) for p in parts[1:]], **parts[0])
    raise KeyError(shape)


def text(v):
    if isinstance(v, list):
        return u','.join(text(x) for x in v)
    return repr(v) if isinstance(v, float) else u'%s' % v


def check(case, cx):
    pos, base, parts, v = case['pos'], case['base'], case['parts'], case['value']
    if pos == 'resp_header' and isinstance(v, list) and (not v or any(x == u'' for x in v)):
        return          # an empty array has no text form of its own
    s = build(base, parts, case['shape'])
    want = ok(base, parts, v)
    plainpos = dict(query={'in': 'query'}, header={'in': 'header'}, path={'in': 'path', 'required': True}, formData={'in': 'formData'})
    path, extra = '/op', {}
    resp = None
    arg = v
    params = []
    if pos in plainpos:
        params = [dict(s, name='p', **plainpos[pos])]
        path = '/op/{p}' if pos == 'path' else path
    elif pos == 'item':
        params = [dict(type='array', items=s, name='p', **{'in': 'query'})]
        arg = [v]
    elif pos == 'path_item':
        extra = [dict(s, name='p', **{'in': 'query'})]
    elif pos == 'item2':
        params = [dict(type='array', items=dict(type='array', items=s), name='p', **{'in': 'header'})]
        arg = [[], [v]]
    elif pos == 'body':
        params = [dict(name='p', schema=s, **{'in': 'body'})]
    elif pos == 'ref':
        extra = {'S': s}
        params = [dict(name='p', schema={'$ref': '#/definitions/S'}, **{'in': 'body'})]
    elif pos == 'prop':
        params = [dict(name='p', schema=dict(type='object', properties={'a': dict(type='object', properties={'b': s})}), **{'in': 'body'})]
        arg = {'a': {'b': v}}
    elif pos == 'addp':
        params = [dict(name='p', schema=dict(type='object', additionalProperties=s), **{'in': 'body'})]
        arg = {'k': v}
    elif pos == 'bodyitem':
        params = [dict(name='p', schema=dict(type='array', items=s), **{'in': 'body'})]
        arg = [v]
    elif pos == 'resp':
        resp = {'200': dict(description='', schema=s)}
    elif pos == 'resp_prop':
        resp = {'default': dict(description='', schema=dict(type='object', properties={'b': s}))}
        arg = {'b': v}
    elif pos == 'resp_header':
        resp = {'200': dict(description='', headers={'X-P': s})}
    d = sut.one_op(params, 'post', path, responses=resp, definitions=extra if pos == 'ref' else None)
    if pos == 'path_item':
        d['paths'][path]['parameters'] = extra
    app = sut.app_of(d)
    if resp is None:
        got = outcome(lambda: app.op['op'](p=arg))
    else:
        _, r = app.op['op']()
        if pos == 'resp_header':
            got = outcome(lambda: r.apply_with(status=200, header=[('x-p', text(v))]))
        else:
            got = outcome(lambda: r.apply_with(status=200, raw=json.dumps(arg)))
    lims = set(k for p in parts for k in p)
    cx.label(pos, base['type'], 'accept' if want else 'refuse', case['shape'], *lims)
    cx.nontrivial(not want or on_limit(parts, v))
    if (got[0] == 'ok') != want:
        fail('%s at %s: value %r should be %s but is %s%s' % (json.dumps(s, sort_keys=True), pos, v, 'accepted' if want else 'refused',
             'accepted' if got[0] == 'ok' else 'refused', '' if got[0] == 'ok' else ' (%s)' % (got[1:],)))


def on_limit(parts, v):
    for p in parts:
        n = len(v) if isinstance(v, (list, str)) else v
        if n in (p.get('minimum'), p.get('maximum'), p.get('minLength'), p.get('maxLength'), p.get('minItems'), p.get('maxItems')):
            return True
        if 'multipleOf' in p or 'enum' in p:
            return True
    return False


PARTS = [Part('limits', gen, check, 16000)]
