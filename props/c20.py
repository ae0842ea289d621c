# -*- coding: utf-8 -*-
import base64
import copy
import datetime
import random
import re
import uuid
from fractions import Fraction

from pyswagger.primitives import Renderer

from pbt import sut, values
from pbt.engine import Part, fail, check as ensure
from pbt.gen import LETTERS

RULE = ("render: documents whose operations have parameters at every place (own, shared by path item, by reference) with limits, enums, arrays and body schemas "
        "composed by references and allOf, optionally recursive; generated options, templates and exclusions, and a generated seed of the random module. What is "
        "rendered is judged by a direct reading of the declaration, and by the operation itself. Non-trivial: at least three limits or enums were decided.")
ASSUMPTIONS = ["declarations are satisfiable and of types and formats the renderer lists; pattern, and enum of objects and arrays, are not rendered (documented as to-do)", "additionalProperties are not combined with allOf",
               "readOnly properties are never rendered, as they must not be sent", "a recursive schema need not be complete below its second occurrence"]

URL = 'http://h.test/api/swagger.json'
NAMES = [u'a', u'b', u'c', u'd', u'e', u'id', u'name', u'x y', u'f/g']
TNAMES = [u'id', u'name']


def frac(v):
    return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)


# -- declarations --------------------------------------------------------------
def text(g, lo, hi):
    return g.text(LETTERS, lo, hi)


def an_int(g, f):
    k = g.weighted([(4, 20), (1, 1000), (1, 2 ** 31 - 1), (0 if f == 'int32' else 1 if f == 'int64' else 0.2, 2 ** 60)])
    return g.int(-k, k)


def leaf(g, kinds=('int', 'num', 'str', 'bool', 'byte', 'date', 'dt', 'uuid', 'email')):
    k = g.choice(kinds)
    if k == 'int':
        s = {'type': 'integer'}
        f = g.choice([None, 'int32', 'int64', ''])
        if f is not None:
            s['format'] = f
        v = an_int(g, f)
        if g.bool(0.2):
            s['enum'] = [v] + [g.int(-3, 3) for _ in range(g.int(0, 2))]
            return s
        m = g.weighted([(3, None), (1, 1), (1, 2), (1, 5), (1, 7), (0.3, 1000), (0.2, 0.5), (0.2, 1.5)])
        if m:
            v = v // 3 * 3 if m == 1.5 else v if m == 0.5 else v // m * m
            s['multipleOf'] = m
        if g.bool():
            e = g.bool(0.3)
            s['minimum'] = v - g.int(1 if e else 0, 30, edges=False)
            if e or g.bool(0.1):
                s['exclusiveMinimum'] = e
        if g.bool():
            e = g.bool(0.3)
            s['maximum'] = v + g.int(1 if e else 0, 30, edges=False)
            if e or g.bool(0.1):
                s['exclusiveMaximum'] = e
        if g.bool(0.07):
            for n, d in (('minimum', -0.5), ('maximum', 0.5)):
                if n in s:
                    s[n] += d
        return s
    if k == 'num':
        s = {'type': 'number'}
        f = g.choice([None, 'float', 'double', ''])
        if f is not None:
            s['format'] = f
        v = g.weighted([(3, g.int(-100, 100) / 10.0), (1, float(g.int(-9, 9))), (1, g.int(-10 ** 6, 10 ** 6)), (0.3, g.int(-9, 9) * 1e20)])
        if g.bool(0.2):
            s['enum'] = [v] + [g.choice([0, 0.0, 1.5, -2]) for _ in range(g.int(0, 2))]
            return s
        m = g.weighted([(4, None), (1, 5), (1, 0.1), (1, 0.5), (1, 0.3), (0.5, 0.01), (0.5, 3)])
        if m and abs(v) < 1e9:
            v = float(frac(v) // frac(m) * frac(m))
            s['multipleOf'] = m
        step = m or 0.25
        if g.bool():
            e = g.bool(0.3)
            s['minimum'] = float(frac(v) - frac(step) * g.int(1 if e else 0, 9)) if abs(v) < 1e9 else v - abs(v) * 0.1 * g.int(1, 9)
            if e or g.bool(0.1):
                s['exclusiveMinimum'] = e
        if g.bool():
            e = g.bool(0.3)
            s['maximum'] = float(frac(v) + frac(step) * g.int(1 if e else 0, 9)) if abs(v) < 1e9 else v + abs(v) * 0.1 * g.int(1, 9)
            if e or g.bool(0.1):
                s['exclusiveMaximum'] = e
        return s
    if k == 'str':
        s = {'type': 'string'}
        f = g.choice([None, None, '', 'password'])
        if f is not None:
            s['format'] = f
        n = g.weighted([(5, 6), (1, 0), (1, 130)])
        if g.bool(0.2):
            s['enum'] = [text(g, 0, 4) for _ in range(g.int(1, 3))]
            return s
        if g.bool():
            s['minLength'] = max(0, n - g.int(0, 6))
        if g.bool():
            s['maxLength'] = n + g.int(0, 6, edges=False)
        return s
    if k == 'bool':
        s = {'type': 'boolean'}
        if g.bool(0.3):
            s['enum'] = g.choice([[False], [True], [True, False]])
        return s
    s = dict(zip(('type', 'format'), {'byte': ('string', 'byte'), 'date': ('string', 'date'), 'dt': ('string', 'date-time'), 'uuid': ('string', 'uuid'), 'email': ('string', 'email')}[k]))
    if g.bool(0.2):
        s['enum'] = [{'byte': lambda: text(g, 0, 4), 'date': lambda: u'20%02d-%02d-%02d' % (g.int(0, 37), g.int(1, 12), g.int(1, 28)),
                      'dt': lambda: u'20%02d-%02d-%02dT%02d:00:00%s' % (g.int(10, 37), g.int(1, 12), g.int(1, 28), g.int(0, 23), g.choice([u'Z', u'+08:00', u''])),
                      'uuid': lambda: u'c1b0b6ac-5f0d-4a3c-8b1e-%012d' % g.int(0, 99), 'email': lambda: text(g, 1, 3) + u'@' + text(g, 1, 3) + u'.io'}[k]()
                     for _ in range(g.int(1, 3))]
    elif k == 'email':
        if g.bool(0.2):
            s['maxLength'] = g.int(20, 60)
        if g.bool(0.2):
            s['minLength'] = g.int(0, 20)
    return s


def many(s):
    """a leaf with plenty of values"""
    return s['type'] in ('string',) and not s.get('enum') and s.get('maxLength', 9) > 4 and s.get('format') not in ('byte',)


class Gen(object):
    def __init__(self, g):
        self.g, self.defs, self.shared = g, {}, {}
        for n in TNAMES:
            self.shared[n] = leaf(g)
        self.rec = g.bool(0.25)
        names = [u'A', u'B', u'C/D', u'E'][:g.int(0, 4)]
        self.rest = []
        for n in reversed(names):
            self.at = n
            with g.span():
                self.defs[n] = self.obj(2) if g.bool(0.8) else self.schema(2)
            self.rest.append(n)
        self.at = None

    def ref(self, n):
        return {'$ref': '#/definitions/' + n.replace('/', '~1')}

    def schema(self, depth):
        g = self.g
        k = g.weighted([(4, 'leaf'), (2 if depth else 0, 'arr'), (3 if depth else 0, 'obj'), (2 if self.rest else 0, 'ref'), (0.5, 'split')])
        if k == 'leaf':
            return leaf(g)
        if k == 'ref':
            return self.ref(g.choice(self.rest))
        if k == 'arr':
            return self.arr(lambda: self.schema(depth - 1))
        if k == 'obj':
            return self.obj(depth)
        s = leaf(g, ['int', 'num', 'str'])
        keys = [n for n in s if n not in ('type', 'format')]
        moved = g.subset(keys)
        ms = [{} for _ in range(g.int(1, 2))]
        for n in moved:
            g.choice(ms)[n] = s.pop(n)
        s['allOf'] = ms
        return s

    def arr(self, items):
        g = self.g
        s = {'type': 'array', 'items': items()}
        if g.bool(0.25):
            s['uniqueItems'] = True
        cap = 9
        if s.get('uniqueItems') and s['items'].get('type') == 'string' and 'enum' not in s['items'] and s['items'].get('format') in (None, '', 'password'):
            s['items'].update(minLength=2, maxLength=12)
        if s.get('uniqueItems'):
            cap = (1 if s['items'].get('format') == 'date-time' else len(set(s['items']['enum']))) if s['items'].get('enum') else (9 if s['items'].get('type') and many(s['items']) else 1)
        n = g.int(0, cap)
        if g.bool(0.4):
            s['minItems'] = max(0, n - g.int(0, 3))
        if g.bool(0.4):
            s['maxItems'] = n + g.int(0, 3)
        return s

    def props(self, depth, pool):
        g = self.g
        return dict((n, self.shared[n] if n in TNAMES else self.prop(depth - 1)) for n in g.sample(pool, 0, 4))

    def prop(self, depth):
        s = self.schema(max(depth, 0))
        if '$ref' not in s and self.g.bool(0.06):
            s['readOnly'] = True
        return s

    def obj(self, depth):
        g = self.g
        pool = list(NAMES)
        s = {'type': 'object', 'properties': self.props(depth, pool)}
        if g.bool(0.3) and depth > 0:
            s['allOf'] = []
            for _ in range(g.int(1, 2)):
                taken = set(n for m in [s] for n in eff(self.defs, m)['properties'])
                c = [r for r in self.rest if is_obj(self.defs, self.ref(r)) and not set(eff(self.defs, self.ref(r))['properties']) & taken
                     and not set(eff(self.defs, self.ref(r))) & set(['maxProperties', 'minProperties', 'additionalProperties'])]
                if c and g.bool(0.6):
                    s['allOf'].append(self.ref(g.choice(c)))
                else:
                    m = {'properties': self.props(depth - 1, [n for n in NAMES if n not in taken])}
                    if g.bool():
                        m['type'] = 'object'
                    req = g.subset(sorted(n for n, p in m['properties'].items() if not p.get('readOnly')), 0.3)
                    if req:
                        m['required'] = req
                    s['allOf'].append(m)
        e = eff(self.defs, s)
        own = sorted(n for n, p in e['properties'].items() if not follow(self.defs, p).get('readOnly'))
        req = g.subset(sorted(n for n in own), 0.35)
        if req:
            s['required'] = req
        req = set(req) | set(e.get('required', []))
        if self.rec and self.at and depth == 2:
            free = [n for n in NAMES if n not in e['properties'] and n not in TNAMES]
            if free:
                n = free[0]
                s['properties'][n] = self.ref(self.at) if g.bool() else {'type': 'array', 'items': self.ref(self.at)}
                own.append(n)
        a = g.weighted([(4, None), (1, True), (1, False), (2, 'schema')]) if 'allOf' not in s else None
        if a == 'schema':
            a = self.schema(max(0, depth - 1))
        if a is not None:
            s['additionalProperties'] = a
        rec_free = [n for n in own if not rec_of(s['properties'].get(n), self.at)]
        top = len(rec_free) + (5 if isinstance(a, dict) else 0)
        n = g.int(len(req), max(top, len(req)))
        if g.bool(0.2):
            s['minProperties'] = max(0, n - g.int(0, 2))
        if g.bool(0.2):
            s['maxProperties'] = max(n, g.int(0, 12))
        return s


def rec_of(p, at):
    if not p or not at:
        return False
    r = '#/definitions/' + at.replace('/', '~1')
    return p.get('$ref') == r or (p.get('items') or {}).get('$ref') == r


def follow(defs, s):
    while '$ref' in s:
        s = defs[s['$ref'][14:].replace('~1', '/')]
    return s


def is_obj(defs, s):
    return follow(defs, s).get('type') == 'object'


def eff(defs, s):
    """all declared about a schema: its own and that of those it composes (disjoint by construction)"""
    s = follow(defs, s)
    out = dict((k, v) for k, v in s.items() if k != 'allOf')
    out['properties'] = dict(out.get('properties', {}))
    out['required'] = [] if 'in' in s else list(out.get('required', []))
    for m in s.get('allOf', []):
        e = eff(defs, m)
        out['properties'].update((k, v) for k, v in e.pop('properties').items() if k not in out['properties'])
        out['required'] += e.pop('required')
        for k, v in e.items():
            out.setdefault(k, v)
    return out


def gen(g):
    b = Gen(g)
    shared, item, own, used = {}, [], [], []
    kinds = ['query', 'header', 'path', 'formData']
    body = g.bool(0.5)
    if body:
        kinds.remove('formData')
    for i in range(g.int(0, 5)):
        with g.span():
            p = {'name': u'p%d' % i, 'in': g.choice(kinds)}
            if p['in'] == 'formData' and g.bool(0.25):
                p['type'] = 'file'
            elif g.bool(0.25):
                p.update(b.arr(lambda: leaf(g)))
                p['collectionFormat'] = g.choice(['csv', 'pipes'] + (['multi'] if p['in'] in ('query', 'formData') else []))
            else:
                p.update(leaf(g))
            if p['in'] == 'path' or g.bool(0.3):
                p['required'] = True
            if g.bool(0.25):
                shared['s%d' % i] = p
                p = {'$ref': '#/parameters/s%d' % i}
            (item if g.bool(0.2) else own).append(p)
            used.append(u'p%d' % i)
    if body:
        p = {'name': u'body', 'in': 'body', 'schema': b.schema(3)}
        if g.bool(0.5):
            p['required'] = True
        if g.bool(0.25):
            shared['sb'] = p
            p = {'$ref': '#/parameters/sb'}
        (item if g.bool(0.2) else own).append(p)
        used.append(u'body')
    opt = {}
    if g.bool(0.95):
        opt = dict(max_array_length=g.int(0, 5), max_prop_count=g.int(0, 6), max_str_length=g.int(0, 12), max_byte_length=g.int(0, 12),
                   max_file_length=g.int(0, 12), max_name_length=g.int(2, 6))
        for w in ('property', 'parameter'):
            mode = g.weighted([(3, None), (2, 'minimal'), (2, 'max')])
            if mode:
                opt['%s_%s' % (mode, w)] = True
        pt = {}
        for n in g.subset(used, 0.15):
            pt[n] = None
        opt['parameter_template'] = pt
        opt['object_template'] = dict((n, valid(g, b.shared[n])) for n in g.subset(TNAMES, 0.2))
        opt['files'] = g.int(0, 2)
    doc = sut.doc_with({'/p' + ''.join('/{%s}' % n for n in used if n != u'body'): {}}, definitions=b.defs, parameters=shared)
    path = list(doc['paths'])[0]
    full = [shared[p['$ref'][len('#/parameters/'):]] if '$ref' in p else p for p in own + item]
    inpath = [p['name'] for p in full if p['in'] == 'path']
    doc['paths'] = {'/p' + ''.join('/{%s}' % n for n in inpath): {'parameters': item, 'post': {
        'operationId': 'op', 'consumes': ['application/json'] if body else ['multipart/form-data', 'application/x-www-form-urlencoded'], 'parameters': own, 'responses': {'200': {'description': 'x'}}}}}
    for p in full:
        if p['name'] in opt.get('parameter_template', {}):
            opt['parameter_template'][p['name']] = valid(g, p) if p['in'] != 'body' and p.get('type') not in ('array', 'file') else 'skip'
    if opt:
        opt['parameter_template'] = dict((k, v) for k, v in opt['parameter_template'].items() if not (isinstance(v, str) and v == 'skip'))
    return dict(doc=doc, cyclic=b.rec, params=full, own=full[:len(own)], opt=opt, exclude=g.subset(used, 0.08), seed=g.int(0, 10 ** 6), again=g.int(1, 3))


def valid(g, s):
    """some valid value of a leaf"""
    if s.get('enum'):
        return g.choice(s['enum'])
    k = values.kind(s) if s.get('format') != '' else {'string': 'str', 'integer': 'int', 'number': 'num'}[s['type']]
    if k in ('int', 'num'):
        m, lo, hi = s.get('multipleOf'), s.get('minimum'), s.get('maximum')
        unit = frac(m) if m else Fraction(1, 8)
        if k == 'int':
            unit = Fraction(unit.numerator)
            if not m:
                unit = Fraction(1)
        at = frac(lo) if lo is not None else frac(hi) if hi is not None else Fraction(0)
        c = [x * unit for x in range(int(at // unit) - 80, int(at // unit) + 80)]
        c = [int(x) if k == 'int' else float(x) for x in c]
        c = [x for x in c if bad_number(s, x) is None]
        for x in (lo, hi):
            if x is not None and k == 'num':
                c += [y for y in (x, x - abs(x) * 0.01, x + abs(x) * 0.01) if bad_number(s, y) is None]
        return g.choice(c)
    if k == 'str':
        return text(g, s.get('minLength', 0), s.get('maxLength', s.get('minLength', 0) + 3))
    if k == 'bool':
        return g.bool()
    return {'byte': u'xyz', 'date': u'2011-02-03', 'dt': u'2011-02-03T04:05:06Z', 'uuid': u'c1b0b6ac-5f0d-4a3c-8b1e-000000000000', 'email': u'abcdefghijk@lm.nopq.io'[-max(8, min(22, s.get('maxLength', 22))):]}[k]


# -- the judge --------------------------------------------------------------------
def bad_number(s, v):
    lo, hi, m = s.get('minimum'), s.get('maximum'), s.get('multipleOf')
    if lo is not None and (v <= lo if s.get('exclusiveMinimum') else v < lo):
        return 'below minimum'
    if hi is not None and (v >= hi if s.get('exclusiveMaximum') else v > hi):
        return 'above maximum'
    if m and (frac(v) / frac(m)).denominator != 1:
        return 'not a multiple'
    return None


class Judge(object):
    def __init__(self, cx, defs, opt):
        self.cx, self.defs, self.opt, self.n = cx, defs, opt, 0

    def bad(self, s, v, at, stack=()):
        me = follow(self.defs, s)
        e = eff(self.defs, s)
        t, f = e.get('type'), e.get('format')
        for k in ('minimum', 'maximum', 'multipleOf', 'enum', 'minLength', 'maxLength', 'minItems', 'maxItems', 'minProperties', 'maxProperties', 'uniqueItems'):
            if e.get(k) is not None:
                self.n += 1
                self.cx.label('limit:' + k)

        def no(why):
            fail('%s: %s: %r of %r' % (at, why, v, e))
        if t == 'object':
            self.obj(me, e, v, at, stack, no)
        elif t == 'array':
            if type(v) is not list:
                no('not a list')
            lo, hi = e.get('minItems', 0), e.get('maxItems')
            if len(v) < lo:
                no('too few')
            if len(v) > (hi if hi is not None else max(lo, self.opt['max_array_length'])):
                no('too many')
            if e.get('uniqueItems') and any(x == y for i, x in enumerate(v) for y in v[:i]):
                no('not unique')
            for i, x in enumerate(v):
                self.bad(e['items'], x, '%s/%d' % (at, i), stack + (me,))
        elif t == 'file':
            if self.opt['files']:
                if not any(v is x for x in self.opt['files']):
                    no('not a registered file')
            elif not isinstance(v, dict) or len(v['data'].getvalue()) > self.opt['max_file_length']:
                no('not a file')
        else:
            self.scalar(e, t, f, v, no)

    def scalar(self, e, t, f, v, no):
        en = e.get('enum')
        if t == 'integer':
            if type(v) is not int:
                no('no integer')
            if en and v not in en:
                no('not in enum')
            if f == 'int32' and not -2 ** 31 <= v < 2 ** 31:
                no('no int32')
            if f == 'int64' and not -2 ** 63 <= v < 2 ** 63:
                no('no int64')
        elif t == 'number':
            if type(v) is not float and not (en and type(v) is int):
                no('no number')
            if en and v not in en:
                no('not in enum')
            if v != v or v in (float('inf'), float('-inf')):
                no('not finite')
        elif t == 'boolean':
            if type(v) is not bool or en and v not in en:
                no('no boolean')
        elif f in (None, '', 'password', 'email'):
            if not isinstance(v, str) or en and v not in en:
                no('no text, or not in enum')
            if len(v) < e.get('minLength', 0):
                no('too short')
            if f != 'email' and not en and len(v) > e.get('maxLength', max(e.get('minLength', 0), self.opt['max_str_length'])):
                no('too long')
            if f == 'email' and (not re.match(r'^[^@ ]+@[^@ ]+\.[^@ ]+$', v) or len(v) > e.get('maxLength', 10 ** 9)):
                no('no such email')
        elif f == 'byte':
            if en:
                if v not in en:
                    no('not in enum')
            elif not isinstance(v, bytes) or len(base64.b64decode(v)) > self.opt['max_byte_length']:
                no('no bytes in base64')
        elif f == 'uuid':
            if not isinstance(v, uuid.UUID) or en and str(v) not in en:
                no('no such uuid')
        elif f == 'date':
            if type(v) is not datetime.date or en and v.isoformat() not in en:
                no('no such date')
        elif f == 'date-time':
            if type(v) is not datetime.datetime or en and not any(values.same_time(x, v) for x in en) and not any(values.parse_iso(x) == v for x in en if x[-1] == 'Z'):
                no('no such date-time')
        else:
            no('unknown type')
        if t in ('integer', 'number'):
            b = bad_number(e, v)
            if b:
                no(b)

    def obj(self, me, e, v, at, stack, no):
        if not isinstance(v, dict):
            no('no object')
        o, tpl = self.opt, self.opt['object_template']
        ps, a = e['properties'], e.get('additionalProperties')
        nested = any(x is y for i, x in enumerate(stack + (me,)) for y in stack[:i])
        for n in e['required']:
            if n not in v:
                no('required %r is missing' % n)
        extra = [n for n in v if n not in ps]
        if extra and not isinstance(a, dict):
            no('unknown properties %r' % extra)
        optional = 0
        lo, hi = e.get('minProperties', 0), e.get('maxProperties')
        for n, p in ps.items():
            d = follow(self.defs, p)
            if n in tpl:
                if n not in v or v[n] is not tpl[n]:
                    no('property %r is not that of the template' % n)
                self.cx.label('template of objects')
                continue
            if n in v:
                if d.get('readOnly'):
                    no('read-only property %r' % n)
                if n not in e['required']:
                    optional += 1
                self.bad(p, v[n], '%s/%s' % (at, n), stack + (me,))
            elif o['max_property'] and not nested and not d.get('readOnly') and hi is None and not o['minimal_property']:
                no('property %r is missing, although all were asked for' % n)
        for n in extra:
            if len(n) > o['max_name_length']:
                no('name too long: %r' % n)
            self.bad(a, v[n], '%s/%s' % (at, n), stack + (me,))
            self.cx.label('additional properties')
        forced = len(set(e['required']) | set(n for n in ps if n in tpl))
        if hi is not None and len(v) > max(hi, forced):
            no('more than maxProperties')
        if len(v) < lo:
            no('less than minProperties')
        if o['minimal_property'] and not o['max_property'] and (optional or extra) and len(v) > lo:
            no('more than required, although minimal')
        if extra and len(v) > max(lo, o['max_prop_count'] if hi is None else hi):
            no('more than max_prop_count')
        if nested:
            self.cx.label('recursive')


def check(case, cx):
    doc = case['doc']
    app = sut.app_of(copy.deepcopy(doc), url=URL, strict=not case['cyclic'])
    r = Renderer()
    base = r.default()
    given = dict((k, v) for k, v in case['opt'].items() if k != 'files')
    opt = dict(base, **copy.deepcopy(given)) if case['opt'] else None
    if opt and case['opt']['files']:
        opt['files'] = [dict(header={}, filename='f%d' % i, data=None) for i in range(case['opt']['files'])]
    o = opt or base
    op = app.op['op']
    shot = copy.deepcopy(opt)
    judge = Judge(cx, doc['definitions'], o)
    random.seed(case['seed'])
    tpl, ex = o['parameter_template'], case['exclude']
    for i in range(case['again']):
        out = r.render_all(op, exclude=list(ex), opt=opt)
        for n in out:
            ensure(n in [p['name'] for p in case['params']], 'unknown parameter %r' % n)
            ensure(n not in ex, 'excluded parameter %r' % n)
        for p in case['params']:
            n = p['name']
            if n in ex:
                cx.label('excluded')
                continue
            if n in tpl:
                ensure(n in out and out[n] is tpl[n], 'parameter %r is not that of the template' % n)
                cx.label('template of parameters')
                continue
            if n not in out:
                ensure(not p.get('required'), 'required parameter %r is missing' % n)
                ensure(not o['max_parameter'], 'parameter %r is missing, although all were asked for' % n)
                continue
            ensure(p.get('required') or o['max_parameter'] or not o['minimal_parameter'], 'parameter %r is not required, but minimal was asked for' % n)
            judge.bad(p['schema'] if p['in'] == 'body' else p, out[n], n)
            if p['in'] == 'body':
                cx.label('body')
        if not any(p.get('required') for p in case['params'] if p['name'] in ex) and not (o['files'] and any(p.get('type') == 'file' for p in case['params'])):
            req, _ = op(**out)
            req.prepare(scheme='http', handle_files=False)
        for q, p in zip(case['own'], op.parameters):
            judge.bad(q['schema'] if q['in'] == 'body' else q, r.render(p, opt), 'render ' + q['name'])
    for n, d in doc['definitions'].items():
        v = r.render(app.resolve('#/definitions/' + n.replace('/', '~1')), opt)
        judge.bad(d, v, '#/definitions/' + n)
    ensure(opt == shot, 'options were changed')
    cx.nontrivial(judge.n >= 3)


PARTS = [Part('render', gen, check, 4000)]
