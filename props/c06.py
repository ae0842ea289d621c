# -*- coding: utf-8 -*-
import copy
import json
import pickle

from pyswagger import primitives
from pyswagger.io import Response

from pbt import sut, compose
from pbt.engine import Part, fail, eq, check as ensure, raises, outcome
from pbt.gen import LETTERS

RULE = ("object: a value for a generated object schema (definitions composed by allOf in any order and depth, references, nested objects, arrays, additional "
        "properties, defaults, discriminators) sent as body or read from a response, with nothing wrong or with a missing required or a read-only property; "
        "the JSON form of the result is judged by a direct reading of the schema. Non-trivial: an object with at least one property or a refusal. "
        "equal: pairs of values that differ in nothing, in nulls, or in one place; Model equality must agree, with values of another kind in the place of an object, too, and copies (copy, deepcopy, pickle) are equal objects that share nothing. Non-trivial: a non-empty object.")
ASSUMPTIONS = ["within one composition all members have the same rule for additional properties, and composed members declare a property alike "
               "(the composing schema may declare it differently)", "discriminator values are judged for definitions only"]

WHERE = ['body', 'response', 'bodyarray', 'bodyprop', 'bodyaddp', 'produce', 'resparray']


def wrap(where, s):
    if 'array' in where:
        return {'type': 'array', 'items': s}
    if where == 'bodyprop':
        return {'type': 'object', 'properties': {'w': s}}
    if where == 'bodyaddp':
        return {'type': 'object', 'additionalProperties': s}
    return s


def gen(g):
    c = compose.Comp(g)
    target = {'$ref': '#/definitions/' + compose.esc(g.choice(c.names))} if g.bool(0.7) else c.obj(2, top=True)
    where = g.choice(WHERE)
    read = where in ('response', 'resparray') or (where == 'produce' and g.bool())
    brk = compose.Break(g.weighted([(6, None), (2, 'missing'), (2, 'readonly')]))
    s = wrap(where, target)
    if where in ('body', 'response', 'produce'):
        v = compose.value(g, c.defs, s, brk, readonly=read)
    elif 'array' in where:
        v = [compose.value(g, c.defs, target, brk, readonly=read) for _ in range(g.int(1, 2))]
    else:
        v = {u'w': compose.value(g, c.defs, target, brk, readonly=read)}
    if read and where != 'produce':
        v = compose.wire(c.defs, s, v)
    return dict(defs=c.defs, schema=s, where=where, value=v, read=read)


def app_for(defs, schema):
    d = sut.one_op([{'name': 'b', 'in': 'body', 'schema': copy.deepcopy(schema)}], method='post', definitions=copy.deepcopy(defs), consumes=['application/json'],
                   responses={'200': {'description': '', 'schema': copy.deepcopy(schema)}})
    return sut.app_of(d)


def make(app, where, read, v):
    op = app.op['op']
    if where.startswith('body'):
        req, _ = op(b=copy.deepcopy(v))
        made = req._p['body']['b']
        req.prepare(scheme='http')
        return made, json.loads(req.data)
    if where.startswith('resp'):
        r = Response(op)
        r.apply_with(status=200, raw=json.dumps(v), header=[('Content-Type', 'application/json')])
        return r.data, sut.plain(r.data)
    r = app.prim_factory.produce(op.parameters[0].schema, copy.deepcopy(v), dict(read=read))
    return r, sut.plain(r)


def check(case, cx):
    defs, s, v, where = case['defs'], case['schema'], case['value'], case['where']
    app = app_for(defs, s)
    broken = compose.breaks(defs, s, v, case['read'])
    cx.label(where, 'broken' if broken else 'fine', 'composed %d' % min(3, len(compose.members(defs, case['schema'])) - 1 if compose.is_obj(defs, s) else 0))
    cx.nontrivial(broken or v)
    for i in range(2):
        if broken:
            raises(lambda: make(app, where, case['read'], v))
            continue
        made, got = make(app, where, case['read'], v)
        # bytes are not decoded when read (known finding of C09)
        b = compose.bad(defs, s, v, got)
        if b:
            fail(b)
        models(defs, s, v, made, '')
    if not broken and not wrapped(defs) and not wrapped(s):
        # what was made is a value of its schema, too
        cx.label('given back')
        op = app.op['op']
        before = copy.deepcopy(sut.plain(made))
        again = app.prim_factory.produce(op.parameters[0].schema, made, dict(read=case['read']))
        eq(sut.plain(again), sut.plain(made), 'given back')
        eq(sut.plain(made), before, 'given back, changed')
        models(defs, s, v, again, '')
    if not broken and isinstance(v, dict):
        discs = compose.discriminators(defs, s)
        if discs:
            cx.label('discriminator')


def wrapped(x):
    """scalars represented by classes are not accepted by themselves"""
    if isinstance(x, dict):
        return x.get('format') in ('byte', 'binary', 'date', 'date-time', 'uuid') or any(wrapped(y) for y in x.values())
    return isinstance(x, list) and any(wrapped(y) for y in x)


def models(defs, s, v, made, path):
    """objects are Models, whose keys are attributes"""
    s = compose.deref(defs, s)
    if v is None:
        return
    if compose.is_obj(defs, s):
        ensure(isinstance(made, primitives.Model), '%s: %s instead of Model' % (path, type(made)))
        for n, p in compose.props(defs, s).items():
            if n in v and n not in compose.discriminators(defs, s):
                models(defs, p, v[n], made[n], path + '/' + n)
    elif s.get('type') == 'array':
        for x, y in zip(v, made):
            models(defs, s.get('items', {}), x, y, path + '/*')


# -- equality ---------------------------------------------------------------
def change(g, defs, s, v, how):
    """another value, and whether it is equal (as far as known)"""
    s = compose.deref(defs, s)
    v = copy.deepcopy(v)
    ps = compose.props(defs, s)
    discs = compose.discriminators(defs, s)
    open_ = compose.addp(defs, s) is True
    keys = [k for k in v if k not in discs]
    if how == 'same':
        return v, True
    if how == 'order':
        ks = list(v)
        return dict((k, v[k]) for k in g.shuffle(ks)), True
    if how == 'null':
        c = [n for n in sorted(ps) if n not in v and n not in discs and 'default' not in compose.deref(defs, ps[n]) and n not in compose.required(defs, s)]
        if open_:
            c.append(u'zz')
        if c:
            v[g.choice(c)] = None
        return v, True
    if how == 'drop':
        c = [k for k in keys if v[k] is not None and 'default' not in compose.deref(defs, ps.get(k, {})) and k not in compose.required(defs, s)]
        if c and (open_ or all(k in ps for k in c)):
            k = g.choice(c)
            if k in ps or compose.addp(defs, s) is not False:
                del v[k]
                return v, False
        return v, True
    if how == 'add':
        c = [n for n in sorted(ps) if n not in v and n not in discs and 'default' not in compose.deref(defs, ps[n]) and not compose.deref(defs, ps[n]).get('readOnly')]
        if c:
            n = g.choice(c)
            v[n] = compose.value(g, defs, ps[n])
            return v, v[n] is None
        if open_:
            v[u'zz'] = 1
            return v, False
        return v, True
    # deep
    for k in g.shuffle(keys):
        if k not in ps and compose.addp(defs, s) is False:
            continue
        if isinstance(compose.addp(defs, s), dict) and k not in ps:
            p = compose.addp(defs, s)
        else:
            p = ps.get(k, {})
        p = compose.deref(defs, p)
        x = v[k]
        if x is None:
            continue
        if compose.is_obj(defs, p) and g.bool(0.8):
            y, same = change(g, defs, p, x, g.choice(['same', 'null', 'drop', 'add', 'deep']))
            v[k] = y
            return v, same
        t = p.get('type')
        if t == 'array':
            v[k] = list(x) + [compose.value(g, defs, p.get('items', {}))]
            return v, False
        if t == 'string' and not p.get('format') and not p.get('enum'):
            v[k] = x + u'!'
            return v, False
        if t in ('integer', 'number') and abs(x) < 1e6 and k in ps:
            v[k] = x + 1
            return v, False
        if t == 'boolean':
            v[k] = not x
            return v, False
        if p == {} and isinstance(x, str):
            v[k] = x + u'!'
            return v, False
        if p.get('format') in ('date', 'date-time', 'uuid'):
            new = {'date': u'1990-01-01', 'date-time': u'1990-01-01T00:00:00Z', 'uuid': u'00000000-0000-4000-8000-0000000000ff'}[p['format']]
            if v[k] != new:
                v[k] = new
                return v, False
    return v, True


def gen_eq(g):
    c = compose.Comp(g, readonly=False, kinds=['str', 'int', 'bool', 'num', 'date', 'uuid', 'dt', 'byte'])
    target = g.choice(c.names)
    s = {'$ref': '#/definitions/' + compose.esc(target)}
    a = compose.value(g, c.defs, s)
    if not isinstance(a, dict):     # the schema allows anything
        a = {}
    b, same = change(g, c.defs, s, a, g.choice(['deep', 'same', 'order', 'null', 'drop', 'add', 'deep', 'deep']))
    if compose.breaks(c.defs, s, b, True):
        b, same = a, True
    # values of another kind, to take the place of some value in it
    return dict(defs=c.defs, schema=s, a=a, b=b, same=same, pick=g.int(0, 20),
        others=g.shuffle([3, 0, True, False, 1.5, u'', u'x', [], [1], [{}], u'{}'])[:3])


def places(x, at=()):
    """where objects are"""
    out = []
    if isinstance(x, primitives.Model):
        out.append(at)
    if isinstance(x, dict):
        for k in sorted(x):
            out += places(x[k], at + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            out += places(y, at + (i,))
    return out


def put(x, at, new):
    """x, where at is replaced with new"""
    if not at:
        return new
    if isinstance(x, dict):
        return dict((k, put(v, at[1:], new) if k == at[0] else v) for k, v in x.items())
    return [put(v, at[1:], new) if i == at[0] else v for i, v in enumerate(x)]


def other_kinds(x, case, cx):
    """objects are no numbers, no strings and no arrays"""
    at = places(x)
    at = at[case['pick'] % len(at)]
    cx.label('another kind at depth %d' % min(len(at), 3))
    for o in case['others']:
        other = put(x, at, o)
        ensure(not (x == other) and x != other, '%r equals it with %r' % (at, o))
        ensure(not (other == x) and other != x, 'with %r at %r it is equal' % (o, at))
        ensure(x not in [o] and o not in [x], 'found in [%r]' % (o,))


def copies(x):
    for how, y in (('copy', copy.copy(x)), ('deepcopy', copy.deepcopy(x)), ('pickle', pickle.loads(pickle.dumps(x, 2)))):
        ensure(isinstance(y, primitives.Model), '%s is a %s' % (how, type(y)))
        ensure(x == y and y == x and not (x != y), 'not equal to its %s' % how)
        eq(sut.plain(y), sut.plain(x), how)
        if how != 'copy':
            eq(places(y), places(x), '%s: objects' % how)
            before = copy.deepcopy(sut.plain(x))
            for at in places(y):
                z = y
                for k in at:
                    z = z[k]
                z[u'another one'] = 1
            eq(sut.plain(x), before, 'changed with its %s' % how)


def attributes(x):
    for at in places(x):
        y = x
        for k in at:
            y = y[k]
        for k in y:
            if isinstance(k, str) and not hasattr(primitives.Model, k):
                ensure(getattr(y, k) is y[k], 'attribute %r' % k)


def check_eq(case, cx):
    defs, s, a, b = case['defs'], case['schema'], case['a'], case['b']
    app = app_for(defs, s)
    schema = app.op['op'].parameters[0].schema
    x, y = [app.prim_factory.produce(schema, copy.deepcopy(v), dict(read=True)) for v in (a, b)]
    cx.label('equal' if case['same'] else 'different')
    cx.nontrivial(a)
    for l, r, n in ((x, y, 'a == b'), (y, x, 'b == a')):
        ensure(bool(l == r) is case['same'], '%s is %r' % (n, l == r))
        ensure(bool(l != r) is not case['same'], '%s but != is %r' % (n, l != r))
        # against a plain dict of the same values
        ensure(bool(l == dict(r)) is case['same'], '%s as dict is %r' % (n, l == dict(r)))
    ensure(x == x and not (x != x), 'not equal to itself')
    ensure(not (x == None) and x != None, 'equal to None')
    if 'others' in case and isinstance(x, primitives.Model):
        other_kinds(x, case, cx)
        copies(x)
        attributes(x)


PARTS = [Part('object', gen, check, 5000), Part('equal', gen_eq, check_eq, 3000)]
