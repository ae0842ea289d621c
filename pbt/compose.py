# -*- coding: utf-8 -*-
"""Object schemas composed by allOf in any order and depth, and their meaning."""
from . import values, schemas
from .gen import LETTERS
from .values import kind

KINDS = ['str', 'int', 'num', 'bool', 'date', 'uuid', 'byte', 'dt']
PROPS = [u'a', u'b', u'c', u'd', u'e', u'f', u'g', u'x y', u'\u00e9', u'a/b', u'p~', u'$q', u'i.j', u'k-l', u'items', u'properties', u'id', u'type', u'keys', u'name', u'get', u'update']


def esc(n):
    return n.replace('~', '~0').replace('/', '~1')


class Comp(object):
    """a set of definitions; every schema only refers to later ones, so that nothing is cyclic"""

    def __init__(self, g, defaults=True, readonly=True, discriminator=True, addp=None, wild_dup=False, kinds=KINDS, max_defs=5, names=None):
        self.g, self.defs = g, {}
        self.defaults, self.readonly, self.discriminator, self.kinds = defaults, readonly, discriminator, kinds
        self.wild_dup = wild_dup
        self.shared = {}             # declarations used for one property name everywhere in a composition
        n = g.int(1, max_defs)
        pool = names or [u'A', u'B', u'C', u'D', u'E', u'F', u'AB', u'A/B', u'a b', u'\u00e9', u'A~', u'a']
        self.names = g.sample(pool, n, n)
        self.addp = {}
        self.ro = set()             # definitions that are read-only wherever a property refers to them
        for i in reversed(range(n)):
            with g.span():
                self.rest = self.names[i + 1:]
                self.defs[self.names[i]] = self.obj(2, top=True)
                if readonly and g.bool(0.08):
                    self.defs[self.names[i]]['readOnly'] = True
                    self.ro.add(self.names[i])
        self.rest = self.names

    # -- pieces
    def scalar(self):
        g = self.g
        d = values.scalar(g, self.kinds)
        k = kind(d)
        if k == 'str' and g.bool(0.15):
            d['enum'] = [u'r', u's', u't']
        return d

    def prop(self, depth):
        g = self.g
        k = g.weighted([(5, 'scalar'), (2 if depth else 0, 'array'), (2 if depth else 0, 'object'), (3 if self.rest else 0, 'ref'), (0.4, 'any')])
        if k == 'scalar':
            d = self.scalar()
            if self.defaults and g.bool(0.25):
                d['default'] = default(g, d)
        elif k == 'array':
            d = {'type': 'array', 'items': self.prop(depth - 1)}
            if g.bool(0.1):
                d['items'] = {}
            d['items'].pop('default', None)
            d['items'].pop('readOnly', None)
            if self.defaults and g.bool(0.25) and d['items'].get('type') not in (None, 'array', 'object') and kind(d['items']) in self.kinds:
                d['default'] = g.list(lambda: default(g, d['items']), 0, 4)
            if not d['items'] and g.bool(0.6):
                del d['items']
        elif k == 'object':
            d = self.obj(depth - 1)
        elif k == 'ref':
            return {'$ref': '#/definitions/' + esc(g.choice(self.rest))}
        else:
            d = {}
        if self.readonly and 'default' not in d and g.bool(0.07):
            d['readOnly'] = True
        return d

    def obj(self, depth, top=False):
        """own part and members; additionalProperties are the same over a whole composition"""
        g = self.g
        d = {}
        nmem = g.weighted([(4, 0), (2, 1), (2, 2), (1, 3)]) if (depth > 0 or top) else 0
        used = set()            # names of properties of all members so far
        members = []
        addp = [None]           # one rule for all of the composition

        def rule_of(s):
            return self.rule(s)
        for _ in range(nmem):
            with g.span():
                rest = [n for n in self.rest if n not in self.ro]
                if rest and g.bool(0.6):
                    m = {'$ref': '#/definitions/' + esc(g.choice(rest))}
                    r = rule_of(m)
                    if joins(r, addp[0]) and self.fits(members, m):
                        if addp[0] is None or r is not None:
                            addp[0] = (r,)
                        members.append(m)
                else:
                    m = self.plain(depth - 1, [n for n in PROPS if n not in used], addp)
                    if self.fits(members, m):
                        members.append(m)
        have = {}
        for m in members:
            for n, p in props(self.defs, m).items():
                have.setdefault(n, p)
        k = g.bool(0.6) or not members
        if k or g.bool(0.5):
            # what is a discriminator of some member stays as it is declared there
            discs = set().union(*[discriminators(self.defs, m) for m in members]) if members else set()
            d.update(self.plain(depth, PROPS, addp, have, discs))
        elif addp[0] is not None and (addp[0][0] is False or addp[0][0] is not None and g.bool(0.6)):
            d['additionalProperties'] = addp[0][0]
        if top and g.bool(0.15):
            d['title'] = g.choice([u'B', u'Title', u'a'])
        if members:
            d['allOf'] = g.shuffle(members)
            # keys of any member may be required by any other
            extra = [n for n in sorted(have) if g.bool(0.1) and not self.deref(have[n]).get('readOnly')]
            if extra:
                d['required'] = sorted(set(d.get('required', []) + extra))
        return d

    def deref(self, p):
        return deref(self.defs, p)

    def rule(self, s):
        """of a whole composition; None when it is open"""
        r = addp(self.defs, s)
        return None if r is True else r

    def fits(self, members, m):
        """no two members declare a property differently, nor have discriminators"""
        if self.wild_dup:
            return True
        mine = props(self.defs, m)
        for o in members:
            for n, p in props(self.defs, o).items():
                if n in mine and repr(mine[n]) != repr(p):
                    return False
        return True

    def plain(self, depth, names, addp, have=(), discs=()):
        """properties, required, additionalProperties"""
        g = self.g
        d = {'type': 'object'} if g.bool(0.7) else {}
        ns = g.sample(names, 0, 3)
        if ns or g.bool(0.1):
            d['properties'] = {}
        for n in ns:
            h = self.deref(have[n]) if n in have else {}
            if n in have and (g.bool(0.5) or n in discs or 'default' in h or h.get('readOnly')):
                d['properties'][n] = have[n]
            else:
                d['properties'][n] = self.prop(max(0, depth))
                if n in have and self.deref(d['properties'][n]).get('readOnly'):
                    d['properties'][n] = have[n]
        req = [n for n in ns if g.bool(0.3) and not self.deref(d['properties'][n]).get('readOnly')]
        if req:
            d['required'] = req
        if addp[0] is None:
            a = g.weighted([(5, None), (1, True), (2, False), (2, 'schema')])
            if a == 'schema':
                a = self.prop(max(0, depth - 1))
                a.pop('default', None)
                a.pop('readOnly', None)
            addp[0] = (a,)
        elif addp[0][0] in (None, True) and g.bool(0.15):
            a = self.prop(max(0, depth - 1))
            a.pop('default', None)
            a.pop('readOnly', None)
            addp[0] = (a,)
        if addp[0][0] is False or addp[0][0] is not None and g.bool(0.6):
            d['additionalProperties'] = addp[0][0]
        if self.discriminator and ns and ns[0] not in have and g.bool(0.08):
            d['discriminator'] = ns[0]
            d['properties'][ns[0]] = {'type': 'string'}
        return d


def joins(r, addp):
    """may a composition with the rule r be part of one with the rule of addp so far?"""
    if addp is None:
        return True
    a = addp[0]
    if r is False or a is False:
        return r is a
    return r in (None, True) or a in (None, True) or repr(r) == repr(a)


def default(g, d):
    k = kind(d)
    if d.get('enum'):
        return g.choice(d['enum'])
    if k in ('str', 'byte'):
        return g.text(LETTERS + u' ', 0, 4)
    if k == 'int':
        return g.int(-9, 9)
    if k == 'num':
        return g.int(-90, 90) / 10.0
    if k == 'bool':
        return g.bool()
    if k == 'date':
        return u'2001-02-0%d' % g.int(1, 9)
    if k == 'dt':
        return u'2001-02-03T04:05:0%dZ' % g.int(0, 9)
    if k == 'uuid':
        return u'00000000-0000-4000-8000-00000000000%d' % g.int(0, 9)
    raise KeyError(k)


def deref(defs, s):
    n = 0
    while '$ref' in s:
        s = defs[s['$ref'][len('#/definitions/'):].replace('~1', '/').replace('~0', '~')]
        n += 1
        if n > 50:
            return {}
    return s


def members(defs, s, seen=None):
    """the schema and all it composes, own first, in order, each once"""
    out = [] if seen is None else seen
    s = deref(defs, s)
    if any(s is x for x in out):
        return out
    out.append(s)
    for m in s.get('allOf', []):
        members(defs, m, out)
    return out


def props(defs, s):
    """effective properties: a schema's own definition wins over those it composes, an earlier one over a later one"""
    out = {}

    def go(s, stack):
        s = deref(defs, s)
        if any(s is x for x in stack):
            return
        for n, p in s.get('properties', {}).items():
            out.setdefault(n, p)
        for m in s.get('allOf', []):
            go(m, stack + [s])
    go(s, [])
    return out


def required(defs, s):
    out = set()
    for m in members(defs, s):
        out.update(m.get('required', []))
    return out


def is_obj(defs, s):
    s = deref(defs, s)
    return s.get('type') == 'object' or 'properties' in s or 'allOf' in s or 'additionalProperties' in s or 'discriminator' in s


def addp(defs, s):
    """the rule for other properties: a schema applies although other members allow anything"""
    rules = [m['additionalProperties'] for m in members(defs, s) if 'additionalProperties' in m]
    for r in rules:
        if isinstance(r, dict):
            return r
    return rules[0] if rules else True


def discriminators(defs, s):
    return set(m['discriminator'] for m in members(defs, s) if m.get('discriminator'))


# -- values
class Break(object):
    """what shall be wrong with a value: at most one thing"""
    def __init__(self, kind=None):
        self.kind, self.done = kind, False


def value(g, defs, s, brk=None, readonly=False, p_opt=0.6, depth=5, extra=0.3):
    s0 = s
    s = deref(defs, s)
    if is_obj(defs, s):
        out = {}
        ps, req = props(defs, s), required(defs, s)
        names = sorted(set(ps) | req)
        drop = None
        if brk and brk.kind == 'missing' and not brk.done:
            c = [n for n in names if n in req and 'default' not in deref(defs, ps.get(n, {})) and n not in discriminators(defs, s)]
            if c and g.bool(0.7):
                drop = g.choice(c)
                brk.done = True
        for n in g.shuffle(names):
            p = ps.get(n, {})
            d = deref(defs, p)
            if n == drop:
                continue
            if d.get('readOnly') and not readonly:
                if brk and brk.kind == 'readonly' and not brk.done and g.bool(0.7):
                    brk.done = True
                    out[n] = value(g, defs, p, None, readonly, p_opt, depth - 1, extra)
                continue
            if n in req and not ('default' in d and g.bool()) or (depth > 0 and g.bool(p_opt)):
                if g.bool(0.04) and 'default' not in d:
                    out[n] = None
                else:
                    out[n] = value(g, defs, p, brk, readonly, p_opt, depth - 1, extra)
        a = addp(defs, s)
        if g.bool(extra) and depth > 0:
            for _ in range(g.int(1, 2)):
                n = u'x' + g.text(LETTERS[:3], 0, 2)
                if n not in ps:
                    out[n] = value(g, defs, a, brk, readonly, p_opt, depth - 1, extra) if isinstance(a, dict) else g.choice(schemas.RAW)
        return out
    if s.get('type') == 'array':
        return g.list(lambda: value(g, defs, s.get('items', {}), brk, readonly, p_opt, depth - 1, extra), 0, 3, 1.3) if depth > 0 else []
    if not s.get('type'):
        return g.choice([1, u'x', True, [1], {u'k': 1}])
    return values.value(g, s)


def breaks(defs, s, v, readonly):
    """does the value break the schema (missing required or read-only property)?"""
    s = deref(defs, s)
    if v is None:
        return False
    if is_obj(defs, s):
        ps = props(defs, s)
        for n in required(defs, s):
            if n not in v and 'default' not in deref(defs, ps.get(n, {})) and n not in discriminators(defs, s):
                return True
        a = addp(defs, s)
        for n, x in v.items():
            if n in ps:
                if deref(defs, ps[n]).get('readOnly') and not readonly:
                    return True
                if breaks(defs, ps[n], x, readonly):
                    return True
            elif isinstance(a, dict) and breaks(defs, a, x, readonly):
                return True
        # defaults of nested objects do not occur
        return False
    if s.get('type') == 'array':
        return any(breaks(defs, s.get('items', {}), x, readonly) for x in v)
    return False


def bad(defs, s, v, got, name=None, path=''):
    """None if `got` (plain JSON form) is what the schema makes of v, else the reason; name: that of the definition
    the schema is (for discriminators), None if unknown"""
    s0, s = s, deref(defs, s)
    if '$ref' in s0:
        name = s0['$ref'][len('#/definitions/'):].replace('~1', '/').replace('~0', '~')
        while '$ref' in defs[name]:
            name = defs[name]['$ref'][len('#/definitions/'):].replace('~1', '/').replace('~0', '~')
    if v is None:
        return None if got is None else '%s: %r for null' % (path, got)
    if is_obj(defs, s):
        if not isinstance(got, dict):
            return '%s: %r for %r' % (path, got, v)
        ps, a = props(defs, s), addp(defs, s)
        want = {}
        for n, p in ps.items():
            d = deref(defs, p)
            if n in v:
                want[n] = (p, v[n])
            elif 'default' in d:
                want[n] = (p, d['default'])
        for n in v:
            if n not in ps and a is not False:
                want[n] = (a if isinstance(a, dict) else {}, v[n])
        for disc in discriminators(defs, s):
            want.pop(disc, None)
            if disc not in got:
                return '%s: discriminator %r is not set' % (path, disc)
            if name is not None and got[disc] != name:
                return '%s: discriminator is %r, not %r' % (path, got[disc], name)
            got = dict(got)
            got.pop(disc)
        w = set(k for k, (_, x) in want.items() if x is not None)
        h = set(k for k, x in got.items() if x is not None)
        if w != h:
            return '%s: keys %r, expected %r' % (path, sorted(h), sorted(w))
        for k in w:
            b = bad(defs, want[k][0], want[k][1], got[k], None, path + '/' + k)
            if b:
                return b
        return None
    if s.get('type') == 'array':
        if not isinstance(got, list) or len(got) != len(v):
            return '%s: %r for %r' % (path, got, v)
        for i, (x, y) in enumerate(zip(v, got)):
            b = bad(defs, s.get('items', {}), x, y, None, '%s/%d' % (path, i))
            if b:
                return b
        return None
    if not s.get('type'):
        return None if schemas.same(v, got) else '%s: %r for raw %r' % (path, got, v)
    b = values.bad_json(s, v, got)
    return '%s: %s' % (path, b) if b else None


def wire(defs, s, v):
    """the JSON form a server would send"""
    s = deref(defs, s)
    if v is None:
        return v
    if is_obj(defs, s):
        ps, a = props(defs, s), addp(defs, s)
        return dict((k, wire(defs, ps[k] if k in ps else a if isinstance(a, dict) else {}, x)) for k, x in v.items())
    if s.get('type') == 'array':
        return [wire(defs, s.get('items', {}), x) for x in v]
    k = kind(s)
    if k == 'uuid':
        return u'%s' % values.to_uuid(v)
    if k == 'byte':
        return u'YQ=='
    if k == 'date':
        return u'%04d-%02d-%02d' % values.to_date(v).timetuple()[:3]
    if k == 'dt':
        return values.iso(values.to_datetime(v))
    return v
