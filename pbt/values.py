# -*- coding: utf-8 -*-
"""Schemas of primitive types, values for them, and the wire forms the
documentation promises (the reference model; shares no code with pyswagger)."""
import base64
import datetime
import math
import uuid

from .gen import ANY, ASCII, WORD, UNI, CTRL

INTS = [('integer', None), ('integer', 'int32'), ('integer', 'int64'), ('number', 'int32'), ('number', 'int64')]
NUMS = [('number', None), ('number', 'float'), ('number', 'double')]
STRS = [('string', None), ('string', 'password'), ('string', '')]
KINDS = {
    'int': INTS, 'num': NUMS, 'str': STRS, 'bool': [('boolean', None)],
    'byte': [('string', 'byte'), ('string', 'binary')], 'date': [('string', 'date')],
    'dt': [('string', 'date-time')], 'uuid': [('string', 'uuid')], 'email': [('string', 'email')],
}
ALL = ['str', 'int', 'num', 'bool', 'byte', 'date', 'dt', 'uuid', 'email']


def kind(s):
    t, f = s.get('type'), s.get('format')
    for k, v in KINDS.items():
        if (t, f) in v:
            return k
    return {'string': 'str', 'integer': 'int', 'number': 'num', 'boolean': 'bool'}.get(t, t)


def scalar(g, kinds=ALL, unknown_format=False):
    """a schema of a primitive type without limits"""
    k = g.choice(kinds)
    t, f = g.choice(KINDS[k])
    s = {'type': t}
    if f is not None:
        s['format'] = f
    elif unknown_format and g.bool(0.1):
        s['format'] = g.choice(['custom', 'hostname', 'x'])
    return s


# -- values ------------------------------------------------------------
def tz(g):
    return g.weighted([
        (3, None), (2, datetime.timezone.utc),
        (3, datetime.timezone(datetime.timedelta(minutes=g.int(-14 * 60, 14 * 60))))])


def a_datetime(g, tzinfo=True):
    y = g.weighted([(4, g.int(1970, 2037)), (1, g.int(1000, 9999))])
    m = g.int(1, 12)
    last = [31, 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    us = g.weighted([(2, 0), (1, 1), (1, 500000), (1, 1200), (1, 999999)])
    if us not in (0, 1, 500000, 1200, 999999) or g.bool(0.2):
        us = g.int(0, 999999)
    return datetime.datetime(y, m, g.int(1, last), g.int(0, 23), g.int(0, 59), g.int(0, 59), us,
                             tzinfo=tz(g) if tzinfo else None)


def a_date(g):
    return a_datetime(g, False).date()


def some_bytes(g, utf8=False):
    if utf8 or g.bool(0.5):
        return g.text(ANY + CTRL, 0, 12).encode('utf-8')
    return bytes(bytearray(g.list(lambda: g.int(0, 255), 0, 12)))


def email(g):
    return u'%s@%s.%s' % (g.text(WORD, 1, 8), g.text(WORD[:26], 1, 8), g.choice([u'com', u'org', u'io', u'co.uk']))


def number(g):
    return g.weighted([(2, g.float(-1e6, 1e6)), (2, g.int(-10 ** 6, 10 ** 6)), (1, g.float(-1e18, 1e18)), (1, g.int(-2 ** 53, 2 ** 53))])


def value(g, s, text=False, alphabet=ANY):
    """a value of the type of s in one of its documented representations;
    text: it will be used in a text position (so bytes have to be text)"""
    k = kind(s)
    if s.get('enum'):
        return g.choice(s['enum'])
    if k == 'int':
        return g.int(-2 ** 31, 2 ** 31 - 1) if s.get('format') != 'int64' else g.int(-2 ** 63, 2 ** 63 - 1)
    if k == 'num':
        return number(g)
    if k == 'str':
        return g.text(alphabet, 0, 10)
    if k == 'bool':
        return g.bool()
    if k == 'byte':
        b = some_bytes(g, utf8=text)
        if g.bool(0.4):
            return g.text(alphabet, 0, 10)
        return b
    if k == 'date':
        d = a_date(g)
        return g.weighted([(3, d), (2, u'%04d-%02d-%02d' % (d.year, d.month, d.day)),
                           (1, g.int(0, 2 ** 31)), (1, g.int(0, 2 ** 33) / 4.0), (1, a_datetime(g))])
    if k == 'dt':
        d = a_datetime(g)
        return g.weighted([(3, d), (3, iso(d)), (1, g.int(0, 2 ** 31)), (1, g.int(0, 2 ** 33) / 4.0)])
    if k == 'uuid':
        b = bytes(bytearray(g.list(lambda: g.int(0, 255), 16, 16)))
        u = uuid.UUID(bytes=b)
        return g.weighted([(2, u), (2, u'%s' % u), (1, b), (1, u.hex), (1, (u'%s' % u).upper()), (1, u.urn)])
    if k == 'email':
        return email(g)
    raise KeyError(k)


def iso(d):
    """RFC 3339 text of a datetime, written independently of isoformat"""
    s = u'%04d-%02d-%02dT%02d:%02d:%02d' % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    if d.microsecond:
        s += u'.%06d' % d.microsecond
    if d.tzinfo is not None:
        o = d.utcoffset()
        m = o.days * 1440 + o.seconds // 60
        s += u'Z' if (m == 0 and d.tzinfo is datetime.timezone.utc) else u'%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60)
    return s


EPOCH = datetime.datetime(1970, 1, 1)


class Wire(object):
    """wire form with the equivalences the documentation leaves open"""


def same_time(text, want):
    """text is an ISO 8601 form of the datetime want (an instant, or naive)"""
    got = parse_iso(text)
    if got is None:
        return False
    if (got.tzinfo is None) != (want.tzinfo is None):
        return False
    return got == want and (got.tzinfo is None or got.utcoffset() == want.utcoffset())


def parse_iso(t):
    """small independent ISO 8601 reader; None when t is not one"""
    try:
        if len(t) < 16 or t[10] != 'T':
            return None
        y, mo, d = int(t[0:4]), int(t[5:7]), int(t[8:10])
        rest = t[11:]
        off = None
        if rest.endswith('Z'):
            rest, off = rest[:-1], 0
        elif len(rest) > 6 and rest[-6] in '+-':
            off = (int(rest[-5:-3]) * 60 + int(rest[-2:])) * (-1 if rest[-6] == '-' else 1)
            rest = rest[:-6]
        us = 0
        if '.' in rest:
            rest, fr = rest.split('.')
            us = int((fr + '000000')[:6])
        hms = [int(x) for x in rest.split(':')] + [0]
        z = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
        return datetime.datetime(y, mo, d, hms[0], hms[1], hms[2], us, tzinfo=z)
    except (ValueError, IndexError):
        return None


def to_datetime(v):
    if isinstance(v, datetime.datetime):
        return v
    if isinstance(v, (int, float)):
        return EPOCH + datetime.timedelta(seconds=v)
    return parse_iso(v)


def to_date(v):
    if isinstance(v, datetime.datetime):
        return v.date()
    if isinstance(v, datetime.date):
        return v
    if isinstance(v, (int, float)):
        return (EPOCH + datetime.timedelta(seconds=math.floor(v))).date()
    return datetime.date(int(v[0:4]), int(v[5:7]), int(v[8:10]))


def to_bytes(v):
    return v if isinstance(v, bytes) else v.encode('utf-8')


def to_uuid(v):
    if isinstance(v, uuid.UUID):
        return v
    return uuid.UUID(bytes=v) if isinstance(v, bytes) else uuid.UUID(v)


def unb64(t):
    return base64.b64decode(t.replace('-', '+').replace('_', '/').encode('ascii'))


def bad_json(s, v, got):
    """None if `got` is the documented JSON form of v for schema s, else why not"""
    k = kind(s)
    if k == 'int':
        ok = type(got) is int and got == int(v)
    elif k == 'num':
        ok = type(got) is float and got == float(v)
    elif k in ('str', 'email'):
        ok = isinstance(got, str) and got == v
    elif k == 'bool':
        ok = got is bool(v)
    elif k == 'byte':
        ok = isinstance(got, str) and unb64(got) == to_bytes(v)
    elif k == 'date':
        d = to_date(v)
        ok = got == u'%04d-%02d-%02d' % (d.year, d.month, d.day)
    elif k == 'dt':
        ok = isinstance(got, str) and same_time(got, to_datetime(v))
    elif k == 'uuid':
        ok = got == u'%s' % to_uuid(v)
    else:
        raise KeyError(k)
    return None if ok else 'value %r as %r gave JSON %r' % (v, s, got)


def bad_text(s, v, got):
    """same for the text form used in path, query, header and form"""
    k = kind(s)
    if not isinstance(got, str):
        return 'value %r as %r gave a text of type %s' % (v, s, type(got))
    if k == 'int':
        ok = got == u'%d' % int(v)
    elif k == 'num':
        try:
            ok = float(got) == float(v)
        except ValueError:
            ok = False
    elif k in ('str', 'email'):
        ok = got == v
    elif k == 'bool':
        ok = got.lower() == (u'true' if v else u'false')
    elif k == 'byte':
        ok = got == to_bytes(v).decode('utf-8')
    elif k == 'date':
        d = to_date(v)
        ok = got == u'%04d-%02d-%02d' % (d.year, d.month, d.day)
    elif k == 'dt':
        ok = same_time(got, to_datetime(v))
    elif k == 'uuid':
        ok = got == u'%s' % to_uuid(v)
    else:
        raise KeyError(k)
    return None if ok else 'value %r as %r gave text %r' % (v, s, got)
