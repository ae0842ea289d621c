# -*- coding: utf-8 -*-
import datetime
import json
import uuid

from pbt import sut, values
from pbt.engine import Part, fail, check, raises
from pbt.gen import ANY, WORD, UNI
from pbt.values import bad_json, bad_text, kind

RULE = ("convert: 1-6 primitive schemas with a value in one documented representation each, sent as query, header, path and "
        "body property and read back as response body and header; non-trivial when at least one value is not a plain "
        "string/int or is an edge value. iso: ISO 8601 texts; non-trivial when it has a time part. refuse: malformed inputs, all non-trivial.")
ASSUMPTIONS = ["bytes in text positions (query, header, path) are UTF-8 text, because their text form is the text itself",
               "time zone of the process is UTC",
               "response values of format byte/binary are not decoded from base64 (known finding), so bytes are not read back"]


def gen_convert(g):
    items = g.list(lambda: one(g), 1, 6, 2)
    return dict(items=items)


def one(g):
    s = values.scalar(g, unknown_format=True)
    text = g.bool(0.6) or kind(s) != 'byte'
    shape = g.weighted([(6, 'plain'), (1, 'own first'), (1, 'in allOf'), (1, 'last of allOf'), (1, 'ref'), (1, 'deep')])
    return dict(s=s, v=values.value(g, s, text=text), text=text, shape=shape)


NOTE = {'description': u'n'}


def composed(it):
    """the same type, declared through composition"""
    s = dict(it['s'])
    return {'plain': s, 'own first': dict(s, allOf=[NOTE, {}]), 'in allOf': {'allOf': [s, NOTE]}, 'last of allOf': {'allOf': [NOTE, s], 'title': u't'},
            'ref': {'allOf': [{'$ref': '#/definitions/' + it['ref']}, NOTE]} if 'ref' in it else s,
            'deep': {'allOf': [{'allOf': [NOTE, {'allOf': [s]}]}, dict(NOTE)]}}[it.get('shape', 'plain')]


def doc(items, in_='query'):
    props = dict(('f%d' % i, composed(dict(it, ref='D%d' % i))) for i, it in enumerate(items))
    params = [dict(it['s'], name='q%d' % i, **{'in': 'query'}) for i, it in enumerate(items) if it['text']]
    params += [dict(it['s'], name='h%d' % i, **{'in': 'header'}) for i, it in enumerate(items) if it['text']]
    params += [dict(it['s'], name='p%d' % i, required=True, **{'in': 'path'}) for i, it in enumerate(items) if it['text']]
    params.append({'name': 'body', 'in': 'body', 'schema': dict(type='object', properties=props)})
    path = '/x' + ''.join('/{p%d}' % i for i, it in enumerate(items) if it['text'])
    resp = {'200': dict(description='', schema=dict(type='object', properties=props),
                        headers=dict(('X-H%d' % i, dict(it['s'])) for i, it in enumerate(items)))}
    return sut.one_op(params, 'post', path, responses=resp, definitions=dict(('D%d' % i, it['s']) for i, it in enumerate(items)))


def check_convert(case, cx):
    items = case['items']
    app = sut.app_of(doc(items))
    args = dict(body=dict(('f%d' % i, it['v']) for i, it in enumerate(items)))
    for i, it in enumerate(items):
        if it['text']:
            for p in 'qhp':
                args['%s%d' % (p, i)] = it['v']
    req, resp = app.op['op'](**args)
    req.prepare()
    body = json.loads(req.data)
    query = dict(req.query)
    texts = {}
    for i, it in enumerate(items):
        s, v = it['s'], it['v']
        cx.label(kind(s), type(v).__name__, it.get('shape', 'plain'))
        cx.nontrivial(kind(s) not in ('str', 'int') or v in (0, '', -1))
        bad = bad_json(s, v, body['f%d' % i])
        if bad:
            fail(bad)
        if it['text']:
            for t in (query['q%d' % i], req.header['h%d' % i]):
                bad = bad_text(s, v, t)
                if bad:
                    fail(bad)
            texts[i] = query['q%d' % i]
    # reading the wire form back
    back = dict((k, x) for k, x in body.items() if case.get('read_bytes') or kind(items[int(k[1:])]['s']) != 'byte')
    resp.apply_with(status=200, raw=json.dumps(back), header=dict(('X-H%d' % i, t) for i, t in texts.items()))
    for k, x in back.items():
        got = sut.plain(resp.data[k])
        if kind(items[int(k[1:])]['s']) == 'dt':
            check(values.same_time(got, values.to_datetime(x)), 'read back %r -> %r' % (x, got))
        elif got != x or type(got) is not type(x):
            fail('reading back %r as %r gives %r' % (x, items[int(k[1:])]['s'], got))
    for i, t in texts.items():
        got = resp.header['x-h%d' % i]
        check(len(got) == 1, 'header values %r' % got)
        bad = bad_json(items[i]['s'], items[i]['v'], sut.plain(got[0]))
        if bad:
            fail('read from header %r: %s' % (t, bad))


# -- ISO 8601 ------------------------------------------------------------
def gen_iso(g):
    d = values.a_datetime(g)
    shape = g.choice(['full', 'minute', 'frac', 'date'])
    t = u'%04d-%02d-%02d' % (d.year, d.month, d.day)
    d = d.replace(microsecond=0)
    if shape == 'date':
        return dict(text=t, want=datetime.datetime(d.year, d.month, d.day))
    if shape == 'minute':
        d = d.replace(second=0)
        t += u'T%02d:%02d' % (d.hour, d.minute)
    else:
        t += u'T%02d:%02d:%02d' % (d.hour, d.minute, d.second)
    if shape == 'frac':
        n = g.int(1, 9)
        f = u'%0*d' % (n, g.int(0, 10 ** n - 1))
        t += u'.' + f
        d = d.replace(microsecond=int((f + u'000000')[:6]))
    if d.tzinfo is not None:
        t += values.iso(d.replace(microsecond=0, second=0))[19:]
    return dict(text=t, want=d)


DOC_TIME = sut.one_op([dict(type='string', format='date-time', name='dt', **{'in': 'query'}),
                       dict(type='string', format='date', name='d', **{'in': 'query'}),
                       dict(type='string', format='uuid', name='u', **{'in': 'query'}),
                       dict(type='integer', name='i', **{'in': 'query'}),
                       dict(type='number', name='n', **{'in': 'query'})])
_app = []


def time_app():
    if not _app:
        _app.append(sut.app_of(DOC_TIME))
    return _app[0]


def check_iso(case, cx):
    want = case['want']
    cx.nontrivial('T' in case['text'])
    cx.label('tz' if want.tzinfo else 'naive', 'frac' if want.microsecond else 'whole')
    from pyswagger.utils import from_iso8601
    got = from_iso8601(case['text'])
    check(got == want and (got.tzinfo is None) == (want.tzinfo is None) and got.utcoffset() == want.utcoffset(),
          '%r parsed as %r, expected %r' % (case['text'], got, want))
    req, _ = time_app().op['op'](dt=case['text'], d=case['text'])
    q = dict(req.query)
    check(values.same_time(q['dt'], want), 'date-time %r -> %r' % (case['text'], q['dt']))
    check(q['d'] == case['text'][:10], 'date %r -> %r' % (case['text'], q['d']))


# -- refusing ------------------------------------------------------------
def gen_refuse(g):
    k = g.choice(['date', 'dt', 'uuid', 'int', 'num'])
    how = g.choice(['type', 'garbage', 'mutate'])
    if how == 'type':
        return dict(k=k, v=g.choice([[], [1], {}, {'a': 1}] + ([u'', b'abc', True and (1, 2)] if k != 'uuid' else [1, 1.5])))
    if how == 'garbage':
        return dict(k=k, v=u'q' + g.text(ANY, 0, 12))
    s = {'date': {'type': 'string', 'format': 'date'}, 'dt': {'type': 'string', 'format': 'date-time'}}
    if k in s:
        y, mo, d = g.int(1000, 9999), g.int(1, 12), g.int(1, 28)
        h, mi, sec = g.int(0, 23), g.int(0, 59), g.int(0, 59)
        bad = g.choice(['mo', 'mo0', 'd', 'd0', 'h', 'mi', 's', 'tail', 'space', 'head', 'short', 'slash', 'tzbad', 'feb'])
        if bad == 'mo':
            mo = g.int(13, 99)
        elif bad == 'mo0':
            mo = 0
        elif bad == 'd':
            d = g.int(32, 99)
        elif bad == 'd0':
            d = 0
        elif bad == 'h':
            h = g.int(24, 99)
        elif bad == 'mi':
            mi = g.int(60, 99)
        elif bad == 's':
            sec = g.int(60, 99)
        elif bad == 'feb':
            y, mo, d = g.choice([1900, 2001, 2023, 2100]), 2, 29
        t = u'%04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, d, h, mi, sec)
        if bad == 'tail':
            t += g.choice([u'x', u' ', u'Zx', u'+1', u'+01:00x', u'.', u'.5.5', u'T00:00'])
        elif bad == 'space':
            t = t.replace(u'T', g.choice([u' ', u'_', u'TT', u'-', u'']))
        elif bad == 'head':
            t = g.choice([u' ', u'x', u'+', u'0']) + t
        elif bad == 'short':
            t = t[:g.choice([0, 1, 4, 7, 9, 11, 12, 13, 15])]
        elif bad == 'slash':
            t = t.replace(u'-', u'/')
        elif bad == 'tzbad':
            t += g.choice([u'z1', u'UTC', u'+0100x'] + ([u'+25:00', u'-24:00'] if k == 'dt' else []))
        if k == 'date' and bad in ('tail', 'mo', 'd', 'feb', 'slash', 'head') and g.bool():
            t = t.split(u'T')[0] + (u'x' if bad == 'tail' else u'')
        return dict(k=k, v=t)
    if k == 'uuid':
        h = uuid.UUID(bytes=bytes(bytearray(g.list(lambda: g.int(0, 255), 16, 16)))).hex
        i = g.int(0, 31)
        return dict(k=k, v=g.choice([h[:i], h + u'0', h[:i] + g.choice(u'goOlI-.') + h[i + 1:], h[:16], h[:i] + g.choice([u'\u00e9', u'z', u'/']) + h[i + 1:], bytes(bytearray(g.list(lambda: g.int(0, 255), 0, 15)))]))
    return dict(k=k, v=g.choice([u'', u' ', u'1x', u'0x10', u'1,5', u'--1', u'1.2.3', u'one'] + ([u'1.5', u'1e3'] if k == 'int' else [])))


def check_refuse(case, cx):
    cx.nontrivial()
    cx.label(case['k'], type(case['v']).__name__)
    name = dict(date='d', dt='dt', uuid='u', int='i', num='n')[case['k']]
    raises(lambda: time_app().op['op'](**{name: case['v']}))


PARTS = [Part('convert', gen_convert, check_convert, 6000), Part('iso', gen_iso, check_iso, 8000),
         Part('refuse', gen_refuse, check_refuse, 8000)]
