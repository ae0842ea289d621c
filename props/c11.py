# -*- coding: utf-8 -*-
from urllib.parse import parse_qsl, unquote

from pbt import sut, values
from pbt.engine import Part, fail, check as ensure
from pbt.gen import WORD, UNI, TRICKY
from pbt.values import bad_json, bad_text, kind

RULE = ("join: one array parameter (1-3 levels, each with its own collection format) at a query, form, header or path position, given as "
        "list, tuple or joined text; the text put into the request is split by an independent reader and read back through a response "
        "header. Non-trivial when nested, not csv, with repeated or empty items, or longer than one item.")
ASSUMPTIONS = ["items contain no separator of an enclosing level, levels of one array use different separators, inner arrays that are read back are not empty"]

SEP = {'csv': u',', 'ssv': u' ', 'tsv': u'\t', 'pipes': u'|', None: u','}


def gen(g):
    n = g.weighted([(6, 1), (3, 2), (1, 3)])
    pos = g.choice(['query', 'formData', 'header', 'path', 'body'])
    fmts = g.sample(['csv', 'ssv', 'tsv', 'pipes'], n, n)
    if n == 3 and len(fmts) < 3:
        fmts = ['csv', 'ssv', 'tsv']
    fmts = [None if f == 'csv' and g.bool() else f for f in fmts]
    if pos in ('query', 'formData') and g.bool(0.35):
        fmts[0] = 'multi'
    leaf = values.scalar(g, ['str', 'str', 'int', 'num', 'bool', 'byte', 'date', 'dt', 'uuid', 'email'])
    seps = [SEP[f] for f in fmts if f != 'multi']
    alphabet = [c for c in WORD[:8] + TRICKY + UNI + u'\t' if c not in seps]
    uniq = [False] * n
    if g.bool(0.4):
        uniq[g.int(0, n - 1)] = True
    pool = []

    def item():
        if pool and g.bool(0.3):
            return same(g, leaf, g.choice(pool))
        v = values.value(g, leaf, text=True, alphabet=alphabet)
        if kind(leaf) == 'byte' and any(s in values.to_bytes(v).decode('utf-8') for s in seps):
            v = u'x'
        if kind(leaf) == 'dt' and isinstance(v, float):
            v = 0
        pool.append(v)
        return v

    def arr(d):
        return g.list((lambda: item()) if d == n - 1 else (lambda: arr(d + 1)), 0 if d == 0 else 1, 5, 2)
    return dict(pos=pos, fmts=fmts, uniq=uniq, leaf=leaf, value=arr(0), how=g.choice(['list', 'tuple', 'text']))


def same(g, s, v):
    """the same value, maybe in another representation"""
    k = kind(s)
    if k == 'date':
        d = values.to_date(v)
        return g.choice([v, d, u'%04d-%02d-%02d' % (d.year, d.month, d.day)])
    if k == 'dt':
        d = values.to_datetime(v)
        return g.choice([v, d, values.iso(d)])
    if k == 'uuid':
        u = values.to_uuid(v)
        return g.choice([v, u, u'%s' % u, u.hex, u.bytes])
    if k == 'byte':
        b = values.to_bytes(v)
        return g.choice([v, b, b.decode('utf-8')])
    if k == 'num' and float(v) == int(v) and abs(v) < 1e15:
        return g.choice([v, int(v), float(v)])
    return v


def schema(case, lvl=0):
    if lvl == len(case['fmts']):
        return dict(case['leaf'])
    s = dict(type='array', items=schema(case, lvl + 1))
    if case['fmts'][lvl]:
        s['collectionFormat'] = case['fmts'][lvl]
    if case['uniq'][lvl]:
        s['uniqueItems'] = True
    return s


def dedup(case, v, lvl=0):
    """without later items that are the same as an earlier one, whatever representations they are given in"""
    if lvl == len(case['fmts']):
        return v
    out, seen = [], []
    for x in v:
        k = form(case, x, lvl + 1)
        if case['uniq'][lvl] and k in seen:
            continue
        seen.append(k)
        out.append(x)
    return [dedup(case, x, lvl + 1) for x in out]


def form(case, v, lvl):
    if lvl == len(case['fmts']):
        if kind(case['leaf']) == 'dt':
            return values.to_datetime(v)
        if kind(case['leaf']) == 'num':
            return float(v)
        return leaf_text(case['leaf'], v)
    return [form(case, x, lvl + 1) for x in dedup(case, v, lvl)]


def joined(case, v, lvl=0):
    """reference text form of a nested array"""
    if lvl == len(case['fmts']):
        return leaf_text(case['leaf'], v)
    return SEP[case['fmts'][lvl]].join(joined(case, x, lvl + 1) for x in v)


def leaf_text(s, v):
    k = kind(s)
    if k == 'int':
        return u'%d' % v
    if k == 'num':
        return repr(float(v))
    if k == 'bool':
        return u'true' if v else u'false'
    if k == 'byte':
        return values.to_bytes(v).decode('utf-8')
    if k == 'date':
        d = values.to_date(v)
        return u'%04d-%02d-%02d' % (d.year, d.month, d.day)
    if k == 'dt':
        return values.iso(values.to_datetime(v))
    if k == 'uuid':
        return u'%s' % values.to_uuid(v)
    return v


def judge(case, text, v, lvl=0):
    if lvl == len(case['fmts']):
        return bad_text(case['leaf'], v, text)
    parts = text.split(SEP[case['fmts'][lvl]]) if v or text else []
    if len(parts) != len(v):
        return '%d items %r in %r, expected %d' % (len(parts), parts, text, len(v))
    for p, x in zip(parts, v):
        b = judge(case, p, x, lvl + 1)
        if b:
            return b
    return None


def judge_back(case, got, v, lvl=0):
    if lvl == len(case['fmts']):
        return bad_json(case['leaf'], v, sut.plain(got))
    if not isinstance(got, list) or len(got) != len(v):
        return 'read back %r, expected %d items' % (sut.plain(got), len(v))
    for a, x in zip(got, v):
        b = judge_back(case, a, x, lvl + 1)
        if b:
            return b
    return None


def check(case, cx):
    pos, v = case['pos'], case['value']
    s = schema(case)
    want = dedup(case, v)
    multi = case['fmts'][0] == 'multi'
    how = case['how']
    if how == 'text' and (multi or not v):
        how = 'list'
    if how == 'text':
        arg = joined(case, v)
    else:
        arg = tuple(v) if how == 'tuple' and len(case['fmts']) == 1 else v
    cx.label(pos, how, kind(case['leaf']), 'levels %d' % len(case['fmts']), *[f or 'default' for f in case['fmts']])
    cx.nontrivial(len(case['fmts']) > 1 or case['fmts'][0] not in (None, 'csv') or len(v) > 1 or u'' in v)
    path = '/op/{p}/end' if pos == 'path' else '/op'
    hdr = dict(s)
    if pos == 'body':
        if how == 'text':
            arg = v
        body_array(case, s, arg, want)
        return
    app = sut.app_of(sut.one_op([dict(s, name='p', required=(pos == 'path'), **{'in': pos})], 'post', path,
                                responses={'200': dict(description='', headers={} if multi else {'X-P': hdr})}))
    req, resp = app.op['op'](p=arg)
    req.prepare()
    if pos == 'query':
        got = [x for k, x in req.query if k == 'p']
    elif pos == 'formData':
        got = [x for k, x in parse_qsl(req.data or '', keep_blank_values=True)]
    elif pos == 'header':
        got = [req.header['p']]
    else:
        parts = req.path.split('/')
        ensure(len(parts) == 4 and parts[1] == 'op' and parts[3] == 'end', 'path %r' % req.path)
        got = [unquote(parts[2])]
    if multi:
        ensure(len(got) == len(want), '%d pairs %r for %r' % (len(got), got, want))
        for t, x in zip(got, want):
            b = judge(case, t, x, 1)
            if b:
                fail(b)
        return
    ensure(len(got) == 1, 'values %r' % (got,))
    b = judge(case, got[0], want)
    if b:
        fail(b)
    if want:
        resp.apply_with(status=200, header=[('X-P', got[0])])
        h = resp.header['X-P']
        ensure(len(h) == 1, 'header values %r' % (h,))
        b = judge_back(case, h[0], want)
        if b:
            fail('from header %r: %s' % (got[0], b))


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def body_array(case, s, arg, want):
    import json

    def strip(x):
        x = dict(x)
        x.pop('collectionFormat', None)
        if 'items' in x:
            x['items'] = strip(x['items'])
        return x
    s = strip(s)
    app = sut.app_of(sut.one_op([dict(name='p', schema=s, **{'in': 'body'})], 'post', '/op', responses={'200': dict(description='', schema=s)}))
    req, resp = app.op['op'](p=arg)
    req.prepare()
    doc = json.loads(req.data)
    b = judge_back(case, doc, want)
    if b:
        fail('in body: ' + b)
    if kind(case['leaf']) != 'byte':
        resp.apply_with(status=200, raw=req.data)
        b = judge_back(case, resp.data, want)
        if b:
            fail('from body: ' + b)


PARTS = [Part('join', gen, check, 16000)]
