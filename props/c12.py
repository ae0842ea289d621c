# -*- coding: utf-8 -*-
from urllib.parse import parse_qsl, unquote, urlsplit

from pbt import sut, ops
from pbt.engine import Part, fail, check as ensure, raises

RULE = ("place: an operation with 0-6 parameters over path, query, header, form, file and body (some on the path item, some with defaults, "
        "array formats, odd names) and arguments for a subset; the built request is decoded independently. refuse: the same with a required "
        "argument removed or an undeclared one added. Non-trivial: at least 2 parameters, or an argument with characters that need encoding.")
ASSUMPTIONS = ["names of parameters are distinct over all places (arguments are passed by name)", "a parameter is not named 'self' (known finding)"]


def gen(g):
    ps, path, payload = ops.operation(g)
    return dict(params=ps, on_item=[g.bool(0.2) for _ in ps], path=path, payload=payload, args=ops.arguments(g, ps),
                host=g.choice(ops.HOSTS), base=g.choice(ops.BASES), method=g.choice(['get', 'post', 'put', 'delete', 'patch', 'options', 'head']),
                scheme=g.choice(['http', 'https']), twice=g.bool(0.2), before=ops.arguments(g, ps) if g.bool(0.2) else None)


def app(case):
    own = [p for p, i in zip(case['params'], case['on_item']) if not i]
    shared = [p for p, i in zip(case['params'], case['on_item']) if i]
    d = sut.one_op(own, case['method'], case['path'], consumes=ops.consumes_for(case['payload']))
    if shared:
        d['paths'][case['path']]['parameters'] = shared
    d['host'] = case['host']
    d.pop('basePath')
    if case['base'] is not None:
        d['basePath'] = case['base']
    return sut.app_of(d)


def check(case, cx):
    a = app(case)
    args = dict((k, ops.materialise(v, cx.tmp)) for k, v in case['args'].items())
    req, _ = a.op['op'](**args)
    if case.get('before') is not None:
        # a request for other arguments is patched by the caller
        cx.label('patched')
        other, _ = a.op['op'](**dict((k, ops.materialise(v, cx.tmp)) for k, v in case['before'].items()))
        for place, vs in req._p.items():
            if isinstance(vs, dict):
                other._p[place].clear()
                other._p[place].update(vs)
            else:
                other._p[place][:] = vs
        req = other
    if case['twice']:
        a.op['op'](**dict((k, ops.materialise(v, cx.tmp)) for k, v in case['args'].items()))[0].prepare(scheme=case['scheme'])
    req.prepare(scheme=case['scheme'])
    cx.label(case['payload'] or 'no payload', *[p['in'] for p in case['params']])
    cx.nontrivial(len(case['params']) > 1 or any(isinstance(v, str) and not v.isalnum() for v in case['args'].values()))
    verify(case, req, cx)


def verify(case, req, cx):
    ps, args = case['params'], case['args']
    want = dict((p['name'], ops.effective(p, args)) for p in ps)
    by = dict((p['name'], p) for p in ps)
    for p in ps:
        cx.label('given' if p['name'] in args else ('default' if 'default' in p else 'absent'))
    ensure(req.method.lower() == case['method'], 'method %r' % req.method)
    # path
    u = urlsplit(req.url)
    ensure(u.scheme == case['scheme'] and u.netloc == case['host'] and not u.query and not u.fragment, 'url %r' % req.url)
    ensure(u.path == (case['base'] or '') + req.path, 'url %r does not end in base path and path %r' % (req.url, req.path))
    got = req.path.split('/')
    tmpl = case['path'].split('/')
    ensure(len(got) == len(tmpl), 'path %r for template %r' % (req.path, case['path']))
    for seg, t in zip(got, tmpl):
        ensure(all(ord(c) < 128 and c not in ' "<>\\^`{}|?#[]' for c in seg), 'not a URL path segment: %r' % seg)
        match_segment(t, unquote(seg), by, want)
    # query
    left = list(req.query)
    for p in ps:
        if p['in'] != 'query':
            continue
        texts = [v for k, v in left if k == p['name']]
        left = [x for x in left if x[0] != p['name']]
        one(p, want, texts, 'query')
    ensure(not left, 'query pairs nobody asked for: %r' % left)
    # header
    left = dict((k.lower(), v) for k, v in req.header.items())
    ensure(len(left) == len(list(req.header.items())), 'header names twice: %r' % list(req.header.items()))
    left.pop('content-type', None)
    left.pop('accept', None)
    for p in ps:
        if p['in'] == 'header':
            one(p, want, [left.pop(p['name'].lower())] if p['name'].lower() in left else [], 'header')
    ensure(not left, 'headers nobody asked for: %r' % left)
    # files
    files = dict(req.files)
    for p in ps:
        if ops.is_file(p):
            there, v = want[p['name']]
            ensure((p['name'] in files) == there, 'file %r %s' % (p['name'], 'missing' if there else 'not asked for'))
            files.pop(p['name'], None)
    ensure(not files, 'files nobody asked for: %r' % list(files))
    # payload
    forms = [p for p in ps if p['in'] == 'formData' and not ops.is_file(p)]
    anyfile = any(ops.is_file(p) and want[p['name']][0] for p in ps)
    if not anyfile:
        there = [p for p in forms if want[p['name']][0] and not (p['type'] == 'array' and p.get('collectionFormat') == 'multi' and not want[p['name']][1])]
        bodies = [p for p in ps if p['in'] == 'body' and want[p['name']][0]]
        if there:
            left = parse_qsl(req.data, keep_blank_values=True, strict_parsing=True)
            for p in forms:
                texts = [v for k, v in left if k == p['name']]
                left = [x for x in left if x[0] != p['name']]
                one(p, want, texts, 'form')
            ensure(not left, 'form fields nobody asked for: %r' % left)
        elif bodies:
            ensure(isinstance(req.data, str), 'body %r' % (req.data,))
        else:
            ensure(req.data is None, 'payload %r without body or form argument' % (req.data,))


def one(p, want, texts, where):
    there, v = want[p['name']]
    if not there:
        ensure(not texts, '%s has %r for argument %r that was not given' % (where, texts, p['name']))
        return
    b = ops.bad_pairs(p, v, texts)
    if b:
        fail('%s %r: %s' % (where, p['name'], b))


def match_segment(t, seg, by, want):
    """seg is the decoded segment for template segment t"""
    i = t.find('{')
    if i < 0:
        ensure(seg == t, 'segment %r for template %r' % (seg, t))
        return
    import re
    parts = re.split(r'\{([^{}]*)\}', t)
    lits, names = parts[0::2], parts[1::2]
    ensure(seg.startswith(lits[0]) and seg.endswith(lits[-1]), 'segment %r for template %r' % (seg, t))
    if len(names) == 1:
        text = seg[len(lits[0]):len(seg) - len(lits[1])]
        b = ops.bad_pairs(by[names[0]], want[names[0]][1], [text])
        if b:
            fail('path: ' + b)
        return
    # several parameters in one segment: some way of cutting it must fit
    def fits(rest, k):
        if k == len(names):
            return rest == ''
        for j in range(len(rest) + 1):
            if ops.bad_pairs(by[names[k]], want[names[k]][1], [rest[:j]]) is None and rest[j:].startswith(lits[k + 1]) \
                    and fits(rest[j + len(lits[k + 1]):], k + 1):
                return True
        return False
    ensure(fits(seg[len(lits[0]):], 0), 'segment %r for template %r' % (seg, t))


# ----------------------------------------------------------------------
def gen_refuse(g):
    case = gen(g)
    req = [p for p in case['params'] if p.get('required') and 'default' not in p]
    how = g.choice(['missing', 'unknown', 'both'])
    if how != 'unknown' and req:
        case['args'].pop(g.choice(req)['name'])
    if how != 'missing' or not req:
        n = g.choice(['zz', 'q', case['params'][0]['name'].upper() + 'x' if case['params'] else 'p', 'body', 'name'])
        if not any(p['name'] == n for p in case['params']):
            case['args'][n] = g.choice([1, u'x', None, [], False])
        else:
            case['args'][n + 'zzzzzz'] = u''
    return case


def check_refuse(case, cx):
    a = app(case)
    cx.nontrivial()
    missing = [p['name'] for p in case['params'] if p.get('required') and 'default' not in p and p['name'] not in case['args']]
    extra = set(case['args']) - set(p['name'] for p in case['params'])
    cx.label('missing' if missing else 'complete', 'unknown' if extra else 'known')
    args = dict((k, ops.materialise(v, cx.tmp)) for k, v in case['args'].items())
    raises(lambda: a.op['op'](**args), ValueError)


PARTS = [Part('place', gen, check, 9000), Part('refuse', gen_refuse, check_refuse, 2500)]
