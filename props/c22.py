# -*- coding: utf-8 -*-
import copy

from pyswagger import utils, errs
from pyswagger.consts import private

from pbt import sut
from pbt.engine import Part, fail, eq, check as ensure, raises
from pbt.gen import LETTERS

RULE = ("dict: scoped dictionaries with keys of 1-4 names and any separator, looked up by full keys, tuples, last parts, parts that match several or none "
        "(also ends, beginnings and pieces of names). ops: documents with generated tags and operation ids, looked up by id, tag and id, pointer and path "
        "shortcut; equal tag and id must be refused. Non-trivial: at least two keys, or two operations.")
ASSUMPTIONS = ["names do not hold the separator", "operations are looked up by their first tag (known finding for the others)"]

NAMES = [u'get', u'x', u'something-get', u'getall', u'a', u'get get', u'Get', u'user', u'a.b', u'\u00e9', u'x/y', u'~1', u'0', u'-']


def piece(g, n):
    """a piece of a name, or another one"""
    k = g.choice(['end', 'begin', 'mid', 'more', 'case'])
    if k == 'end':
        return n[1:] or u'q'
    if k == 'begin':
        return n[:-1] or u'q'
    if k == 'mid':
        return n[1:-1] or u'q'
    if k == 'more':
        return g.choice([n + u'z', u'z' + n])
    return n.swapcase()


def gen_dict(g):
    sep = g.choice([private.SCOPE_SEPARATOR, u'!', u'::', u'|'])
    names = g.sample(NAMES, 1, 6)
    keys = []
    for _ in range(g.int(1, 8)):
        with g.span():
            k = [g.choice(names) for _ in range(g.int(1, 4))]
            if k not in keys:
                keys.append(k)
    values = [g.choice([i + 1, i + 1, i + 1, 0, None, False, u'']) for i in range(len(keys))]
    looks = []
    for _ in range(g.int(1, 8)):
        with g.span():
            k = list(g.choice(keys))
            how = g.weighted([(4, 'suffix'), (2, 'full'), (2, 'piece'), (1, 'drop'), (1, 'other')])
            if how == 'suffix':
                k = k[g.int(0, len(k) - 1):]
            elif how == 'piece':
                k = k[g.int(0, len(k) - 1):]
                i = g.int(0, len(k) - 1)
                k[i] = piece(g, k[i])
            elif how == 'drop':
                if len(k) > 1:
                    k.pop(g.int(0, len(k) - 1))
            elif how == 'other':
                k = [g.choice(names) for _ in range(g.int(1, 3))]
            looks.append((k, g.choice(['str', 'tuple'])))
    return dict(sep=sep, keys=keys, values=values, looks=looks)


def want_of(keys, k):
    """index of the one match, 'none' or 'many'"""
    if k in keys:
        return keys.index(k)
    m = [i for i, x in enumerate(keys) if len(x) > len(k) and x[-len(k):] == k]
    return m[0] if len(m) == 1 else 'many' if m else 'none'


def look(f, keys, k, how, sep):
    w = want_of(keys, k)
    key = sep.join(k) if how == 'str' else tuple(k)
    if w == 'none':
        raises(lambda: f(key), KeyError)
    elif w == 'many':
        raises(lambda: f(key), ValueError)
    else:
        return w, f(key)
    return w, None


def check_dict(case, cx):
    sep = case['sep']
    d = utils.ScopeDict(dict((sep.join(k), v) for k, v in zip(case['keys'], case['values'])))
    d.sep = sep
    before = dict(d)
    for k, how in case['looks']:
        w, v = look(lambda x: d[x], case['keys'], k, how, sep)
        cx.label(w if isinstance(w, str) else 'one')
        if not isinstance(w, str):
            eq(v, case['values'][w], 'value of %r' % (k,))
    eq(dict(d), before, 'dict after lookups')
    cx.nontrivial(len(case['keys']) > 1)


METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
PATHS = [u'/a', u'/a/b', u'/', u'/a/{id}', u'/~x', u'/a.b', u'/\u00e9', u'/a b', u'/get']


def gen_ops(g):
    ids, tags = g.sample(NAMES, 1, 5), g.sample(NAMES, 1, 4)
    dup = g.bool(0.15)
    ops, used = [], set()
    for i in range(g.int(1, 7)):
        with g.span():
            o = dict(path=g.choice(PATHS), method=g.choice(METHODS), id=g.weighted([(6, g.choice(ids)), (1, None)]),
                     tags=g.weighted([(4, [g.choice(tags)]), (2, None), (1, []), (2, g.sample(tags, 1, 3))]))
            k = (o['path'], o['method'])
            full = (o['tags'][0] if o['tags'] else None, o['id'])
            if k in used or (not dup and o['id'] and full in used):
                continue
            used.update([k, full])
            ops.append(o)
    return dict(ops=ops, sep=g.choice([None, u'!', u'::']), looks=[(g.choice(ids + tags), g.choice([None] + tags), g.choice(['str', 'tuple']), g.bool(0.3) and
                piece(g, g.choice(ids))) for _ in range(g.int(1, 6))], inref=g.bool(0.2), defs=g.sample(NAMES, 0, 5))


def check_ops(case, cx):
    paths, other = {}, {'items': {}}
    for i, o in enumerate(case['ops']):
        op = {'description': u'm%d' % i, 'responses': {'200': {'description': u''}}}
        if o['id'] is not None:
            op['operationId'] = o['id']
        if o['tags'] is not None:
            op['tags'] = list(o['tags'])
        paths.setdefault(o['path'], {})[o['method']] = op
    doc = sut.doc_with(dict(paths), definitions=dict((n, {'title': n}) for n in case['defs']))
    if case['inref']:
        for i, p in enumerate(sorted(paths)):
            other['items']['i%d' % i] = paths[p]
            doc['paths'][p] = {'$ref': 'o.json#/items/i%d' % i}
    docs = {sut.URL: doc, 'http://doc.test/api/o.json': other}
    sep = case['sep'] or private.SCOPE_SEPARATOR
    kw = dict(sep=sep) if case['sep'] else {}
    keys, ops = [], []
    dup = False
    for i, o in enumerate(case['ops']):
        if o['id']:
            k = ([o['tags'][0]] if o['tags'] else []) + [o['id']]
            dup = dup or k in keys
            keys.append(k)
            ops.append(i)
    cx.nontrivial(len(keys) > 1)
    if dup:
        cx.label('duplicate')
        for strict in (True, False):
            raises(lambda: sut.app_of(copy.deepcopy(docs), strict=strict, **kw), errs.SchemaError)
        return
    app = sut.app_of(copy.deepcopy(docs), **kw)
    eq(sorted(app.op.keys()), sorted(sep.join(k) for k in keys), 'names of operations')

    def same(op, i, what):
        o = case['ops'][i]
        eq((op.description, op.path, op.method, op.operationId, list(op.tags or [])), (u'm%d' % i, o['path'], o['method'], o['id'], list(o['tags'] or [])), what)
    for i, o in enumerate(case['ops']):
        ptr = '#/paths/' + o['path'].replace('~', '~0').replace('/', '~1') + '/' + o['method']
        for p in (ptr, sut.URL + ptr):
            same(app.resolve(p), i, 'operation at ' + p)
        same(getattr(app.s(o['path'].lstrip('/')), o['method']), i, 'shortcut')
        same(getattr(app.s(o['path']), o['method']), i, 'shortcut')
    for k, i in zip(keys, ops):
        for kk in (k, k[-1:]):
            for how in ('str', 'tuple'):
                w, v = look(lambda x: app.op[x], keys, kk, how, sep)
                cx.label(w if isinstance(w, str) else 'one')
                if not isinstance(w, str):
                    same(v, ops[w], 'operation %r' % (kk,))
    others = set(t for o in case['ops'] for t in (o['tags'] or [])[1:])
    for a, t, how, pc in case['looks']:
        k = ([t] if t else []) + [pc or a]
        if t in others and want_of(keys, k) == 'none':      # known finding
            continue
        w, v = look(lambda x: app.op[x], keys, k, how, sep)
        cx.label(w if isinstance(w, str) else 'one')
        if not isinstance(w, str):
            same(v, ops[w], 'operation %r' % (k,))
    # models
    eq(sorted(app.m.keys()), sorted(case['defs']), 'models')
    for n in case['defs']:
        eq(app.m[n].title, n, 'model')
        eq(app.resolve('#/definitions/' + n.replace('~', '~0').replace('/', '~1')).title, n, 'model by pointer')
    for a, t, how, pc in case['looks']:
        if (pc or a) not in case['defs']:
            raises(lambda: app.m[pc or a], KeyError)


def check_tags(case, cx):
    """every tag leads to the operation"""
    doc = sut.doc_with({'/a': {'get': dict(operationId='i', tags=case, responses={'200': {'description': u''}})}})
    app = sut.app_of(doc)
    for t in case:
        eq(app.op[t, 'i'].path, '/a', 'operation by tag %s' % t)


PARTS = [Part('dict', gen_dict, check_dict, 6000), Part('ops', gen_ops, check_ops, 5000), Part('tags', lambda g: g.sample(NAMES[:1] + NAMES[2:], 1, 1), check_tags, 50)]
