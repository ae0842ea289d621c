# -*- coding: utf-8 -*-
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
from urllib.parse import urlsplit

import yaml
from pyswagger import App
from pyswagger.getter import Getter, SimpleGetter, DictGetter, UrlGetter
from pyswagger.resolve import Resolver

from pbt import sut, docgen, behave, httpd
from pbt.engine import Part, HarnessError, fail, eq, check as ensure, raises
from pbt.gen import LETTERS
from props.c01 import dumpable

RULE = ("ways: a generated document, optionally with one definition in a second file, written as JSON or YAML and loaded in two generated ways; version, "
        "operations, dump (locations replaced) and the outcome of generated calls must equal those of the same document served from memory. "
        "Non-trivial: at least one call on the document. refuse: a source without a document of a supported version must raise. Every case counts. "
        "locale: a file is loaded in a process whose locale is not UTF-8, with the same result. Non-trivial: the file has characters beyond ASCII.")
ASSUMPTIONS = ["documents give host and schemes, which otherwise come from the location by specification",
               "YAML is written by PyYAML (block or flow style, status codes and other numeric names as numbers or text)"]

FILES = ['swagger.json', 'swagger.yaml', 'swagger.yml', 'resource_list.json']
FILE_WAYS = ['abs', 'rel', 'dir', 'noext', 'uri', 'localhost', 'hook', 'hookres', 'create', 'urlgetter', 'dirrel', 'diruri', 'http', 'httpto']
MEM_WAYS = ['simple', 'simpleinst', 'getter', 'getterinst', 'dict', 'resolver']
CHARS = LETTERS + u" %\u00e9#?&;+=,~'!@-_"


# -- writing -----------------------------------------------------------------
def numbers(o):
    """names that are numbers as such, as people write them in YAML"""
    if isinstance(o, dict):
        return dict((int(k) if k.isdigit() and k.isascii() and str(int(k)) == k else k, numbers(v)) for k, v in o.items())
    return [numbers(v) for v in o] if isinstance(o, list) else o


def statuses(doc):
    """status codes of operations as numbers, as those of a parsed YAML are"""
    doc = copy.deepcopy(doc)
    for item in doc['paths'].values():
        for m in docgen.METHODS:
            if m in item:
                item[m]['responses'] = dict((int(k) if k.isdigit() else k, v) for k, v in item[m]['responses'].items())
    return doc


class Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def text(doc, fmt, sort=True):
    if fmt == 'json':
        return json.dumps(doc)
    if fmt == 'json-indent':
        return json.dumps(doc, indent=2, sort_keys=True)
    if fmt == 'json-raw':
        return u'\n ' + json.dumps(doc, ensure_ascii=False)
    if fmt == 'yaml':
        return yaml.dump(doc, Dumper=Dumper, sort_keys=sort, default_flow_style=False)
    if fmt == 'yaml-num':
        return yaml.dump(numbers(doc), Dumper=Dumper, sort_keys=sort, default_flow_style=False, allow_unicode=True)
    if fmt == 'yaml-flow':
        return yaml.dump(doc, Dumper=Dumper, sort_keys=sort, default_flow_style=True)
    return u'---\n# comment\n' + yaml.dump(doc, Dumper=Dumper, sort_keys=sort)


FMTS = ['json', 'json-indent', 'json-raw', 'yaml', 'yaml-num', 'yaml-flow', 'yaml-comment']


def write(path, t):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as f:
        f.write(t.encode('utf-8'))


# -- documents -----------------------------------------------------------------
def refs_of(o, out):
    if isinstance(o, dict):
        if '$ref' in o and isinstance(o['$ref'], str):
            out.append(o)
        for v in o.values():
            refs_of(v, out)
    elif isinstance(o, list):
        for v in o:
            refs_of(v, out)
    return out


def gen(g):
    doc = dumpable(docgen.document(g, max_paths=2, max_defs=3, meta=g.bool(0.4), names=docgen.NAMES if g.bool(0.5) else docgen.PLAIN, digits=g.choice([0, 0, 0.3])))
    doc.setdefault('host', 'api.test')
    doc['schemes'] = g.sample(['http', 'https'], 1, 2)
    calls = docgen.calls(g, doc, 2)
    ext = None
    if g.bool(0.4):
        ns = [n for n, s in sorted(doc.get('definitions', {}).items()) if not refs_of(s, [])]
        if ns:
            n = g.choice(ns)
            ext = dict(file=g.choice(['other.json', 'sub/other.yaml', 'sub/o.yml', '../other.json', './a/../other.json']), whole=g.bool() and bool(doc['definitions'][n]),
                       schema=doc['definitions'][n], name=n)
            new = ext['file'] + ('' if ext['whole'] else '#/definitions/x')
            for r in refs_of(doc, []):
                if r['$ref'] == '#/definitions/' + docgen.esc(n):
                    r['$ref'] = new
            doc['definitions'][n] = {'$ref': new}
    if not ext and g.bool(0.35):
        ps = [p for p, i in sorted(doc['paths'].items()) if p.startswith('/') and '$ref' not in i and not refs_of(i, []) and any(m in i for m in docgen.METHODS)]
        if ps:
            p = g.choice(ps)
            ext = dict(file=g.choice(['item.json', 'sub/item.yaml', 'item.yml', 'item.yaml']), whole=g.bool(), item=doc['paths'][p], num=g.bool(0.7))
            doc['paths'][p] = {'$ref': ext['file'] + ('' if ext['whole'] else '#/x-items/x')}
    ways = []
    for _ in range(2):
        w = dict(way=g.choice(FILE_WAYS + (MEM_WAYS if not ext else ['resolver'])), fmt=g.choice(FMTS), dir=u'd' + g.text(CHARS, 0, 5, 2).rstrip())
        if w['way'] in FILE_WAYS:
            w['file'] = {'dir': g.choice(FILES), 'dirrel': g.choice(FILES), 'diruri': g.choice(FILES),
                         'noext': g.choice(['api.json', 'spec.yaml', 'v1.yml', 'v1.2.json'])}.get(w['way']) or \
                g.choice(FILES + ['api.json', 'x swagger.json', 'spec.yaml', 's.yml', u'\u00e9.json', 'a#b.json', 'p%20q.yaml'])
            if w['way'] == 'httpto':
                w['status'] = g.choice([301, 302, 303, 307])
            if w['file'].endswith('.json') and not w['fmt'].startswith('json') and g.bool(0.5):
                w['fmt'] = 'json'
        else:
            w['give'] = g.choice(['str', 'bytes', 'dict'])
            w['num'] = g.bool()
        ways.append(w)
    return dict(doc=doc, calls=calls, ext=ext, ways=ways)


def other_file(ext, written=False, parsed=False):
    if 'item' in ext:
        item = ext['item']
        if written and ext['num'] and not ext['file'].endswith('json'):
            item = numbers(item)
        elif parsed and ext['num']:
            item = statuses({'paths': {'/': item}})['paths']['/']
        return item if ext['whole'] else {'x-items': {'x': item}}
    return ext['schema'] if ext['whole'] else {'definitions': {'x': ext['schema']}}


# -- loading -----------------------------------------------------------------
def load_way(w, doc, ext, tmp):
    """(application, base of relative references, its url)"""
    top = os.path.join(tmp, 'top')
    shutil.rmtree(top, ignore_errors=True)
    way = w['way']
    full = dict(doc)
    if way in FILE_WAYS:
        d = os.path.join(top, w['dir'])
        path = os.path.join(d, w['file'])
        write(path, text(full, w['fmt']))
        if ext:
            write(os.path.normpath(os.path.join(d, ext['file'])), text(other_file(ext, True), 'json' if ext['file'].endswith('json') else 'yaml'))
        uri = pathlib.Path(path).as_uri()
        base = pathlib.Path(d).as_uri()
        if way == 'abs':
            return App.load(path), base
        if way in ('rel', 'dirrel'):
            old = os.getcwd()
            os.chdir(top)
            try:
                return App.load(os.path.join(w['dir'], w['file']) if way == 'rel' else './' + w['dir']), base
            finally:
                os.chdir(old)
        if way == 'dir':
            return App.load(d), base
        if way == 'diruri':
            return App.load(base), base
        if way == 'noext':
            return App.load(os.path.splitext(path)[0]), base
        if way == 'uri':
            return App.load(uri), base
        if way == 'localhost':
            return App.load(uri.replace('file://', 'file://localhost')), base.replace('file://', 'file://localhost')
        if way == 'create':
            return App.create(path, strict=False), base
        if way == 'urlgetter':
            return App.load(uri, getter=UrlGetter), base

        if way in ('http', 'httpto'):
            url = httpd.serve(top)
            if way == 'httpto' and not ext:
                # it's at another place of the server
                httpd.state['odd']['/to/a/b'] = (w['status'], [('Location', url + uri[len(pathlib.Path(top).as_uri()):])], b'', None)
                app = App.load(url + '/to/a/b')
                return app, url + '/to/a'
            here = url + base[len(pathlib.Path(top).as_uri()):]
            return App.load(here + '/' + os.path.basename(uri)), here

        def hook(url):
            return url.replace('http://doc.test/d/e', base).replace('http://doc.test/d', pathlib.Path(top).as_uri())
        url = 'http://doc.test/d/e/' + os.path.basename(uri)
        if way == 'hook':
            return App.load(url, url_load_hook=hook), 'http://doc.test/d/e'
        return App.load(url, resolver=Resolver(url_load_hook=hook)), 'http://doc.test/d/e'

    parsed = statuses(full) if w.get('num') else copy.deepcopy(full)
    give = text(full, w['fmt']) if w['give'] != 'dict' else parsed
    if w['give'] == 'bytes':
        give = give.encode('utf-8')
    url = sut.URL
    base = url.rsplit('/', 1)[0]

    class S(SimpleGetter):
        __simple_getter_callback__ = lambda u: give
    if way == 'simple':
        return App.load(url, getter=S), base
    if way == 'simpleinst':
        return App.load(url, getter=S(url)), base
    if way == 'dict':
        return App.load(url, getter=DictGetter([url], {url: parsed})), base
    if way in ('getter', 'getterinst'):
        class C(Getter):
            def __init__(self, path):
                super(C, self).__init__(path)
                self.urls = [path]

            def load(self, path):
                return give
        return App.load(url, getter=C if way == 'getter' else C(url)), base
    if way == 'resolver':
        docs = {url: give}
        if ext:
            from urllib.parse import urljoin
            docs[urljoin(url, ext['file'])] = other_file(ext, parsed=w.get('num'))

        class M(SimpleGetter):
            __simple_getter_callback__ = lambda u: docs[u]
        return App.load(url, resolver=Resolver(default_getter=M)), base
    raise AssertionError(way)


def located(d, app, base):
    """a dump with the locations of references replaced"""
    up = base.rsplit('/', 1)[0]

    def go(o):
        if isinstance(o, dict):
            return dict((k, go(v)) if k != '$ref' or not isinstance(v, str) else (k, place(v)) for k, v in o.items())
        return [go(v) for v in o] if isinstance(o, list) else o

    def place(v):
        u, _, f = v.partition('#')
        if u == app.url:
            return '<doc>#' + f
        for b, m in ((base, '<base>'), (up, '<up>')):
            if u.startswith(b + '/'):
                return m + u[len(b):] + '#' + f
        return v
    return go(json.loads(json.dumps(d)))


def facts(app, base, calls, tmp, raw=True):
    out = dict(version=app.version)
    if raw:
        app.prepare(strict=False)
    out['ops'] = sorted(app.op.keys())
    out['dump'] = located(app.dump(), app, base)
    out['calls'] = behave.all_calls(app, calls, tmp)
    return out


def check(case, cx):
    doc, ext = case['doc'], case['ext']
    cx.nontrivial(case['calls'])
    cx.label('one file' if not ext else 'path item elsewhere' if 'item' in ext else 'two files')
    want = facts(*load_way(dict(way='resolver', fmt='json', give='str', dir=u'd'), doc, ext, cx.tmp), calls=case['calls'], tmp=cx.tmp)
    for w in case['ways']:
        cx.label(w['way'], w['fmt'])
        app, base = load_way(w, doc, ext, cx.tmp)
        got = facts(app, base, case['calls'], cx.tmp, raw=w['way'] != 'create')
        eq(got, want, 'loaded by %s as %s' % (w['way'], w['fmt'] if w.get('give') != 'dict' else 'dict'))


# -- refusals ------------------------------------------------------------------
def gen_refuse(g):
    doc = sut.one_op([])
    k = g.choice(['missing', 'emptydir', 'version', 'noversion', 'nothing', 'shape', 'type', 'raising', 'truncated', 'ext', 'both', 'url', 'bytes', 'http'])
    case = dict(k=k, how=g.choice(['file', 'mem', 'dict', 'hook']), create=g.bool(), dir=g.text(LETTERS, 1, 4), yaml=g.bool())
    if k == 'version':
        doc['swagger'] = g.choice(['3.0', '1.1', '2.1', '', '2', 2, 3.0, None, '2.0.0', ' 2.0', 'x', '1.0', [], {}, '12'])
    elif k == 'url':
        case['url'] = g.choice([u'//doc.test/', u'//doc.test', u'?', u'//']) + g.choice([u'', u'a', u'swagger.json', u'x=1'])
    elif k == 'http':
        case['odd'] = g.choice([(404, [], 'doc', None), (500, [], 'doc', None), (403, [], '', None), (204, [], '', None), (200, [], '', None), (200, [], 'doc', 10 ** 6),
                                (302, [('Location', '/nowhere')], '', None), (302, [('Location', '/a/swagger.json')], '', None), (302, [], 'doc', None), (304, [], '', None),
                                (200, [], 'half', None)])
    elif k == 'bytes':
        case['raw'] = json.dumps(dict(doc, info=dict(doc['info'], title='@'))).encode('ascii').replace(b'@', g.choice([b'\xff', b'\xe9', b'caf\xe9 x', b'\xc3', b'\xc0\xaf', b'\xed\xa0\x80', b'\xfe\xff']))
    elif k == 'noversion':
        del doc['swagger']
        if g.bool():
            doc['openapi'] = g.choice(['3.0.0', '2.0'])
    elif k == 'shape':
        case['text'] = g.choice([u'', u'hello', u'[]', u'[1, 2]', u'1', u'null', u'{}', u'"x"', u' ', u'swagger', u'<html></html>', u'- swagger: "2.0"', u'# no', u'{', u'swagger: [', u'true'])
    elif k == 'type':
        case['value'] = g.choice([None, 1, [], ['swagger'], 1.5, True, ()])
    elif k == 'truncated':
        t = json.dumps(doc)
        case['text'] = t[:g.int(0, len(t) - 1)]
    elif k in ('missing', 'emptydir', 'ext'):
        case['name'] = g.choice(['no.json', 'no', 'no/swagger.json', 'no.yaml', 'swagger.json', 'readme.txt' if k == 'ext' else 'none'])
    case['doc'] = doc
    return case


def check_refuse(case, cx):
    k, how = case['k'], case['how']
    cx.label(k, how)
    cx.nontrivial()
    top = os.path.join(cx.tmp, 'refuse')
    shutil.rmtree(top, ignore_errors=True)
    d = os.path.join(top, case['dir'])
    os.makedirs(d)
    kw = {}
    if k == 'http':
        status, headers, body, length = case['odd']
        t = (yaml.safe_dump(case['doc']) if case['yaml'] else json.dumps(case['doc'])).encode('utf-8')
        t = {'doc': t, 'half': json.dumps(case['doc']).encode('utf-8')[:-9], '': b''}[body]
        url = httpd.serve(d, {'/a/swagger.json': (status, headers, t, length)}) + '/a/swagger.json'
    elif k in ('missing', 'emptydir', 'ext'):
        if k == 'ext':
            write(os.path.join(d, 'readme.txt'), json.dumps(case['doc']))
            write(os.path.join(d, 'other.json'), json.dumps(case['doc']))
            url = d
        else:
            url = d if k == 'emptydir' else os.path.join(d, case['name'])
        if how == 'hook':
            real = url
            url, kw = 'http://doc.test/x', dict(url_load_hook=lambda u: 'file://' + real)
    else:
        def boom(u):
            raise KeyError('boom')
        give = case['doc']
        t = case.get('text')
        if t is None:
            t = yaml.safe_dump(give) if case['yaml'] else json.dumps(give)
        if k == 'nothing':
            give, t = {}, u'{}'
        if how == 'file' and k not in ('type', 'raising', 'both', 'url'):
            url = os.path.join(d, 'swagger.yaml' if case['yaml'] else 'swagger.json')
            write(url, t)
            if k == 'bytes':
                with open(url, 'wb') as f:
                    f.write(case['raw'])
        elif k == 'both':
            url = sut.URL
            kw = dict(url_load_hook=lambda u: u, resolver=Resolver(default_getter=sut.getter_of({url: sut.doc_with()})))
        else:
            url = sut.URL
            value = case['value'] if k == 'type' else case['raw'] if k == 'bytes' else give if how == 'dict' and 'text' not in case else t

            class S(SimpleGetter):
                __simple_getter_callback__ = boom if k == 'raising' else (lambda u: value)
            kw = dict(getter=S) if how != 'hook' else dict(resolver=Resolver(default_getter=S))
            if k == 'url':
                # neither the url of a resource, nor a path
                raises(lambda: App.load(case['url'], **kw), ValueError)
                return
    e = raises(lambda: App.load(url, **kw) if not (case['create'] and not kw) else App.create(url))
    cx.label(type(e).__name__)


# -- the locale of the process ------------------------------------------------
WORKER = """
import json, sys
from pyswagger import App
for l in sys.stdin:
    path = json.loads(l)
    try:
        app = App.load(path)
        app.prepare(strict=False)
        r = ['ok', app.version, sorted(app.op.keys()), app.dump()]
    except Exception as e:
        r = ['raise', type(e).__name__, str(e)]
    print(json.dumps(r), flush=True)
"""
_worker = [None, None]


def in_c_locale(path):
    """loaded by a process whose locale is not UTF-8"""
    if _worker[0] != os.getpid():
        env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        _worker[:] = [os.getpid(), subprocess.Popen([sys.executable, '-W', 'ignore', '-c', WORKER], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)]
    w = _worker[1]
    w.stdin.write((json.dumps(path) + '\n').encode('ascii'))
    w.stdin.flush()
    l = w.stdout.readline()
    if not l:
        _worker[0] = None
        raise HarnessError('no answer from the process with another locale')
    return json.loads(l.decode('ascii'))


def gen_locale(g):
    doc = dumpable(docgen.document(g, max_paths=1, max_defs=2, meta=True, names=docgen.NAMES))
    doc.setdefault('host', 'api.test')
    doc['schemes'] = ['http']
    doc['info']['title'] = g.text(LETTERS + u'\u00e9\u4e2d\U0001f600', 1, 4)
    return dict(doc=doc, fmt=g.choice(['json-raw', 'yaml-num', 'json', 'yaml']), file=g.choice(['swagger.json', 'a.json', 'a.yaml', 'b.yml']))


def check_locale(case, cx):
    doc, fmt = case['doc'], case['fmt']
    t = text(doc, fmt)
    cx.nontrivial(any(ord(c) > 127 for c in t))
    cx.label(fmt)
    d = os.path.join(cx.tmp, 'loc')
    shutil.rmtree(d, ignore_errors=True)
    path = os.path.join(d, case['file'])
    write(path, t)
    app = App.load(sut.URL, getter=DictGetter([sut.URL], {sut.URL: copy.deepcopy(doc)}))
    app.prepare(strict=False)
    want = ['ok', app.version, sorted(app.op.keys()), located(app.dump(), app, sut.URL.rsplit('/', 1)[0])]
    got = in_c_locale(path)
    if got[0] == 'ok':
        real = pathlib.Path(path).as_uri()
        got[3] = located(got[3], Url(real), os.path.dirname(real))
    eq(got, json.loads(json.dumps(want)), 'loaded from a file in a process whose locale is not UTF-8, as %s' % fmt)


# -- resource listings (1.2) ----------------------------------------------------
LIST_WAYS = ['dir', 'file', 'rel', 'uri', 'noext', 'http', 'hook', 'hookres', 'getter', 'resolver', 'dicts', 'create']


def gen_listing(g):
    from props import c18
    case = c18.api(g)
    for r in case['res'].values():
        if r['basePath'].startswith(u'/'):
            r['basePath'] = u'http://api.test' + r['basePath']
    if len(set(urlsplit(r['basePath'])[:2] for r in case['res'].values())) > 1:
        for r in case['res'].values():
            r['basePath'] = u'http://api.test' + urlsplit(r['basePath']).path
    case['calls'] = docgen.calls(g, c18.to20(case), 3)
    plain = all(n.isascii() and n.replace('-', '').replace('_', '').replace('.', '').isalnum() for n in case['res'])
    files = all(u'/' not in n for n in case['res'])
    case['ways'] = []
    for _ in range(2):
        way = g.choice(LIST_WAYS)
        if way not in ('getter', 'resolver', 'dicts') and (not files or way == 'http' and not plain):
            way = 'resolver'
        if way == 'dicts' and not plain:
            way = 'getter'
        case['ways'].append(dict(way=way, root=g.choice(['resource_list.json', 'api.json', 'api.yaml', 'l.yml', 'api-docs', 'apijson']), ext=g.choice(['json', 'yaml', 'yml']),
                                 dir=u'd' + g.text(LETTERS, 0, 3), fmt=g.choice(['yaml', 'yaml-num', 'yaml-flow', 'json']), give=g.choice(['str', 'bytes', 'dict'])))
    return case


def load_listing(w, case, tmp):
    top = os.path.join(tmp, 'listing')
    shutil.rmtree(top, ignore_errors=True)
    way, d = w['way'], os.path.join(top, w['dir'])
    ext = os.path.splitext(w['root'])[1]

    def content(o, json_only):
        # several authorizations, or models that share a subtype, are kept in their order
        return text(o, 'json-raw' if json_only else w['fmt'], False)
    if way in ('getter', 'resolver', 'dicts'):
        base = 'http://doc.test/d/' if ext else 'http://doc.test/d/%s/' % w['root']
        url = 'http://doc.test/d/' + w['root']
        docs = dict([(url, case['listing'])] + [(base + n, r) for n, r in case['res'].items()])

        def give(u):
            o = copy.deepcopy(docs[u])
            if way == 'dicts' or w['give'] == 'dict':
                return o
            t = content(o, False)
            return t.encode('utf-8') if w['give'] == 'bytes' else t

        class S(SimpleGetter):
            __simple_getter_callback__ = give
        if way == 'getter':
            return App.load(url, getter=S)
        if way == 'resolver':
            return App.load(url, resolver=Resolver(default_getter=S))
        # an instance is asked for one after the other
        urls = [url] + [base + a['path'][1:] for a in case['listing']['apis']]
        return App.load(url, getter=DictGetter(urls, dict((u, give(u)) for u in urls)))
    if way == 'http':
        url = httpd.serve(top)
        here = w['root'] if ext else w['root'] + '/'
        for n, r in case['res'].items():
            write(os.path.join(d, '' if ext else w['root'] + '-x', n), content(r, False))
        write(os.path.join(d, w['root']), content(case['listing'], ext == '.json'))
        if not ext:
            for n, r in case['res'].items():
                httpd.state['odd']['/%s/%s/%s' % (w['dir'], w['root'], n)] = (200, [], content(r, False).encode('utf-8'), None)
        return App.load('%s/%s/%s' % (url, w['dir'], w['root']))
    for n, r in case['res'].items():
        write(os.path.join(d, n + '.' + w['ext']), content(r, w['ext'] == 'json'))
    root = w['root'] if ext and way != 'dir' else 'resource_list.json'
    if way == 'noext' and root == 'resource_list.json':
        root = 'list.json'
    if way == 'noext':
        # a folder of its own for those of the listing
        shutil.rmtree(d)
        for n, r in case['res'].items():
            write(os.path.join(d, os.path.splitext(root)[0], n + '.' + w['ext']), content(r, w['ext'] == 'json'))
    path = os.path.join(d, root)
    write(path, content(case['listing'], root.endswith('.json')))
    if way == 'dir':
        return App.load(d)
    if way == 'file':
        return App.load(path)
    if way == 'create':
        return App.create(path, strict=False)
    if way == 'noext':
        return App.load(os.path.splitext(path)[0])
    uri = pathlib.Path(path).as_uri()
    if way == 'uri':
        return App.load(uri)
    if way == 'rel':
        old = os.getcwd()
        os.chdir(top)
        try:
            return App.load(os.path.join(w['dir'], root))
        finally:
            os.chdir(old)
    base = os.path.dirname(uri)

    def hook(u):
        return u.replace('http://doc.test/d', base)
    url = 'http://doc.test/d/' + os.path.basename(uri)
    return App.load(url, url_load_hook=hook) if way == 'hook' else App.load(url, resolver=Resolver(url_load_hook=hook))


def check_listing(case, cx):
    def facts12(app, prepared=False):
        if not prepared:
            app.prepare(strict=False)
        base = os.path.dirname(app.url)
        return dict(version=app.version, ops=sorted(app.op.keys()), models=sorted(app.m.keys()), dump=located(app.dump(), app, base),
                    calls=behave.all_calls(app, case['calls'], cx.tmp))
    cx.nontrivial(case['calls'])
    want = facts12(load_listing(dict(way='resolver', root='resource_list.json', dir=u'd', give='dict'), case, cx.tmp))
    for w in case['ways']:
        cx.label(w['way'], os.path.splitext(w['root'])[1] or 'no extension')
        got = facts12(load_listing(w, case, cx.tmp), w['way'] == 'create')
        eq(got, want, 'listing loaded by %s' % w['way'])


class Url(object):
    def __init__(self, url):
        self.url = url


PARTS = [Part('ways', gen, check, 1500), Part('refuse', gen_refuse, check_refuse, 600), Part('locale', gen_locale, check_locale, 250), Part('listing', gen_listing, check_listing, 500)]
