# -*- coding: utf-8 -*-
"""The three clients of pyswagger against recording servers: a raw HTTP server on
the loopback interface for requests and Tornado, a WSGI application for Flask."""
import io
import os
import socket
import threading
from urllib.parse import urlsplit, unquote_to_bytes, unquote_plus

for _n in list(os.environ):
    if _n.lower().endswith('_proxy'):
        del os.environ[_n]


class Seen(object):
    """a request as the server got it"""
    def __init__(self, method, scheme, host, path, query, headers, body):
        self.method, self.scheme, self.host, self.path, self.query, self.headers, self.body = method, scheme, host, path, query, headers, body

    def segments(self):
        return [unquote_to_bytes(s) for s in self.path.split('/')]

    def pairs(self):
        return pairs(self.query)

    def values(self, name):
        n = norm(name)
        return [v for k, v in self.headers if norm(k) == n]


def norm(name):
    return name.lower().replace('_', '-')


def pairs(q):
    if isinstance(q, bytes):
        q = q.decode('ascii')
    return [tuple(unquote_plus(x, 'utf-8', 'strict') for x in (p.partition('=')[0], p.partition('=')[2])) for p in q.split('&') if p]


class Server(object):
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(16)
        self.addr = '127.0.0.1:%d' % self.s.getsockname()[1]
        self.seen, self.answer = [], None
        t = threading.Thread(target=self.loop)
        t.daemon = True
        t.start()

    def loop(self):
        while True:
            c, _ = self.s.accept()
            try:
                c.settimeout(20)
                self.serve(c)
            except Exception:
                pass
            finally:
                c.close()

    def serve(self, c):
        f = c.makefile('rb')
        line = f.readline().decode('latin-1').rstrip('\r\n')
        if not line:
            return
        method, target, _ = line.split(' ')
        hs = []
        while True:
            line = f.readline().decode('latin-1').rstrip('\r\n')
            if not line:
                break
            k, _, v = line.partition(':')
            hs.append((k, v.strip(' ')))
        h = dict((k.lower(), v) for k, v in hs)
        if h.get('expect', '').lower() == '100-continue':
            c.sendall(b'HTTP/1.1 100 Continue\r\n\r\n')
        if 'chunked' in h.get('transfer-encoding', ''):
            body = b''
            while True:
                n = int(f.readline().strip() or b'0', 16)
                body += f.read(n)
                f.readline()
                if n == 0:
                    break
        else:
            body = f.read(int(h.get('content-length', 0)))
        u = urlsplit(target)
        self.seen.append(Seen(method, 'http', h.get('host'), u.path, u.query, hs, body))
        a = self.answer
        out = ['HTTP/1.1 %d Some' % a['status']] + ['%s: %s' % p for p in a['headers']] + ['Connection: close']
        data = a['body']
        if a['status'] in (204, 304) or a['status'] < 200:
            data = b''
        else:
            out.append('Content-Length: %d' % len(data))
        if method == 'HEAD':
            data = b''
        c.sendall('\r\n'.join(out + ['', '']).encode('latin-1') + data)


_server = [None, None]


def server():
    if _server[0] != os.getpid():
        _server[:] = [os.getpid(), Server()]
    s = _server[1]
    del s.seen[:]
    return s


class Wsgi(object):
    def __init__(self):
        self.seen, self.answer = [], None

    def __call__(self, env, start):
        body = env['wsgi.input'].read()
        hs = [(k[5:].replace('_', '-'), v) for k, v in env.items() if k.startswith('HTTP_')]
        if env.get('CONTENT_TYPE'):
            hs.append(('Content-Type', env['CONTENT_TYPE']))
        raw = env['PATH_INFO'].encode('latin-1')
        s = Seen(env['REQUEST_METHOD'], env['wsgi.url_scheme'], env['HTTP_HOST'], None, env['QUERY_STRING'], hs, body)
        s.raw_path = raw
        self.seen.append(s)
        a = self.answer
        data = b'' if a['status'] in (204, 304) or env['REQUEST_METHOD'] == 'HEAD' else a['body']
        start('%d Some' % a['status'], list(a['headers']))
        return [data] if data else []


def options(which):
    return {} if which == 'flask' else dict(url_netloc=server().addr, url_scheme='http')


def send(which, pair, answer, opt, headers, security=None, stay=False):
    """returns (Seen or None, response or exception)"""
    if which == 'flask':
        from flask import Flask
        from pyswagger.contrib.client.flask import FlaskTestClient
        w = Wsgi()
        w.answer = answer
        app = Flask('x')
        app.wsgi_app = w
        r = attempt(lambda: FlaskTestClient(app.test_client(), security).request(pair, opt, headers))
        return w.seen, r
    s = server()
    s.answer = answer
    if which == 'requests':
        from pyswagger.contrib.client.requests import Client
        if stay:
            send_opt = dict(allow_redirects=False, timeout=60)
            client = Client(security, send_opt)
        else:
            send_opt, client = None, Client(security)
        r = attempt(lambda: client.request(pair, opt, headers))
        if stay and send_opt != dict(allow_redirects=False, timeout=60):
            r = AssertionError('send_opt of the caller was changed: %r' % send_opt)
    else:
        from tornado.ioloop import IOLoop
        from pyswagger.contrib.client.tornado import TornadoClient
        loop = IOLoop.current()

        def go():
            return TornadoClient(security).request(pair, opt, headers)
        r = attempt(lambda: loop.run_sync(go, timeout=30))
    return list(s.seen), r


def in_flight(answers, order, pairs, headers, opts, secs, shared):
    """sends all at the same time with the Tornado client; they are answered in
    the given order, when all have arrived.  Returns (list of Seen, list of responses or exceptions)"""
    import asyncio
    from tornado.httpserver import HTTPServer
    from tornado.ioloop import IOLoop
    from tornado.netutil import bind_sockets
    from pyswagger.contrib.client.tornado import TornadoClient
    seen, waiting = [], {}

    def number(rq):
        return int(rq.headers.get('X-Call', '0').split(',')[-1])

    async def serve(rq):
        u = urlsplit(rq.uri)
        seen.append(Seen(rq.method, 'http', rq.host, u.path, u.query, list(rq.headers.get_all()), rq.body))
        n = number(rq)
        waiting[n] = asyncio.Event()
        if len(waiting) == len(pairs):
            waiting[order[0]].set()
        try:
            await asyncio.wait_for(waiting[n].wait(), 2)
        except asyncio.TimeoutError:
            pass
        a = answers[n]
        lines = ['HTTP/1.1 %d Some' % a['status']] + ['%s: %s' % p for p in a['headers']] + ['Connection: close']
        data = a['body']
        if a['status'] in (204, 304):
            data = b''
        else:
            lines.append('Content-Length: %d' % len(data))
        if rq.method == 'HEAD':
            data = b''
        con = rq.connection
        stream = con.detach()
        await stream.write('\r\n'.join(lines + ['', '']).encode('latin-1') + data)
        stream.close()

    def handle(rq):
        asyncio.ensure_future(serve(rq))

    async def go():
        socks = bind_sockets(0, '127.0.0.1')
        srv = HTTPServer(handle)
        srv.add_sockets(socks)
        addr = '127.0.0.1:%d' % socks[0].getsockname()[1]
        made = {}

        async def one(i):
            try:
                k = id(secs[i]) if shared else i
                if k not in made:
                    made[k] = TornadoClient(secs[i])
                return await made[k].request(pairs[i], dict(opts[i], url_netloc=addr, url_scheme='http'), headers[i])
            except Exception as e:
                return e
            finally:
                # the next one in the chosen order is answered now
                rest = order[order.index(i) + 1:]
                for n in rest[:1]:
                    if n in waiting:
                        waiting[n].set()
        try:
            return await asyncio.gather(*[one(i) for i in range(len(pairs))])
        finally:
            srv.stop()
            await srv.close_all_connections()
    got = IOLoop.current().run_sync(go, timeout=60)
    return seen, got


def attempt(f):
    try:
        return f()
    except Exception as e:
        return e
