# -*- coding: utf-8 -*-
"""documents served over HTTP on the loopback interface, by a thread of this process"""
import os
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import unquote, urlsplit

_server = [None, None]
# what is served: a folder, and answers that differ from it by path: (status, headers, body, length)
state = dict(root=None, odd={}, seen=[])


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        path = unquote(urlsplit(self.path).path)
        state['seen'].append(self.path)
        odd = state['odd'].get(path)
        if odd is None:
            try:
                with open(os.path.join(state['root'], path.lstrip('/')), 'rb') as f:
                    body = f.read()
                odd = (200, [], body, len(body))
            except (IOError, TypeError, ValueError):
                odd = (404, [('Content-Type', 'application/json')], b'{"swagger": "2.0", "info": {"title": "no", "version": "1"}, "paths": {}}', None)
        status, headers, body, length = odd
        self.send_response(status)
        for h in headers:
            self.send_header(*h)
        if status not in (204, 304):
            self.send_header('Content-Length', str(len(body) if length is None else length))
        self.send_header('Connection', 'close')
        self.end_headers()
        self.wfile.write(body)
        self.close_connection = True

    def log_message(self, *a):
        pass


def serve(root, odd=None):
    """serves a folder, returns the url of it"""
    if _server[0] != os.getpid():
        os.environ['no_proxy'] = '*'
        s = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        s.daemon_threads = True
        t = threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=0.05))
        t.daemon = True
        t.start()
        _server[:] = [os.getpid(), s]
    state.update(root=root, odd=odd or {}, seen=[])
    return 'http://127.0.0.1:%d' % _server[1].server_address[1]
