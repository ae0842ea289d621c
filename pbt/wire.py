# -*- coding: utf-8 -*-
"""The requests client of pyswagger with the network cut off below requests:
what would be sent is recorded, a canned answer is given."""
import io

import requests
import urllib3
from pyswagger.contrib.client.requests import Client


class Sent(object):
    def __init__(self):
        self.requests = []
        self.answer = dict(status=200, headers=[('Content-Type', 'application/json')], body=b'{}')

    def __call__(self, session, rq, **kw):
        self.requests.append(rq)
        if self.answer is None:
            raise requests.exceptions.ConnectionError('nobody answers')
        r = requests.Response()
        r.status_code = self.answer['status']
        h = urllib3._collections.HTTPHeaderDict()
        for k, v in self.answer['headers']:
            h.add(k, v)
        r.headers = requests.structures.CaseInsensitiveDict(h)
        r.raw = io.BytesIO(self.answer['body'])
        r.url, r.request = rq.url, rq
        return r

    @property
    def last(self):
        return self.requests[-1]

    def __enter__(self):
        self.old = requests.Session.send
        sent = self
        requests.Session.send = lambda session, rq, **kw: sent(session, rq, **kw)
        return self

    def __exit__(self, *a):
        requests.Session.send = self.old


def client_with(schemes, security=None):
    class C(Client):
        __schemes__ = set(schemes)
    return C(security)
