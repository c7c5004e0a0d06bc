"""A stand-in for the web: every HTTP request of this process is answered from a dict, and recorded."""
import time
from contextlib import contextmanager

import requests
from requests.adapters import HTTPAdapter
from requests.models import Response


class Web:
    def __init__(self, pages=None):
        self.pages = dict(pages or {})  # url -> bytes | int (a status code) | Exception
        self.requests = []
        self.headers = []

    def answer(self, request):
        from io import BytesIO
        url = request.url.split("#")[0]
        self.requests.append(url)
        self.headers.append(dict(request.headers))
        page = self.pages.get(url, 404)
        if isinstance(page, Exception):
            raise page
        r = Response()
        r.url, r.request = url, request
        r.status_code = page if isinstance(page, int) else 200
        content = b"<html><body>no such page</body></html>" if isinstance(page, int) else page
        r.raw = BytesIO(content)
        r._content = content
        r.reason = "OK" if r.status_code == 200 else "Error"
        r.encoding = "utf-8"
        return r


@contextmanager
def serving(web):
    original = HTTPAdapter.send
    sleep = time.sleep
    HTTPAdapter.send = lambda self, request, *a, **k: web.answer(request)
    time.sleep = lambda s: None  # brel is polite to servers
    try:
        yield web
    finally:
        HTTPAdapter.send = original
        time.sleep = sleep


assert requests
