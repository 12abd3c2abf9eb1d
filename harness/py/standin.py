"""Stand-ins for the outside world: HTTP (at the level of requests' Session.send) and UDP sockets.  Nothing leaves the process."""
import json, threading
import requests

HTTP = None      # function(method, url, headers, body) -> (status, text) or raises


def _send(self, request, **kw):
    r = HTTP(request.method, request.url, dict(request.headers), request.body)
    if isinstance(r, Exception):
        raise r
    status, text = r
    resp = requests.Response()
    resp.status_code = status
    resp._content = text if isinstance(text, bytes) else text.encode("utf-8")
    resp.encoding = "utf-8"
    resp.url = request.url
    resp.request = request
    return resp


requests.Session.send = _send
requests.sessions.Session.send = _send
