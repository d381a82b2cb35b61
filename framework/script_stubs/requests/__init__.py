"""stand-in for the requests package: answers from the directory named by VF_WEB and logs every request"""
import os, json
from urllib.parse import urlparse
class RequestException(IOError): pass
class HTTPError(RequestException): pass
class ConnectionError(RequestException): pass
class exceptions:
    RequestException, HTTPError, ConnectionError, Timeout = RequestException, HTTPError, ConnectionError, RequestException
class Response:
    def __init__(self, code, content, url):
        self.status_code, self.content, self.url = code, content, url
        self.reason, self.headers, self.encoding, self.history = "", {}, "utf-8", []
    @property
    def ok(self): return self.status_code < 400
    @property
    def text(self): return self.content.decode("utf8", "replace")
    def __bool__(self): return self.ok
    def raise_for_status(self):
        if not self.ok: raise HTTPError("%d for %s" % (self.status_code, self.url))
    def iter_content(self, chunk_size=1):
        for i in range(0, len(self.content), chunk_size or len(self.content) or 1): yield self.content[i:i + (chunk_size or len(self.content))]
    def iter_lines(self): return iter(self.content.splitlines())
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
def get(url, *a, **k):
    web = os.environ["VF_WEB"]; rules = json.load(open(os.path.join(web, "rules.json")))
    with open(os.path.join(web, "log"), "a") as f: f.write(url + "\n")
    r = rules.get(url, rules.get("*", {"code": 404}))
    if r.get("down"): raise ConnectionError("no route to " + url)
    return Response(r["code"], open(os.path.join(web, r["file"]), "rb").read() if "file" in r else b"<html>not found</html>\n", url)
class Session:
    def get(self, *a, **k): return get(*a, **k)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
