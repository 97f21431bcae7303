"""A scripted network below ``requests``: every HTTP request is recorded and answered by a script."""
import contextlib
import io


class Net:
    def __init__(self, script):
        self.script, self.log = script, []      # script(url, n) -> ("ok", bytes) | ("status", code) | ("conn",) | ("timeout",) | ("cut", bytes) | ("crash", bytes)

    def send(self, adapter, request, **kw):
        import requests
        import urllib3

        act = self.script(request.url, len(self.log))
        self.log.append((request.url, act[0]))
        if act[0] == "conn":
            raise requests.ConnectionError("refused (injected)")
        if act[0] == "timeout":
            raise requests.Timeout("timed out (injected)")

        body = io.BytesIO(act[1] if act[0] in ("ok", "cut", "crash") else b"<html>error page</html>")

        class Body(io.RawIOBase):
            left = 700

            def readable(self):
                return True

            def readinto(self, b):
                d = body.read(min(len(b), self.left))
                if act[0] != "ok" and act[0] != "status" and not d:
                    if act[0] == "crash":
                        raise KeyboardInterrupt("killed (injected)")
                    raise urllib3.exceptions.ProtocolError("connection broken (injected)")
                b[: len(d)] = d
                return len(d)

        raw = Body() if act[0] in ("cut", "crash") else body
        r = requests.Response()
        r.status_code = act[1] if act[0] == "status" else 200
        r.url, r.request = request.url, request
        r.raw = urllib3.HTTPResponse(body=raw, status=r.status_code, preload_content=False)
        return r


@contextlib.contextmanager
def serve(script):
    import requests

    net = Net(script)
    old = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: net.send(self, request, **kw)
    try:
        yield net
    finally:
        requests.adapters.HTTPAdapter.send = old
