"""Host process for the repository's Python module (check C29).

Reads one request per line: {"calls": [...]}. Each request is served by a
fork of the pristine interpreter, so nothing carries over between requests.
Answers one line per request: [{"ok": ...} | {"err": [type, text]}, ...] or
{"died": status}.
"""
import importlib.machinery
import importlib.util
import json
import os
import sys
import threading

path = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader("pymbusparser", path)
spec = importlib.util.spec_from_file_location("pymbusparser", path, loader=loader)
mod = importlib.util.module_from_spec(spec)
loader.exec_module(mod)


class Breaks(list):
    """A sequence that fails while it is read."""

    def __init__(self, items, at):
        super().__init__(items)
        self.at = at

    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i == self.at:
                raise OSError("source failed")
            yield x


def value(a):
    """The Python object a request describes."""
    if a is None:
        return None
    kind, v = next(iter(a.items()))
    if kind == "Text":
        return v
    if kind in ("Bytes", "ByteArray", "View", "List", "Tuple", "Breaks"):
        h, at = (v, 0) if isinstance(v, str) else v
        b = bytes.fromhex(h)
        return {
            "Bytes": lambda: b,
            "ByteArray": lambda: bytearray(b),
            "View": lambda: memoryview(b),
            "List": lambda: list(b),
            "Tuple": lambda: tuple(b),
            "Breaks": lambda: Breaks(b, at),
        }[kind]()
    if kind == "Odd":
        return [3, 2.5, object(), [256], [-1], ["68"], {"a": 1}, "\ud800", b"".join, [None]][v]
    raise ValueError(kind)


def call(c):
    op = c["op"]
    data = value(c["data"])
    kw = {}
    if c["key"] is not None:
        kw["key"] = value(c["key"])
    if op in ("parse", "render"):
        if c["enrich"] is not None:
            kw["include_enrichment"] = c["enrich"]
    if op == "render" and c["width"] is not None:
        kw["width"] = c["width"]
    if op == "parse":
        return mod.parse(data, **kw)
    if op == "render":
        return mod.render(data, **kw) if c["format"] is None else mod.render(data, c["format"], **kw)
    if op == "records":
        return mod.parse_records(data)
    if op == "application":
        return mod.parse_application_layer(data)
    return mod.m_bus_parse(data, "json" if c["format"] is None else c["format"], **kw)


dumps, loads = json.dumps, json.loads


def fail(*_):
    raise RuntimeError("module failed")


def one(c, out):
    keep = sys.modules["json"]
    try:
        if c["fault"] == "json module missing":
            sys.modules["json"] = None
        elif c["fault"] == "json module fails":
            json.loads = fail
        r = call(c)
        out.append({"ok": r})
    except BaseException as e:
        out.append({"err": [type(e).__name__, str(e)]})
    finally:
        sys.modules["json"] = keep
        json.loads = loads


def serve(line):
    out = []
    for c in loads(line)["calls"]:
        if c["thread"]:
            t = threading.Thread(target=one, args=(c, out))
            t.start()
            t.join()
        else:
            one(c, out)
    return dumps(out)


for line in sys.stdin:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = serve(line).encode()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException as e:
            os.write(2, repr(e).encode())
            os._exit(77)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status:
        sys.stdout.write(dumps({"died": status}) + "\n")
    else:
        sys.stdout.write(b"".join(parts).decode() + "\n")
    sys.stdout.flush()
