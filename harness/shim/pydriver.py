"""Uses the Python classes of tsfile-writer-c, told what to do by scripts on standard input (one JSON object per
line); writes down what every operation gave and which calls of the library it made.  It has no opinion."""
import gc, json, os, sys
import cffi


class Boom(Exception):
    pass


CALLS = []
FFI = cffi.FFI()


def number(h):
    try:
        return int(FFI.cast("intptr_t", h))
    except TypeError:
        return 0


class Recorder:
    """The library, with every call written down."""
    AT = {"schema_simple": None, "file_writer_new": 1}

    def __init__(self, lib):
        self.lib = lib

    def __getattr__(self, name):
        f = getattr(self.lib, name)

        def call(*args):
            at = self.AT.get(name, 0)
            h = number(args[at]) if at is not None and at < len(args) else 0
            entry = [name, h, 0]
            r = f(*args)
            entry[2] = 0 if r is None else number(r)
            CALLS.append(entry)
            return r
        return call


dlopen = cffi.FFI.dlopen


def load(self, name, flags=0):
    """The library built for this run, wherever the classes look for it."""
    return Recorder(dlopen(self, os.environ["TSFILE_LIBRARY"], flags))


cffi.FFI.dlopen = load
import rust


def fresh(s):
    """A string that nothing else refers to."""
    return "".join(list(s))


def leave(o, raising):
    with o as inside:
        assert inside is o
        if raising:
            raise Boom()


def run(script):
    objects = {}
    del CALLS[:]

    def op(o):
        what, x = o["op"], o["x"]
        if what == "schema":
            objects[x] = rust.Schema(fresh(o["dev"]), fresh(o["meas"]), o["type"], o["enc"], o["comp"])
        elif what == "writer":
            objects[x] = rust.TsFileWriter(fresh(o["file"]), objects[o["y"]])
        elif what == "w":
            objects[x].write_int(fresh(o["dev"]), fresh(o["meas"]), int(o["t"]), int(o["v"]))
        elif what == "close":
            objects[x].close()
        elif what == "free":
            objects[x].free()
        elif what == "leave":
            leave(objects[x], o["kind"] == "raise")
        elif what == "forget":
            del objects[x]

    for n, o in enumerate(script["ops"]):
        try:
            op(o)
            r = "ok"
        except Exception as e:
            r = type(e).__name__
            e = None
        if n % 3 == 1:
            gc.collect()
        print(json.dumps(["op", script["id"], n, r]), flush=True)
    print(json.dumps(["calls", script["id"], CALLS]), flush=True)


def codes():
    res = []
    for kind, cls in (("types", "TSDataType"), ("encodings", "TSEncoding"), ("compressions", "CompressionType")):
        for m in getattr(rust, cls, ()):
            res.append({"kind": kind, "name": m.name, "code": int(m)})
    print(json.dumps(["codes", res]), flush=True)


codes()
for line in sys.stdin:
    run(json.loads(line))
print(json.dumps(["done"]), flush=True)
