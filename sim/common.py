"""Shared pieces of the property modules."""
import io
import os

from . import disk, model

BASE_ASSUMPTIONS = [
    "sampled, not exhaustive: a clean batch is evidence, not proof",
    "CPython 3.12 with its own expat, zlib, io, urllib and http.client is trusted below the seams",
]
THREAD_ASSUMPTION = ("threads are preempted only at source-line (in some runs bytecode) events of the library's "
                     "code, at simulated I/O and at simulated locks; calls into C code are atomic")
REAL = ["all opyenxes modules", "CPython io buffering and text layers", "gzip/zlib", "xml.sax, expat, minidom, ElementTree"]


def new_fs(ctx):
    ctx.fs = disk.FS(ctx, ctx.root)
    return ctx.fs


class ShortStream:
    """A readable stream that delivers fewer characters or bytes than asked for, as a pipe, a
    socket file or an archive member does."""

    def __init__(self, ctx, data, name, p=0.7, most=64):
        self.ctx = ctx
        self.data = data
        self.name = name
        self.pos = 0
        self.p = p
        self.most = most
        self.closed = False

    def readable(self):
        return True

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if n == 0:
            return self.data[:0]
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        n = min(n, left)
        if n > 1 and self.ctx.c.chance("fault", self.p):
            m = 1 + self.ctx.c.draw("fault", min(n, self.most))
            if m < n:
                self.ctx.fired("read:short")
                n = m
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# what a file opened as text holds on this host, if the program does not say
LOCALES = [(4, "utf-8"), (1, "iso-8859-1"), (1, "cp1252"), (1, "ascii")]

XES_MODES = ["text", "binary", "unbuffered", "bytesio", "stringio", "short-bytes", "short-text"]


def open_for_read(ctx, path, mode):
    """A stream of one of the kinds a caller may hand to a parser."""
    if mode == "text":
        return open(path, encoding="utf-8")
    if mode == "binary":
        return open(path, "rb")
    if mode == "unbuffered":
        return open(path, "rb", buffering=0)
    data = ctx.fs.get(path)
    if mode == "bytesio":
        return io.BytesIO(data)
    if mode == "stringio":
        return io.StringIO(data.decode("utf-8"))
    if mode == "short-bytes":
        return ShortStream(ctx, data, path)
    if mode == "short-text":
        return ShortStream(ctx, data.decode("utf-8"), path)
    raise ValueError(mode)


def write_log(ctx, serializer, log, path):
    """What a program does: open, serialise, close."""
    with open(path, "w", encoding="utf-8") as out:
        serializer.serialize(log, out)


def describe(spec):
    return "%d traces, %d events, exts %s, %d+%d globals, %d classifiers, first attrs %.160r" % (
        len(spec["traces"]), sum(len(t["events"]) for t in spec["traces"]), sorted(spec.get("exts", ())),
        len(spec.get("gtrace", ())), len(spec.get("gevent", ())), len(spec.get("classifiers", ())),
        (spec["attrs"] or (spec["traces"][0]["attrs"] if spec["traces"] else ())))


def depth(attrs):
    return max([0] + [1 + depth(a[3]) for a in attrs])


def all_attrs(spec):
    yield from spec["attrs"]
    yield from spec.get("gtrace", ())
    yield from spec.get("gevent", ())
    for t in spec["traces"]:
        yield from t["attrs"]
        for e in t["events"]:
            yield from e["attrs"]


def tools(kind):
    """(serialiser object, parser class) of one of the four formats."""
    if kind == "xes":
        from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer as S
        from opyenxes.data_in.XesXmlParser import XesXmlParser as P
    elif kind == "xes.gz":
        from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer as S
        from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser as P
    elif kind == "mxml":
        from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer as S
        from opyenxes.data_in.XMxmlParser import XMxmlParser as P
    else:
        from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer as S
        from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser as P
    return S(), P


def read_log(parser, path, mode="text"):
    """What a program does: open, parse, close."""
    with (open(path, "rb") if mode == "binary" else open(path, encoding="utf-8")) as f:
        return parser.parse(f)
