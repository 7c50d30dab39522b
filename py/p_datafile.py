"""C41: JSON data files (and DataFile on top of them) give back what was written."""
import bz2
import gzip
import importlib
import io
import json
import os
import pickle

import stubs
from explore import Property, Suite, HarnessError

LONG = {"x": "y" * 1500, "n": [1, 2.5, None, True]}
RECORDS = [{"a": 1}, {}, {"é\n\"{": "ü\t}\n", "b": {"c": [1, {"d": None}]}}, LONG, {"a": -0.5, "z": "\u2028"}]


def load(repo):
    stubs.datamanager(repo)
    j = importlib.import_module("DataManager.collector.datafile.json")
    a = importlib.import_module("DataManager.collector.datafile.avro")
    api = importlib.import_module("DataManager.collector.api")
    return j, a, api


def raw(path):
    """The lines of a file, by other means than the code under test."""
    if path.endswith(".gz"):
        data = gzip.open(path, "rb").read()
    elif path.endswith(".bz2"):
        data = bz2.open(path, "rb").read()
    else:
        data = open(path, "rb").read()
    return parse(data)


def parse(data):
    if data and not data.endswith(b"\n"):
        raise HarnessError("no newline at the end: %r" % data[-50:])
    return [json.loads(l) for l in data.split(b"\n")[:-1]]


def put(path, recs):
    data = b"".join(json.dumps(r).encode() + b"\n" for r in recs)
    if path.endswith(".gz"):
        with gzip.open(path, "wb") as f:
            f.write(data)
    elif path.endswith(".bz2"):
        with bz2.open(path, "wb") as f:
            f.write(data)
    else:
        with open(path, "wb") as f:
            f.write(data)


def window(recs, s):
    """What a slice means: increasing positions, given back in reverse when the
    start is after the stop (then without the start's successor, with the start)."""
    start, stop, step = s.start or 0, s.stop, s.step or 1
    if start <= stop:
        return [recs[i] for i in range(start, stop, step) if i < len(recs)]
    return [recs[i] for i in range(start, stop, -1) if i < len(recs)]


def raises(c, fn, what, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    c.fail("%s: no %s but %r" % (what, exc.__name__, r))


def writing(j, depth):
    names = ["f.json", "f.json.gz", "f.json.bz2", "memory", "file"]

    def run(c):
        name = c.pick(names)
        a, b = RECORDS[0], RECORDS[2]
        want, keep = [], []
        first = c.pick([None, a, '{"s": [1, 2]}', [a, b], ['{"q": 1}', {}], []])
        c.note("%s with %r" % (name, first))
        kw = {}
        if name in ("memory", "file"):
            desc = io.BytesIO() if name == "memory" else open("file", "w+b")
            kw["descriptor"] = desc
        else:
            kw["filename"] = name
        if first is None:
            w = j.JSONDataFileWriter(**kw)
        elif name in ("memory", "file") or c.flag():
            w = j.JSONDataFileWriter(data=first, **kw)
        else:
            w = j.JSONDataFileWriter(name, first)
        for r in first if isinstance(first, list) else [first]:
            if r is not None:
                want.append(json.loads(r) if isinstance(r, str) else r)
        for _ in range(c.choose(depth + 1)):
            k = c.choose(9)
            if k == 0:
                c.op("append a dict")
                w.append(b)
                want.append(b)
            elif k == 1:
                c.op("append a string")
                w.append(json.dumps(LONG, indent=3))
                want.append(LONG)
            elif k == 2:
                c.op("append a list")
                w.append([a, "{}", RECORDS[4]])
                want += [a, {}, RECORDS[4]]
            elif k == 3:
                c.op("append a generator")
                w.append({"i": i} for i in range(3))
                want += [{"i": 0}, {"i": 1}, {"i": 2}]
            elif k == 4:
                c.op("append an invalid string")
                raises(c, lambda: w.append('{"a": '), "invalid JSON")
            elif k == 5:
                c.op("append what is no JSON at all")
                raises(c, lambda: w.append(5), "a number")
            elif k == 6:
                c.op("append an invalid string in a list")
                raises(c, lambda: w.append([a, "no"]), "invalid JSON in a list")
                want.append(a)
            elif k == 7:
                c.op("look at the raw data")
                if name in ("memory", "file"):
                    c.equal(parse(w.raw_data), want, "raw data")
            elif k == 8:
                c.op("close, reopen to append")
                if name == "memory":
                    keep.append(w)  # its end would close the descriptor
                    w = j.JSONDataFileWriter(descriptor=desc, append=True)
                elif name == "file":
                    w.__exit__(None, None, None)
                    desc = open("file", "r+b")
                    w = j.JSONDataFileWriter(descriptor=desc, append=True)
                else:
                    w.__exit__(None, None, None)
                    w = j.JSONDataFileWriter(name, append=True)
        if name == "memory":
            c.equal(parse(desc.getvalue()), want, "written")
            r = j.JSONDataFileReader(descriptor=io.BytesIO(desc.getvalue()))
        else:
            w.__exit__(None, None, None)
            c.equal(raw(name), want, "written")
            r = j.JSONDataFileReader(name) if name != "file" else j.JSONDataFileReader(descriptor=open("file", "rb"))
        with r:
            c.equal(list(r), want, "read")
            c.equal(len(r), len(want), "length")
        c.state(name, want)
        # a new writer starts a new file
        if name not in ("memory", "file"):
            with j.JSONDataFileWriter(name) as w:
                w.append(a)
            c.equal(raw(name), [a], "overwritten")
    return Suite("writing", "every target (.json, .json.gz, .json.bz2, a descriptor in memory or of a file), six initial data and every sequence of up to %d appends (dict, string, list, generator, invalid ones), looks at the raw data and re-openings to append" % depth, run)


def reading(j, depth, names, sizes, thin=False):
    def run(c):
        name = c.pick(names)
        n = c.pick(sizes)
        recs = [RECORDS[i % len(RECORDS)] if i < len(RECORDS) else {"i": i} for i in range(n)]
        put(name, recs)
        c.note("%s with %d records" % (name, n))
        sizes_of = [len(json.dumps(r)) + 1 for r in recs]
        cursors = [i for i in range(-n - 1, n + 1)]
        r = j.JSONDataFileReader(name)
        out = []
        for _ in range(depth):
            k = c.choose(7)
            if k == 0:
                i = c.pick(cursors)
                c.op("[%d]" % i)
                if -n <= i < n:
                    c.equal(r[i], recs[i], "record %d of %d" % (i, n))
                else:
                    raises(c, lambda: r[i], "record %d of %d" % (i, n), IndexError)
            elif k == 1:
                if thin:
                    start, stop, step = c.pick([(0, n, None), (1, n, 2), (n - 1, 0, None), (n - 2, n, None)])
                else:
                    start = c.pick([None] + list(range(0, n + 1)))
                    stop = c.pick(list(range(0, n + 2)))
                    step = c.pick([None, 2]) if (start or 0) <= stop else None
                s = slice(start, stop, step)
                c.op("[%s:%s:%s]" % (start, stop, step))
                got = r[s]
                c.equal(got, window(recs, s), "slice %r of %d" % (s, n))
            elif k == 2:
                c.op("iterate")
                c.equal([x for x in r], recs, "iteration")
            elif k == 3:
                c.op("len")
                c.equal(len(r), n, "length")
            elif k == 4:
                i = c.choose(n + 2)
                c.op("start from %d" % i)
                c.equal(list(r.start_from(i)), recs[i:], "records from %d of %d" % (i, n))
            elif k == 5:
                if n == 0:
                    continue
                i = c.choose(n)
                c.op("checkpoint at %d" % i)
                r.add_checkpoint(i, sum(sizes_of[:i]))
            elif k == 6:
                c.op("first two of an iteration")
                it = iter(r)
                for x in recs[:2]:
                    c.equal(next(it), x, "iteration")
            c.state(name, n, c.trace[1:])
        c.equal(list(r), recs, "in the end")
        c.equal(parse(r.raw_data), recs, "raw data in the end")
        r.__exit__(None, None, None)
    return Suite("reading-%s-%d" % ("-".join(n.split(".", 1)[1] for n in names), depth), "%s of %s records: every sequence of %d accesses: every index from before the first to after the last (negative too), %s (also backwards and with a step), iterations, lengths, starts from a record, checkpoints" % (", ".join(names), sizes, depth, "four slices" if thin else "every slice"), run)


def names_suite(j):
    def run(c):
        ext0 = c.pick(["", ".json", ".gz", ".bz2", ".xz", ".txt", ".avro", ".jsn"])
        ext1 = c.pick(["", ".json", ".txt", ".gz"])
        base = c.pick(["a", "a.b", "a.json", ".x"])
        name = base + ext1 + ext0
        c.op(name)
        for end, op in ((".json.gz", gzip.open), (".json.bz2", bz2.open), (".json", open)):
            if name.endswith(end) and os.path.splitext(name)[0]:
                if end == ".json" and name in (".json",):
                    continue
                body = name[:-len(end)]
                if end == ".json" and (body.endswith(".json")):
                    # .json.json: neither plain nor compressed
                    raises(c, lambda: j.JSONDataFileWriter(name), name)
                    return
                with j.JSONDataFileWriter(name) as w:
                    w.append(RECORDS)
                with op(name, "rb") as f:
                    c.equal(parse(f.read()), RECORDS, "contents of " + name)
                os.remove(name)
                c.state(name, True)
                return
        raises(c, lambda: j.JSONDataFileWriter(name), name)
        raises(c, lambda: j.JSONDataFileReader(name), name)
        if os.path.exists(name):
            c.fail("%s was created" % name)
        c.state(name, False)
    return Suite("names", "every combination of 8 x 4 extensions and 4 base names: the format of the file is the one of its name, other names are refused", run)


def datafile(j, a, api, depth):
    def run(c):
        kind = c.pick(["x.json.gz", "x.json.bz2", "bytes", "writer", "avro-bytes", "avro-writer", "x.avro"])
        n = c.choose(5)
        if kind.find("avro") >= 0 and n == 0:
            n = 5
        recs = [RECORDS[i] for i in range(n)]
        if kind.find("avro") >= 0:
            recs = [{"i": i, "s": "v%d" % i} for i in range(n)]
        c.note("%s with %d records" % (kind, n))
        if kind.startswith("x.json"):
            put(kind, recs)
            src = kind
        elif kind == "bytes":
            src = io.BytesIO(b"".join(json.dumps(r).encode() + b"\n" for r in recs))
        elif kind == "writer":
            w = src = j.JSONDataFileWriter(descriptor=io.BytesIO(), data=recs)
        elif kind == "x.avro":
            with a.AvroDataFileWriter(kind, recs) as w:
                pass
            src = kind
        elif kind == "avro-bytes":
            b = io.BytesIO()
            w = a.AvroDataFileWriter(b)
            for r in recs:
                w.append(r)
            src = io.BytesIO(b.getvalue())
        else:
            w = src = a.AvroDataFileWriter(io.BytesIO())
            for r in recs:
                w.append([r])
        d = api.DataFile(src)
        for _ in range(depth):
            k = c.choose(7)
            if k == 0:
                c.op("iterate")
                c.equal([r for r in d], recs, "iteration")
            elif k == 1:
                c.op("get_data")
                c.equal(list(d.get_data()), recs, "get_data")
            elif k == 2:
                size = 1 + c.choose(n + 1)
                c.op("chunks of %d" % size)
                c.equal(list(d.get_chunks(size)), [recs[i:i + size] for i in range(0, n, size)], "chunks of %d" % size)
            elif k == 3:
                c.op("len")
                c.equal(len(d), n, "length")
            elif k == 4:
                i = c.choose(n + 1)
                c.op("[%d]" % i)
                if i < n:
                    c.equal(d[i], recs[i], "record %d" % i)
                else:
                    raises(c, lambda: d[i], "record %d of %d" % (i, n), IndexError)
            elif k == 5:
                start = c.choose(n)if n else 0
                stop = c.choose(n + 1)
                c.op("[%d:%d]" % (start, stop))
                c.equal(d[start:stop], window(recs, slice(start, stop)), "slice %d:%d" % (start, stop))
            elif k == 6:
                if isinstance(src, str):
                    c.op("pickle")
                    d = pickle.loads(pickle.dumps(d))
                elif kind.endswith("writer"):
                    more = {"i": 7, "s": "more"}
                    c.op("append to the writer")
                    w.append(more)
                    d = api.DataFile(w)
                    recs = recs + [more]
                    n += 1
            c.state(kind, n, c.trace[1:])

    return Suite("datafile", "DataFile over seven sources of 0..4 records (avro ones over a stand-in of the avro library): every sequence of %d accesses, chunks of every size, pickling, and further appends to the writer it was made from" % depth, run)


def refused(api):
    def run(c):
        name = c.pick(["none.json.gz", "none.avro", "t.txt", "t.csv.gz", "t.tar.bz2", "t"])
        c.op(name)
        if name.startswith("none"):
            raises(c, lambda: api.DataFile(name), name, FileNotFoundError)
        else:
            with open(name, "wb") as f:
                f.write(b"x")
            raises(c, lambda: api.DataFile(name), name)
        c.state(name)
    return Suite("refused", "missing files and files of other types", run)


def prop(pid, tier, repo):
    j, a, api = load(repo)
    deep = tier == "thorough"
    return Property([
        writing(j, 4 if deep else 3),
        reading(j, 2, ["r.json"], [0, 1, 2, 3, 4]),
        reading(j, 3, ["r.json"], [2, 3, 4, 5] if deep else [3], True),
        reading(j, 4, ["r.json"], [3], True) if deep else reading(j, 1, ["r.json"], [5]),
        reading(j, 2, ["r.json.gz", "r.json.bz2"], [0, 1, 3, 5] if deep else [0, 3, 5]),
        names_suite(j),
        datafile(j, a, api, 3 if deep else 2),
        refused(api),
    ], ["the avro library, which is not installed, is replaced by a stand-in that stores records in another coding; only the code above it is checked"])
