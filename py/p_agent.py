"""C46: uploads to the archive.  C47: the HDFS client."""
import contextlib
import gzip
import hashlib
import importlib
import io
import json
import os
import sys
import types

import stubs
from explore import Property, Suite, HarnessError

SERVER = types.SimpleNamespace(handle=None, arrival=[0])


class Response:
    def __init__(self, status, body=b"", js=None):
        self.status_code = status
        self.content = body if js is None else json.dumps(js).encode()
        self.text = self.content.decode("utf-8", "replace")
        self.ok = status < 400

    def json(self):
        return json.loads(self.text)

    def iter_content(self, chunk_size=1):
        if chunk_size is None or chunk_size < 1:
            raise ValueError("chunk size %r" % chunk_size)
        # what has arrived of the transfer, at most what was asked for
        i, k = 0, 0
        while i < len(self.content):
            n = [chunk_size, max(1, chunk_size // 5), chunk_size - chunk_size // 2][SERVER.arrival[k % len(SERVER.arrival)]]
            yield self.content[i:i + n]
            i, k = i + n, k + 1


def _method(name):
    def call(url, **kw):
        data = kw.get("data")
        if hasattr(data, "read"):
            kw["data"] = data.read()
        return SERVER.handle(name, url, kw)
    return call


def load(repo):
    stubs.datamanager(repo)
    r = types.ModuleType("requests")
    for n in ("get", "put", "post", "delete", "head"):
        setattr(r, n, _method(n.upper()))
    u = types.ModuleType("urllib3")
    u.disable_warnings = lambda *a, **k: None
    if "DataManager.agent.api" not in sys.modules:
        sys.modules["requests"], sys.modules["urllib3"] = r, u
    return importlib.import_module("DataManager.agent.api"), importlib.import_module("DataManager.agent.cli")


# --- the archive ---------------------------------------------------------------

class Archive:
    """What an Elasticsearch index stores for the requests of the agent."""

    def __init__(self, base, auth, fail_at=None, status=500):
        self.base, self.auth, self.fail_at, self.status = base, auth, fail_at, status
        self.refuse = ()  # the elements refused of the bulk request that fails
        self.docs, self.requests, self.failed, self.after_failure = {}, 0, False, 0

    def handle(self, method, url, kw):
        self.requests += 1
        if self.failed:
            self.after_failure += 1
        if kw.get("auth") != self.auth:
            return Response(401, js={"error": "who are you"})
        if method != "PUT" and method != "POST":
            return Response(405, js={"error": "method"})
        if not url.startswith(self.base) or "/" in url[len(self.base):]:
            return Response(404, js={"error": "no such index in " + url})
        if (kw.get("headers") or {}).get("Content-Type") not in ("application/json", "application/x-ndjson"):
            return Response(406, js={"error": "content type"})
        if self.fail_at == self.requests:
            self.failed = True
            if not self.refuse:
                return Response(self.status, js={"error": "unavailable"})
        what = url[len(self.base):]
        data = kw["data"]
        if isinstance(data, bytes):
            data = data.decode("utf-8")
        if what == "_bulk":
            if not data.endswith("\n"):
                return Response(400, js={"error": "The bulk request must be terminated by a newline"})
            lines, items = [l for l in data.split("\n")[:-1] if l], []
            if len(lines) % 2:
                return Response(400, js={"error": "lines"})
            for k in range(0, len(lines), 2):
                act = json.loads(lines[k])
                if list(act) != ["index"] or "_id" not in act["index"]:
                    return Response(400, js={"error": "action"})
                bad = self.fail_at == self.requests and k // 2 in self.refuse
                items.append({"index": {"_id": act["index"]["_id"], "status": 429 if bad else 201}})
                if not bad:
                    self.docs[act["index"]["_id"]] = json.loads(lines[k + 1])
            return Response(200, js={"took": 1, "errors": any(i["index"]["status"] > 201 for i in items), "items": items})
        if not what:
            return Response(400, js={"error": "no id"})
        new = what not in self.docs
        self.docs[what] = json.loads(data)
        return Response(201 if new else 200, js={"_id": what})


def canon(recs):
    return sorted(set(json.dumps(r, sort_keys=True) for r in recs))


RECS = [{"a": 1}, {"b": "é\n"}, {"z": 1, "b": [1, {"c": None, "a": 0}], "a": 2}, {"a": 1}, {}, {"y": 2.5, "x": 0}]


def put_file(name, recs):
    with gzip.open(name, "wb") as f:
        for r in recs:
            f.write(json.dumps(r).encode() + b"\n")


def check_docs(c, arch, recs, what):
    got = [json.dumps(d, sort_keys=True) for d in arch.docs.values()]
    if sorted(got) != canon(recs):
        c.fail("%s: the archive has %s, should have %s" % (what, sorted(got), canon(recs)))


def archive_api(api, depth):
    def run(c):
        base = "http://es:9200/index/type"
        url = c.pick([base, base + "/"])
        user = c.pick(["", "user:pass", "u:p:w"])
        auth = None if user == "" else (user.split(":")[0], user[user.index(":") + 1:])
        arch = Archive(base + "/", auth)
        SERVER.handle = arch.handle
        es = api.ElasticSearchHttp(url, user)
        sent = []
        for _ in range(depth):
            if c.flag():
                r = c.pick(RECS)
                c.op("put %r" % r)
                res = es.put(r)
                sent.append(r)
            else:
                first = c.choose(len(RECS))
                lst = [RECS[(first + i) % len(RECS)] for i in range(c.choose(4))]
                c.op("put %r" % lst)
                res = es.put(lst)
                sent += lst
            c.require(res.status_code <= 201, "refused: %s" % res.text)
            check_docs(c, arch, sent, "after the put")
        c.state(sorted(arch.docs))
    return Suite("archive", "every sequence of %d puts of one of 6 records or of lists of 0..3, two forms of the address and three of the user" % depth, run)


def cli_put(cli, most):
    def run(c):
        n = c.choose(most + 1)
        recs = RECS[:n]
        bulk = c.choose(n + 2)
        start = c.choose(n + 2)
        arch = Archive("http://es/i/", ("user", "pa:ss"))
        SERVER.handle = arch.handle
        put_file("in.json.gz", recs)
        want = recs[start:]
        # any of the requests may fail
        total = len(want) if bulk == 0 else -(-len(want) // bulk)
        k = c.choose(total + 1)
        arch.fail_at = k or None
        if k:
            arch.status = c.pick([500, 429, 202] + ([200] if bulk else []))
            bucket = want[(k - 1) * bulk:k * bulk]
            if arch.status == 200:
                arch.refuse = [i for i in range(len(bucket)) if c.flag()] or [len(bucket) - 1]
        argv = ["agent", "put", "in.json.gz", "http://es/i", "--auth", "user:pa:ss", "--start-from-index", str(start)]
        if bulk:
            argv += ["--bulk", str(bulk)]
        c.op("%d records, %s%s" % (n, " ".join(argv[1:]), ", request %d fails with %d%s" % (k, arch.status, ", refusing %s" % arch.refuse if arch.refuse else "") if k else ""))
        old, sys.argv = sys.argv, argv
        out = io.StringIO()
        code = 0
        try:
            with contextlib.redirect_stdout(out):
                r = cli.cli_main()
            code = 0 if r is None else r
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = old
        if k:
            c.require(code not in (0, None), "the upload failed but the program ended with %r" % code)
            c.equal(arch.after_failure, 0, "requests after the failure")
            done = want[:(k - 1) * (bulk or 1)]
            check_docs(c, arch, done + [r for i, r in enumerate(bucket) if arch.refuse and i not in arch.refuse], "before the failure")
            # once more, from the start or where it ended
            arch.failed, arch.fail_at = False, None
            again = list(argv)
            if c.flag():
                again[again.index("--start-from-index") + 1] = str(start + len(done))
            arch.refuse = ()
            sys.argv = again
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    cli.cli_main()
            finally:
                sys.argv = old
        else:
            c.require(code == 0, "the program ended with %r: %s" % (code, out.getvalue()[-300:]))
            c.equal(arch.requests, total, "number of requests")
        check_docs(c, arch, want, "in the end")
        c.state(n, bulk, start, k)
    return Suite("upload", "uploads of 0..%d records with every size of buckets (and none) from every start, without failure and with every request failing or refusing any of its records, and repeated afterwards" % most, run)


def cli_get(cli):
    def run(c):
        n = 4
        put_file("in.json.gz", RECS[:n])
        want = {"0": RECS[0], "3": RECS[3], "-1": RECS[3], "-4": RECS[0], "[0:2]": RECS[:2], "[:3]": RECS[:3], "[1:4]": RECS[1:4], "[0:4:2]": RECS[0:4:2], "[3:1]": [RECS[3], RECS[2]], "[2:2]": []}
        idx = c.pick(sorted(want))
        typ = c.pick([[], ["--type", "file"]])
        c.op("get %s" % idx)
        old, sys.argv = sys.argv, ["agent", "get", "in.json.gz", idx] + typ
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                cli.cli_main()
        finally:
            sys.argv = old
        c.equal(out.getvalue().rstrip("\n").split("\n")[-1], str(want[idx]), "output")
        c.state(idx)
    return Suite("get", "ten indices and slices of a file", run)


# --- HDFS ----------------------------------------------------------------------

class Hdfs:
    """The part of the WebHDFS interface the client uses."""

    def __init__(self, base, user, auth, redirects):
        self.base, self.user, self.auth, self.redirects = base, user, auth, redirects
        self.files, self.dirs = {}, {"/"}
        self.fail_at, self.requests, self.failed = None, 0, False
        self.accept = None  # the answer to a creation before the data

    def children(self, p):
        pre = p.rstrip("/") + "/"
        return sorted(x for x in list(self.files) + list(self.dirs) if x != "/" and x.startswith(pre) and "/" not in x[len(pre):])

    def parents(self, p):
        out, q = [], os.path.dirname(p)
        while q not in out:
            out.append(q)
            q = os.path.dirname(q)
        return out

    def err(self, status, what):
        return Response(status, js={"RemoteException": {"message": what}})

    def handle(self, method, url, kw):
        self.requests += 1
        if self.fail_at == self.requests:
            self.failed = True
            return self.err(503, "unavailable")
        if not url.startswith(self.base + "/webhdfs/v1/"):
            return self.err(404, url)
        p = url[len(self.base + "/webhdfs/v1"):]
        q = kw.get("params") or {}
        if q.get("user.name") != self.user or kw.get("auth") != self.auth:
            return self.err(401, "user")
        if kw.get("allow_redirects", True) is not self.redirects:
            raise AssertionError("allow_redirects is %r" % kw.get("allow_redirects"))
        op = q.get("op")
        true = lambda k: str(q.get(k, False)).lower() == "true"
        if (method, op) == ("PUT", "MKDIRS"):
            for x in [p] + self.parents(p):
                if x in self.files:
                    return self.err(403, "a file is in the way")
            self.dirs |= {p.rstrip("/") or "/"} | set(self.parents(p))
            return Response(200, js={"boolean": True})
        if (method, op) == ("GET", "LISTSTATUS"):
            if p in self.files:
                return Response(200, js={"FileStatuses": {"FileStatus": [{"type": "FILE", "pathSuffix": ""}]}})
            if p not in self.dirs:
                return self.err(404, "no such directory")
            return Response(200, js={"FileStatuses": {"FileStatus": [{"type": "FILE" if x in self.files else "DIRECTORY", "pathSuffix": os.path.basename(x)} for x in self.children(p)]}})
        if (method, op) == ("DELETE", "DELETE"):
            if p not in self.files and p not in self.dirs:
                return Response(200, js={"boolean": False})
            if p in self.dirs and self.children(p) and not true("recursive"):
                return self.err(403, "not empty")
            self.files = {k: v for k, v in self.files.items() if k != p and not k.startswith(p + "/")}
            self.dirs = {k for k in self.dirs if k != p and not k.startswith(p + "/")} | {"/"}
            return Response(200, js={"boolean": True})
        if (method, op) == ("GET", "OPEN"):
            if p not in self.files:
                return self.err(404, "no such file")
            return Response(200, self.files[p])
        if (method, op) == ("PUT", "CREATE"):
            if not true("data"):
                return Response((200 if true("noredirect") else 307) if self.accept is None else self.accept, js={"Location": url + "?data=true"})
            if (kw.get("headers") or {}).get("content-type") != "application/octet-stream":
                return self.err(400, "content type")
            if p in self.dirs or any(x in self.files for x in self.parents(p)):
                return self.err(403, "cannot create")
            if p in self.files and not true("overwrite"):
                return self.err(403, "exists")
            self.files[p] = kw.get("data") or b""
            self.dirs |= set(self.parents(p))
            return Response(201, js={})
        return self.err(400, "%s %s" % (method, op))


PATHS = ["/a", "/a/b", "/c"]
DATA = [b"", b"\x00x\n", bytes(range(256)) * 3]


def hdfs(api, depth, faults):
    def run(c):
        user, auth, red = c.pick([("root", (None, None), False), ("me", ("u", "p"), True)])
        kw = {} if user == "root" else dict(http_user="u", http_password="p", hadoop_user="me", allow_redirects=True)
        srv = Hdfs("https://host:1", user, auth, red)
        ref = Hdfs("https://host:1", user, auth, red)
        srv.accept = 201 if user == "me" else None
        SERVER.handle = srv.handle
        fs = api.HTTPFS("https://host:1", **kw)
        fail_op = c.choose(depth + 1) if faults else 0
        for step in range(1, depth + 1):
            srv.requests, srv.fail_at = 0, None
            if step == fail_op:
                srv.fail_at = 1 + c.choose(2)
            k = c.choose(6)
            p = c.pick(PATHS if k != 1 else PATHS + ["/"])
            before = (dict(srv.files), set(srv.dirs))
            want, call, what = None, None, None
            q = {"user.name": user}
            R = lambda m, **kw2: ref.handle(m, "https://host:1/webhdfs/v1" + p, dict(params=dict(q, **kw2.pop("params")), auth=auth, allow_redirects=red, **kw2))
            if k == 0:
                what = "mkdirs %s" % p
                call = lambda: fs.mkdirs(p)
                want = lambda: R("PUT", params={"op": "MKDIRS"})
                res = lambda r: r.json()["boolean"]
            elif k == 1:
                pr = c.flag()
                what = "list %s" % p
                call = lambda: list(fs.liststatus(p, print_list=pr))
                want = lambda: R("GET", params={"op": "LISTSTATUS"})
                res = lambda r: [(x["type"], x["pathSuffix"], os.path.join(p, x["pathSuffix"])) for x in r.json()["FileStatuses"]["FileStatus"]]
            elif k == 2:
                rec = c.pick([None, True, False])
                what = "delete %s, recursive %s" % (p, rec)
                call = lambda: fs.delete(p) if rec is None else fs.delete(p, recursive=rec)
                want = lambda: R("DELETE", params={"op": "DELETE", "recursive": rec is not False})
                res = lambda r: r.json()["boolean"]
            elif k == 3:
                size = c.pick([None, 1, 300])
                SERVER.arrival = c.pick([[0], [1, 0, 0], [2]]) if srv.files.get(p) else [0]
                what = "open %s in chunks of %s" % (p, size)
                call = lambda: (fs.open(p) if size is None else fs.open(p, chunk_size=size)).read()
                want = lambda: R("GET", params={"op": "OPEN"})
                res = lambda r: r.content
            else:
                over = c.pick([None, True])
                data = DATA[c.choose(len(DATA))] if k == 4 else DATA[1 + step % 2]
                what = "create %s with %d bytes from %s, overwrite %s" % (p, len(data), "memory" if k == 4 else "a file", over)
                args = {} if over is None else {"overwrite": over}
                if k == 4:
                    call = lambda: fs.create(p, io.BytesIO(data), **args)
                else:
                    with open("local", "wb") as f:
                        f.write(data)
                    call = lambda: fs.create(p, "local", **args)
                want = lambda: R("PUT", params={"op": "CREATE", "data": True, "overwrite": bool(over)}, headers={"content-type": "application/octet-stream"}, data=data)
                res = lambda r: True
            srv.failed = False
            try:
                got, exc = call(), None
            except AssertionError:
                raise
            except Exception as e:
                got, exc = None, e
            c.op(what + (" -> error" if exc else " -> %r" % (got if not isinstance(got, bytes) else len(got))) + (" (a request failed)" if srv.failed else ""))
            if srv.failed:
                c.require(exc is not None, "a request failed but %s succeeded with %r" % (what, got))
                c.require((srv.files, srv.dirs) == before, "%s failed but changed the files" % what)
                continue
            r = want()
            if r.status_code >= 400:
                c.require(exc is not None, "%s should fail (%s), got %r" % (what, r.text, got))
            else:
                c.require(exc is None, "%s failed: %s" % (what, exc))
                c.equal(got, res(r), what)
            c.equal(srv.files, ref.files, "files after " + what)
            c.equal(srv.dirs, ref.dirs, "directories after " + what)
        c.state(sorted(srv.files.items()), sorted(srv.dirs))
    return Suite("faults-%d" % depth if faults else "operations-%d" % depth, "every sequence of %d operations (make, list, delete, open, create from memory or a file) over %s for two users%s, against a model of the server" % (depth, PATHS, ", with the first or second request of any one operation failing" if faults else ""), run)


def badcreate(api):
    def run(c):
        srv = Hdfs("https://h", "root", (None, None), False)
        SERVER.handle = srv.handle
        fs = api.HTTPFS("https://h")
        bad = c.pick(["nosuchfile", b"bytes", None, 5])
        c.op("create from %r" % (bad,))
        try:
            fs.create("/x", bad)
        except Exception:
            c.equal(srv.files, {}, "files")
            c.state(repr(bad))
            return
        c.fail("%r was accepted" % (bad,))
    return Suite("bad-data", "four values that are neither a file nor a stream", run)


def prop(pid, tier, repo):
    api, cli = load(repo)
    deep = tier == "thorough"
    if pid == "C46":
        return Property([archive_api(api, 4 if deep else 3), cli_put(cli, 6), cli_get(cli)],
                        ["the archive is a model of the Elasticsearch interface; errors of single records of a bulk request are not modelled"])
    return Property([hdfs(api, 3, False), hdfs(api, 2, True), badcreate(api)] + ([hdfs(api, 3, True)] if deep else []),
                    ["the server is a model of the WebHDFS interface for the six operations used"])
