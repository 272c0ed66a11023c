"""C35: the clients of remote storage against a server on the loopback interface."""
import base64
import http.server
import datetime
import io
import json
import os
import posixpath
import re
import threading
import urllib.parse

from hypothesis import strategies as s

from common import Spec, check, load, main, scratch, stub_data_manager

os.environ["NO_PROXY"] = "*"
stub_data_manager()
agent = load("DataManager.agent.api")
res_mod = load("DataManager.collector.dataset.resource")
avro = load("DataManager.collector.datafile.avro")
api = load("DataManager.collector.api")


class State:
    """What the server holds and what it saw."""

    def __init__(self):
        self.files, self.dirs, self.docs, self.puts = {}, {"/"}, {}, []
        self.fail, self.seen = [], []

    def parents(self, p):
        while p != "/":
            p = posixpath.dirname(p)
            yield p

    def snapshot(self):
        return dict(self.files), set(self.dirs)


STATE = State()


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *_):
        pass

    def reply(self, code, obj=None, raw=None, headers=()):
        body = raw if raw is not None else json.dumps(obj).encode() if obj is not None else b""
        self.send_response(code)
        for k, v in headers:
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def error(self, code, name="SomeException"):
        self.reply(code, {"RemoteException": {"exception": name}})

    def handle_one(self):
        length = int(self.headers.get("Content-Length") or 0)
        if "chunked" in (self.headers.get("Transfer-Encoding") or ""):
            body = b""
            while True:
                n = int(self.rfile.readline().strip(), 16)
                body += self.rfile.read(n)
                self.rfile.readline()
                if n == 0:
                    break
        else:
            body = self.rfile.read(length)
        url = urllib.parse.urlsplit(self.path)
        query = {k: v[-1] for k, v in urllib.parse.parse_qs(url.query, keep_blank_values=True).items()}
        path = urllib.parse.unquote(url.path)
        STATE.seen.append((self.command, path, query, dict(self.headers), body))
        if STATE.fail and STATE.fail.pop(0):
            return self.error(STATE.fail_code)
        if path.startswith("/webhdfs/v1"):
            return self.webhdfs(posixpath.normpath(path[len("/webhdfs/v1"):] or "/"), query, body)
        return self.elastic(path, body)

    do_GET = do_PUT = do_DELETE = handle_one

    def webhdfs(self, path, query, body):
        op = query.get("op", "")
        st = STATE
        if query.get("user.name", "") == "":
            return self.error(401)
        if self.command == "PUT" and op == "MKDIRS":
            if path in st.files or any(p in st.files for p in st.parents(path)):
                return self.error(403, "FileAlreadyExistsException")
            st.dirs.update([path, *st.parents(path)])
            return self.reply(200, {"boolean": True})
        if self.command == "GET" and op == "LISTSTATUS":
            if path in st.files:
                return self.reply(200, {"FileStatuses": {"FileStatus": [{"type": "FILE", "pathSuffix": ""}]}})
            if path not in st.dirs:
                return self.error(404, "FileNotFoundException")
            res = [{"type": "FILE", "pathSuffix": posixpath.basename(p)} for p in sorted(st.files) if posixpath.dirname(p) == path]
            res += [{"type": "DIRECTORY", "pathSuffix": posixpath.basename(p)} for p in sorted(st.dirs) if p != "/" and posixpath.dirname(p) == path]
            return self.reply(200, {"FileStatuses": {"FileStatus": sorted(res, key=lambda r: r["pathSuffix"])}})
        if self.command == "GET" and op == "OPEN":
            if path not in st.files:
                return self.error(404, "FileNotFoundException")
            return self.reply(200, raw=st.files[path])
        if self.command == "DELETE" and op == "DELETE":
            inside = [p for p in list(st.files) + list(st.dirs) if p != path and (p.startswith(path.rstrip("/") + "/"))]
            if path in st.dirs and inside and query.get("recursive", "false").lower() != "true":
                return self.error(403, "PathIsNotEmptyDirectoryException")
            found = path in st.files or path in st.dirs
            for p in inside + [path]:
                st.files.pop(p, None)
                st.dirs.discard(p)
            st.dirs.add("/")
            return self.reply(200, {"boolean": found})
        if self.command == "PUT" and op == "CREATE":
            if query.get("data", "false").lower() != "true":
                return self.reply(307, headers=[("Location", f"http://{self.headers['Host']}{self.path}&data=true")])
            if self.headers.get("Content-Type") != "application/octet-stream":
                return self.error(400)
            if path in st.dirs or any(p in st.files for p in st.parents(path)):
                return self.error(403, "FileAlreadyExistsException")
            if path in st.files and query.get("overwrite", "false").lower() != "true":
                return self.error(403, "FileAlreadyExistsException")
            st.files[path] = body
            st.dirs.update(st.parents(path))
            return self.reply(201)
        return self.error(400)

    def elastic(self, path, body):
        st = STATE
        base, name = posixpath.split(path)
        docs = []
        if name == "_bulk":
            if not body.endswith(b"\n"):
                return self.error(400)
            lines = body.decode().split("\n")[:-1]
            for head, doc in zip(lines[::2], lines[1::2]):
                docs.append((json.loads(head)["index"]["_id"], json.loads(doc)))
            if len(lines) % 2:
                return self.error(400)
        else:
            docs.append((name, json.loads(body)))
        for i, d in docs:
            st.docs[base, i] = d
            st.puts.append((base, i, d))
        return self.reply(201, {"items": len(docs)})


SERVER = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
SERVER.daemon_threads = True
threading.Thread(target=SERVER.serve_forever, daemon=True).start()
URL = f"http://127.0.0.1:{SERVER.server_address[1]}"


def reset():
    global STATE
    STATE = State()
    return STATE


def check_auth(user, password):
    for cmd, path, query, headers, _ in STATE.seen:
        if user is not None:
            check(headers.get("Authorization") == "Basic " + base64.b64encode(f"{user}:{password}".encode("latin1")).decode(), "authorisation {!r} for {}:{}", headers.get("Authorization"), user, password)


def content(op):
    return bytes((op["seed"] * 31 + i * (op["seed"] % 7 + 1)) % 256 for i in range(op["size"]))


def run_fs(case, rec):
    st = reset()
    kw = {"http_user": case["user"], "http_password": "pw"} if case["user"] else {}
    if case["hadoop"]:
        kw["hadoop_user"] = case["hadoop"]
    ops = 0
    with scratch() as d, agent.HTTPFS(URL, **kw) as fs:
        for n, op in enumerate(case["ops"]):
            path = "/" + "/".join(op["path"])
            files, dirs = st.snapshot()
            where = f"step {n} ({op['k']} {path})"
            isdir, isfile = path in dirs, path in files
            below_file = any(p in files for p in st.parents(path))
            st.fail = [True] if op["fail"] == 1 else [False, True] if op["fail"] == 2 else []
            st.fail_code = [400, 403, 404, 500, 503][op["seed"] % 5]
            fails = op["fail"] == 1 or op["fail"] == 2 and op["k"] == "create"
            result, err = None, None
            try:
                if op["k"] == "mkdirs":
                    result = fs.mkdirs(path)
                elif op["k"] == "create":
                    data = content(op)
                    if op["named"]:
                        name = os.path.join(d, f"f{n}")
                        with open(name, "wb") as f:
                            f.write(data)
                        source = name
                    else:
                        source = io.BytesIO(data)
                    result = fs.create(path, source, **({"overwrite": op["flag"]} if op["flag"] or op["seed"] % 2 else {}))
                elif op["k"] == "bad":
                    result = fs.create(path, [b"x", 7, None, os.path.join(d, "missing")][op["seed"] % 4])
                elif op["k"] == "open":
                    result = fs.open(path, **({"chunk_size": op["size"] % 70 + 1} if op["flag"] else {}))
                elif op["k"] == "list":
                    result = list(fs.liststatus(path, **({"print_list": True} if op["flag"] else {})))
                elif op["k"] == "delete":
                    result = fs.delete(path, **({} if op["flag"] else {"recursive": False}))
            except Exception as e:
                err = e
            st.fail = []
            after = st.snapshot()
            if fails or op["k"] == "bad":
                check(err is not None, "{}: the server refused it, the client says {!r}", where, result)
                check(after == (files, dirs), "{}: refused, but the files changed", where)
                rec.cls("refused")
                continue
            ops += 1
            rec.cls(op["k"])
            if op["k"] == "mkdirs":
                if isfile or below_file:
                    check(err is not None, "{}: {!r} over a file", where, result)
                else:
                    check(err is None and result is True, "{}: {!r} {!r}", where, result, err)
                    dirs |= {path, *st.parents(path)}
            elif op["k"] == "create":
                if isdir or below_file or isfile and not op["flag"]:
                    check(err is not None, "{}: created over what is there: {!r}", where, result)
                else:
                    check(err is None and result is True, "{}: {!r} {!r}", where, result, err)
                    files[path] = content(op)
                    dirs |= set(st.parents(path))
            elif op["k"] == "open":
                if isfile:
                    check(err is None, "{}: {!r}", where, err)
                    check(isinstance(result, io.BytesIO) and result.read() == files[path], "{}: the content differs", where)
                else:
                    check(err is not None, "{}: there is no file, the client gives {!r}", where, result)
            elif op["k"] == "list":
                if isdir:
                    want = sorted([("FILE", posixpath.basename(p), p) for p in files if posixpath.dirname(p) == path] +
                                  [("DIRECTORY", posixpath.basename(p), p) for p in dirs if p != "/" and posixpath.dirname(p) == path], key=lambda x: x[1])
                    check(err is None and [tuple(x) for x in result] == want, "{}: {!r} {!r}, there are {!r}", where, result, err, want)
                elif not isfile:
                    check(err is not None, "{}: there is no such folder, the client gives {!r}", where, result)
            elif op["k"] == "delete":
                inside = {p for p in [*files, *dirs] if p.startswith(path.rstrip("/") + "/") and p != path}
                if isdir and inside and not op["flag"]:
                    check(err is not None, "{}: deleted a folder that is not empty: {!r}", where, result)
                else:
                    check(err is None and result is (isdir or isfile), "{}: {!r} {!r}", where, result, err)
                    for p in inside | {path}:
                        files.pop(p, None)
                        dirs.discard(p)
                    dirs.add("/")
            check(after == (files, dirs), "{}: the server holds {!r} {!r} instead of {!r} {!r}", where, sorted(after[0]), sorted(after[1]), sorted(files), sorted(dirs))
        check_auth(case["user"], "pw")
        for cmd, path, query, _, _ in st.seen:
            check(query.get("user.name") == (case["hadoop"] or "root"), "{} {} as user {!r}", cmd, path, query.get("user.name"))
    if ops > 3:
        rec.non_trivial()


def run_elastic(case, rec):
    st = reset()
    auth = f"{case['user']}:{case['password']}" if case["user"] else ""
    ids = {}
    total = []
    with agent.ElasticSearchHttp(URL + "/index/type" + ("/" if case["slash"] else ""), auth) as es:
        for op in case["ops"]:
            before = len(st.puts)
            st.fail = [True] if op["fail"] else []
            st.fail_code = 500
            docs = op["docs"]
            data = docs if op["bulk"] else docs[0]
            res = es.put(data)
            st.fail = []
            if op["fail"]:
                check(res.status_code == 500, "status {} of a refused request", res.status_code)
                rec.cls("refused")
                continue
            check(res.status_code in (200, 201), "status {}", res.status_code)
            sent = docs if op["bulk"] else docs[:1]
            got = st.puts[before:]
            check([x[2] for x in got] == sent, "sent {!r}, stored {!r}", sent, got)
            for base, i, doc in got:
                check(base == "/index/type", "stored under {!r}", base)
                check(re.fullmatch(r"[A-Za-z0-9_-]{1,512}", i), "identifier {!r}", i)
                text = json.dumps(doc)
                check(ids.setdefault(text, i) == i, "{!r} has the identifiers {} and {}", doc, ids[text], i)
            total += sent
            rec.cls("bulk" if op["bulk"] else "single")
        check(len(set(ids.values())) == len(ids), "different documents share an identifier: {!r}", ids)
        want = {json.dumps(x) for x in total}
        check(sorted(json.dumps(x) for x in st.docs.values()) == sorted(want), "{} documents of {} are stored", len(st.docs), len(want))
        if case["user"]:
            check_auth(case["user"], case["password"])
    if len(total) > 2:
        rec.non_trivial()


def run_days(case, rec):
    """The days of a window from HTTPFS, and results saved there."""
    st = reset()
    base = case["base"]
    start = datetime.date(2017, 12, 1) + datetime.timedelta(days=case["first"])
    days = [start + datetime.timedelta(days=i) for i in range(len(case["days"]))]
    if days[0].month != days[-1].month:
        rec.cls("two-months")
    want = []
    for day, parts in zip(days, case["days"]):
        folder = f"{base}year={day.year}/month={day.month}/day={day.day}"
        st.dirs.update([folder, *st.parents(folder)])
        for i, recs in enumerate(parts):
            f = io.BytesIO()
            w = avro.AvroDataFileWriter(f, [{"v": v, "t": str(v)} for v in recs])
            st.files[f"{folder}/part-m-0000{i}.avro"] = f.getvalue()
            want.append([{"v": v, "t": str(v)} for v in recs])
            del w
    conf = {"url": URL, "user": "u", "password": "pw"}
    if base != "/project/awg/cms/jm-data-popularity/avro-snappy/":
        conf["base_path"] = base
    source = res_mod.CMSResourceManager(f"{start.year} {start.month} {start.day}", len(days), resource={"httpfs": conf})
    check(source.type == "httpfs", "type {}", source.type)
    got = [[x for x in f] for f in source.get()]
    check(got == want, "the window gives {!r}, stored {!r}", got, want)
    check_auth("u", "pw")
    out = case.get("out", "cache")
    for rnd in range(2):  # the second one overwrites
        recs = [{"n": i, "round": rnd} for i in range(case["save"])]
        source.set(recs, stage_name="st", **({"out_dir": out} if out != "cache" else {}))
        name = f"/{out}/dataset_y{start.year}-m{start.month}-d{start.day}_ws{len(days)}_stage-st.json.gz"
        check(name in st.files, "saved as {!r}", sorted(st.files)[:3])
        with scratch() as d:
            with open(os.path.join(d, "x.json.gz"), "wb") as f:
                f.write(st.files[name])
            got = [x for x in api.DataFile(os.path.join(d, "x.json.gz"))]
        check(got == recs, "saved {!r}, written {!r}", got, recs)
    if len(want) > 1:
        rec.non_trivial()


part = s.one_of(s.sampled_from(["a", "b", "c"]), s.sampled_from(["year=2018", "x y", "50%", "a%41", "f#1", "q?op=DELETE", "é", "a+b", "a&b", "x.avro"]))
fsop = s.fixed_dictionaries({"k": s.sampled_from(["mkdirs", "create", "create", "create", "open", "open", "list", "list", "delete", "bad"]), "path": s.lists(part, min_size=1, max_size=3),
                             "seed": s.integers(0, 50), "size": s.one_of(s.integers(0, 40), s.integers(200, 1200)), "named": s.booleans(), "flag": s.booleans(), "fail": s.sampled_from([0] * 8 + [1, 2])})


@s.composite
def fscases(draw):
    ops = draw(s.lists(fsop, min_size=1, max_size=14))
    for i, op in enumerate(ops):  # come back to paths which were used before
        if i and draw(s.booleans()):
            op["path"] = ops[draw(s.integers(0, i - 1))]["path"][:draw(s.integers(1, 3))]
    return {"ops": ops, "user": draw(s.sampled_from([None, "me"])), "hadoop": draw(s.sampled_from(["", "", "cms"]))}


plain = s.dictionaries(s.text("ab é\"\n", max_size=3), s.one_of(s.integers(), s.text(max_size=4), s.booleans(), s.lists(s.integers(0, 3), max_size=2)), max_size=3)
doc = s.one_of(plain, plain, plain, s.tuples(s.sampled_from([70, 600, 5000]), plain).map(lambda x: {"_": "long" * (x[0] // 4), **x[1]}))  # alike for long
esop = s.fixed_dictionaries({"bulk": s.booleans(), "docs": s.lists(doc, min_size=1, max_size=5), "fail": s.sampled_from([False] * 6 + [True])})
escases = s.fixed_dictionaries({"ops": s.lists(esop, min_size=1, max_size=6), "user": s.sampled_from(["", "elastic"]), "password": s.sampled_from(["pw", "a:b", "", "x:"]), "slash": s.booleans()})
days = s.fixed_dictionaries({"base": s.sampled_from(["/project/awg/cms/jm-data-popularity/avro-snappy/", "/data/"]), "first": s.one_of(s.integers(0, 400), s.integers(28, 31)),
                             "days": s.lists(s.lists(s.lists(s.integers(0, 99), min_size=1, max_size=4), min_size=1, max_size=3), min_size=1, max_size=4), "save": s.integers(1, 5), "out": s.sampled_from(["cache", "cache", "x/y"])})

main(Spec("C35", "Files", "random operations on paths of all kinds against a WebHDFS server that may refuse them; non-trivial: more than three operations went through", 250, 2500, fscases(), run_fs),
     Spec("C35", "Documents", "random documents put one by one and in bulk; non-trivial: more than two documents", 250, 2500, escases, run_elastic),
     Spec("C35", "Days", "random windows of days with several files each; non-trivial: more than one file", 80, 800, days, run_days))
