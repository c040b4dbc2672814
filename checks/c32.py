"""C32: the dataset cache, explored to a fixpoint over its on-disk states with every download outcome, crash and fault."""
import errno
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import urllib.error
import urllib.request
import urllib.response
import warnings
import zipfile
from email.message import Message

import numpy as np

from mc.core import equal, require

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state search, to a fixpoint, of the real loader: states are the contents of the cache directory, transitions are loads with every download outcome, crash point, torn write and file-system fault; "
             "each transition is checked against a small nondeterministic model of a cache")
SHARDS = 6
RULE = ("all reachable on-disk states of a two-dataset cache under loads with and without caching x 14 download outcomes; from each state kind every crash point between file operations, every torn prefix of a file being written, "
        "every single failing file operation (ENOSPC) and every interrupt at a file operation; every truncation and every single-bit flip of small archives (stored, deflated; txt, arff); all small archive shapes; every pattern of outcomes of caching all datasets")
ASSUMPTIONS = ["the network is a urllib opener that produces the scheduled outcome; the on-disk state is what the process had written when it died (no loss of written pages after a power cut)",
               "one process uses the cache at a time; one fault per load",
               "an archive whose two files are there but cannot be parsed may go on failing until caching is switched off"]
A, B = "Alpha", "Beta"
ROOT = "https://www.timeseriesclassification.com/aeon-toolkit/"


# -- archives ----------------------------------------------------------------

def values(seed, n, l, d):
    return np.round(np.array([((seed * 37 + k * 17) % 101 - 50) / 8. for k in range(n * l * d)]).reshape(n, l, d), 4)


def labels(seed, n):
    return np.array([(seed + k) % 3 - 1 for k in range(n)])


def txt(X, y):
    return "".join(f"  {float(c):.7e}  " + "  ".join(f"{v:.7e}" for v in x[:, 0]) + "\n" for x, c in zip(X, y)).encode()


def arff(X, y, name="p"):
    n, l, d = X.shape
    cls = ",".join(sorted({str(c) for c in y}))
    if d == 1:
        head = "".join(f"@attribute att{t} numeric\n" for t in range(l)) + "@attribute target {" + cls + "}\n"
        rows = "".join(",".join(repr(float(v)) for v in x[:, 0]) + f",{c}\n" for x, c in zip(X, y))
    else:
        head = "@attribute rel relational\n" + "".join(f"  @attribute att{t} numeric\n" for t in range(l)) + "@end rel\n@attribute cls {" + cls + "}\n"
        rows = "".join("'" + "\\n".join(",".join(repr(float(v)) for v in x[:, f]) for f in range(d)) + f"',{c}\n" for x, c in zip(X, y))
    return (f"@relation {name}\n" + head + "@data\n" + rows).encode()


class Archive:
    """What the server publishes for a dataset, and what loading it has to give (None: not loadable)."""

    def __init__(self, name, seed, fmt="txt", n=(2, 1), l=2, d=1, method=zipfile.ZIP_DEFLATED, extra=False, drop=(), spoil=()):
        self.parts = []
        for k, part in enumerate(("TRAIN", "TEST")):
            X, y = values(seed + k, n[k], l, d), labels(seed + k, n[k])
            self.parts.append((X, y))
        self.files = {}
        for f in fmt.split("+"):
            for part, (X, y) in zip(("TRAIN", "TEST"), self.parts):
                if (f, part) not in drop:
                    body = txt(X, y) if f == "txt" else arff(X, y)
                    self.files[f"{name}_{part}.{f}"] = b"not a number\n" if (f, part) in spoil else body
        if extra:
            self.files["README.md"] = b"about"
            self.files["images/a.png"] = b"\x00\x01"
        used = next((f for f in ("txt", "arff") if all(f"{name}_{p}.{f}" in self.files for p in ("TRAIN", "TEST"))), None)
        self.complete = used is not None
        self.data = None
        if used and not any(s[0] == used for s in spoil):
            (X, y), (Z, z) = self.parts
            cast = (lambda v: v.astype(str)) if used == "arff" else (lambda v: v)
            self.data = (X, cast(y), Z, cast(z))
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", method) as z:
            for f, body in self.files.items():
                z.writestr(zipfile.ZipInfo(f, (2020, 1, 1, 0, 0, 0)), body, compress_type=method)
        self.body = out.getvalue()

    def same(self, result):
        return self.data is not None and all(type(r) is np.ndarray and r.shape == e.shape and r.dtype.kind == e.dtype.kind and np.array_equal(r, e) for r, e in zip(result, self.data))


def spoilt(body, names):
    """The archive with a byte of the data of its last member changed."""
    z = zipfile.ZipFile(io.BytesIO(body))
    info = z.getinfo(names)
    at = info.header_offset + 30 + len(info.filename) + info.compress_size // 2
    return body[:at] + bytes([body[at] ^ 0x15]) + body[at + 1:]


# -- the network -----------------------------------------------------------------

class Broken(io.BytesIO):
    def read(self, *a):
        if self.tell() > 0:
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        return super().read(max(1, len(self.getvalue()) // 2))


class Server(urllib.request.HTTPSHandler, urllib.request.HTTPHandler):
    """Answers by a table url -> (kind, body)."""

    def __init__(self):
        super().__init__()
        self.table, self.log = {}, []

    def https_open(self, req):
        url = req.full_url
        self.log.append(url)
        kind, body = self.table.get(url, ("404", b""))
        if kind == "unreachable":
            raise urllib.error.URLError(OSError(errno.ENETUNREACH, "unreachable"))
        if kind == "timeout":
            raise TimeoutError("timed out")
        h = Message()
        code = 200
        if kind == "404":
            code, body = 404, b"<html>not found</html>"
        if kind == "short":
            h["Content-Length"] = str(len(body))
            body = body[:len(body) // 2]
        elif kind != "chunked":
            h["Content-Length"] = str(len(body))
        r = urllib.response.addinfourl((Broken if kind == "reset" else io.BytesIO)(body), h, url, code)
        r.msg = "OK" if code == 200 else "Not Found"
        return r
    http_open = https_open

    def zips(self):
        return [u for u in self.log if u.endswith(".zip")]


# -- the disk ------------------------------------------------------------------

class Disk:
    """Snapshots of a directory, and control over the file operations below it."""
    events = re.compile(r"^(open$|os\.|shutil\.|tempfile\.)")

    def __init__(self, root):
        self.root, self.mode = root, None
        sys.addaudithook(self.hook)

    def read(self):
        out = {}
        for p, dirs, files in os.walk(self.root):
            rel = os.path.relpath(p, self.root)
            for d in dirs:
                out[os.path.normpath(os.path.join(rel, d))] = None
            for f in files:
                with open(os.path.join(p, f), "rb") as h:
                    out[os.path.normpath(os.path.join(rel, f))] = h.read()
        return out

    def write(self, snap):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        for k in sorted(snap):
            p = os.path.join(self.root, k)
            if snap[k] is None:
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as h:
                    h.write(snap[k])

    def hook(self, event, args):
        if self.mode is None or not self.events.match(event):
            return
        if event == "open" and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return
        if event in ("os.listdir", "os.scandir", "os.putenv", "os.unsetenv", "os.fwalk", "os.walk", "os.getxattr", "os.listxattr", "os.add_dll_directory"):
            return
        mode, self.mode = self.mode, None
        try:
            mode(event, args)
        finally:
            self.mode = mode

    def watched(self, mode, fn):
        self.mode = mode
        try:
            return fn()
        finally:
            self.mode = None


def canon(snap):
    """A state, up to the names of temporary files."""
    known = re.compile(r"^(UCR_UEA|Alpha|Beta|README\.md|images|a\.png|stray|summary\w+\.csv|(Alpha|Beta)_(TRAIN|TEST)\.(txt|arff))$")
    return frozenset(("/".join(c if known.match(c) else "?" for c in k.split("/")), v) for k, v in snap.items())


# -- loading ---------------------------------------------------------------------

class World:
    def __init__(self):
        from tslearn.datasets import UCR_UEA_datasets
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.home = tempfile.mkdtemp(prefix="c32-", dir=base)
        self.root, self.tmp = os.path.join(self.home, "root"), os.path.join(self.home, "tmp")
        for p in (self.root, self.tmp):
            os.mkdir(p)
        self.old_tmp, tempfile.tempdir = tempfile.tempdir, self.tmp
        self.server = Server()
        urllib.request.install_opener(urllib.request.build_opener(self.server))
        self.disk = Disk(self.root)
        self.cls = UCR_UEA_datasets
        self.new()

    def new(self):
        self.loaders = {c: self.cls(use_cache=c, root_dir=self.root) for c in (True, False)}

    def close(self):
        tempfile.tempdir = self.old_tmp
        urllib.request.install_opener(None)
        shutil.rmtree(self.home, ignore_errors=True)

    def load(self, name, use_cache, kind, body, mode=None):
        """(result or exception, RuntimeWarning was given, requested urls)"""
        self.server.table = {ROOT + name + ".zip": (kind, body)}
        self.server.log.clear()
        for f in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, f), ignore_errors=True)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                res = self.disk.watched(mode, lambda: self.loaders[use_cache].load_dataset(name))
            except BaseException as e:
                res = e
        return res, any(issubclass(x.category, RuntimeWarning) for x in w), self.server.zips()

    def cached(self):
        return sorted(self.loaders[True].list_cached_datasets())


def nothing(res):
    return isinstance(res, tuple) and len(res) == 4 and all(r is None for r in res)


def outcomes(name):
    s = 3 if name == A else 40
    one, two = Archive(name, s), Archive(name, s + 20, n=(1, 2))
    three = Archive(name, s + 10, "txt+arff", extra=True)
    four = Archive(name, s + 5, "arff", d=2)
    stored = Archive(name, s, method=zipfile.ZIP_STORED)
    last = f"{name}_TEST.txt"
    out = {"v1": ("ok", one.body, one), "v2": ("ok", two.body, two), "v3": ("ok", three.body, three), "v4": ("ok", four.body, four),
           "unreachable": ("unreachable", b"", None), "timeout": ("timeout", b"", None), "404": ("404", b"", None),
           "short": ("short", one.body, None), "cut": ("chunked", one.body[:len(one.body) * 2 // 3], None), "reset": ("reset", one.body, None),
           "html": ("ok", b"<html>sorry</html>", None), "empty": ("ok", b"", None),
           "corrupt": ("ok", spoilt(stored.body, last), None), "inflate": ("ok", spoilt(one.body, last), None),
           "train-only": ("ok", *(lambda a: (a.body, a))(Archive(name, s, drop={("txt", "TEST")}))),
           "unparsable": ("ok", *(lambda a: (a.body, a))(Archive(name, s, spoil={("txt", "TEST")})))}
    return out


class Model:
    """What the cache may hold for one dataset: a set of 'none', 'bad' and names of versions."""

    def __init__(self, table):
        self.table = table

    def step(self, allowed, use_cache, outcome, res, warned, requests):
        """The set afterwards; raises on behaviour that no allowed state explains."""
        ar = self.table[outcome][2]
        require(not isinstance(res, BaseException), f"loading raised {res!r}")
        require(nothing(res) or not any(r is None for r in res), f"result mixes values and None: {res}")
        require(len(requests) <= 1, f"more than one download: {requests}")
        if not use_cache:
            require(len(requests) == 1, "no download with caching switched off")
        if requests:
            if use_cache:
                require(allowed & {"none", "bad"}, f"downloaded although {allowed} is in the cache")
            if ar is not None and ar.data is not None:
                require(ar.same(res), f"server has {outcome} but the result is {res}")
                return frozenset([outcome])
            require(nothing(res), f"download outcome {outcome} but the result is {res}")
            require(warned, "no RuntimeWarning")
            if ar is not None and ar.complete:
                return frozenset(["bad", "none"])
            return (allowed | {"none"}) if not use_cache else frozenset(["none"]) | (allowed & {"bad"})
        if nothing(res):
            require("bad" in allowed and warned, f"nothing without a download, cache: {sorted(allowed)}, warned: {warned}")
            return frozenset(["bad"])
        fits = frozenset(v for v in allowed - {"none", "bad"} if self.table[v][2].same(res))
        require(fits, f"served {res} but the cache can only hold {sorted(allowed)}")
        return fits

    def broken_step(self, allowed, outcome):
        """After a crash or a fault during a load with this outcome."""
        ar = self.table[outcome][2]
        return allowed | {"none"} | ({outcome} if ar is not None and ar.data is not None else {"bad"} if ar is not None and ar.complete else set())


def run(ctx):
    warnings.simplefilter("ignore")
    w = World()
    try:
        reach(ctx, w)
        crashes(ctx, w)
        corruption(ctx, w)
        shapes(ctx, w)
        listing(ctx, w)
        bundled(ctx)
    finally:
        w.close()


def settle(w, model, name, snap, allowed, what):
    """From a state, loads with and without caching, from a good server, give the right data."""
    for use_cache in (True, False):
        w.disk.write(snap)
        res = w.load(name, use_cache, *model.table["v2"][:2])
        try:
            model.step(allowed, use_cache, "v2", *res)
        except AssertionError as e:
            raise AssertionError(f"{what}: then loading (use_cache={use_cache}): {e}") from None
        again = w.load(name, True, "unreachable", b"")
        require(nothing(again[0]) and "bad" in allowed or isinstance(again[0], tuple) and all(np.array_equal(a, b) for a, b in zip(res[0], again[0])), f"{what}: the second load gives {again[0]}")
        require(nothing(res[0]) or w.cached() == [name], f"{what}: cached datasets {w.cached()}")


def starts():
    u = "UCR_UEA"
    yield "empty", {u: None}, frozenset(["none"])
    yield "plain file", {u: None, f"{u}/{A}": b"x"}, frozenset(["none"])
    yield "empty directory", {u: None, f"{u}/{A}": None}, frozenset(["none"])
    yield "stray files", {u: None, f"{u}/{A}": None, f"{u}/{A}/stray": b"x", f"{u}/{A}/images": None, f"{u}/{A}/images/a.png": b"y"}, frozenset(["none"])
    for part, fmt in itertools.product(("TRAIN", "TEST"), ("txt", "arff")):
        yield f"only {part} {fmt}", {u: None, f"{u}/{A}": None, f"{u}/{A}/{A}_{part}.{fmt}": b"1 2 3\n"}, frozenset(["none"])
    yield "halves of two formats", {u: None, f"{u}/{A}": None, f"{u}/{A}/{A}_TRAIN.txt": b"1 2 3\n", f"{u}/{A}/{A}_TEST.arff": b"x"}, frozenset(["none"])


def reach(ctx, w):
    """Breadth-first search over on-disk states x model states until nothing new is found."""
    tables = {n: outcomes(n) for n in (A, B)}
    models = {n: Model(tables[n]) for n in (A, B)}
    use = {A: list(tables[A]), B: ctx.pick(["v1", "unreachable", "corrupt"], ["v1", "v2", "unreachable", "corrupt", "unparsable"])}
    if not ctx.mine(20):
        return
    seen, todo = set(), []
    for what, snap, allowed in starts():
        node = (canon(snap), (allowed, frozenset(["none"])))
        seen.add(node)
        todo.append((snap, {A: allowed, B: frozenset(["none"])}, [what]))
    while todo:
        snap, allowed, trace = todo.pop(0)
        if len(trace) > ctx.pick(12, 12):
            require(False, "no fixpoint")
        for name in (A, B):
            for outcome, use_cache in itertools.product(use[name], (True, False)):
                if name == A and trace[0] != "empty" and len(trace) > 1 and outcome in ("timeout", "404", "empty"):
                    continue
                with ctx.case("history", loads=trace + [(name, outcome, use_cache)]):
                    w.disk.write(snap)
                    kind, body, _ = tables[name][outcome]
                    before = dict(vars(w.loaders[use_cache]))
                    res = w.load(name, use_cache, kind, body)
                    after = models[name].step(allowed[name], use_cache, outcome, *res)
                    require(vars(w.loaders[use_cache]) == before, "the loader itself changed")
                    require(not os.listdir(w.tmp), f"temporary files left: {os.listdir(w.tmp)}")
                    post = w.disk.read()
                    other = B if name == A else A
                    keep = {k: v for k, v in snap.items() if k.split("/")[1:2] == [other]}
                    require({k: v for k, v in post.items() if k.split("/")[1:2] == [other]} == keep, f"loading {name} changed files of {other}")
                    new = dict(allowed)
                    new[name] = after
                    sure = {n for n in (A, B) if not new[n] & {"none", "bad"}}
                    may = {n for n in (A, B) if new[n] != {"none"}}
                    got = w.cached()
                    require(sure <= set(got) <= may and len(got) == len(set(got)), f"cached datasets {got}, sure {sorted(sure)}, possible {sorted(may)}")
                    node = (canon(post), (new[A], new[B]))
                    ctx.transitions += 1
                    if node not in seen:
                        seen.add(node)
                        ctx.outcome(np.frombuffer(repr(sorted(node[0], key=repr)).encode(), dtype=np.uint8))
                        todo.append((post, new, trace + [(name, outcome, use_cache)]))
        ctx.states += 1
    ctx.traces += 1


def crashes(ctx, w):
    """Every crash point, torn write, failing operation and interrupt of one load from every kind of cache."""
    tables = outcomes(A)
    model = Model(tables)
    kinds = [("empty", None), ("plain file", None), ("only TRAIN txt", None), ("stray files", None)] + [("v", v) for v in ctx.pick(("v1", "v3"), ("v1", "v3", "v4", "unparsable"))]
    byname = {s[0]: s for s in starts()}
    runs = ctx.pick(("v1", "v2", "v3", "corrupt", "unreachable"), tuple(tables))
    for (kind, v), outcome, use_cache in itertools.product(kinds, runs, (True, False)):
        if kind == "v" and use_cache and v != "unparsable":
            continue
        if not ctx.mine(3):
            continue
        if kind == "v":
            w.disk.write({"UCR_UEA": None})
            w.load(A, True, *tables[v][:2])
            snap, allowed = w.disk.read(), frozenset(["bad" if v == "unparsable" else v])
        else:
            _, snap, allowed = byname[kind]
        label = v or kind
        # one undisturbed run that records the disk at every file operation
        shots = []

        def record(event, args):
            shots.append((event, args[0] if args else None, w.disk.read()))
        w.disk.write(snap)
        res = w.load(A, use_cache, *tables[outcome][:2], mode=record)
        with ctx.case("undisturbed", cache=label, outcome=outcome, use_cache=use_cache):
            model.step(allowed, use_cache, outcome, *res)
        shots.append(("end", None, w.disk.read()))
        broken = model.broken_step(allowed, outcome)
        done = set()
        for k, (event, path, shot) in enumerate(shots):
            states = [(f"crash before operation {k} ({event})", shot)]
            if event == "open" and k + 1 < len(shots):
                nxt = shots[k + 1][2]
                for f in nxt:
                    if nxt[f] is not None and shot.get(f) != nxt[f]:
                        step = ctx.pick(4, 1) if len(nxt[f]) > 8 else 1
                        states += [(f"crash after {n} bytes of {os.path.basename(f)}", {**nxt, f: nxt[f][:n]}) for n in range(0, len(nxt[f]), step)]
            for what, state in states:
                key = canon(state)
                if key in done:
                    continue
                done.add(key)
                ctx.outcome(np.frombuffer(repr(sorted(key, key=repr)).encode(), dtype=np.uint8))
                with ctx.case("crash", cache=label, outcome=outcome, use_cache=use_cache, at=what):
                    settle(w, model, A, state, broken, what)
                ctx.states += 1
                ctx.transitions += 4
        for k, fault in itertools.product(range(len(shots) - 1), ("enospc", "interrupt")):
            with ctx.case("fault", cache=label, outcome=outcome, use_cache=use_cache, operation=k, event=shots[k][0], fault=fault):
                count = [0]

                def trip(event, args):
                    count[0] += 1
                    if count[0] == k + 1:
                        raise OSError(errno.ENOSPC, "no space left") if fault == "enospc" else KeyboardInterrupt()
                w.disk.write(snap)
                res = w.load(A, use_cache, *tables[outcome][:2], mode=trip)
                r = res[0]
                if isinstance(r, BaseException):
                    require(isinstance(r, (OSError, KeyboardInterrupt)), f"raised {r!r}")
                elif nothing(r):
                    require(res[1], "no RuntimeWarning")
                else:
                    require(any(tables[x][2] is not None and tables[x][2].same(r) for x in broken - {"none", "bad"}), f"result {r}")
                state = w.disk.read()
                settle(w, model, A, state, broken, f"{fault} at operation {k}")
            ctx.states += 1
            ctx.transitions += 5
        ctx.traces += 1


def corruption(ctx, w):
    """Every truncation and every bit flip of small archives."""
    tables = outcomes(A)
    forms = [("txt", zipfile.ZIP_DEFLATED), ("arff", zipfile.ZIP_STORED)] + ctx.pick([], [("txt", zipfile.ZIP_STORED), ("arff", zipfile.ZIP_DEFLATED), ("txt+arff", zipfile.ZIP_DEFLATED)])
    for fmt, method in forms:
        ar = Archive(A, 11, fmt, n=(1, 1), l=2, method=method)
        cases = [("cut", n, ar.body[:n]) for n in range(len(ar.body))]
        for at in range(len(ar.body)):
            for bit in range(8):
                cases.append(("flip", (at, bit), ar.body[:at] + bytes([ar.body[at] ^ (1 << bit)]) + ar.body[at + 1:]))
        cases += [("junk in front", n, b"j" * n + ar.body) for n in (1, 5)] + [("junk behind", n, ar.body + b"j" * n) for n in (1, 5)]
        for lo in range(0, len(cases), 100):
            if not ctx.mine(2):
                continue
            for what, at, body in cases[lo:lo + 100]:
                with ctx.case("corruption", format=fmt, method=method, change=what, at=at):
                    w.disk.write({"UCR_UEA": None})
                    res, warned, _ = w.load(A, True, "ok", body)
                    if nothing(res):
                        require(warned, "no RuntimeWarning")
                        res, warned, req = w.load(A, True, *tables["v2"][:2])
                        require(len(req) == 1 and tables["v2"][2].same(res), f"later load gives {res}")
                    else:
                        require(isinstance(res, tuple) and ar.same(res), f"corrupted archive gives {res}")
                        res, warned, req = w.load(A, True, *tables["v2"][:2])
                        require(not req and ar.same(res), f"later load gives {res}")
                    require(not os.listdir(w.tmp), "temporary files left")
                ctx.states += 1
                ctx.transitions += 2
        ctx.traces += 1


def shapes(ctx, w):
    """Archives of every small shape and format give exactly their data, and again from the cache."""
    for n1, n2, l, d, fmt, extra in itertools.product((1, 2, 3), (1, 2), (1, 2, 3), (1, 2), ("txt", "arff", "txt+arff", "arff+txt"), (False, True)):
        if d == 2 and fmt != "arff" or "arff" in fmt and l == 1 and d == 1:
            continue
        if not ctx.mine():
            continue
        with ctx.case("shape", train=n1, test=n2, length=l, d=d, format=fmt, extra=extra):
            ar = Archive(A, n1 * 7 + n2 * 3 + l, fmt, (n1, n2), l, d, extra=extra)
            w.disk.write({"UCR_UEA": None})
            res, _, req = w.load(A, True, "ok", ar.body)
            require(req == [ROOT + A + ".zip"], f"requests {req}")
            require(ar.same(res), f"loaded {res}, expected {ar.data}")
            res, _, req = w.load(A, True, "unreachable", b"")
            require(not req and ar.same(res), f"from the cache: {res}")
            require(w.cached() == [A], f"cached {w.cached()}")
        ctx.states += 1
        ctx.transitions += 2
    # halves in different formats, unparsable in one of two formats
    parts = [(f, p) for f in ("txt", "arff") for p in ("TRAIN", "TEST")]
    for k in range(1 << 4):
        drop = {p for j, p in enumerate(parts) if k >> j & 1}
        with ctx.case("missing-parts", missing=sorted(drop)):
            ar = Archive(A, 5, "txt+arff", drop=drop)
            w.disk.write({"UCR_UEA": None})
            res, warned, req = w.load(A, True, "ok", ar.body)
            require(ar.same(res) if ar.data is not None else nothing(res) and warned, f"result {res} (RuntimeWarning: {warned})")
            res, warned, req = w.load(A, True, *outcomes(A)["v2"][:2])
            require(ar.same(res) and not req if ar.data is not None else outcomes(A)["v2"][2].same(res), f"later: {res}")
        ctx.states += 1
        ctx.transitions += 2
    names = {"AtrialFibrillation": "AtrialFibrilation", "CinCECGtorso": "CinCECGTorso", "MixedShapes": "MixedShapesRegularTrain",
             "NonInvasiveFetalECGThorax1": "NonInvasiveFatalECGThorax1", "NonInvasiveFetalECGThorax2": "NonInvasiveFatalECGThorax2", "StarlightCurves": "StarLightCurves", "Trace": "Trace"}
    for k, v in names.items():
        with ctx.case("misnamed", name=k):
            ar = Archive(v, 3)
            w.disk.write({"UCR_UEA": None})
            for what, kind in (("download", "ok"), ("cache", "unreachable"), ("cache under its real name", "unreachable")):
                w.server.table = {ROOT + v + ".zip": (kind, ar.body)}
                w.server.log.clear()
                res = w.loaders[True].load_dataset(v if what.endswith("name") else k)
                require(isinstance(res, tuple) and ar.same(res), f"{what}: {res}")
                require(len(w.server.log) == (kind == "ok"), f"{what}: requests {w.server.log}")
        ctx.states += 1


def listing(ctx, w):
    """The summaries and caching everything: one failing dataset does not spoil the others."""
    uni, multi = ["Alpha", "StarlightCurves"], ["Beta"]
    real = {"Alpha": "Alpha", "StarlightCurves": "StarLightCurves", "Beta": "Beta"}
    kinds = ("good", "unreachable", "404", "corrupt", "train-only", "unparsable")
    csvs = {ROOT + "Archives/summaryUnivariate.csv": ("ok", b"problem,train\n" + b"".join(f"{n},2\n".encode() for n in uni)),
            ROOT + "Archives/summaryMultivariate.csv": ("ok", b"Problem,train\n" + b"".join(f"{n},2\n".encode() for n in multi))}
    for use_cache, pattern in itertools.product((True, False), itertools.product(kinds, repeat=3)):
        if not ctx.mine():
            continue
        with ctx.case("cache-all", use_cache=use_cache, outcomes=pattern):
            w.disk.write({})
            w.server.table = dict(csvs)
            ld = w.cls(use_cache=use_cache, root_dir=w.root)
            want = [real[n] for n in uni]
            equal(ld.list_univariate_datasets(), want, "univariate datasets")
            equal(ld.list_multivariate_datasets(), multi, "multivariate datasets")
            equal(ld.list_datasets(), want + multi, "datasets")
            good = {}
            for k, (name, o) in enumerate(zip(want + multi, pattern)):
                ar = Archive(name, 3 + k, n=(2, 2), drop={("txt", "TEST")} if o == "train-only" else (), spoil={("txt", "TEST")} if o == "unparsable" else (), method=zipfile.ZIP_STORED)
                w.server.table[ROOT + name + ".zip"] = ("ok" if o in ("good", "corrupt", "train-only", "unparsable") else o, spoilt(ar.body, f"{name}_TEST.txt") if o == "corrupt" else ar.body)
                if o == "good":
                    good[name] = ar
            w.server.log.clear()
            with warnings.catch_warnings(record=True):
                warnings.simplefilter("always")
                ld.cache_all()
            require(sorted(w.server.zips()) == sorted(ROOT + n + ".zip" for n in want + multi), f"requests {w.server.log}")
            bad = {n for n, o in zip(want + multi, pattern) if o == "unparsable"}
            got = set(ld.list_cached_datasets())
            require(set(good) <= got <= set(good) | bad, f"cached {sorted(got)}, downloaded {sorted(good)}")
            w.server.table = {}
            w.server.log.clear()
            ld = w.cls(use_cache=True, root_dir=w.root)
            for n, ar in good.items():
                require(ar.same(ld.load_dataset(n)), f"{n} from the cache")
            require(not w.server.zips(), f"requests {w.server.zips()}")
        ctx.states += 1
        ctx.transitions += 4


def bundled(ctx):
    """The bundled datasets are exactly the files that come with the library."""
    from tslearn.datasets import CachedDatasets
    import tslearn
    folder = os.path.join(os.path.dirname(tslearn.__file__), ".cached_datasets")
    files = sorted(f[:-4] for f in os.listdir(folder) if f.endswith(".npz"))
    ld = CachedDatasets()
    with ctx.case("bundled-list"):
        equal(sorted(ld.list_datasets()), files, "bundled datasets")
    for f in files:
        with ctx.case("bundled", name=f):
            z = np.load(os.path.join(folder, f + ".npz"))
            first = ld.load_dataset(f)
            for a, k in zip(first, ("X_train", "y_train", "X_test", "y_test")):
                require(a.dtype == z[k].dtype and np.array_equal(a, z[k]), f"{k} differs from the file")
                a[...] = 0
            for a, k in zip(ld.load_dataset(f), ("X_train", "y_train", "X_test", "y_test")):
                require(np.array_equal(a, z[k]), f"{k} differs on the second load")
        ctx.states += 1
