"""C29: the Python multi-process helpers. The modules in /repo/python/copclib/mp are executed symbolically; copclib's
compiled core and the process pool are stand-ins (tasks run in any order, arguments and results are copied, the worker has
its own copy of the modules)."""
import builtins, os, sys, types
from pysym import *
import pysym

P = 2  # points per node at most


class Key:
    def __init__(self, id, kind="key"):
        self.id, self.kind = id, kind

    def __str__(self):
        return "%s-%s" % (self.kind, pysym.S.concretize(self.id))

    def __eq__(self, o):
        return isinstance(o, Key) and self.kind == o.kind and bool(self.id == o.id)

    def __hash__(self):
        return hash(str(self))

    def vpcopy(self):
        return Key(self.id, self.kind)


class Node:
    def __init__(self, id):
        self.id, self.key, self.page_key = id, Key(id), Key(id, "page")

    @property
    def point_count(self):
        return pysym.S.fun("nodecount", [self.id])

    def __eq__(self, o):
        return isinstance(o, Node) and bool(self.id == o.id)

    def __hash__(self):
        return hash(str(self.key))

    def vpcopy(self):
        return Node(self.id)


class NodeList:
    """a list of nodes whose length is symbolic"""

    def __init__(self, n, first=0, step=1):
        self.n, self.first, self.step = n, first, step

    def __symlen__(self):
        return self.n

    def __len__(self):
        return pysym.S.concretize(self.n)

    def __bool__(self):
        return bool(self.n > 0)

    def _clip(self, v, dflt):
        if v is None:
            return dflt
        if v < 0:
            v = v + self.n
            if v < 0:
                return 0
        return self.n if v > self.n else v

    def __getitem__(self, i):
        if isinstance(i, slice):
            st = 1 if i.step is None else pysym.S.concretize(i.step)
            if st != 1:
                r = builtins.range(len(self))[slice(*(pysym.S.concretize(x) for x in (i.start, i.stop, i.step)))]
                return NodeList(builtins.len(r), self.first + (r[0] if r else 0) * self.step, st * self.step)
            a, b = self._clip(i.start, 0), self._clip(i.stop, self.n)
            return NodeList(b - a if b > a else 0, self.first + a, 1) if self.step == 1 else NodeList(b - a if b > a else 0, self.first + a * self.step, self.step)
        if i < 0:
            i = i + self.n
        if i < 0 or i >= self.n:
            raise IndexError("list index out of range")
        return Node(self.first + i * self.step)

    def __iter__(self):
        i = 0
        while i < self.n:
            yield Node(self.first + i * self.step)
            i += 1

    def __add__(self, o):
        return list(self) + list(o)

    def copy(self):
        return NodeList(self.n, self.first, self.step)

    def index(self, x):
        return list(self).index(x)


class Seq:
    """x/y/z of a node's points"""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __symlen__(self):
        return self.n

    def __len__(self):
        return pysym.S.concretize(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.f(k) for k in builtins.range(len(self))[i]]
        if i < 0:
            i = i + self.n
        if i < 0 or i >= self.n:
            raise IndexError("list index out of range")
        return self.f(i)

    def __iter__(self):
        i = 0
        while i < self.n:
            yield self.f(i)
            i += 1

    def symfold(self, less):
        if self.n <= 0:
            raise ValueError("arg is an empty sequence")
        r = self.f(0)
        for k in builtins.range(1, P):
            r = ite(band(k < self.n, less(self.f(k), r)), self.f(k), r)
        return r

    def vpcopy(self):
        return self


class Pt:
    def __init__(self, pts, j):
        self.pts, self.j = pts, j

    x = property(lambda s: s.pts.coord("x", s.j))
    y = property(lambda s: s.pts.coord("y", s.j))
    z = property(lambda s: s.pts.coord("z", s.j))
    classification = property(lambda s: pysym.S.fun("class", [s.pts.id, s.j]))


FORMATS = [(6, 30), (7, 36), (8, 38), (6, 34)]  # point formats and record lengths, the first one is the files'


def stored(v, scale, offset):
    """a coordinate as a record of that scale holds it"""
    from fractions import Fraction
    import z3
    if isinstance(v, Sym):
        k = z3.ToInt((lift(v) - lift(offset)) / lift(scale) + z3.RealVal("1/2"))
        return wrap(z3.ToReal(k) * lift(scale) + lift(offset))
    v, scale, offset = Fraction(v), Fraction(scale), Fraction(offset)
    return pysym.num(((v - offset) / scale + Fraction(1, 2)).__floor__() * scale + offset)


class Points:
    """tag 'in': as read from the node; 'out': as the transform function returned them. grid: the scale and offset of the
    records they were unpacked from"""

    def __init__(self, id, tag="in", grid=None, fmt=None):
        self.id, self.tag, self.grid, self.fmt = id, tag, grid, fmt

    def _fmt(self):
        if self.fmt is not None:
            return self.fmt
        if self.tag != "out" or not pysym.S.params.get("formats"):
            return 0
        f = pysym.S.fun("format", [self.id])
        pysym.S.assume(band(f >= 0, f < builtins.len(FORMATS)))
        return f

    def _pick(self, k):
        f, r = self._fmt(), FORMATS[0][k]
        for i in builtins.range(1, builtins.len(FORMATS)):
            r = ite(f == i, FORMATS[i][k], r)
        return r

    point_format_id = property(lambda s: s._pick(0))
    point_record_length = property(lambda s: s._pick(1))
    eb_byte_size = property(lambda s: s._pick(1) - ite(s._fmt() == 3, 30, s._pick(1)))

    @property
    def n(self):
        s = pysym.S
        c = s.fun("count_" + self.tag, [self.id])
        s.assume(band(c >= 0, c <= P))
        return c

    def coord(self, ax, j):
        v = pysym.S.fun("%s_%s" % (ax, self.tag), [self.id, j], "real")
        return v if self.grid is None else stored(v, self.grid[0]["xyz".index(ax)], self.grid[1]["xyz".index(ax)])

    x = property(lambda s: Seq(lambda j: s.coord("x", j), s.n))
    y = property(lambda s: Seq(lambda j: s.coord("y", j), s.n))
    z = property(lambda s: Seq(lambda j: s.coord("z", j), s.n))

    def __symlen__(self):
        return self.n

    def __len__(self):
        return pysym.S.concretize(self.n)

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        i = 0
        while i < self.n:
            yield Pt(self, i)
            i += 1

    def __getitem__(self, i):
        if i < 0 or i >= self.n:
            raise IndexError("index out of range")
        return Pt(self, i)

    def Pack(self, header):
        return Packed(self, header)

    @staticmethod
    def Unpack(packed, header):
        if packed.compressed:
            raise RuntimeError("not point records")
        return Points(packed.points.id, packed.points.tag, (header.scale.v, header.offset.v), packed.points._fmt())

    def ToPointFormat(self, point_format_id):
        raise NotImplementedError("conversion")

    def vpcopy(self):
        return Points(self.id, self.tag, self.grid, self.fmt)


class Packed:
    def __init__(self, points, header, compressed=False):
        self.points, self.header, self.compressed = points, header, compressed

    def __symlen__(self):
        return ite(self.points.n > 0, 100, 8 if self.compressed else 0)

    def __len__(self):
        return pysym.S.concretize(self.__symlen__())

    def vpcopy(self):
        return Packed(self.points, self.header, self.compressed)


class Vec:
    def __init__(self, v):
        self.v = tuple(v)

    x = property(lambda s: s.v[0])
    y = property(lambda s: s.v[1])
    z = property(lambda s: s.v[2])

    def vpcopy(self):
        return self


class Header:
    point_format_id, point_record_length, eb_byte_size = FORMATS[0] + (0,)

    def __init__(self, who, scale=None, offset=None):
        self.who, self.min, self.max = who, "unset", "unset"
        self.scale, self.offset = scale or Vec((0.25, 0.5, 2.0)), offset or Vec((0.0, 1.5, -4.0) if pysym.S.params.get("how") != 1 else (0.0, 0.125, 1.0))  # with and without zero on the grid

    def vpcopy(self):
        h = Header(self.who, self.scale, self.offset)
        h.min, h.max = self.min, self.max
        return h


class World:
    """one run's environment"""

    def __init__(self, s, repo):
        self.s, self.repo = s, repo
        self.path = "file.copc.laz"
        self.submitted, self.runs, self.opened, self.pools = [], [], [], []
        self.nfut = 0
        self.in_worker = False
        self.mods = [self._load(0), self._load(1)]

    # the library, once for the main process and once for the workers
    def _load(self, side):
        w = self

        class Reader:
            def __init__(self, path):
                self.path = path
                if w.in_worker:
                    w.opened.append(path)

            def GetPoints(self, node):
                if isinstance(node, Key):
                    return Points(node.id)
                return Points(node.id)

            def GetAllNodes(self):
                w.asked.append(("all", None))
                return NodeList(w.L)

            def GetNodesWithinResolution(self, r):
                w.asked.append(("res", r))
                return NodeList(w.L)

        class FileWriter:
            def __init__(self):
                self.header = Header("copc")
                self.copc_config = types.SimpleNamespace(las_header=self.header)
                self.log = []

            def AddNodeCompressed(self, key, data, count, page_key=None):
                self.log.append((key, data, count, page_key))

        class LazWriter:
            def __init__(self):
                self.header = Header("laz")
                self.laz_config = types.SimpleNamespace(las_header=self.header)
                self.log = []

            def WritePointsCompressed(self, data, count):
                self.log.append((None, data, count, None))

        core = types.ModuleType("copclib")
        if side == 0:
            self.cls = (Reader, FileWriter, LazWriter)
        else:
            Reader, FileWriter, LazWriter = self.cls
        core.FileReader, core.FileWriter, core.LazWriter, core.CopcReader = Reader, FileWriter, LazWriter, Reader
        core.Node, core.Points, core.VoxelKey = Node, Points, Key
        core.CompressBytes = lambda packed, header: Packed(packed.points, packed.header if packed.header.who == header.who else None, True)
        mods = {}
        base = self.repo + "/python/copclib/mp"
        fake_cf = self._futures(side)
        real_import = builtins.__import__

        def load(name):
            if name in mods:
                return mods[name]
            m = types.ModuleType("copclib.mp." + name)
            f = "%s/%s.py" % (base, name)
            m.__file__, m.__package__ = f, "copclib.mp"
            m.__builtins__ = bi
            mods[name] = m
            src = SOURCES.get(f)
            if src is None:
                src = SOURCES[f] = compile(open(f).read(), f, "exec")
            exec(src, m.__dict__)
            return m

        pkg = types.ModuleType("copclib.mp")
        core.mp = pkg

        def imp(name, g=None, l=None, fromlist=(), level=0):
            if level > 0:
                if name:
                    return load(name)
                for x in fromlist:
                    setattr(pkg, x, load(x))
                return pkg
            if name.startswith("copclib.mp."):
                m = load(name.split(".")[2])
                setattr(pkg, name.split(".")[2], m)
                return m if fromlist else core
            if name == "copclib.mp":
                for x in fromlist or ():
                    setattr(pkg, x, load(x))
                return pkg if fromlist else core
            if name == "copclib":
                return core
            if name == "numpy":
                return FakeNumpy() if w.s.model is None else real_import("numpy")
            if name == "concurrent.futures":
                return fake_cf if fromlist else types.SimpleNamespace(futures=fake_cf)
            if name == "concurrent":
                return types.SimpleNamespace(futures=fake_cf)
            return real_import(name, g, l, fromlist, level)

        bi = make_builtins(imp)
        ns = types.SimpleNamespace(load=load, mods=mods, core=core)
        return ns

    def read(self):
        return self.mods[0].load("read")

    def transform(self):
        return self.mods[0].load("transform")

    def to_worker(self, f):
        m = getattr(f, "__module__", None)
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(self.repo + "/python"):
            if "<" in f.__qualname__:
                raise AttributeError("Can't pickle local object '%s'" % f.__qualname__)
            name = os.path.basename(f.__code__.co_filename)[:-3]
            o = self.mods[1].load(name)
            for p in f.__qualname__.split("."):
                o = getattr(o, p)
            return o
        return f

    def copy(self, v, side=1):
        if hasattr(v, "vpcopy"):
            return v.vpcopy()
        if type(v) in (list, tuple):
            return type(v)([self.copy(x, side) for x in v])
        if type(v) is dict:
            return {self.copy(k, side): self.copy(x, side) for k, x in v.items()}
        if isinstance(v, types.FunctionType) and side:
            return self.to_worker(v)
        if isinstance(v, self.cls):
            raise TypeError("cannot pickle '%s' object" % type(v).__name__)
        return v

    def _futures(self, side):
        w = self

        class CancelledError(Exception):
            pass

        class Future:
            def __init__(self, pool, fn, a, kw):
                self.pool, self.fn, self.a, self.kw = pool, fn, a, kw
                self.state, self.cbs, self.val, self.exc = 0, [], None, None
                w.nfut += 1
                self.no = w.nfut

            def __hash__(self):
                return self.no

            def run(self):
                if self.state:
                    return
                self.pool.start()
                was, w.in_worker = w.in_worker, True
                try:
                    try:
                        self.val = w.copy(self.fn(*self.a, **self.kw), 0)
                    except Exception as e:
                        self.exc = e
                finally:
                    w.in_worker = was
                self.state = 1
                for c in self.cbs:
                    c(self)

            def result(self, timeout=None):
                self.run()
                if self.exc is not None:
                    raise self.exc
                return self.val

            def exception(self, timeout=None):
                self.run()
                return self.exc

            def done(self):
                return self.state == 1

            def cancelled(self):
                return False

            def cancel(self):
                return False

            def running(self):
                return False

            def add_done_callback(self, c):
                if self.state:
                    c(self)
                else:
                    self.cbs.append(c)

        class Pool:
            def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
                self.init, self.args, self.started, self.all, self.closed = w.copy(initializer), w.copy(initargs), False, [], False
                w.pools.append(self)

            def start(self):
                if not self.started:
                    self.started = True
                    was, w.in_worker = w.in_worker, True
                    try:
                        if self.init is not None:
                            self.init(*self.args)
                    finally:
                        w.in_worker = was

            def submit(self, fn, /, *a, **kw):
                if self.closed:
                    raise RuntimeError("cannot schedule new futures after shutdown")
                f = Future(self, w.copy(fn), w.copy(a), w.copy(kw))
                for x in list(a) + list(kw.values()):
                    if isinstance(x, Node):
                        w.submitted.append(x.id)
                self.all.append(f)
                return f

            def map(self, fn, *its, timeout=None, chunksize=1):
                fs = [self.submit(fn, *a) for a in zip(*its)]

                def gen():
                    for f in fs:
                        yield f.result()

                return gen()

            def shutdown(self, wait=True, cancel_futures=False):
                self.closed = True
                for f in self.all:
                    f.run()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.shutdown()
                return False

        def as_completed(fs, timeout=None):
            left = sorted(set(fs), key=lambda f: f.no)
            while left:
                f = left.pop(w.s.choose("next", len(left)))
                f.run()
                yield f

        def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
            fs = sorted(set(fs), key=lambda f: f.no)
            done, todo = set(f for f in fs if f.state), [f for f in fs if not f.state]
            if return_when == "ALL_COMPLETED":
                while todo:
                    f = todo.pop(w.s.choose("next", len(todo)))
                    f.run()
                    done.add(f)
            elif not done and todo:
                f = todo.pop(w.s.choose("next", len(todo)))
                f.run()
                done.add(f)
            return _DoneAndNotDone(done, set(todo))

        m = types.ModuleType("concurrent.futures")
        m.ProcessPoolExecutor = m.ThreadPoolExecutor = m.Executor = Pool
        m.Future, m.as_completed, m.wait, m.CancelledError = Future, as_completed, wait, CancelledError
        m.ALL_COMPLETED, m.FIRST_COMPLETED, m.FIRST_EXCEPTION = "ALL_COMPLETED", "FIRST_COMPLETED", "FIRST_EXCEPTION"
        return m


import collections

_DoneAndNotDone = collections.namedtuple("DoneAndNotDoneFutures", "done not_done")
SOURCES = {}


class FakeNumpy:
    """numpy whose minima and maxima build terms; everything else is numpy's"""

    def __getattr__(self, n):
        import numpy

        return getattr(numpy, n)

    def _fold(self, a, axis, less):
        import numpy

        if hasattr(a, "symfold"):
            return a.symfold(less)
        a = numpy.array(a, dtype=object)
        if axis is None:
            a, axis = a.reshape(-1), 0
        if a.shape[axis] == 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        a = numpy.moveaxis(a, axis, 0)
        out = a[0]
        if a.ndim == 1:
            r = a[0]
            for x in a[1:]:
                r = ite(less(x, r), x, r)
            return r
        out = numpy.array(out, dtype=object)
        for row in a[1:]:
            new = numpy.empty(out.shape, dtype=object)
            for ix in numpy.ndindex(*out.shape):
                new[ix] = ite(less(row[ix], out[ix]), row[ix], out[ix])
            out = new
        return out

    def min(self, a, axis=None, **kw):
        return self._fold(a, axis, lambda x, y: x < y)

    def max(self, a, axis=None, **kw):
        return self._fold(a, axis, lambda x, y: x > y)

    amin, amax = min, max

    def minimum(self, a, b):
        return self._fold([a, b], 0, lambda x, y: x < y)

    def maximum(self, a, b):
        return self._fold([a, b], 0, lambda x, y: x > y)


class Progress:
    def __init__(self):
        self.resets, self.updates = [], 0

    def reset(self, total=None):
        self.resets.append(total)

    def update(self, n=1):
        self.updates = self.updates + n


def each_once(s, ids, L, label):
    """the ids are exactly 0..L-1, each once"""
    s.check(len(ids) == L, label + ": as many as there are nodes")
    n = builtins.len(ids)
    s.check(band(*[band(i >= 0, i < L) for i in ids]), label + ": only selected nodes")
    s.check(band(*[bnot(ids[a] == ids[b]) for a in builtins.range(n) for b in builtins.range(a)]), label + ": none twice")


def call(f, *a, **kw):
    try:
        return None, f(*a, **kw)
    except Exception as e:
        return e, None


def selection(s, w, kw):
    """nodes given, all nodes, or nodes within a resolution"""
    w.asked = []
    mode = s.choose("mode", 3)
    if mode == 0:
        kw["nodes"] = NodeList(w.L)
        if s.bool("noresolution"):
            r = kw["resolution"] = s.real("resolution")
            s.assume(r <= -1)
    elif mode == 1:
        kw["resolution"] = r = s.real("resolution")
        s.assume(r > -1)
    return mode


def selected(s, w, mode, kw, prog):
    if mode == 0:
        s.check(w.asked == [], "given nodes are used as they are")
    elif mode == 1:
        s.check([a for a, _ in w.asked] == ["res"] and w.asked[0][1] == kw["resolution"], "the nodes within the resolution are selected")
    else:
        s.check([a for a, _ in w.asked] == ["all"], "all nodes are selected")
    if prog is not None:
        s.check(prog.updates == w.L, "progress is reported once per node")
        if mode == 0:
            s.check(len(prog.resets) == 0, "the caller's total is kept")
        else:
            s.check(len(prog.resets) == 1 and prog.resets[0] == w.L, "the total is the number of nodes")


def setup(s, lo=0):
    w = World(s, REPO)
    N = s.params.get("N", 3)
    w.L = s.int("nodes", lo, N)
    w.reader = w.cls[0](w.path)
    return w, N


def chunk(s, kw, N):
    if s.bool("chunked"):
        kw["chunk_size"] = s.int("chunk", 1, N + 1)


def read(s):
    w, N = setup(s)
    kw = {}
    mode = selection(s, w, kw)
    chunk(s, kw, N)
    prog = kw["progress"] = Progress() if s.choose("progress", 2) else None
    args = kw["read_function_args"] = {"extra": 7} if s.choose("args", 2) else {}
    calls, got = [], []

    def fn(points, node, reader, **k):
        calls.append((points, node, reader, k))
        return {"v": Points(node.id, "res")}

    def done(node, **k):
        got.append((node, k))

    if s.choose("callback", 2):
        kw["completed_callback"] = done
    w.read().read_multithreaded(w.reader, fn, **kw)
    selected(s, w, mode, kw, prog)
    each_once(s, w.submitted, w.L, "submitted")
    each_once(s, [c[1].id for c in calls], w.L, "read")
    for p, n, r, k in calls:
        s.check(isinstance(p, Points) and p.tag == "in", "the points of a node")
        s.check(p.id == n.id, "the node's own points are passed")
        s.check(k == args, "the caller's arguments are passed")
        s.check(r.path == w.path and r is not w.reader, "the worker's reader")
    if "completed_callback" in kw:
        each_once(s, [n.id for n, _ in got], w.L, "delivered")
        for n, k in got:
            s.check(list(k) == ["v"] and k["v"].tag == "res", "what the function returned")
            s.check(k["v"].id == n.id, "the result of that node")
    s.check(all(p == w.path for p in w.opened), "workers open the reader's file")
    s.observe("delivered", builtins.len(got))
    for c in calls:
        s.observe("id", c[1].id)
    s.reach("done")
    if builtins.len(calls) > 1:
        s.reach("several")


def write_kind(s, w):
    return w.cls[1 + s.choose("writer", 2)]()


def transform(s):
    w, N = setup(s)
    kw = {}
    full = s.params.get("full", 0)  # every combination of options, or three of them
    opt = s.choose("options", 3)
    mode = selection(s, w, kw) if full else opt
    w.asked = []
    if not full and mode < 2:
        kw.update(nodes=NodeList(w.L)) if mode == 0 else kw.update(resolution=0.5)
    chunk(s, kw, N)
    wr = write_kind(s, w)
    copc = isinstance(wr, w.cls[1])
    mm = kw["update_minmax"] = s.bool("minmax")
    prog = kw["progress"] = Progress() if (s.choose("progress", 2) if full else opt == 1) else None
    calls, got = [], []
    how = s.params.get("how", 2)  # no function, points, points and values
    args = {"extra": 3} if how and opt else {}

    def fn(points, node, writer_header, reader, **k):
        calls.append((points, node, writer_header, reader, k))
        out = Points(node.id, "out")
        return out if how == 1 else (out, {"v": Points(node.id, "res")})

    if how:
        kw["transform_function"], kw["transform_function_args"] = fn, args
    tag = "out" if how else "in"
    if s.choose("callback", 2) if full else opt != 0:
        kw["completed_callback"] = lambda node, point_count, compressed_points, **k: got.append((node, point_count, compressed_points, k))
    inits = []
    if opt == 2:
        kw["mp_init_function"] = lambda **k: inits.append((w.in_worker, k))
        kw["mp_init_function_args"] = {"a": 1}
    w.transform().transform_multithreaded(w.reader, wr, **kw)
    selected(s, w, mode, kw, prog)
    each_once(s, w.submitted, w.L, "submitted")
    if how:
        each_once(s, [c[1].id for c in calls], w.L, "transformed")
    for p, n, h, r, k in calls:
        s.check(band(p.tag == "in", p.id == n.id), "the node's own points are passed")
        s.check(k == args and h.who == wr.header.who and r.path == w.path, "the caller's arguments, the output header and the reader are passed")
    if "completed_callback" in kw:
        each_once(s, [g[0].id for g in got], w.L, "delivered")
        for n, c, d, k in got:
            s.check(band(c == Points(n.id, tag).n, d.points.id == n.id), "the result of that node")
            s.check(list(k) == (["v"] if how == 2 else []), "what the function returned")
            if how == 2:
                s.check(k["v"].id == n.id, "the value of that node")
    if "mp_init_function" in kw and w.submitted:
        s.check(builtins.len(inits) > 0 and all(i == (True, {"a": 1}) for i in inits), "workers are initialised")
    log = [(k, d, c, p) for k, d, c, p in wr.log]
    ids = [d.points.id for _, d, _, _ in log]
    for k, d, c, p in log:
        s.check(d.compressed and d.header is not None and d.header.who == wr.header.who, "packed and compressed for the output header")
        s.check(d.points.tag == tag, "the points the function returned")
        if copc:
            s.check(k.kind == "key" and p is not None and p.kind == "page", "key and page")
            s.check(band(k.id == d.points.id, p.id == d.points.id), "under the node's own key and page")
        s.check(c == Points(d.points.id, tag).n, "with the number of points")
        s.check(c > 0, "empty results are not written")
    n = builtins.len(ids)
    s.check(band(*[bnot(ids[a] == ids[b]) for a in builtins.range(n) for b in builtins.range(a)]), "no node is written twice")
    for i in builtins.range(N):
        s.check(bor(i >= w.L, Points(i, tag).n == 0, *[x == i for x in ids]), "every non-empty result is written")
    if mm:
        if ids:
            for ax in builtins.range(3):
                nm = "xyz"[ax]
                lo, hi = wr.header.min[ax], wr.header.max[ax]
                s.check(builtins.len(wr.header.min) == 3 and builtins.len(wr.header.max) == 3, "three components")
                at_ = lambda i, j: Points(i, tag, (wr.header.scale.v, wr.header.offset.v)).coord(nm, j)
                for i in ids:
                    for j in builtins.range(P):
                        c = at_(i, j)
                        s.check(bor(j >= Points(i, tag).n, band(lo <= c, c <= hi)), "the bounds hold every written point")
                at = lambda v: bor(*[band(j < Points(i, tag).n, v == at_(i, j)) for i in ids for j in builtins.range(P)])
                s.check(band(at(lo), at(hi)), "the bounds are those of written points")
            s.reach("minmax")
    else:
        s.check(wr.header.min == "unset" and wr.header.max == "unset", "the header's bounds are left alone unless requested")
    s.observe("written", n)
    for i in ids:
        s.observe("id", i)
    s.reach("done")
    if n > 1:
        s.reach("several")


def formats(s):
    """results whose points aren't of the writer's format are rejected, none is written"""
    w, N = setup(s)
    kw = {"nodes": NodeList(w.L), "update_minmax": bool(s.choose("minmax", 2))}
    w.asked = []
    wr = write_kind(s, w)
    two = s.choose("values", 2)
    fn = lambda points, node, **k: (Points(node.id, "out"), {"v": 1}) if two else Points(node.id, "out")
    e, _ = call(w.transform().transform_multithreaded, w.reader, wr, fn, **kw)
    bad = lambda i: band(Points(i, "out").n > 0, bnot(Points(i, "out")._fmt() == 0))
    s.check(lift(e is not None) is not None and pysym.wrap(lift(bor(*[band(i < w.L, bad(i)) for i in builtins.range(N)])) == lift(e is not None)), "rejected exactly when the points can't be written")
    for k, d, c, p in wr.log:
        s.check(d.points._fmt() == 0, "what is written is of the writer's format")
    s.observe("written", builtins.len(wr.log))
    s.reach("done" if e is None else "rejected")


def rejected(s):
    """nodes and a resolution, unknown writers, reserved names"""
    w, N = setup(s, 1)
    w.asked = []
    tr = s.choose("transform", 2)
    kw = {}
    what = s.choose("what", 3)
    calls = []
    if what == 0:
        kw["nodes"] = NodeList(s.int("given", 0, N)) if s.choose("list", 2) else []
        kw["resolution"] = r = s.real("resolution")
        s.assume(r > -1)
        bad = True
    elif what == 1:
        names = ["points", "node", "reader"] + (["writer_header"] if tr else []) + ["other"]
        n = names[s.choose("name", builtins.len(names))]
        kw["transform_function_args" if tr else "read_function_args"] = {"first": 1, n: 2} if s.choose("two", 2) else {n: 2}
        bad = n != "other"
    else:
        if not tr:
            return
        bad = True

    def fn(points, node, reader, writer_header=None, other=None, first=None):
        calls.append(node)
        return points if tr else {"v": 1}

    if what == 1 and s.choose("greedy", 2):
        fn = lambda **k: (calls.append(k["node"]), Points(0) if tr else {"v": 1})[1]
    if tr:
        wr = write_kind(s, w) if what < 2 else object()
        e, _ = call(w.transform().transform_multithreaded, w.reader, wr, fn, **kw)
        written = builtins.len(wr.log) if what < 2 else 0
    else:
        e, _ = call(w.read().read_multithreaded, w.reader, fn, **kw)
        written = 0
    s.check((e is not None) == bad, "rejected exactly when it must be")
    if bad:
        s.check(builtins.len(calls) == 0 and written == 0, "before anything is done")
    s.observe("bad", bad)
    s.reach("rejected" if bad else "done")


def failing(s):
    """an error in the user's function reaches the caller"""
    w, N = setup(s, 1)
    w.asked = []
    kw = {}
    chunk(s, kw, N)
    tr = s.choose("transform", 2)
    k = s.int("failing", 0, N)
    s.assume(k < w.L)

    def fn(points, node, **_):
        if node.id == k:
            raise ValueError("user error")
        return points if tr else {"v": 1}

    if tr:
        e, _ = call(w.transform().transform_multithreaded, w.reader, write_kind(s, w), fn, **kw)
    else:
        e, _ = call(w.read().read_multithreaded, w.reader, fn, **kw)
    s.check(isinstance(e, ValueError) and str(e) == "user error", "the error reaches the caller")
    s.reach("done")


LIMITS = [None, [], [2], [2, 5]]


def matching(s, lim, i, j):
    if not lim:
        return True
    c = s.fun("class", [i, j])
    return bor(*[c == l for l in lim])


def concat(s):
    w, N = setup(s)
    kw = {}
    w.asked = []
    lim = LIMITS[s.params["limits"] if "limits" in s.params else s.choose("limits", builtins.len(LIMITS))]
    mode = selection(s, w, kw) if s.params.get("full", 0) else 2
    chunk(s, kw, N)
    out = w.read().read_concat_xyz_class_limit(w.reader, lim, **kw)
    selected(s, w, mode, kw, None)
    each_once(s, w.submitted, w.L, "submitted")
    rows = [list(r) for r in out]
    s.check(out.shape == (builtins.len(rows), 3), "n x 3 coordinates")
    check_rows(s, w, N, lim, rows, None)
    s.observe("rows", builtins.len(rows))
    s.reach("done")


def distinct(s, N):
    """all points differ (so that the rows tell which point they are)"""
    for ax in "xyz":
        v = [s.fun(ax + "_in", [i, j], "real") for i in builtins.range(N) for j in builtins.range(P)]
        s.assume(band(*[bnot(v[a] == v[b]) for a in builtins.range(builtins.len(v)) for b in builtins.range(a)]))


def check_rows(s, w, N, lim, rows, only):
    distinct(s, N)
    is_ = lambda r, i, j: band(*[r[k] == s.fun("xyz"[k] + "_in", [i, j], "real") for k in builtins.range(3)])
    pts = [(i, j) for i in (builtins.range(N) if only is None else [only]) for j in builtins.range(P)]
    for i, j in pts:
        want = band(i < w.L, j < Points(i).n, matching(s, lim, i, j))
        eq = [is_(r, i, j) for r in rows]
        one = band(bor(*eq), *[bnot(band(eq[a], eq[b])) for a in builtins.range(builtins.len(eq)) for b in builtins.range(a)])
        s.check(bor(band(want, one), band(bnot(want), bnot(bor(*eq)))), "every matching point exactly once and no other")
    s.check(band(*[bor(*[is_(r, i, j) for i, j in pts]) for r in rows]), "nothing else is returned")


def keymap(s):
    w, N = setup(s)
    kw = {}
    w.asked = []
    lim = LIMITS[s.params["limits"] if "limits" in s.params else s.choose("limits", builtins.len(LIMITS))]
    mode = selection(s, w, kw) if s.params.get("full", 0) else 2
    chunk(s, kw, N)
    out = w.read().read_map_xyz_class_limit(w.reader, lim, **kw)
    selected(s, w, mode, kw, None)
    each_once(s, w.submitted, w.L, "submitted")
    for k in out:
        s.check(k in ["key-%d" % i for i in builtins.range(N)], "nodes are named by their key")
    for i in builtins.range(N):
        rows = [list(r) for r in out.get("key-%d" % i, [])]
        if "key-%d" % i in out:
            s.check(builtins.len(rows) > 0, "nodes without matching points are left out")
        check_rows(s, w, N, lim, rows, i)
    s.observe("keys", builtins.len(out))
    s.reach("done")


def badargs(s):
    w, N = setup(s, 1)
    w.asked = []
    m = s.choose("map", 2)
    f = w.read().read_map_xyz_class_limit if m else w.read().read_concat_xyz_class_limit
    what = s.choose("what", 4)
    if what < 3:
        e, _ = call(f, w.reader, [2], **{["completed_callback", "read_function", "read_function_args"][what]: lambda **k: None})
    else:
        e, _ = call(f, w.reader, [(2, 5), 2][s.choose("limits", 2)])
    s.check(e is not None, "arguments the helper sets itself, and limits that are not a list, are rejected")
    s.check(w.submitted == [], "before anything is done")
    s.reach("rejected")


ENTRIES = dict(C29_read=read, C29_transform=transform, C29_rejected=rejected, C29_formats=formats, C29_failing=failing, C29_concat=concat, C29_map=keymap, C29_badargs=badargs)
REPO = "/repo"
