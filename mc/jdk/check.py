#!/usr/bin/env python3
"""check.py [--writer [PROPERTIES] | DUMPS...]: binds the checker's writer of dumps to a real JVM (not run by the checks; needs javac and java).

1. App.java is started, its heap is dumped with `jcmd GC.heap_dump`, and `jcmd Thread.print` and
   `VM.system_properties` say what the JVM itself says about it.
2. A strict reader of HPROF (Python, written from the format's description alone; it knows neither the
   repository's code nor hprof.go) must consume every byte of that dump.
3. What the reader finds must be what jcmd printed, and what neojhat reports for the dump must be what the reader found.
4. The same reader must consume every byte of dumps written by the checker (--writer, or arguments), and uses the same rules for them.
"""
import collections, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = {4: "boolean", 5: "char", 6: "float", 7: "double", 8: "byte", 9: "short", 10: "int", 11: "long"}
SIZES = {4: 1, 5: 2, 6: 4, 7: 8, 8: 1, 9: 2, 10: 4, 11: 8}
ROOTS = {0xFF: "", 0x01: "i", 0x02: "44", 0x03: "44", 0x04: "4", 0x05: "", 0x06: "4", 0x07: "", 0x08: "44"}


def text(b):  # modified UTF-8, or UTF-8
    return b.decode("utf-8", "surrogatepass").encode("utf-16-be", "surrogatepass").decode("utf-16-be", "replace")


class Dump:
    def __init__(self, data):
        self.d, self.p = data, 0
        assert self.take(19) in (b"JAVA PROFILE 1.0.2\0", b"JAVA PROFILE 1.0.1\0"), "header"
        self.ids = self.u4()
        assert self.ids in (4, 8)
        self.ts = self.u8()
        self.strs, self.load, self.serials, self.frames, self.traces = {}, {}, {}, {}, {}
        self.cls, self.inst, self.oarr, self.parr = {}, {}, {}, {}
        self.roots = collections.Counter()
        self.root_threads, self.locals, self.segments, self.ended = [], [], 0, False
        self.kinds = collections.Counter()
        while self.p < len(data):
            assert not self.ended, "records after the end"
            tag, _, n = self.u1(), self.u4(), self.u4()
            end = self.p + n
            self.kinds[tag] += 1
            if tag == 1:
                i = self.id()
                assert i not in self.strs, "string twice"
                self.strs[i] = self.take(n - self.ids)
            elif tag == 2:
                s, c, _, m = self.u4(), self.id(), self.u4(), self.id()
                self.load[c] = (s, m)
                assert s not in self.serials, "class serial twice"
                self.serials[s] = c
            elif tag == 4:
                f = self.id()
                self.frames[f] = (self.id(), self.id(), self.id(), self.u4(), struct.unpack(">i", self.take(4))[0])
            elif tag == 5:
                s, t, k = self.u4(), self.u4(), self.u4()
                assert s not in self.traces, "trace twice"
                self.traces[s] = (t, [self.id() for _ in range(k)])
            elif tag in (0x0C, 0x1C):
                self.segments += 1
                if n == 0:
                    end = None
                self.segment(end)
                end = self.p if end is None else end
            elif tag == 0x2C:
                assert n == 0
                self.ended = True
            else:
                raise AssertionError("tag %x" % tag)
            assert self.p == end, "record %x ends at %d, not %d" % (tag, self.p, end)

    def take(self, n):
        b = self.d[self.p:self.p + n]
        assert len(b) == n, "cut"
        self.p += n
        return b

    def u1(self): return self.take(1)[0]
    def u2(self): return struct.unpack(">H", self.take(2))[0]
    def u4(self): return struct.unpack(">I", self.take(4))[0]
    def u8(self): return struct.unpack(">Q", self.take(8))[0]
    def id(self): return self.u8() if self.ids == 8 else self.u4()
    def size(self, t): return self.ids if t == 2 else SIZES[t]

    def val(self, t):
        if t == 2: return self.id()
        return struct.unpack({4: ">B", 5: ">H", 6: ">f", 7: ">d", 8: ">b", 9: ">h", 10: ">i", 11: ">q"}[t], self.take(SIZES[t]))[0]

    def segment(self, end):
        while self.p < (len(self.d) if end is None else end):
            k = self.u1()
            if end is None and k in (0x1C, 0x2C, 0x0C):
                self.p -= 1
                return
            if k in ROOTS:
                o = self.id()
                rest = [self.id() if x == "i" else self.u4() for x in ROOTS[k]]
                self.roots[k] += 1
                if k == 8: self.root_threads.append((o, *rest))
                if k == 3: self.locals.append((o, *rest))
            elif k == 0x20:
                c, _, sup = self.id(), self.u4(), self.id()
                for _ in range(5): self.id()
                size = self.u4()
                consts = [(self.u2(), self.val(self.u1())) for _ in range(self.u2())]
                statics, fields = [], []
                for _ in range(self.u2()):
                    n, t = self.id(), self.u1()
                    statics.append((self.name(n), t, self.val(t)))
                for _ in range(self.u2()):
                    n = self.id()
                    fields.append((self.name(n), self.u1()))
                assert c not in self.cls, "class twice"
                self.cls[c] = (sup, size, statics, fields)
            elif k == 0x21:
                o, _, c, n = self.id(), self.u4(), self.id(), self.u4()
                self.inst[o] = (c, self.take(n))
            elif k == 0x22:
                o, _, n, c = self.id(), self.u4(), self.u4(), self.id()
                self.oarr[o] = (c, [self.id() for _ in range(n)])
            elif k == 0x23:
                o, _, n, t = self.id(), self.u4(), self.u4(), self.u1()
                self.parr[o] = (t, self.take(n * self.size(t)))
            else:
                raise AssertionError("sub-record %x" % k)

    # meaning
    def name(self, i): return text(self.strs[i]) if i in self.strs else None
    def cname(self, c): return self.name(self.load[c][1])

    def by_name(self, n): return next(c for c in self.cls if self.cname(c) == n)

    def fields(self, o):
        c, data = self.inst[o]
        p, out = 0, []
        while c:
            sup, _, _, fs = self.cls[c]
            for n, t in fs:
                s = self.size(t)
                raw = data[p:p + s]
                p += s
                v = int.from_bytes(raw, "big") if t == 2 else struct.unpack({4: ">B", 5: ">H", 6: ">f", 7: ">d", 8: ">b", 9: ">h", 10: ">i", 11: ">q"}[t], raw)[0]
                out.append((self.cname(c), n, v))
            c = sup
        assert p == len(data), "data of %s: %d of %d" % (self.cname(self.inst[o][0]), p, len(data))
        return out

    def field(self, o, n, cls=None):
        return next(v for c, f, v in self.fields(o) if f == n and cls in (None, c))

    def string(self, o):
        b = self.parr[self.field(o, "value")][1]
        return b.decode("latin-1" if self.field(o, "coder") == 0 else "utf-16-le")

    def properties(self):
        statics = self.cls[self.by_name("java/lang/System")][2]
        m = self.field(next(v for n, _, v in statics if n == "props"), "map")
        out = {}
        def add(n):
            while n:
                out[self.string(self.field(n, "key"))] = self.string(self.field(n, "val"))
                n = self.field(n, "next")
        for n in self.oarr[self.field(m, "table")][1]:
            if n:
                if self.cname(self.inst[n][0]).endswith("$TreeBin"):
                    n = self.field(n, "first")
                    self.trees = getattr(self, "trees", 0) + 1
                add(n)
        return out

    def tables(self):
        count = collections.Counter()
        size = collections.Counter()
        for c, data in self.inst.values():
            n = self.cname(c)
            count[n] += 1
            assert len(data) == sum(self.size(t) for k in self.chain(c) for _, t in self.cls[k][3])
            size[n] += self.cls[c][1]
        for c, es in self.oarr.values():
            count[self.cname(c)] += 1
            size[self.cname(c)] += len(es) * self.ids
        for t, b in self.parr.values():
            count[NAMES[t] + "[]"] += 1
            size[NAMES[t] + "[]"] += len(b)
        return count, size

    def chain(self, c):
        while c:
            yield c
            c = self.cls[c][0]


def java(desc):
    dims = len(desc) - len(desc.lstrip("["))
    d = desc[dims:]
    base = d[1:-1].replace("/", ".") if d.startswith("L") else dict(B="byte", C="char", D="double", F="float", I="int", J="long", S="short", Z="boolean", V="void")[d]
    return base + "[]" * dims


def shown(c):
    if c.startswith("["):
        return java(c)
    return c.replace("/", ".")


def frame(d, f):
    m, s, file, serial, line = d.frames[f]
    a, r = re.match(r"\((.*)\)(.*)", d.name(s)).groups()
    args = ", ".join(java(x) for x in re.findall(r"\[*(?:L[^;]*;|[BCDFIJSZ])", a))
    where = {-1: " [unknown]", -2: " [compiled]", -3: " [native]"}.get(line, ":%d" % line)
    return shown(d.cname(d.serials[serial])), d.name(m), args, java(r), d.name(file), line


def same(what, a, b):
    if a == b:
        print("ok  ", what)
        return
    if isinstance(a, dict):
        a, b = [{k: v for k, v in x.items() if k not in y or y[k] != v} for x, y in ((a, b), (b, a))]
    print("DIFF", what, "\n   ", str(a)[:1500], "\n   ", str(b)[:1500])
    sys.exit(1)


def jdk():
    w = tempfile.mkdtemp(prefix="jdk-")
    env = dict(os.environ, LC_ALL="C.UTF-8")
    try:
        shutil.copy(HERE + "/App.java", w)
        subprocess.run(["javac", "-encoding", "UTF-8", "App.java"], cwd=w, env=env, check=True)
        subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd /repo && go build -buildvcs=false -o %s/neojhat ./cmd/neojhat" % w], check=True)
        app = subprocess.Popen(["java", "-Xmx64m", "App"], cwd=w, env=env, stdout=subprocess.PIPE)
        try:
            while app.stdout.readline().strip() != b"ready":
                assert app.poll() is None
            jcmd = lambda *a: subprocess.run(["jcmd", str(app.pid), *a], cwd=w, env=env, check=True, stdout=subprocess.PIPE).stdout.decode("utf-8")
            jcmd("GC.heap_dump", w + "/a.hprof")
            said, props = jcmd("Thread.print"), jcmd("VM.system_properties")
        finally:
            app.kill()
            app.wait()
        d = Dump(open(w + "/a.hprof", "rb").read())
        print("dump: %d bytes, %d classes, %d objects, kinds %s" % (len(d.d), len(d.cls), len(d.inst) + len(d.oarr) + len(d.parr), dict(d.kinds)))
        # the reader and the JVM
        want = {}
        for line in props.split("\n"):
            if line and not line.startswith("#") and "=" in line and not re.match(r"^\d+:$", line):
                k, v = re.match(r"((?:\\.|[^=\\])*)=(.*)", line).groups()
                un = lambda s: re.sub(r"\\(u[0-9A-Fa-f]{4}|.)", lambda m: chr(int(m[1][1:], 16)) if len(m[1]) == 5 else {"n": "\n", "t": "\t", "r": "\r"}.get(m[1], m[1]), s).encode("utf-16-be", "surrogatepass").decode("utf-16-be")
                want[un(k)] = un(v)
        got = d.properties()
        same("properties: the dump's are the JVM's (%d, %d tree bins)" % (len(got), getattr(d, "trees", 0)), got, want)
        assert d.trees > 0
        threads = {}
        for m in re.finditer(r'^"(.*)" #(\d+) (daemon )?prio=(\d+).*\n   java.lang.Thread.State: (\w+)(.*)\n((?:\t.*\n)*)', said, re.M):
            threads[int(m[2])] = (m[1], bool(m[3]), int(m[4]), m[5], [x for x in re.findall(r"\tat (.*)\(", m[7])])
        T = "java/lang/Thread"
        found = {}
        state = lambda s: "TERMINATED" if s & 2 else "RUNNABLE" if s & 4 else "BLOCKED" if s & 0x400 else "WAITING" if s & 0x10 else "TIMED_WAITING" if s & 0x20 else "NEW" if s & 1 == 0 else "?"
        for o, serial, trace in d.root_threads:
            fs = d.traces[trace][1]
            found[d.field(o, "tid", T)] = (d.string(d.field(o, "name", T)), bool(d.field(o, "daemon", T)), d.field(o, "priority", T), state(d.field(o, "threadStatus", T)),
                                           [(lambda x: x[0] + "." + x[1])(frame(d, f)) for f in fs])
        strip = lambda t: {k: (v[0], v[1], v[2], v[3], [re.sub(r"^.*@[^/]*/", "", re.sub(r"[$](\d+|\$Lambda).*?/0x[0-9a-f]+|\$\$Lambda\$[^.]*", "$L", f)) for f in v[4]]) for k, v in t.items()}
        a, b = strip(found), strip(threads)
        a = {k: (re.sub("[\U00010000-\U0010ffff]", "\ufffd\ufffd", v[0]), *v[1:]) for k, v in a.items()}  # jcmd cannot print them
        busy = [k for k in b if "Monitor" in b[k][0] or "Attach" in b[k][0]]
        for k in busy:
            a.pop(k, 0), b.pop(k, 0)
        # Thread.State of a thread that waits in native code of the VM
        same("threads: names, daemons, priorities, states, frames (%d)" % len(a), a, {k: v for k, v in b.items() if k in a})
        # the reader and neojhat
        def run(*args):
            r = subprocess.run([w + "/neojhat", *args, "--hprof", w + "/a.hprof", "--no-color", "--non-interactive"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            assert r.returncode == 0, r.stderr
            return r.stdout.decode("utf-8")
        summary = run("summary", "--all-props=true")
        i = summary.index("\n", summary.index("roperties"))
        rest = summary[i:]
        missing = [k for k, v in got.items() if "%s" % k not in rest or v.split("\n")[0] not in rest]
        same("summary: every property is printed", missing, [])
        count, size = d.tables()
        out = run("objects")
        rows = collections.Counter()
        for m in re.finditer(r"^(.*?) +\| +(\d+) \(\d+%\) \| +\d+\w+ \(\d+%\) \|$", out, re.M):
            rows[m[1]] += int(m[2])
        counts = collections.Counter()
        for k, v in count.items():
            counts[shown(k)] += v
        same("objects: counts of %d classes" % len(counts), dict(rows), dict(counts))
        same("objects: total", int(re.search(r"Instances: (\d+)", out)[1]), sum(count.values()))
        out = run("threads", "--local-vars=true")
        blocks = {}
        for m in re.finditer(r'^"(.*)",(?: daemon,)? ID=(\d+), prio=(\d+), status=(.*)\n((?: .*\n)*)', out, re.M):
            blocks[int(m[2])] = (m[1], int(m[3]), m[5])
        same("threads: all of them", sorted(blocks), sorted(found))
        for o, serial, trace in d.root_threads:
            k = d.field(o, "tid", T)
            same("threads: %r" % found[k][0], blocks[k][:2], (found[k][0], found[k][2]))
            lines = blocks[k][2].split("\n")
            fl = [x for x in lines if re.match(r"    \S", x)]
            for line, f in zip(fl, d.traces[trace][1]):
                c, m, args, ret, file, no = frame(d, f)
                assert line.strip().startswith("%s %s.%s(%s)" % (ret, c, m, args)), (line, frame(d, f))
                assert no <= 0 or line.endswith("%s:%d" % (file, no)), (line, no)
            same("threads: frames", len(fl), len(d.traces[trace][1]))
            for n in range(len(fl)):
                want = sorted(shown(d.cname(d.inst[x][0])) if x in d.inst else shown(d.cname(d.oarr[x][0])) if x in d.oarr else NAMES[d.parr[x][0]] + "[]" if x in d.parr else "class"
                              for x, s, i in d.locals if s == serial and i == n)
                j = lines.index(fl[n]) if fl.count(fl[n]) == 1 else None
                if j is None: continue
                here = []
                for x in lines[j + 1:]:
                    if not re.match(r"     ", x): break
                    here.append(x)
                assert len(here) == len(want), (fl[n], here, want)
        print("ok   threads: locals of every frame")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def judge(p):
    d = Dump(open(p, "rb").read())
    for o in d.inst:
        d.fields(o)
    return d


def writer(props):
    """Collects dumps that the checker writes for the properties about reports, and judges each."""
    w = tempfile.mkdtemp(prefix="writer-")
    try:
        subprocess.run(["bash", HERE + "/../build.sh", w + "/out"], check=True, stderr=subprocess.DEVNULL)
        for p in props:
            os.mkdir(w + "/dumps")
            subprocess.run([w + "/out/verifmc", "-prop", p, "-seconds", "30", "-verif", w + "/v"], env=dict(os.environ, VERIF_EXPORT=w + "/dumps"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            n, size, kinds = 0, 0, collections.Counter()
            for f in os.listdir(w + "/dumps"):
                f = w + "/dumps/" + f
                try:
                    d = judge(f)
                except Exception as e:
                    keep = tempfile.mktemp(suffix=".hprof")
                    shutil.copy(f, keep)
                    print("DIFF", p, keep, repr(e))
                    sys.exit(1)
                n, size = n + 1, size + len(d.d)
                kinds.update(d.kinds)
            print("ok  ", p, n, "dumps,", size, "bytes,", dict(kinds))
            shutil.rmtree(w + "/dumps")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if sys.argv[1:2] == ["--writer"]:
    writer(sys.argv[2:] or "C02 C12 C13 C14 C15 C16 C17 C18 C19 C21 C22 C23 C24 C25 C28".split())
else:
    for p in sys.argv[1:]:
        print("ok  ", p, dict(judge(p).kinds))
    if len(sys.argv) == 1:
        jdk()
