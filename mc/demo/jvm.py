"""A small writer of heap dumps (HPROF 1.0.2) and a runner of neojhat, for demonstrations."""
import os, shutil, struct, subprocess, sys, tempfile

OBJ, BOOL, CHAR, FLOAT, DOUBLE, BYTE, SHORT, INT, LONG = 2, 4, 5, 6, 7, 8, 9, 10, 11
FMT = {BOOL: ">B", CHAR: ">H", FLOAT: ">f", DOUBLE: ">d", BYTE: ">b", SHORT: ">h", INT: ">i", LONG: ">q"}
u1, u2, u4, u8 = (lambda f: lambda x: struct.pack(f, x))(">B"), (lambda x: struct.pack(">H", x)), (lambda x: struct.pack(">I", x)), (lambda x: struct.pack(">Q", x))


class JVM:
    def __init__(self, ids=8, ts=1700000045813):
        self.ids, self.ts = ids, ts
        self.next = 0x100
        self.strs, self.classes = {}, {}
        self.meta = []      # top-level records
        self.sub = []       # class and root sub-records
        self.objs = []      # (id, bytes)
        self.serial = 0
        self.pending = {}   # class name -> [id, super, fields, statics, constants]
        o = self.cls("java/lang/Object", None)
        self.cls("java/lang/String", "java/lang/Object", [("value", OBJ), ("hash", INT), ("coder", BYTE)])
        self.cls("java/lang/Thread", "java/lang/Object", [("eetop", LONG), ("tid", LONG), ("name", OBJ), ("priority", INT), ("daemon", BOOL), ("threadStatus", INT)])

    def id(self):
        self.next += 8
        return self.next

    def I(self, x):
        return u8(x) if self.ids == 8 else u4(x)

    def val(self, t, v):
        return self.I(v) if t == OBJ else struct.pack(FMT[t], v)

    def rec(self, tag, body):
        self.meta.append(u1(tag) + u4(0) + u4(len(body)) + body)

    def str(self, s):
        if s not in self.strs:
            self.strs[s] = self.id()
            self.rec(1, self.I(self.strs[s]) + (s if isinstance(s, bytes) else s.encode()))
        return self.strs[s]

    def load(self, name):
        self.serial += 1
        i = self.id()
        self.rec(2, u4(self.serial) + self.I(i) + u4(0) + self.I(self.str(name)))
        return i, self.serial

    def cls(self, name, sup, fields=(), statics=(), consts=()):
        i, serial = self.load(name)
        self.classes[name] = dict(id=i, serial=serial, sup=sup, fields=list(fields), statics=list(statics), consts=list(consts))
        for f, _ in fields:
            self.str(f)
        return i

    def chain(self, name):
        while name is not None:
            yield name, self.classes[name]
            name = self.classes[name]["sup"]

    def size(self, t):
        return self.ids if t == OBJ else struct.calcsize(FMT[t])

    def class_dump(self, name):
        c = self.classes[name]
        b = u1(0x20) + self.I(c["id"]) + u4(0) + self.I(self.classes[c["sup"]]["id"] if c["sup"] else 0) + self.I(0) * 5
        b += u4(c.get("size", sum(self.size(t) for _, k in self.chain(name) for _, t in k["fields"])))
        b += u2(len(c["consts"])) + b"".join(u2(n + 1) + u1(t) + self.val(t, v) for n, (t, v) in enumerate(c["consts"]))
        b += u2(len(c["statics"])) + b"".join(self.I(self.str(n)) + u1(t) + self.val(t, v) for n, t, v in c["statics"])
        b += u2(len(c["fields"])) + b"".join(self.I(self.str(n)) + u1(t) for n, t in c["fields"])
        return b

    def new(self, cname, vals=None, oid=None):
        """vals: {"field": v} (first declaration from the most derived class) or {"Class:field": v}"""
        vals = dict(vals or {})
        data, used = b"", set()
        for n, c in self.chain(cname):
            for f, t in c["fields"]:
                if n + ":" + f in vals:
                    v = vals[n + ":" + f]
                elif f not in used:
                    v = vals.get(f, 0)
                    used.add(f)
                else:
                    v = 0
                data += self.val(t, v)
        i = oid or self.id()
        self.objs.append((i, u1(0x21) + self.I(i) + u4(0) + self.I(self.classes[cname]["id"]) + u4(len(data)) + data))
        return i

    def oarr(self, cname, elems, oid=None):
        i = oid or self.id()
        if cname not in self.classes:
            self.cls(cname, "java/lang/Object")
        self.objs.append((i, u1(0x22) + self.I(i) + u4(0) + u4(len(elems)) + self.I(self.classes[cname]["id"]) + b"".join(map(self.I, elems))))
        return i

    def parr(self, t, data, oid=None):
        i = oid or self.id()
        self.objs.append((i, u1(0x23) + self.I(i) + u4(0) + u4(len(data) // self.size(t)) + u1(t) + data))
        return i

    def jstr(self, s, coder=None):
        if coder is None:
            coder = 0 if all(ord(c) < 256 for c in s) else 1
        return self.new("java/lang/String", {"value": self.parr(BYTE, s.encode("latin-1" if coder == 0 else "utf-16-le")), "coder": coder})

    def frame(self, cname, method, desc, file, line, fid=None):
        f = fid or self.id()
        self.rec(4, self.I(f) + self.I(self.str(method)) + self.I(self.str(desc)) + self.I(self.str(file) if file else 0) + u4(self.classes[cname]["serial"]) + struct.pack(">i", line))
        return f

    def root(self, kind, obj, *rest):
        b = u1(kind) + self.I(obj)
        if kind == 0x01:
            b += self.I(rest[0] if rest else 1)
        else:
            b += b"".join(map(u4, rest))
        self.sub.append(b)

    def thread(self, name, tid, serial, frames=(), cname="java/lang/Thread", prio=5, daemon=False, status=5, extra=None, coder=None):
        v = dict(extra or {})
        p = "java/lang/Thread:"
        v.update({p + "name": self.jstr(name, coder), p + "tid": tid, p + "priority": prio, p + "daemon": int(daemon), p + "threadStatus": status})
        t = self.new(cname, v)
        self.rec(5, u4(serial + 1) + u4(serial) + u4(len(frames)) + b"".join(map(self.I, frames)))
        self.root(0x08, t, serial, serial + 1)
        return t

    def summary(self, props, start=1700000000000, slots=None, table=None):
        """slots: lists of indices of props chained in one slot of the hash table"""
        O = "java/lang/Object"
        c, n = "java/util/concurrent/ConcurrentHashMap", "java/util/concurrent/ConcurrentHashMap$Node"
        self.cls("java/lang/System", O)
        self.cls("java/util/Hashtable", O, [("table", OBJ), ("count", INT)])
        self.cls("java/util/Properties", "java/util/Hashtable", [("defaults", OBJ), ("map", OBJ)])
        self.cls(c, O, [("table", OBJ), ("baseCount", LONG)])
        self.cls(n, O, [("hash", INT), ("key", OBJ), ("val", OBJ), ("next", OBJ)])
        self.cls("sun/management/ManagementFactoryHelper", O)
        self.cls("sun/management/RuntimeImpl", O, [("jvm", OBJ), ("vmStartupTime", LONG)])
        ks = [(self.jstr(k), self.jstr(v)) for k, v in props]
        heads = []
        for s in slots or [[i] for i in range(len(props))]:
            ids = [self.id() for _ in s] + [0]
            for j, i in enumerate(s):
                self.new(n, {"key": ks[i][0], "val": ks[i][1], "next": ids[j + 1]}, oid=ids[j])
            heads.append(ids[0])
        m = self.new(c, {"table": self.oarr("[L" + n + ";", heads, oid=table)})
        self.classes["java/lang/System"]["statics"].append(("props", OBJ, self.new("java/util/Properties", {"map": m})))
        self.classes["sun/management/ManagementFactoryHelper"]["statics"].append(("runtimeMBean", OBJ, self.new("sun/management/RuntimeImpl", {"vmStartupTime": start})))

    def bytes(self, end=True, after=b"", nolen=False):
        subs = [self.class_dump(n) for n in self.classes] + self.sub + [b for _, b in sorted(self.objs, key=lambda x: x[0])]
        seg = b"".join(subs)
        return b"JAVA PROFILE 1.0.2\0" + u4(self.ids) + u8(self.ts) + b"".join(self.meta) + u1(0x1C) + u4(0) + u4(0 if nolen else len(seg)) + seg + after + (u1(0x2C) + u4(0) + u4(0) if end else b"")


ENV = [("os.name", "Linux"), ("os.arch", "amd64"), ("java.home", "/opt/jdk"), ("java.version", "17"), ("java.vm.name", "VM"),
       ("java.vm.version", "17+1"), ("java.vm.info", "mixed mode"), ("java.vm.vendor", "Vendor")]

scratch = tempfile.mkdtemp(prefix="demo-")


def build():
    exe = os.path.join(scratch, "neojhat")
    subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; go build -buildvcs=false -o '%s' ./cmd/neojhat" % exe], check=True)
    return exe


def run(exe, sub, path, *opts, timeout=60):
    r = subprocess.run([exe, sub, "--hprof", path, "--no-color", "--non-interactive", *opts], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def put(data, name="a.hprof"):
    p = os.path.join(scratch, name)
    shutil.rmtree(p + ".db", ignore_errors=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def main(f):
    try:
        ok = f()
    except AssertionError as e:
        print("FAILED:", e)
        ok = False
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(0 if ok is not False else 1)
