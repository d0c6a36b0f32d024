// Package verifos has the API of package os on top of an in-memory file system. Every
// operation asks a hook of the simulated process first, so that a checker decides about
// failures, short transfers, kill points and interleavings.
package verifos

import (
	"io"
	"io/fs"
	real_ "os"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- file system

type inode struct {
	dir    bool
	ents   map[string]*inode
	data   []byte
	shared bool // data must be copied before it is changed
	mode   fs.FileMode
	mtime  int64
	id     int
	// durable state, see powerloss.go
	synced     []byte
	everSynced bool
	syncedOK   bool // synced == data
}

// FS is a file system shared by simulated processes.
type FS struct {
	mu     sync.Mutex
	root   *inode
	clock  int64
	Umask  fs.FileMode // of all processes
	tmp    int
	nextID int
	Log    []MetaOp // metadata operations since the last barrier, in order
	Track  bool     // keep Log
	Ops    int      // operations performed, all processes
	logged int
}

// MetaOp is one change of the directory tree.
type MetaOp struct {
	Kind string // create mkdir rename remove
	A, B string
	node *inode
}

func NewFS() *FS {
	f := &FS{Umask: 0o22}
	f.root = f.newInode(true)
	return f
}

func (f *FS) newInode(dir bool) *inode {
	f.nextID++
	n := &inode{dir: dir, mode: 0o644, id: f.nextID, mtime: f.clock}
	if dir {
		n.mode = fs.ModeDir | 0o755
		n.ents = map[string]*inode{}
	}
	return n
}

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (f *FS) lookup(p string) (*inode, syscall.Errno) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	n := f.root
	for _, c := range split(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		m := n.ents[c]
		if m == nil {
			return nil, syscall.ENOENT
		}
		n = m
	}
	if strings.HasSuffix(p, "/") && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, 0
}

func (f *FS) parent(p string) (*inode, string, syscall.Errno) {
	cs := split(p)
	if len(cs) == 0 {
		return nil, "", syscall.EEXIST
	}
	n := f.root
	for _, c := range cs[:len(cs)-1] {
		if !n.dir {
			return nil, "", syscall.ENOTDIR
		}
		m := n.ents[c]
		if m == nil {
			return nil, "", syscall.ENOENT
		}
		n = m
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, cs[len(cs)-1], 0
}

func (f *FS) meta(kind, a, b string, n *inode) {
	f.clock++
	if f.Track {
		f.Log = append(f.Log, MetaOp{kind, path.Clean(a), path.Clean(b), n})
	}
}

// MkdirAll, Put, Get, Del, List, Mv are the checker's own, unhooked accesses.
func (f *FS) MkdirAll(p string) {
	n := f.root
	for _, c := range split(p) {
		m := n.ents[c]
		if m == nil {
			m = f.newInode(true)
			n.ents[c] = m
		}
		n = m
	}
}

// Put stores data without copying it.
func (f *FS) Put(p string, data []byte) {
	f.MkdirAll(path.Dir(p))
	d, name, _ := f.parent(p)
	f.clock++
	n := f.newInode(false)
	n.data, n.shared = data, true
	n.synced, n.everSynced = data, true
	d.ents[name] = n
}

func (f *FS) Get(p string) ([]byte, bool) {
	n, e := f.lookup(p)
	if e != 0 || n.dir {
		return nil, false
	}
	return n.data, true
}

func (f *FS) Del(p string) {
	if d, name, e := f.parent(p); e == 0 {
		delete(d.ents, name)
	}
}

func (f *FS) Mv(a, b string) {
	d, name, e := f.parent(a)
	if e != 0 || d.ents[name] == nil {
		return
	}
	n := d.ents[name]
	delete(d.ents, name)
	d2, name2, _ := f.parent(b)
	d2.ents[name2] = n
}

// Mtime returns the modification stamp of a file.
func (f *FS) Mtime(p string) int64 {
	n, e := f.lookup(p)
	if e != 0 {
		return -1
	}
	return n.mtime
}

// List returns all paths, directories with a trailing slash.
// Mode tells the permissions of a file.
func (f *FS) Mode(p string) (fs.FileMode, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n, e := f.lookup(p)
	if e != 0 {
		return 0, false
	}
	return n.mode, true
}

func (f *FS) List() []string {
	var r []string
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		for name, m := range n.ents {
			if m.dir {
				r = append(r, p+name+"/")
				walk(m, p+name+"/")
			} else {
				r = append(r, p+name)
			}
		}
	}
	walk(f.root, "/")
	sort.Strings(r)
	return r
}

// Bytes is the size of all files.
func (f *FS) Bytes() (n int) {
	var walk func(d *inode)
	walk = func(d *inode) {
		n += len(d.data)
		for _, m := range d.ents {
			walk(m)
		}
	}
	walk(f.root)
	return n
}

// Clone copies the tree; file contents are shared until written.
func (f *FS) Clone() *FS {
	g := &FS{clock: f.clock, Umask: f.Umask, tmp: f.tmp, nextID: f.nextID, Track: f.Track}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		m := *n
		n.shared, m.shared = true, true
		if n.dir {
			m.ents = make(map[string]*inode, len(n.ents))
			for k, v := range n.ents {
				m.ents[k] = cp(v)
			}
		}
		return &m
	}
	g.root = cp(f.root)
	return g
}

// ---------------------------------------------------------------- processes

// Op is one operation of the simulated process.
type Op struct {
	Kind string // open create read readat write seek close stat fstat sync mkdir rename remove readdir truncate chmod
	Path string
	To   string // rename target
	Off  int64
	N    int // bytes asked for
	Idx  int // index among the operations of the process
}

// Mutates tells whether the operation changes the file system.
func (o *Op) Mutates() bool {
	switch o.Kind {
	case "create", "write", "mkdir", "rename", "remove", "truncate":
		return true
	}
	return false
}

// Answer is the environment's decision about an operation.
type Answer struct {
	Err   error // fail with this error
	Short bool  // transfer only N bytes (of a read; of a write only together with Err or Kill)
	N     int
	EOF   bool // a read that delivers the last bytes reports the end of file with them
	Kill  bool // the process is killed here (after writing N bytes if Short)
}

// Proc is a simulated process.
type Proc struct {
	FS    *FS
	Hook  func(*Op) Answer
	OnOut func(fd int, b []byte) // before bytes are written to stdout (1) or stderr (2)
	// OnWrite decides about n bytes written to stdout (1) or stderr (2): Err after N of them.
	OnWrite func(fd, n int) Answer
	// Ask gives the value of an environment variable the process looks at.
	Ask    func(name string) (value string, set bool)
	Args   []string
	Out    []byte
	ErrOut []byte
	Code   int
	Exited bool
	Dead   bool
	Killed bool
	Panic  string
	Ops    int
	Open   int
	Limit  int // the process is taken to have no end after so many operations, 0 means never
	env    map[string]*string
	pid    int
	dead   chan struct{}
	once   sync.Once
	mu     sync.Mutex
}

var cur *Proc

// Args is os.Args of the current process.
var Args []string

// SetCurrent makes p the process whose operations come next.
func SetCurrent(p *Proc) {
	cur = p
	if p != nil {
		Args = p.Args
	}
}

// Start runs main as process p in a new goroutine; done is closed when it is over.
func (p *Proc) Start(main func()) (done chan struct{}) {
	p.Init()
	over := make(chan struct{})
	go func() {
		defer close(over)
		p.Body(main)
	}()
	done = make(chan struct{})
	go func() {
		select {
		case <-over:
		case <-p.dead:
			// deferred calls still run; they end at their first operation. A main
			// goroutine that waits for another one never does.
			select {
			case <-over:
			case <-time.After(2 * time.Second):
			}
		}
		close(done)
	}()
	return done
}

func (p *Proc) Init() { p.dead = make(chan struct{}) }

// Body runs main and records how it ended.
func (p *Proc) Body(main func()) {
	finished := false
	defer func() {
		if finished {
			return
		}
		if r := recover(); r != nil && !p.Dead {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			p.Panic = toString(r) + "\n" + string(buf)
			p.Code = 2
			p.Dead = true
		}
	}()
	main()
	finished = true
	p.Dead = true
}

func toString(v any) string {
	switch x := v.(type) {
	case error:
		return x.Error()
	case string:
		return x
	case interface{ String() string }:
		return x.String()
	}
	return "panic"
}

// Run runs main as process p to its end.
func (p *Proc) Run(main func()) {
	SetCurrent(p)
	<-p.Start(main)
}

func (p *Proc) die() {
	p.Dead = true
	p.once.Do(func() {
		if p.dead != nil {
			close(p.dead)
		}
	})
	runtime.Goexit()
}

// Exit ends the process. Unlike the real one it runs deferred calls, but they cannot reach
// the file system any more.
func Exit(code int) {
	p := cur
	if p == nil {
		real_.Exit(code)
	}
	p.mu.Lock()
	if !p.Exited {
		p.Exited = true
		p.Code = code
	}
	p.mu.Unlock()
	p.die()
}

func (p *Proc) op(o Op) Answer {
	if p.Dead {
		runtime.Goexit()
	}
	o.Idx = p.Ops
	p.Ops++
	p.FS.Ops++
	if p.Limit > 0 && p.Ops > p.Limit {
		p.Panic = "no end after " + strconv.Itoa(p.Limit) + " operations"
		p.Code = 2
		p.die()
	}
	var a Answer
	if p.Hook != nil {
		a = p.Hook(&o)
	}
	if p.Dead {
		runtime.Goexit()
	}
	if a.Kill && !(a.Short && o.Kind == "write") {
		p.Killed = true
		p.die()
	}
	return a
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func errno(op, p string, e syscall.Errno) error { return perr(op, p, e) }

// ---------------------------------------------------------------- File

type File struct {
	p      *Proc
	n      *inode
	name   string
	off    int64
	flag   int
	std    int
	closed bool
	mu     sync.Mutex
	read   bool // directory already listed
	wrote  bool
	real   *real_.File
}

var (
	Stdin  = &File{std: 3, name: "/dev/stdin"}
	Stdout = &File{std: 1, name: "/dev/stdout"}
	Stderr = &File{std: 2, name: "/dev/stderr"}
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p := cur
	if p == nil {
		r, err := real_.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{real: r, name: name}, nil
	}
	f := p.FS
	kind := "open"
	f.mu.Lock()
	if _, e := f.lookup(name); e == syscall.ENOENT && flag&real_.O_CREATE != 0 {
		kind = "create"
	}
	f.mu.Unlock()
	a := p.op(Op{Kind: kind, Path: name})
	if a.Err != nil {
		return nil, perr("open", name, a.Err)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	n, e := f.lookup(name)
	switch {
	case e == 0 && flag&real_.O_CREATE != 0 && flag&real_.O_EXCL != 0:
		return nil, errno("open", name, syscall.EEXIST)
	case e == 0 && n.dir && flag&(real_.O_WRONLY|real_.O_RDWR|real_.O_CREATE) != 0:
		return nil, errno("open", name, syscall.EISDIR)
	case e == syscall.ENOENT && flag&real_.O_CREATE != 0:
		d, base, e := f.parent(name)
		if e != 0 {
			return nil, errno("open", name, e)
		}
		n = f.newInode(false)
		n.mode = perm & fs.ModePerm &^ f.Umask
		d.ents[base] = n
		f.meta("create", name, "", n)
	case e != 0:
		return nil, errno("open", name, e)
	}
	if flag&real_.O_TRUNC != 0 && !n.dir && flag&(real_.O_WRONLY|real_.O_RDWR) != 0 {
		n.data, n.shared, n.syncedOK = nil, false, false
		f.clock++
		n.mtime = f.clock
	}
	p.Open++
	return &File{p: p, n: n, name: name, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, real_.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real_.O_RDWR|real_.O_CREATE|real_.O_TRUNC, 0o666)
}

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return real_.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, real_.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.Read(b)
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	a := f.p.op(Op{Kind: "read", Path: f.name, Off: f.off, N: len(b)})
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	if f.n.dir {
		return 0, errno("read", f.name, syscall.EISDIR)
	}
	if f.flag&real_.O_WRONLY != 0 {
		return 0, errno("read", f.name, syscall.EBADF)
	}
	if a.Err == io.EOF && a.Short && a.N > 0 { // the last bytes before the end of a file cut short
		n := 0
		if f.off < int64(len(f.n.data)) {
			n = copy(b[:min(a.N, len(b))], f.n.data[f.off:])
		}
		f.off += int64(n)
		return n, nil
	}
	if a.Err == io.EOF {
		return 0, io.EOF
	}
	if a.Err != nil {
		return 0, perr("read", f.name, a.Err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	rest := f.n.data[f.off:]
	n := len(b)
	if a.Short && a.N < n {
		n = a.N
	}
	n = copy(b[:n], rest)
	f.off += int64(n)
	if a.EOF && n == len(rest) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.ReadAt(b, off)
	}
	if off < 0 {
		return 0, perr("readat", f.name, real_.ErrInvalid)
	}
	a := f.p.op(Op{Kind: "readat", Path: f.name, Off: off, N: len(b)})
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	if f.n.dir {
		return 0, errno("read", f.name, syscall.EISDIR)
	}
	n := 0
	if off < int64(len(f.n.data)) {
		n = copy(b, f.n.data[off:])
	}
	if a.Err != nil {
		if a.Short && a.N < n {
			n = a.N
		} else if !a.Short {
			n = 0
		}
		if a.Err == io.EOF {
			return n, io.EOF
		}
		return n, perr("read", f.name, a.Err)
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) writable() bool { return f.flag&(real_.O_WRONLY|real_.O_RDWR) != 0 }

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.Write(b)
	}
	if f.std != 0 {
		return stdWrite(f.std, b)
	}
	return f.write(b, -1)
}

func stdWrite(fd int, b []byte) (int, error) {
	p := cur
	if p == nil {
		if fd == 1 {
			return real_.Stdout.Write(b)
		}
		return real_.Stderr.Write(b)
	}
	if p.Dead {
		runtime.Goexit()
	}
	if p.OnOut != nil {
		p.OnOut(fd, b)
	}
	var failed error
	if p.OnWrite != nil {
		if a := p.OnWrite(fd, len(b)); a.Err != nil {
			b = b[:max(0, min(a.N, len(b)))]
			name := "/dev/stdout"
			if fd == 2 {
				name = "/dev/stderr"
			}
			failed = perr("write", name, a.Err)
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fd == 1 {
		p.Out = append(p.Out, b...)
	} else {
		p.ErrOut = append(p.ErrOut, b...)
	}
	return len(b), failed
}

func (f *File) write(b []byte, at int64) (int, error) {
	a := f.p.op(Op{Kind: "write", Path: f.name, Off: at, N: len(b)})
	f.p.FS.mu.Lock()
	if !f.writable() {
		f.p.FS.mu.Unlock()
		return 0, errno("write", f.name, syscall.EBADF)
	}
	f.wrote = true
	n := len(b)
	if a.Err != nil || a.Kill {
		n = 0
		if a.Short {
			n = min(a.N, len(b))
		}
	}
	if n > 0 {
		nd := f.n
		if nd.shared {
			nd.data = append([]byte(nil), nd.data...)
			nd.shared = false
		}
		off := f.off
		if at >= 0 {
			off = at
		} else if f.flag&real_.O_APPEND != 0 {
			off = int64(len(nd.data))
		}
		for int64(len(nd.data)) < off {
			nd.data = append(nd.data, 0)
		}
		k := copy(nd.data[off:], b[:n])
		nd.data = append(nd.data, b[k:n]...)
		if at < 0 {
			f.off = off + int64(n)
		}
		f.p.FS.clock++
		nd.mtime = f.p.FS.clock
		nd.syncedOK = false
	}
	f.p.FS.mu.Unlock()
	if a.Kill {
		f.p.Killed = true
		f.p.die()
	}
	if a.Err != nil {
		return n, perr("write", f.name, a.Err)
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.WriteAt(b, off)
	}
	return f.write(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

type onlyWriter struct{ f *File }

func (w onlyWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

type onlyReader struct{ f *File }

func (r onlyReader) Read(b []byte) (int, error) { return r.f.Read(b) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.real != nil {
		return f.real.Seek(off, whence)
	}
	if f.std != 0 {
		return 0, errno("seek", f.name, syscall.ESPIPE)
	}
	a := f.p.op(Op{Kind: "seek", Path: f.name, Off: off})
	if a.Err != nil {
		return 0, perr("seek", f.name, a.Err)
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, errno("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Close() error {
	if f == nil {
		return real_.ErrInvalid
	}
	if f.real != nil {
		return f.real.Close()
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return perr("close", f.name, real_.ErrClosed)
	}
	a := f.p.op(Op{Kind: "close", Path: f.name})
	f.closed = true
	f.p.Open--
	if a.Err != nil {
		// delayed write-out failed: the data written through this handle may be gone
		f.p.FS.mu.Lock()
		if a.Short && f.wrote {
			f.n.data = append([]byte(nil), f.n.data[:min(a.N, len(f.n.data))]...)
			f.n.shared = false
			f.n.syncedOK = false
		}
		f.p.FS.mu.Unlock()
		return perr("close", f.name, a.Err)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.real != nil {
		return f.real.Sync()
	}
	if f.std != 0 {
		return nil
	}
	a := f.p.op(Op{Kind: "sync", Path: f.name})
	if a.Err != nil {
		return perr("sync", f.name, a.Err)
	}
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	f.p.FS.fsync(f.n)
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.real != nil {
		return f.real.Stat()
	}
	if f.std != 0 {
		return info{name: f.name, mode: fs.ModeDevice | fs.ModeCharDevice | 0o620}, nil
	}
	a := f.p.op(Op{Kind: "fstat", Path: f.name})
	if a.Err != nil {
		return nil, perr("stat", f.name, a.Err)
	}
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	return f.n.info(path.Base(f.name)), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	a := f.p.op(Op{Kind: "truncate", Path: f.name})
	if a.Err != nil {
		return perr("truncate", f.name, a.Err)
	}
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	f.n.truncate(size)
	f.p.FS.clock++
	return nil
}

func (n *inode) truncate(size int64) {
	d := make([]byte, size)
	copy(d, n.data)
	n.data, n.shared, n.syncedOK = d, false, false
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	a := f.p.op(Op{Kind: "readdir", Path: f.name})
	if a.Err != nil {
		return nil, perr("readdirent", f.name, a.Err)
	}
	f.p.FS.mu.Lock()
	defer f.p.FS.mu.Unlock()
	if !f.n.dir {
		return nil, errno("readdirent", f.name, syscall.ENOTDIR)
	}
	if f.read {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.read = true
	return f.n.list(), nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func (f *File) Chmod(mode fs.FileMode) error {
	if f.real != nil {
		return f.real.Chmod(mode)
	}
	if f.n != nil {
		f.p.FS.mu.Lock()
		f.n.chmod(mode)
		f.p.FS.mu.Unlock()
	}
	return nil
}
func (f *File) Chown(uid, gid int) error              { return nil }
func (f *File) Chdir() error                          { return nil }
func (f *File) SetDeadline(time.Time) error           { return real_.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error       { return real_.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error      { return real_.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, real_.ErrInvalid }
func (f *File) Fd() uintptr {
	if f.std == 1 || f.std == 2 {
		return uintptr(f.std)
	}
	return 1000 + uintptr(f.n.id)
}

// ---------------------------------------------------------------- info

type info struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	n     *inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(1_700_000_000+i.mtime, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func (n *inode) info(name string) info {
	i := info{name: name, size: int64(len(n.data)), mode: n.mode, mtime: n.mtime, n: n}
	if n.dir {
		i.size = 4096
	}
	return i
}

func (n *inode) list() []fs.DirEntry {
	var names []string
	for k := range n.ents {
		names = append(names, k)
	}
	sort.Strings(names)
	var r []fs.DirEntry
	for _, k := range names {
		r = append(r, fs.FileInfoToDirEntry(n.ents[k].info(k)))
	}
	return r
}

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	if ok1 && ok2 {
		return x.n == y.n
	}
	return real_.SameFile(a, b)
}

// ---------------------------------------------------------------- path operations

func Stat(name string) (fs.FileInfo, error) {
	p := cur
	if p == nil {
		return real_.Stat(name)
	}
	a := p.op(Op{Kind: "stat", Path: name})
	if a.Err != nil {
		return nil, perr("stat", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	n, e := p.FS.lookup(name)
	if e != 0 {
		return nil, errno("stat", name, e)
	}
	return n.info(path.Base(name)), nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm fs.FileMode) error {
	p := cur
	if p == nil {
		return real_.Mkdir(name, perm)
	}
	a := p.op(Op{Kind: "mkdir", Path: name})
	if a.Err != nil {
		return perr("mkdir", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	return p.FS.mkdir(name, perm)
}

func (f *FS) mkdir(name string, perm fs.FileMode) error {
	d, base, e := f.parent(name)
	if e != 0 {
		return errno("mkdir", name, e)
	}
	if d.ents[base] != nil {
		return errno("mkdir", name, syscall.EEXIST)
	}
	n := f.newInode(true)
	n.mode = fs.ModeDir | perm&fs.ModePerm&^f.Umask
	d.ents[base] = n
	f.meta("mkdir", name, "", n)
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	if i, err := Stat(name); err == nil {
		if i.IsDir() {
			return nil
		}
		return errno("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(name)); d != "/" && d != "." {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if i, err2 := Stat(name); err2 == nil && i.IsDir() {
			return nil
		}
	}
	return err
}

func tempName(p *Proc, dir, pattern string) string {
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if dir == "" {
		dir = "/tmp"
	}
	p.FS.mu.Lock()
	p.FS.tmp++
	k := p.FS.tmp
	p.FS.mu.Unlock()
	return strings.TrimSuffix(dir, "/") + "/" + pre + strconv.Itoa(1000+k) + suf
}

func MkdirTemp(dir, pattern string) (string, error) {
	p := cur
	if p == nil {
		return real_.MkdirTemp(dir, pattern)
	}
	name := tempName(p, dir, pattern)
	if err := Mkdir(name, 0o700); err != nil {
		return "", err
	}
	return name, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	p := cur
	if p == nil {
		r, err := real_.CreateTemp(dir, pattern)
		if err != nil {
			return nil, err
		}
		return &File{real: r, name: r.Name()}, nil
	}
	return OpenFile(tempName(p, dir, pattern), real_.O_RDWR|real_.O_CREATE|real_.O_EXCL, 0o600)
}

func TempDir() string { return "/tmp" }

func Remove(name string) error {
	p := cur
	if p == nil {
		return real_.Remove(name)
	}
	a := p.op(Op{Kind: "remove", Path: name})
	if a.Err != nil {
		return perr("remove", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	f := p.FS
	d, base, e := f.parent(name)
	if e != 0 {
		return errno("remove", name, e)
	}
	n := d.ents[base]
	if n == nil {
		return errno("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.ents) > 0 {
		return errno("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.ents, base)
	f.meta("remove", name, "", n)
	return nil
}

func RemoveAll(name string) error {
	p := cur
	if p == nil {
		return real_.RemoveAll(name)
	}
	p.FS.mu.Lock()
	n, e := p.FS.lookup(name)
	var kids []string
	if e == 0 && n.dir {
		for k := range n.ents {
			kids = append(kids, k)
		}
	}
	p.FS.mu.Unlock()
	if e != 0 {
		p.op(Op{Kind: "stat", Path: name})
		return nil
	}
	sort.Strings(kids)
	var first error
	for _, k := range kids {
		if err := RemoveAll(strings.TrimSuffix(name, "/") + "/" + k); err != nil && first == nil {
			first = err
		}
	}
	if first != nil {
		return first
	}
	if err := Remove(name); err != nil && !real_.IsNotExist(err) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	p := cur
	if p == nil {
		return real_.Rename(from, to)
	}
	a := p.op(Op{Kind: "rename", Path: from, To: to})
	fail := func(e error) error { return &real_.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if a.Err != nil {
		return fail(a.Err)
	}
	f := p.FS
	f.mu.Lock()
	defer f.mu.Unlock()
	d, base, e := f.parent(from)
	if e != 0 {
		return fail(e)
	}
	n := d.ents[base]
	if n == nil {
		return fail(syscall.ENOENT)
	}
	if strings.HasSuffix(from, "/") && !n.dir {
		return fail(syscall.ENOTDIR)
	}
	d2, base2, e := f.parent(to)
	if e != 0 {
		return fail(e)
	}
	if t := d2.ents[base2]; t != nil && t != n {
		if t.dir {
			return fail(syscall.EEXIST) // as package os does
		}
		if n.dir {
			return fail(syscall.ENOTDIR)
		}
	}
	if strings.HasSuffix(to, "/") && !n.dir {
		return fail(syscall.ENOTDIR)
	}
	delete(d.ents, base)
	d2.ents[base2] = n
	f.meta("rename", from, to, n)
	return nil
}

func Link(from, to string) error {
	p := cur
	if p == nil {
		return real_.Link(from, to)
	}
	a := p.op(Op{Kind: "create", Path: to})
	fail := func(e error) error { return &real_.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if a.Err != nil {
		return fail(a.Err)
	}
	f := p.FS
	f.mu.Lock()
	defer f.mu.Unlock()
	n, e := f.lookup(from)
	if e != 0 {
		return fail(e)
	}
	if n.dir {
		return fail(syscall.EPERM)
	}
	d, base, e := f.parent(to)
	if e != 0 {
		return fail(e)
	}
	if d.ents[base] != nil {
		return fail(syscall.EEXIST)
	}
	d.ents[base] = n
	f.meta("create", to, "", n)
	return nil
}

func Symlink(from, to string) error {
	if cur == nil {
		return real_.Symlink(from, to)
	}
	return &real_.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.EPERM}
}

func Readlink(name string) (string, error) {
	if cur == nil {
		return real_.Readlink(name)
	}
	return "", errno("readlink", name, syscall.EINVAL)
}

func Truncate(name string, size int64) error {
	p := cur
	if p == nil {
		return real_.Truncate(name, size)
	}
	a := p.op(Op{Kind: "truncate", Path: name})
	if a.Err != nil {
		return perr("truncate", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	n, e := p.FS.lookup(name)
	if e != 0 {
		return errno("truncate", name, e)
	}
	n.truncate(size)
	p.FS.clock++
	return nil
}

func Chmod(name string, mode fs.FileMode) error {
	p := cur
	if p == nil {
		return real_.Chmod(name, mode)
	}
	a := p.op(Op{Kind: "chmod", Path: name})
	if a.Err != nil {
		return perr("chmod", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	n, e := p.FS.lookup(name)
	if e != 0 {
		return errno("chmod", name, e)
	}
	n.chmod(mode)
	return nil
}

func (n *inode) chmod(mode fs.FileMode) {
	n.mode = n.mode&^fs.ModePerm | mode&fs.ModePerm
}

// touched is an operation on a file's other attributes.
func touched(name string) error {
	p := cur
	if p == nil {
		return nil
	}
	if a := p.op(Op{Kind: "chmod", Path: name}); a.Err != nil {
		return perr("chmod", name, a.Err)
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	if _, e := p.FS.lookup(name); e != 0 {
		return errno("chmod", name, e)
	}
	return nil
}

func Chtimes(name string, atime, mtime time.Time) error { return touched(name) }
func Chown(name string, uid, gid int) error             { return touched(name) }
func Lchown(name string, uid, gid int) error            { return touched(name) }
func Chdir(string) error                                { return nil }
func Getwd() (string, error)                            { return "/", nil }

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.real != nil {
		return real_.ReadDir(name)
	}
	return f.ReadDir(-1)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, real_.O_WRONLY|real_.O_CREATE|real_.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}
