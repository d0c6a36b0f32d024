package verifos

import (
	"path"
	"sort"
)

// fsync makes the inode's data durable. Like a journalling file system, it also makes all
// directory changes so far durable.
func (f *FS) fsync(n *inode) {
	n.synced = n.data
	n.shared = true
	n.everSynced = true
	f.logged = len(f.Log)
}

// Unsynced counts the choices PowerLoss takes: the number of volatile directory changes and
// the volatile files (sorted by path).
func (f *FS) Unsynced() (metaOps int, files []string) {
	return len(f.Log) - f.logged, f.volatile()
}

func same(a, b []byte) bool { return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0]) }

func (f *FS) volatile() []string {
	var r []string
	var walk func(n *inode, p string)
	walk = func(n *inode, p string) {
		for name, m := range n.ents {
			q := p + "/" + name
			if m.dir {
				walk(m, q)
			} else if !same(m.data, m.synced) || !m.everSynced {
				r = append(r, q)
			}
		}
	}
	walk(f.root, "")
	sort.Strings(r)
	return r
}

// Fate of the data of a volatile file at a power loss.
type Fate int

const (
	Kept   Fate = iota // reached the disk anyway
	Lost               // empty (or the last synced contents)
	Zeroed             // right length, but zeros
	Half               // only the first half
	Fates
)

// PowerLoss returns the file system found after a power loss: base is the tree at the last
// barrier... the first keepMeta of the volatile directory changes are durable and each
// volatile file has the fate given by fate(path).
func (f *FS) PowerLoss(keepMeta int, fate func(p string) Fate) *FS {
	g := f.Clone()
	// undo the lost directory changes, latest first
	for i := len(f.Log) - 1; i >= f.logged+keepMeta; i-- {
		op := f.Log[i]
		switch op.Kind {
		case "create", "mkdir":
			if d, b, e := g.parent(op.A); e == 0 {
				delete(d.ents, b)
			}
		case "rename":
			d2, b2, e := g.parent(op.B)
			if e != 0 {
				continue
			}
			n := d2.ents[b2]
			delete(d2.ents, b2)
			if d, b, e := g.parent(op.A); e == 0 && n != nil {
				d.ents[b] = n
			}
		case "remove":
			if d, b, e := g.parent(op.A); e == 0 {
				m := *op.node
				if m.dir {
					m.ents = map[string]*inode{}
				}
				m.shared = true
				d.ents[b] = &m
			}
		}
	}
	for _, p := range g.volatile() {
		n, e := g.lookup(p)
		if e != 0 {
			continue
		}
		switch fate(path.Clean(p)) {
		case Lost:
			n.data = n.synced
		case Zeroed:
			n.data = make([]byte, len(n.data))
		case Half:
			n.data = n.data[:len(n.data)/2]
		}
		n.shared = true
	}
	g.Log, g.logged = nil, 0
	var settle func(n *inode)
	settle = func(n *inode) {
		n.synced, n.everSynced = n.data, true
		for _, m := range n.ents {
			settle(m)
		}
	}
	settle(g.root)
	return g
}
