package host

import (
	"fmt"
	"sync"
	"syscall"
)

// FS is the simulated disk: every system call on a path below /simdisk ends here. Faults are planned before the code
// under test runs and hit the n-th call of their kind.
type FS struct {
	w      *World
	mu     sync.Mutex
	nodes  map[string]*inode
	fds    map[int]*openFile
	count  map[string]int
	ops    int
	plan   []*FSFault
	At     map[int]func() // runs before the system call of that number: what other processes do
	MaxFD  int
	full   bool // the disk has no space left
	dead   bool // the process has crashed
	quiet  bool
	opened int
}

type inode struct {
	data []byte
	dir  bool
	mode uint32
}

type openFile struct {
	n     *inode
	off   int64
	flags int
	path  string
}

// FSFault hits the N-th system call of kind Op: how says what happens, Part (per mille) how much still does.
type FSFault struct {
	Op   string
	N    int
	How  string
	Part int
	hit  bool
}

var nextFD = 1 << 24

func newFS(w *World) *FS {
	return &FS{w: w, nodes: map[string]*inode{"/simdisk": {dir: true, mode: 0o755}}, fds: map[int]*openFile{}, count: map[string]int{}, At: map[int]func(){}, MaxFD: 64}
}

// Inject plans a fault.
func (f *FS) Inject(x FSFault) { f.plan = append(f.plan, &x) }

// Calm removes what is left of the plan, the effects of a full disk and a crash.
func (f *FS) Calm() { f.plan, f.full, f.dead, f.At = nil, false, false, map[int]func(){} }

// Open descriptors at the moment.
func (f *FS) Descriptors() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.fds) }

// Abandon forgets the descriptors of a crashed process.
func (f *FS) Abandon() { f.mu.Lock(); f.fds = map[int]*openFile{}; f.mu.Unlock() }

// Content is what a file holds, behind the back of the code under test.
func (f *FS) Content(path string) ([]byte, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n, ok := f.nodes[path]
	if !ok || n.dir {
		return nil, false
	}
	return append([]byte{}, n.data...), true
}

// Put creates or replaces a file behind the back of the code under test.
func (f *FS) Put(path string, b []byte) {
	f.nodes[path] = &inode{data: append([]byte{}, b...), mode: 0o644}
}

// Ops counts the system calls so far.
func (f *FS) Ops() int { return f.ops }

// step is the common start of each system call: other processes get their turn, a planned fault is looked up.
func (f *FS) step(op, detail string) *FSFault {
	f.ops++
	if a := f.At[f.ops]; a != nil {
		delete(f.At, f.ops)
		a()
	}
	f.count[op]++
	for _, x := range f.plan {
		if x.Op == op && x.N == f.count[op] && !x.hit {
			x.hit = true
			f.w.Fault("disk-" + op + "-" + x.How)
			f.w.Log("%d %s %s: %s %d", f.ops, op, detail, x.How, x.Part)
			return x
		}
	}
	if !f.quiet {
		f.w.Log("%d %s %s", f.ops, op, detail)
	}
	return nil
}

var errnos = map[string]syscall.Errno{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eintr": syscall.EINTR, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "erofs": syscall.EROFS, "edquot": syscall.EDQUOT}

func (f *FS) fail(x *FSFault) error {
	if x.How == "crash" {
		return f.die()
	}
	return errnos[x.How]
}

// die ends the process: nothing it does afterwards reaches the disk, and what the code returns is not looked at.
func (f *FS) die() error {
	f.dead = true
	return syscall.EIO
}

func (f *FS) Open(path string, mode int, perm uint32) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		return -1, syscall.EIO
	}
	x := f.step("open", fmt.Sprintf("%s %#x", path, mode))
	if x != nil && x.How != "crash" {
		return -1, errnos[x.How]
	}
	if x != nil && x.Part < 500 {
		return -1, f.die()
	}
	if len(f.fds) >= f.MaxFD {
		return -1, syscall.EMFILE
	}
	n, ok := f.nodes[path]
	if !ok {
		if mode&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		if f.full {
			return -1, syscall.ENOSPC
		}
		n = &inode{mode: perm}
		f.nodes[path] = n
	} else {
		if mode&syscall.O_CREAT != 0 && mode&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if n.dir && mode&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return -1, syscall.EISDIR
		}
		if mode&syscall.O_TRUNC != 0 {
			n.data = nil
		}
	}
	if x != nil {
		return -1, f.die()
	}
	fd := nextFD
	nextFD++
	f.opened++
	f.fds[fd] = &openFile{n: n, flags: mode, path: path}
	return fd, nil
}

func (f *FS) get(fd int) *openFile { return f.fds[fd] }

func (f *FS) Read(fd int, p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	o := f.get(fd)
	if o == nil || f.dead {
		return -1, syscall.EBADF
	}
	if o.flags&syscall.O_WRONLY != 0 {
		return -1, syscall.EBADF
	}
	if o.n.dir {
		return -1, syscall.EISDIR
	}
	x := f.step("read", fmt.Sprintf("%s %d@%d", o.path, len(p), off))
	at := o.off
	if off >= 0 {
		at = off
	}
	if x != nil {
		switch x.How {
		case "short":
			if n := len(p) * x.Part / 1000; n >= 1 {
				p = p[:n]
			}
		case "crash":
			return -1, f.die()
		default:
			return -1, errnos[x.How]
		}
	}
	if at >= int64(len(o.n.data)) {
		return 0, nil
	}
	n := copy(p, o.n.data[at:])
	if off < 0 {
		o.off += int64(n)
	}
	return n, nil
}

func (f *FS) Write(fd int, p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	o := f.get(fd)
	if o == nil || f.dead {
		return -1, syscall.EBADF
	}
	if o.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF
	}
	x := f.step("write", fmt.Sprintf("%s %d@%d", o.path, len(p), off))
	if f.full {
		return -1, syscall.ENOSPC
	}
	var after func() error
	if x != nil {
		switch x.How {
		case "short":
			if n := len(p) * x.Part / 1000; n >= 1 {
				p = p[:n]
			}
		case "enospc":
			f.full = true
			p = p[:len(p)*x.Part/1000]
			if len(p) == 0 {
				return -1, syscall.ENOSPC
			}
		case "crash":
			p = p[:len(p)*x.Part/1000]
			after = f.die
		default:
			return -1, errnos[x.How]
		}
	}
	at := o.off
	if off >= 0 {
		at = off
	}
	if o.flags&syscall.O_APPEND != 0 {
		at = int64(len(o.n.data))
	}
	for int64(len(o.n.data)) < at {
		o.n.data = append(o.n.data, 0)
	}
	k := copy(o.n.data[at:], p)
	o.n.data = append(o.n.data, p[k:]...)
	if off < 0 {
		o.off = at + int64(len(p))
	}
	if after != nil {
		return -1, after()
	}
	return len(p), nil
}

func (f *FS) Close(fd int) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	o := f.get(fd)
	if o == nil {
		return syscall.EBADF
	}
	delete(f.fds, fd)
	if f.dead {
		return syscall.EIO
	}
	x := f.step("close", o.path)
	if x != nil {
		if x.How == "crash" {
			return f.die()
		}
		if o.flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 { // what was still in the cache is lost
			o.n.data = o.n.data[:len(o.n.data)*x.Part/1000]
		}
		return errnos[x.How]
	}
	return nil
}

func (f *FS) Sync(fd int) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	o := f.get(fd)
	if o == nil || f.dead {
		return syscall.EBADF
	}
	if x := f.step("sync", o.path); x != nil {
		if x.How == "crash" {
			return f.die()
		}
		return errnos[x.How]
	}
	return nil
}

func (f *FS) Seek(fd int, off int64, whence int) (int64, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	o := f.get(fd)
	if o == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case 1:
		off += o.off
	case 2:
		off += int64(len(o.n.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.off = off
	return off, nil
}

func (f *FS) find(fd int, path string) (*inode, error) {
	if fd >= 0 {
		if o := f.get(fd); o != nil {
			return o.n, nil
		}
		return nil, syscall.EBADF
	}
	if n, ok := f.nodes[path]; ok {
		return n, nil
	}
	return nil, syscall.ENOENT
}

func (f *FS) Truncate(fd int, path string, n int64) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if x := f.step("truncate", fmt.Sprintf("%s %d", path, n)); x != nil {
		return f.fail(x)
	}
	o, err := f.find(fd, path)
	if err != nil {
		return err
	}
	for int64(len(o.data)) < n {
		o.data = append(o.data, 0)
	}
	o.data = o.data[:n]
	return nil
}

func (f *FS) Stat(fd int, path string, st *syscall.Stat_t) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		return syscall.EIO
	}
	if x := f.step("stat", path); x != nil {
		return f.fail(x)
	}
	n, err := f.find(fd, path)
	if err != nil {
		return err
	}
	*st = syscall.Stat_t{Size: int64(len(n.data)), Mode: syscall.S_IFREG | n.mode, Nlink: 1}
	if n.dir {
		st.Mode = syscall.S_IFDIR | n.mode
	}
	return nil
}

func (f *FS) Rename(from, to string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		return syscall.EIO
	}
	x := f.step("rename", from+" "+to)
	if x != nil && x.How != "crash" {
		return errnos[x.How]
	}
	if x != nil && x.Part < 500 {
		return f.die()
	}
	n, ok := f.nodes[from]
	if !ok {
		return syscall.ENOENT
	}
	delete(f.nodes, from)
	f.nodes[to] = n
	if x != nil {
		return f.die()
	}
	return nil
}

func (f *FS) Link(from, to string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		return syscall.EIO
	}
	if x := f.step("link", from+" "+to); x != nil {
		return f.fail(x)
	}
	n, ok := f.nodes[from]
	if !ok {
		return syscall.ENOENT
	}
	if _, ok := f.nodes[to]; ok {
		return syscall.EEXIST
	}
	f.nodes[to] = n
	return nil
}

func (f *FS) Unlink(path string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		return syscall.EIO
	}
	if x := f.step("unlink", path); x != nil {
		return f.fail(x)
	}
	n, ok := f.nodes[path]
	if !ok {
		return syscall.ENOENT
	}
	if n.dir {
		return syscall.EISDIR
	}
	delete(f.nodes, path)
	return nil
}

func (f *FS) Mkdir(path string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if _, ok := f.nodes[path]; ok {
		return syscall.EEXIST
	}
	f.nodes[path] = &inode{dir: true, mode: 0o755}
	return nil
}

func (f *FS) Rmdir(path string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	n, ok := f.nodes[path]
	if !ok {
		return syscall.ENOENT
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	delete(f.nodes, path)
	return nil
}
