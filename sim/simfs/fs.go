// Package simfs is the simulated disk and file system.
package simfs

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
)

type op struct {
	trunc bool
	off   int64 // or new size
	data  []byte
}

// Inode is a file: what a reader sees now, and what survives a power loss.
type Inode struct {
	Data    []byte
	durable []byte
	pend    []op
	isDir   bool
	// A file may begin with base bytes that are not kept in memory: fill, again and again. All other offsets in an
	// Inode count from there.
	base int64
	fill []byte
	low  int64 // bytes read below base
}

// size is the size of the file.
func (i *Inode) size() int64 { return i.base + int64(len(i.Data)) }

type nsop struct {
	name string
	ino  *Inode // nil = removed
}

// FS is the simulated file system of a world.
type FS struct {
	w       *rt.World
	files   map[string]*Inode
	dfiles  map[string]*Inode // durable name space
	pendNS  []nsop
	Cap     int64   // bytes available, <0 = unlimited
	PWrite  float64 // probability of a failing write
	PSync   float64
	PRead   float64 // probability of a failing read
	POpen   float64
	PSeek   float64
	ShortRd float64 // probability that a read is short
	ChunkWr float64 // probability that a write becomes visible in pieces
	Ops     int     // mutating I/O operations so far (write, sync, truncate)
	// Crash request: when Ops reaches CrashAt, the power is cut. Frac says how much of a write had been done.
	CrashAt    int
	CrashFrac  int // per mille
	OnCrash    func()
	hung       rt.WaitQ
	Open       int // open handles
	Stdin      []byte
	stdinPos   int
	Stdout     []byte
	Stderr     []byte
	MaxWrite   int
	SyncFailed bool // the last Sync failed
}

// Of returns the file system of the world.
func Of(w *rt.World) *FS {
	f, _ := w.Ext["fs"].(*FS)
	if f == nil {
		f = &FS{w: w, files: map[string]*Inode{}, dfiles: map[string]*Inode{}, Cap: -1, CrashAt: -1}
		w.Ext["fs"] = f
	}
	return f
}

func (f *FS) norm(p string) string { return path.Clean("/" + p) }

// Put creates a durable file.
func (f *FS) Put(name string, b []byte) {
	i := &Inode{Data: append([]byte(nil), b...), durable: append([]byte(nil), b...)}
	f.files[f.norm(name)] = i
	f.dfiles[f.norm(name)] = i
}

// PutFar creates a durable file that has n bytes of the filling in front of what is written to it.
func (f *FS) PutFar(name string, n int64, fill []byte) {
	f.Put(name, nil)
	i := f.files[f.norm(name)]
	i.base, i.fill = n, fill
}

// Size returns the size of a file.
func (f *FS) Size(name string) int64 {
	if i := f.files[f.norm(name)]; i != nil {
		return i.size()
	}
	return 0
}

// Get returns the content a reader would see (after a filling), nil if there is no such file.
func (f *FS) Get(name string) []byte {
	if i := f.files[f.norm(name)]; i != nil {
		return i.Data
	}
	return nil
}

// Exists tells if the file exists.
func (f *FS) Exists(name string) bool { return f.files[f.norm(name)] != nil }

// Truncate cuts a file durably (test preparation).
func (f *FS) Cut(name string, n int) {
	i := f.files[f.norm(name)]
	i.Data = append([]byte(nil), i.Data[:n]...)
	i.durable = append([]byte(nil), i.Data...)
	i.pend = nil
}

func perr(o, n string, e error) error { return &os.PathError{Op: o, Path: n, Err: e} }

// Handle is an open file.
type Handle struct {
	fs     *FS
	ino    *Inode
	name   string
	pos    int64
	flag   int
	closed bool
	node   *rt.Node
	gen    int
}

func (f *FS) dead() bool { return rt.Dying() }

func (f *FS) OpenFile(name string, flag int, perm os.FileMode) (*Handle, error) {
	if f.dead() {
		return nil, perr("open", name, syscall.EIO)
	}
	f.w.Pause()
	n := f.norm(name)
	if f.POpen > 0 && f.w.Chance("fs.open", f.POpen) {
		f.w.Count("fault.disk.open_error")
		return nil, perr("open", name, syscall.EMFILE)
	}
	i := f.files[n]
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		i = &Inode{}
		f.files[n] = i
		f.pendNS = append(f.pendNS, nsop{n, i})
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if i.isDir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
	}
	if flag&os.O_TRUNC != 0 {
		i.truncate(0)
	}
	f.Open++
	t := f.w.Cur()
	return &Handle{fs: f, ino: i, name: name, flag: flag, node: t.Node, gen: t.Node.Gen}, nil
}

func (i *Inode) write(off int64, b []byte) {
	if n := off + int64(len(b)); n > int64(len(i.Data)) {
		if n > 1<<30 {
			panic("simfs: file too large")
		}
		if int(n) <= cap(i.Data) {
			old := len(i.Data)
			i.Data = i.Data[:n]
			for k := old; k < int(n); k++ {
				i.Data[k] = 0
			}
		} else {
			d := make([]byte, n, n+n/2+64)
			copy(d, i.Data)
			i.Data = d
		}
	}
	copy(i.Data[off:], b)
	i.pend = append(i.pend, op{off: off, data: append([]byte(nil), b...)})
}

func (i *Inode) truncate(n int64) {
	i.Data = resize(i.Data, n)
	i.pend = append(i.pend, op{trunc: true, off: n})
}

func resize(b []byte, n int64) []byte {
	if n <= int64(len(b)) {
		return append([]byte(nil), b[:n]...)
	}
	d := make([]byte, n)
	copy(d, b)
	return d
}

func (i *Inode) fsync() {
	for _, o := range i.pend {
		i.durable = apply(i.durable, o)
	}
	i.pend = nil
}

func apply(b []byte, o op) []byte {
	if o.trunc {
		return resize(b, o.off)
	}
	if n := o.off + int64(len(o.data)); n > int64(len(b)) {
		if int(n) <= cap(b) {
			old := len(b)
			b = b[:n]
			for k := old; k < int(n); k++ {
				b[k] = 0
			}
		} else {
			d := make([]byte, n, n+n/2+64)
			copy(d, b)
			b = d
		}
	}
	copy(b[o.off:], o.data)
	return b
}

// crashPoint is called before every mutating operation.
func (f *FS) crashHere() bool {
	f.Ops++
	return f.CrashAt >= 0 && f.Ops == f.CrashAt+1
}

// powerOff stops the calling task for good and requests the crash.
func (f *FS) powerOff() {
	f.w.Note("power cut at I/O operation %d", f.Ops)
	if f.OnCrash != nil {
		f.OnCrash()
	}
	f.w.Wait(&f.hung, 0)
	select {}
}

func (h *Handle) check(o string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr(o, h.name, os.ErrClosed)
	}
	return nil
}

func (h *Handle) Write(b []byte) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.fs.dead() {
		return len(b), nil
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = h.ino.size()
	}
	n, err := h.pwrite(b, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if h.fs.dead() {
		return len(b), nil
	}
	if off < 0 {
		return 0, perr("writeat", h.name, os.ErrInvalid)
	}
	return h.pwrite(b, off)
}

func (h *Handle) pwrite(b []byte, off int64) (int, error) {
	f := h.fs
	w := f.w
	w.Pause()
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if off -= h.ino.base; off < 0 {
		w.Fail("overwrite", "write of %d bytes to %s at %d, in front of its end at %d", len(b), h.name, off+h.ino.base, h.ino.size())
	}
	if f.crashHere() {
		n := len(b) * f.CrashFrac / 1000
		h.ino.write(off, b[:n])
		f.powerOff()
	}
	lim := len(b)
	var ferr error
	if f.PWrite > 0 {
		v := w.Choose("fs.write", 2000, func(r *rt.Rand) int {
			if !r.P(f.PWrite) {
				return 0
			}
			switch r.Intn(3) {
			case 0:
				return 1 // nothing written
			case 1:
				return 2 + r.Intn(999)
			}
			return 1001 + r.Intn(1000)
		})
		if v > 0 {
			if v <= 1000 {
				lim = len(b) * (v - 1) / 1000
				ferr = syscall.ENOSPC
				w.Count("fault.disk.enospc")
			} else {
				lim = len(b) * (v - 1001) / 1000
				ferr = syscall.EIO
				w.Count("fault.disk.write_eio")
			}
			if lim > 0 {
				w.Count("fault.disk.short_write")
			}
		}
	}
	if f.Cap >= 0 {
		grow := off + int64(lim) - int64(len(h.ino.Data))
		used := f.used()
		if grow > 0 && used+grow > f.Cap {
			n := int64(lim) - (used + grow - f.Cap)
			if n < 0 {
				n = 0
			}
			lim = int(n)
			ferr = syscall.ENOSPC
			w.Count("fault.disk.full")
		}
	}
	n := 0
	for n < lim {
		k := lim - n
		if f.ChunkWr > 0 && k > 1 {
			v := w.Choose("fs.wchunk", k-1, func(r *rt.Rand) int {
				if !r.P(f.ChunkWr) {
					return 0
				}
				return 1 + r.Intn(k-1)
			})
			if v > 0 {
				k = v
				w.Count("fault.disk.slow_write")
			}
		}
		h.ino.write(off+int64(n), b[n:n+k])
		n += k
		if n < lim {
			w.Pause()
			if rt.Dying() {
				return n, nil
			}
		}
	}
	w.Note("write %s off=%d len=%d done=%d err=%v", h.name, off, len(b), n, ferr)
	if ferr != nil {
		return n, perr("write", h.name, ferr)
	}
	return n, nil
}

func (f *FS) used() int64 {
	var n int64
	for _, i := range f.files {
		n += int64(len(i.Data))
	}
	return n
}

func (h *Handle) shorten(k int) int {
	f := h.fs
	if f.ShortRd <= 0 || k <= 1 {
		return k
	}
	v := f.w.Choose("fs.read", k-1, func(r *rt.Rand) int {
		if !r.P(f.ShortRd) {
			return 0
		}
		if r.P(0.5) {
			return 1 + r.Intn(min(k-1, 8))
		}
		return 1 + r.Intn(k-1)
	})
	if v > 0 {
		f.w.Count("fault.disk.short_read")
		return v
	}
	return k
}

func (h *Handle) rfault() error {
	f := h.fs
	if f.PRead > 0 && f.w.Chance("fs.readerr", f.PRead) {
		f.w.Count("fault.disk.read_eio")
		return perr("read", h.name, syscall.EIO)
	}
	return nil
}

func (h *Handle) Read(b []byte) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if h.fs.dead() {
		return 0, io.EOF
	}
	h.fs.w.Pause()
	if h.ino.isDir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := h.rfault(); err != nil {
		return 0, err
	}
	if h.pos >= h.ino.size() {
		return 0, io.EOF
	}
	k := int(min(int64(len(b)), h.ino.size()-h.pos))
	k = h.shorten(k)
	h.get(b[:k], h.pos)
	h.pos += int64(k)
	return k, nil
}

// get copies the bytes of the file at off.
func (h *Handle) get(b []byte, off int64) {
	i := h.ino
	for len(b) > 0 && off < i.base {
		o := int(off % int64(len(i.fill)))
		n := copy(b[:min(int64(len(b)), i.base-off)], i.fill[o:])
		b, off = b[n:], off+int64(n)
		if i.low += int64(n); i.low > 4<<20 {
			// The filling is for reads at a position, not for going through it
			h.fs.w.Abandon("reading a large file from its start")
		}
	}
	if len(b) > 0 {
		copy(b, i.Data[off-i.base:])
	}
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if h.fs.dead() {
		return 0, io.EOF
	}
	if off < 0 {
		return 0, perr("readat", h.name, os.ErrInvalid)
	}
	h.fs.w.Pause()
	if err := h.rfault(); err != nil {
		return 0, err
	}
	n := 0
	for n < len(b) {
		if off+int64(n) >= h.ino.size() {
			return n, io.EOF
		}
		// pieces, as with Read
		k := h.shorten(int(min(int64(len(b)-n), h.ino.size()-off-int64(n))))
		h.get(b[n:n+k], off+int64(n))
		n += k
		if n < len(b) {
			h.fs.w.Pause()
			if h.fs.dead() {
				return n, io.EOF
			}
			if err := h.rfault(); err != nil {
				return n, err
			}
		}
	}
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	if h.fs.dead() {
		return h.pos, nil
	}
	f := h.fs
	if f.PSeek > 0 && f.w.Chance("fs.seek", f.PSeek) {
		f.w.Count("fault.disk.seek_error")
		return 0, perr("seek", h.name, syscall.EIO)
	}
	f.w.Pause()
	var p int64
	switch whence {
	case 0:
		p = off
	case 1:
		p = h.pos + off
	case 2:
		p = h.ino.size() + off
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if p < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = p
	return p, nil
}

func (h *Handle) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	if h.fs.dead() {
		return nil
	}
	f := h.fs
	f.w.Pause()
	if f.crashHere() {
		f.powerOff()
	}
	if f.PSync > 0 && f.w.Chance("fs.sync", f.PSync) {
		f.SyncFailed = true
		f.w.Count("fault.disk.sync_error")
		f.w.Note("sync %s fails", h.name)
		return perr("sync", h.name, syscall.EIO)
	}
	f.SyncFailed = false
	h.ino.fsync()
	for _, o := range f.pendNS {
		if o.ino == nil {
			delete(f.dfiles, o.name)
		} else {
			f.dfiles[o.name] = o.ino
		}
	}
	f.pendNS = nil
	f.w.Note("sync %s size=%d", h.name, h.ino.size())
	return nil
}

func (h *Handle) Truncate(n int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	if h.fs.dead() {
		return nil
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	if n < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	h.fs.w.Pause()
	if h.fs.crashHere() {
		h.fs.powerOff()
	}
	if n < h.ino.base {
		h.fs.w.Fail("overwrite", "%s is cut to %d bytes", h.name, n)
	}
	h.ino.truncate(n - h.ino.base)
	h.fs.w.Note("truncate %s %d", h.name, n)
	return nil
}

func (h *Handle) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	h.fs.Open--
	return nil
}

func (h *Handle) Name() string { return h.name }
func (h *Handle) IsDir() bool  { return h.ino.isDir }

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return path.Base(i.name) }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

func (h *Handle) Stat() (os.FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	return info{h.name, h.ino.size(), h.ino.isDir}, nil
}

func (f *FS) Stat(name string) (os.FileInfo, error) {
	i := f.files[f.norm(name)]
	if i == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, i.size(), i.isDir}, nil
}

func (f *FS) Mkdir(name string) error {
	n := f.norm(name)
	if f.files[n] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	i := &Inode{isDir: true}
	f.files[n] = i
	f.pendNS = append(f.pendNS, nsop{n, i})
	return nil
}

func (f *FS) Remove(name string) error {
	if f.dead() {
		return nil
	}
	n := f.norm(name)
	if f.files[n] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.files, n)
	f.pendNS = append(f.pendNS, nsop{n, nil})
	return nil
}

func (f *FS) RemoveAll(name string) error {
	n := f.norm(name)
	var del []string
	for k := range f.files {
		if k == n || strings.HasPrefix(k, n+"/") {
			del = append(del, k)
		}
	}
	sort.Strings(del)
	for _, k := range del {
		f.Remove(k)
	}
	return nil
}

func (f *FS) Rename(a, b string) error {
	if f.dead() {
		return nil
	}
	i := f.files[f.norm(a)]
	if i == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(f.files, f.norm(a))
	f.files[f.norm(b)] = i
	f.pendNS = append(f.pendNS, nsop{f.norm(a), nil}, nsop{f.norm(b), i})
	return nil
}

// Truncate cuts a file by name.
func (f *FS) Truncate(name string, n int64) error {
	i := f.files[f.norm(name)]
	if i == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	f.w.Pause()
	if f.crashHere() {
		f.powerOff()
	}
	if n < i.base {
		f.w.Fail("overwrite", "%s is cut to %d bytes", name, n)
	}
	i.truncate(n - i.base)
	return nil
}

// Crash mode names.
var modes = []string{"kept", "lost", "prefix", "torn", "subset"}

// PowerLoss applies a crash to the disk: what was not synced is kept, lost or torn.
// All handles must already be dead.
func (f *FS) PowerLoss() {
	w := f.w
	m := w.Choose("crash.mode", 4, func(r *rt.Rand) int { return r.Intn(5) })
	w.Count("fault.crash." + modes[m])
	// name space: a prefix of the pending operations survives
	keep := len(f.pendNS)
	if m != 0 && keep > 0 {
		keep -= w.Uniform("crash.ns", keep+1)
	}
	for _, o := range f.pendNS[:keep] {
		if o.ino == nil {
			delete(f.dfiles, o.name)
		} else {
			f.dfiles[o.name] = o.ino
		}
	}
	f.pendNS = nil
	f.files = map[string]*Inode{}
	var names []string
	for k, i := range f.dfiles {
		f.files[k] = i
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		i := f.files[k]
		d := i.durable
		np := len(i.pend)
		switch m {
		case 0:
			for _, o := range i.pend {
				d = apply(d, o)
			}
		case 1:
		case 2, 3:
			n := 0
			if np > 0 {
				n = np - w.Uniform("crash.n", np+1)
			}
			for _, o := range i.pend[:n] {
				d = apply(d, o)
			}
			if m == 3 && n < np && !i.pend[n].trunc {
				o := i.pend[n]
				l := w.Uniform("crash.tear", len(o.data)+1)
				o.data = o.data[:l]
				if l > 0 {
					d = apply(d, o)
				}
			}
		case 4:
			for _, o := range i.pend {
				if w.Uniform("crash.sub", 2) == 1 {
					continue
				}
				if !o.trunc && len(o.data) > 512 {
					for a := 0; a < len(o.data); a += 512 {
						if w.Uniform("crash.sub", 2) == 0 {
							e := min(a+512, len(o.data))
							d = apply(d, op{off: o.off + int64(a), data: o.data[a:e]})
						}
					}
					continue
				}
				d = apply(d, o)
			}
		}
		i.durable = append([]byte(nil), d...)
		i.Data = append([]byte(nil), d...)
		i.pend = nil
		w.Note("after crash (%s): %s has %d bytes", modes[m], k, len(i.Data))
	}
	f.CrashAt = -1
	f.Open = 0
	f.hung = rt.WaitQ{}
}

// ---- standard streams ----

// ReadStdin delivers standard input in pieces.
func (f *FS) ReadStdin(b []byte) (int, error) {
	f.w.Pause()
	if f.stdinPos >= len(f.Stdin) {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	k := min(len(b), len(f.Stdin)-f.stdinPos)
	h := &Handle{fs: f}
	k = h.shorten(k)
	copy(b, f.Stdin[f.stdinPos:f.stdinPos+k])
	f.stdinPos += k
	return k, nil
}

// ResetStd prepares the standard streams for another program run.
func (f *FS) ResetStd(in []byte) {
	f.Stdin, f.stdinPos, f.Stdout, f.Stderr = in, 0, nil, nil
}
