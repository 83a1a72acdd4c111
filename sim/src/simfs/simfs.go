// Package simfs puts the files of the code under test under the simulator: every file operation
// passes through it, can be made to fail, is confined to one scratch directory, and a simulated
// power failure can undo what was not synced.
package simfs

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// Crash unwinds the code under test when the machine stops.
const Crash = simkit.Sentinel("machine stopped")

// Fault makes one operation fail: the nth of those its kind applies to.
type Fault struct {
	Kind string
	N    int64
}

// kinds: which operations a fault applies to and what they return
var kinds = map[string]struct {
	ops string
	err syscall.Errno
}{
	"write_error":     {"write pwrite", syscall.EIO},
	"short_write":     {"write pwrite", syscall.ENOSPC}, // a part reaches the disk
	"disk_full":       {"write pwrite mkdir create", syscall.ENOSPC},
	"open_error":      {"create openw", syscall.EACCES},
	"mkdir_error":     {"mkdir", syscall.EACCES},
	"close_error":     {"close", syscall.EIO}, // deferred write error: a part of the data is lost
	"remove_error":    {"remove removeall", syscall.EBUSY},
	"read_error":      {"read pread", syscall.EIO},
	"read_open_error": {"open", syscall.EMFILE},
	"stat_error":      {"stat", syscall.EIO},
	"list_error":      {"readdir", syscall.EIO},
	"rename_error":    {"rename", syscall.EIO},
	"sync_error":      {"sync", syscall.EIO}, // a part of the data is lost
	"short_read":      {"read", 0},           // fewer bytes than asked for, as read(2) may
	"crash":           {"write pwrite mkdir create openw close remove removeall rename read open", 0},
}

// Kinds lists the fault kinds that exist.
func Kinds() []string { return simkit.SortedKeys(kinds) }

type FS struct {
	c      *simkit.Ctx
	Root   string // everything outside is read-only
	Out    strings.Builder
	Err    strings.Builder
	faults []Fault
	seen   map[string]int64 // operations seen per fault kind
	full   bool             // the disk stays full
	dead   bool             // the machine has stopped
	dirty  map[string]bool  // written since the last sync
	closed map[*os.File]bool
	Ops    int64
	Denied []string
	// Hit counts the faults that took effect.
	Hit int
	// BeforeOp, if set, is called before each operation in Root (a scheduling point).
	BeforeOp func(op, path string)
	// Match restricts faults to the files whose path it accepts.
	Match  func(path string) bool
	paused bool
}

// New returns an inactive simulated file system confined to root.
func New(c *simkit.Ctx, root string) *FS {
	return &FS{c: c, Root: root, seen: map[string]int64{}, dirty: map[string]bool{}, closed: map[*os.File]bool{}}
}

// Plan sets the faults of what runs next and forgets the output so far.
func (fs *FS) Plan(faults []Fault) {
	fs.faults, fs.seen = faults, map[string]int64{}
	fs.full, fs.dead, fs.Hit = false, false, 0
	fs.closed = map[*os.File]bool{}
	fs.Out.Reset()
	fs.Err.Reset()
}

// Run executes f with the file system active; crashed tells whether the machine stopped.
func (fs *FS) Run(f func()) (msg string, panicked, crashed bool) {
	os.VerifOp = fs.op
	defer func() {
		os.VerifOp = nil
		if r := recover(); r != nil {
			if s, ok := r.(simkit.Sentinel); ok && s == Crash {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	msg, panicked = fs.c.Try(f)
	if fs.dead { // the code caught the panic that stopped the machine
		crashed = true
	}
	return
}

func (fs *FS) inside(path string) bool {
	return path == fs.Root || strings.HasPrefix(path, fs.Root+"/")
}

// Abs resolves a name as the code under test sees it.
func (fs *FS) Abs(name string) string {
	if !filepath.IsAbs(name) {
		name = fs.Root + "/" + name
	}
	return filepath.Clean(name)
}

func (fs *FS) op(op, name string, f *os.File, b []byte) (n int, err error, handled bool) {
	if fs.paused {
		return 0, nil, false
	}
	if f != nil && (f == os.Stdout || f == os.Stderr) {
		if op != "write" {
			return 0, nil, false
		}
		if f == os.Stdout {
			fs.Out.Write(b)
		} else {
			fs.Err.Write(b)
		}
		return len(b), nil, true
	}
	if op == "close" && f != nil {
		if fs.closed[f] {
			return 0, nil, false // closing it once more has no effect
		}
		fs.closed[f] = true
	}
	path := fs.Abs(name)
	if !fs.inside(path) {
		switch op {
		case "read", "pread", "open", "stat", "close", "readdir", "sync":
			return 0, nil, false
		}
		fs.Denied = append(fs.Denied, op+" "+path)
		return 0, syscall.EACCES, true
	}
	if fs.dead {
		return 0, syscall.EIO, true
	}
	fs.Ops++
	if fs.BeforeOp != nil {
		fs.BeforeOp(op, path)
	}
	if op == "rename" || op == "link" || op == "symlink" {
		if to := fs.Abs(string(b)); op == "rename" && !fs.inside(to) {
			fs.Denied = append(fs.Denied, op+" to "+to)
			return 0, syscall.EACCES, true
		}
	}
	switch op {
	case "write", "pwrite", "openw":
		fs.dirty[path] = true
	case "sync":
		delete(fs.dirty, path)
	case "rename":
		to := fs.Abs(string(b))
		if fs.dirty[path] {
			fs.dirty[to] = true
			delete(fs.dirty, path)
		}
	}
	what := op
	if op == "openw" {
		fs.paused = true
		if _, err := os.Lstat(path); err != nil {
			what = "create"
		}
		fs.paused = false
	}
	if fs.Match != nil && !fs.Match(path) {
		return 0, nil, false
	}
	if fs.full && (op == "write" || op == "pwrite" || what == "create" || op == "mkdir" && !fs.exists(path)) {
		fs.fault("disk_full")
		return 0, syscall.ENOSPC, true
	}
	for _, ft := range fs.faults {
		k := kinds[ft.Kind]
		if !has(k.ops, what) && !(what == "openw" && has(k.ops, op)) {
			continue
		}
		if strings.Contains(k.ops, "mkdir") && op == "mkdir" && fs.exists(path) {
			continue // it would fail or be skipped anyway
		}
		key := fmt.Sprint(ft)
		i := fs.seen[key]
		fs.seen[key]++
		if i != ft.N {
			continue
		}
		switch ft.Kind {
		case "short_write":
			fs.fault(ft.Kind)
			n = fs.part(f, op, b)
			return n, k.err, true
		case "disk_full":
			fs.full = true
		case "short_read":
			if len(b) < 2 {
				return 0, nil, false
			}
			fs.paused = true
			n, err := f.Read(b[:len(b)/2])
			fs.paused = false
			fs.c.Fault(ft.Kind) // not counted as hit: it needs no report
			return n, err, true
		case "close_error", "sync_error":
			fs.fault(ft.Kind)
			if fs.dirty[path] {
				fs.paused = true
				if st, err := os.Stat(path); err == nil && st.Size() > 0 {
					os.Truncate(path, st.Size()/2)
				}
				fs.paused = false
			}
			return 0, k.err, true
		case "crash":
			fs.fault(ft.Kind)
			if op == "write" || op == "pwrite" {
				fs.part(f, op, b)
			}
			fs.dead = true
			panic(Crash)
		}
		fs.fault(ft.Kind)
		return 0, k.err, true
	}
	return 0, nil, false
}

func has(list, s string) bool {
	for _, x := range strings.Fields(list) {
		if x == s {
			return true
		}
	}
	return false
}

func (fs *FS) exists(path string) bool {
	fs.paused = true
	defer func() { fs.paused = false }()
	_, err := os.Lstat(path)
	return err == nil
}

func (fs *FS) fault(kind string) {
	fs.c.Fault(kind)
	fs.Hit++
}

// part writes the first half of b.
func (fs *FS) part(f *os.File, op string, b []byte) int {
	fs.paused = true
	defer func() { fs.paused = false }()
	if op == "pwrite" {
		return 0
	}
	n, _ := f.Write(b[:len(b)/2])
	return n
}

// Dead tells whether the machine has stopped.
func (fs *FS) Dead() bool { return fs.dead }

// PowerLoss decides what remains of unsynced files after the machine stopped.
func (fs *FS) PowerLoss(seed uint64) {
	r := simkit.NewRng(seed)
	for _, path := range simkit.SortedKeys(fs.dirty) {
		st, err := os.Stat(path)
		if err != nil || !st.Mode().IsRegular() || st.Size() == 0 {
			continue
		}
		switch r.Intn(4) {
		case 0:
			os.Truncate(path, 0)
			fs.c.Fault("lost_write")
		case 1:
			os.Truncate(path, int64(r.Intn(int(st.Size()))))
			fs.c.Fault("torn_write")
		}
	}
	fs.dirty = map[string]bool{}
}

// Synced makes everything durable.
func (fs *FS) Synced() { fs.dirty = map[string]bool{} }

var reported = regexp.MustCompile(`(?i)error|fail|warn|cannot|can't|could ?n[o']t|unable|unsuccessful|invalid|problem|오류|실패`)

// Reported tells whether the output tells the user that something went wrong.
func (fs *FS) Reported() string { return ReportedIn(fs.Out.String() + "\n" + fs.Err.String()) }

// ReportedIn finds the line in which an output names an error.
func ReportedIn(out string) string {
	for _, line := range strings.Split(out, "\n") {
		if reported.MatchString(line) {
			return line
		}
	}
	return ""
}

// Clock is the simulated clock behind time.Now.
type Clock struct {
	Now      int64   // ns
	Steps    []int64 // advance before each reading, then Rest each
	Rest     int64
	Readings []int64
	c        *simkit.Ctx
	only     func() bool
}

// Install puts the clock behind time.Now until the returned function is called.
func (k *Clock) Install(c *simkit.Ctx) (stop func()) {
	k.c = c
	i := 0
	time.VerifNow = func() (int64, bool) {
		d := k.Rest
		if i < len(k.Steps) {
			d = k.Steps[i]
		}
		i++
		if d < 0 {
			c.Fault("clock_jump_back")
		} else if d == 0 {
			c.Fault("clock_stall")
		} else if d > 3600_000_000_000 {
			c.Fault("clock_jump_ahead")
		}
		k.Now = max(0, k.Now+d)
		k.Readings = append(k.Readings, k.Now)
		return k.Now, true
	}
	return func() { time.VerifNow = nil }
}

var scratch, tmp string

// Scratch makes the working directory of this process a fresh directory of its own and returns it (for use in a run).
func Scratch() string {
	if scratch == "" {
		tmp = os.Getenv("TMPDIR")
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		runtime.VerifSim(false) // the name is no part of the run
		d, err := os.MkdirTemp(base, fmt.Sprintf("run%d-", os.Getpid()))
		runtime.VerifSim(true)
		if err != nil {
			panic(err)
		}
		scratch = d
	} else if err := os.RemoveAll(scratch); err != nil {
		panic(err)
	}
	for _, d := range []string{scratch, scratch + "/tmp"} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	if err := os.Chdir(scratch); err != nil {
		panic(err)
	}
	os.Setenv("TMPDIR", scratch+"/tmp")
	return scratch
}

// Cleanup removes the scratch directory of this process.
func Cleanup() {
	if scratch != "" {
		os.Chdir("/")
		os.RemoveAll(scratch)
		os.Setenv("TMPDIR", tmp)
		scratch = ""
	}
}

// Repo is the repository under test.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}
