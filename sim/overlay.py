#!/usr/bin/env python3
"""Generate the build overlay of the simulator.

overlay.py BUILDDIR REPO

Writes BUILDDIR/overlay.json, which makes the Go tool compile
  * the simulator packages of /verif/sim/src as packages of the module in REPO, and
  * patched copies of a few standard library files: the seams (map order and math/rand,
    clock, files, HTTP listener) through which the simulator decides every source of
    nondeterminism of the code under test.
Nothing in REPO or GOROOT is written.  All seams are inert until a simulation run arms them.
"""
import json, os, re, shutil, subprocess, sys

build, repo = sys.argv[1], os.path.abspath(sys.argv[2])
here = os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True, cwd=repo).strip()
std = os.path.join(build, "std")
replace = {}


def patch(file, *edits):
    """Copy a GOROOT file and apply (anchor, replacement) edits; each anchor must occur exactly once."""
    src = os.path.join(goroot, "src", file)
    text = open(src).read()
    for anchor, new in edits:
        if text.count(anchor) != 1:
            sys.exit(f"overlay.py: {src}: anchor found {text.count(anchor)} times: {anchor!r}")
        text = text.replace(anchor, new)
    dst = os.path.join(std, file)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(text)
    replace[src] = dst


def add(file, text):
    """Add a file to a GOROOT package."""
    dst = os.path.join(std, file)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(text)
    replace[os.path.join(goroot, "src", file)] = dst


# --- randomness: map iteration order, map hash seeds, math/rand, math/rand/v2 ---
# Hash seeds come from rand and are the same throughout a run: maps that outlive a run (caches of
# the standard library, made by whichever run comes first) then do not shift what is drawn for
# the others.  Iteration order and random numbers are drawn through verifDraw.
patch("runtime/rand.go",
      # Process-wide hash keys must not differ between the run that finds and the one that replays
      ("	globalRand.state.Init(*seed)\n	clear(seed[:])\n",
       "	clear(seed[:])\n	seed[0] = 1\n	globalRand.state.Init(*seed)\n	clear(seed[:])\n"),
      ("func rand() uint64 {\n", "func rand() uint64 { return verifMapSeed }\n\n//go:nosplit\nfunc verifRand() uint64 {\n"))
patch("internal/runtime/maps/runtime.go",
      ("func rand() uint64\n", "func rand() uint64\n\n//go:linkname verifDraw\nfunc verifDraw() uint64\n"))
patch("internal/runtime/maps/table.go",
      ("it.entryOffset = rand()\n", "it.entryOffset = verifDraw()\n"),
      ("it.dirOffset = rand()\n", "it.dirOffset = verifDraw()\n"))
for f in ("math/rand/rand.go", "math/rand/v2/rand.go", "os/tempfile.go"):
    patch(f, ("//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.verifDraw\n"))
# What is done once per process (caches again) leaves the stream as it was, whichever run does it.
patch("sync/once.go",
      ("		defer o.done.Store(true)\n		f()\n",
       "		defer o.done.Store(true)\n		state := verifSave()\n		f()\n		verifRestore(state)\n"))
add("sync/verif_sim.go", '''package sync

import _ "unsafe"

//go:linkname verifSave
func verifSave() uint64

//go:linkname verifRestore
func verifRestore(uint64)
''')
patch("runtime/runtime2.go", ("type g struct {\n", "type g struct {\n	verifPad\n"), )
# the field goes to the end of the struct, so that no offset known to assembly moves
text = open(os.path.join(std, "runtime/runtime2.go")).read().replace("type g struct {\n	verifPad\n", "type g struct {\n")
start = text.index("type g struct {\n")
end = text.index("\n}\n", start)
text = text[:end] + "\n	verifSim bool // set while the simulator owns this goroutine\n	verifTask int32 // 1 + index into verifTasks\n	verifSpawn bool // the next goroutine it starts is a task" + text[end:]
open(os.path.join(std, "runtime/runtime2.go"), "w").write(text)
add("runtime/verif_sim.go", '''package runtime

import _ "unsafe"

var (
	verifRandState, verifRandCount uint64
	verifMapSeed                   uint64 = 1
)

//go:linkname verifDraw
func verifDraw() uint64 {
	if getg().verifSim {
		return verifRandNext()
	}
	return verifRand()
}

//go:linkname maps_verifDraw internal/runtime/maps.verifDraw
func maps_verifDraw() uint64 { return verifDraw() }

func verifRandNext() uint64 {
	verifRandCount++
	verifRandState += 0x9e3779b97f4a7c15
	z := verifRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// VerifSim puts the calling goroutine under (or out of) the simulator's random source.
func VerifSim(on bool) { getg().verifSim = on }

// VerifSeed reseeds the random source of the simulated goroutines.
func VerifSeed(seed uint64) {
	verifRandState = seed
	verifMapSeed = seed*0xbf58476d1ce4e5b9 + 1
}

//go:linkname verifSave sync.verifSave
func verifSave() uint64 { return verifRandState }

//go:linkname verifRestore sync.verifRestore
func verifRestore(state uint64) {
	if getg().verifSim {
		verifRandState = state
	}
}

// VerifRandCount returns how many random words simulated goroutines have drawn.
func VerifRandCount() uint64 { return verifRandCount }
''')

# --- goroutines: those started by the simulator (and by them) run one at a time, when told ---
patch("runtime/proc.go",
      ("	releasem(mp)\n	// can't do anything that might move the G between Ms here.\n	mcall(park_m)\n}\n",
       "	releasem(mp)\n	if gp.verifTask != 0 && verifWaits(reason) {\n		verifTasks[gp.verifTask-1].state.Store(verifBlocked)\n		mcall(park_m)\n"
       "		VerifYield()\n		return\n	}\n	// can't do anything that might move the G between Ms here.\n	mcall(park_m)\n}\n"),
      ("func ready(gp *g, traceskip int, next bool) {\n",
       "func ready(gp *g, traceskip int, next bool) {\n	if t := gp.verifTask; t != 0 {\n		verifTasks[t-1].state.CompareAndSwap(verifBlocked, verifComing)\n	}\n"),
      ("	pc := sys.GetCallerPC()\n	systemstack(func() {\n		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n",
       "	pc := sys.GetCallerPC()\n	if gp.verifTask != 0 || gp.verifSpawn {\n		verifNew(fn, pc)\n		return\n	}\n"
       "	systemstack(func() {\n		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n"),
      ("	gp.bubble = nil\n	gp.fipsOnlyBypass = false\n",
       "	gp.bubble = nil\n	if t := gp.verifTask; t != 0 {\n		verifTasks[t-1].state.Store(verifDone)\n	}\n"
       "	gp.verifTask, gp.verifSim, gp.verifSpawn = 0, false, false\n	gp.fipsOnlyBypass = false\n"))
# the collector's own goroutines are no tasks, and waiting for them is no wait for a task
patch("runtime/mgc.go",
      ("	mp := acquirem()\n	ready := make(chan struct{}, 1)\n",
       "	defer verifBack(verifLeave())\n	mp := acquirem()\n	ready := make(chan struct{}, 1)\n"))
patch("runtime/mfinal.go", ("		go runFinalizers()\n", "		left := verifLeave()\n		go runFinalizers()\n		verifBack(left)\n"))
patch("runtime/mcleanup.go", ("		go runCleanups()\n", "		left := verifLeave()\n		go runCleanups()\n		verifBack(left)\n"))
# the time a lock was waited for must not matter
patch("internal/sync/mutex.go", ("starvationThresholdNs = 1e6", "starvationThresholdNs = 1e18"))
add("runtime/verif_task.go", '''package runtime

import (
	"internal/runtime/atomic"
	"internal/runtime/sys"
	"unsafe"
)

// States of a simulated task.
const (
	verifRunning = iota + 1
	verifReady   // waits for its turn
	verifBlocked // waits for another task
	verifComing  // about to wait for its turn
	verifDone
)

type verifT struct {
	state atomic.Uint32
	gp    guintptr
	fn    *funcval
}

var (
	verifTasks [1024]verifT
	verifCount atomic.Uint32
)

// verifWaits tells whether a task that parks for this reason waits for other tasks.
func verifWaits(r waitReason) bool {
	switch r {
	case waitReasonSleep, waitReasonChanReceiveNilChan, waitReasonChanSendNilChan, waitReasonSelectNoCases, waitReasonSelect,
		waitReasonChanReceive, waitReasonChanSend, waitReasonSyncCondWait, waitReasonSyncMutexLock, waitReasonSyncRWMutexRLock,
		waitReasonSyncRWMutexLock, waitReasonSyncWaitGroupWait, waitReasonCoroutine:
		return true
	}
	return false
}

func verifMain() {
	gp := getg()
	VerifYield()
	fn := verifTasks[gp.verifTask-1].fn
	verifTasks[gp.verifTask-1].fn = nil
	(*(*func())(unsafe.Pointer(&fn)))()
}

var verifMainFunc = verifMain

// verifLeave makes the calling goroutine no task until verifBack.
func verifLeave() int32 {
	gp := getg()
	left := gp.verifTask << 1
	if gp.verifSpawn {
		left++
	}
	gp.verifTask, gp.verifSpawn = 0, false
	return left
}

func verifBack(left int32) {
	gp := getg()
	gp.verifTask, gp.verifSpawn = left>>1, left&1 != 0
}

// verifNew starts fn as a task that waits for its turn.
func verifNew(fn *funcval, pc uintptr) {
	n := verifCount.Add(1)
	if int(n) > len(verifTasks) {
		throw("too many simulated tasks")
	}
	t := &verifTasks[n-1]
	t.fn = fn
	t.state.Store(verifComing)
	gp := getg()
	systemstack(func() {
		newg := newproc1(*(**funcval)(unsafe.Pointer(&verifMainFunc)), gp, pc, false, waitReasonZero)
		newg.verifTask = int32(n)
		newg.verifSim = true
		t.gp.set(newg)
		runqput(getg().m.p.ptr(), newg, true)
		wakep()
	})
}

func verifParked(gp *g, _ unsafe.Pointer) bool {
	verifTasks[gp.verifTask-1].state.Store(verifReady)
	return true
}

// VerifYield makes the calling task wait for its next turn; outside of tasks it does nothing.
func VerifYield() {
	if getg().verifTask != 0 {
		gopark(verifParked, nil, waitReasonZero, traceBlockGeneric, 1)
	}
}

// VerifSelf is the number of the calling task, or -1.
func VerifSelf() int { return int(getg().verifTask) - 1 }

// VerifGo starts f as a task.
func VerifGo(f func()) int {
	gp := getg()
	n := int(verifCount.Load())
	old := gp.verifSpawn
	gp.verifSpawn = true
	go f()
	gp.verifSpawn = old
	return n
}

// VerifTasks is the number of tasks since the last VerifReset.
func VerifTasks() int { return int(verifCount.Load()) }

// VerifReset forgets all tasks; they must have ended.
func VerifReset() { verifCount.Store(0) }

// VerifTurn lets a task that is ready run until it waits again.
func VerifTurn(i int) {
	t := &verifTasks[i]
	if t.state.CompareAndSwap(verifReady, verifRunning) {
		goready(t.gp.ptr(), 1)
	}
	verifSettle()
}

// verifSettle waits until every task waits.
func verifSettle() {
	for spins := 0; ; spins++ {
		moving := false
		for i := uint32(0); i < verifCount.Load(); i++ {
			s := verifTasks[i].state.Load()
			moving = moving || s == verifRunning || s == verifComing
		}
		if !moving {
			return
		}
		if spins < 50 {
			Gosched()
		} else {
			usleep(20)
			Gosched()
		}
	}
}

// VerifState tells whether a task is "ready", "blocked" or "done".
func VerifState(i int) string {
	verifSettle()
	switch verifTasks[i].state.Load() {
	case verifReady:
		return "ready"
	case verifBlocked:
		return "blocked"
	}
	return "done"
}

var _ = sys.GetCallerPC
''')

# --- clock ---
patch("time/time.go",
      ("func Now() Time {\n",
       "func Now() Time {\n	if h := VerifNow; h != nil {\n		if ns, ok := h(); ok {\n			return Unix(0, ns)\n		}\n	}\n"))
add("time/verif_sim.go", '''package time

// VerifNow, if set, decides what Now returns (nanoseconds since the epoch).
var VerifNow func() (ns int64, ok bool)
''')

# --- files ---
def hook(op, name, file="nil", buf="nil", ret="err"):
    pre = "n, err, ok" if ret == "n, err" else "_, err, ok"
    return (f"	if h := VerifOp; h != nil {{\n		if {pre} := h({op!r}, {name}, {file}, {buf}); ok {{\n"
            f"			return {ret}\n		}}\n	}}\n").replace("'", '"')

patch("os/file_posix.go",
      ("func (f *File) read(b []byte) (n int, err error) {\n",
       "func (f *File) read(b []byte) (n int, err error) {\n" + hook("read", "f.name", "f", "b", "n, err")),
      ("func (f *File) pread(b []byte, off int64) (n int, err error) {\n",
       "func (f *File) pread(b []byte, off int64) (n int, err error) {\n" + hook("pread", "f.name", "f", "b", "n, err")),
      ("func (f *File) write(b []byte) (n int, err error) {\n",
       "func (f *File) write(b []byte) (n int, err error) {\n" + hook("write", "f.name", "f", "b", "n, err")),
      ("func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n",
       "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n" + hook("pwrite", "f.name", "f", "b", "n, err")),
      ("func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n",
       "func (f *File) Sync() error {\n	if err := f.checkValid(\"sync\"); err != nil {\n		return err\n	}\n" + hook("sync", "f.name", "f")),
      ("func (f *File) Truncate(size int64) error {\n	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n",
       "func (f *File) Truncate(size int64) error {\n	if err := f.checkValid(\"truncate\"); err != nil {\n		return err\n	}\n" + hook("ftruncate", "f.name", "f")),
      ("func (f *File) Close() error {\n	if f == nil {\n		return ErrInvalid\n	}\n",
       "func (f *File) Close() error {\n	if f == nil {\n		return ErrInvalid\n	}\n	if h := VerifOp; h != nil {\n"
       "		if _, err, ok := h(\"close\", f.name, f, nil); ok {\n			f.file.close()\n			return err\n		}\n	}\n"),
      ("func Chtimes(name string, atime time.Time, mtime time.Time) error {\n",
       "func Chtimes(name string, atime time.Time, mtime time.Time) error {\n" + hook("chtimes", "name")),
      ("func Chown(name string, uid, gid int) error {\n",
       "func Chown(name string, uid, gid int) error {\n" + hook("chown", "name")),
      ("func Lchown(name string, uid, gid int) error {\n",
       "func Lchown(name string, uid, gid int) error {\n" + hook("lchown", "name")))
patch("os/file.go",
      ("func Mkdir(name string, perm FileMode) error {\n",
       "func Mkdir(name string, perm FileMode) error {\n" + hook("mkdir", "name")),
      ("func Chdir(dir string) error {\n", "func Chdir(dir string) error {\n" + hook("chdir", "dir")),
      ("func Rename(oldpath, newpath string) error {\n",
       "func Rename(oldpath, newpath string) error {\n" + hook("rename", "oldpath", "nil", "[]byte(newpath)")),
      ("func Chmod(name string, mode FileMode) error { return chmod(name, mode) }\n",
       "func Chmod(name string, mode FileMode) error {\n" + hook("chmod", "name") + "	return chmod(name, mode)\n}\n"),
      ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
       "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	if h := VerifOp; h != nil {\n"
       "		op := \"open\"\n		if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC|O_APPEND) != 0 {\n			op = \"openw\"\n		}\n"
       "		if _, err, ok := h(op, name, nil, nil); ok {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n"))
patch("os/file_unix.go",
      ("func Truncate(name string, size int64) error {\n",
       "func Truncate(name string, size int64) error {\n" + hook("truncate", "name")),
      ("func Remove(name string) error {\n", "func Remove(name string) error {\n" + hook("remove", "name")),
      ("func Link(oldname, newname string) error {\n",
       "func Link(oldname, newname string) error {\n" + hook("link", "newname")),
      ("func Symlink(oldname, newname string) error {\n",
       "func Symlink(oldname, newname string) error {\n" + hook("symlink", "newname")))
patch("os/path.go",
      ("func RemoveAll(path string) error {\n",
       "func RemoveAll(path string) error {\n" + hook("removeall", "path")))
patch("os/stat.go",
      ("func Stat(name string) (FileInfo, error) {\n",
       "func Stat(name string) (FileInfo, error) {\n" + hook("stat", "name", ret="nil, err")))
patch("os/dir.go",
      ("func ReadDir(name string) ([]DirEntry, error) {\n",
       "func ReadDir(name string) ([]DirEntry, error) {\n" + hook("readdir", "name", ret="nil, err")))
patch("os/proc.go",
      ("func Exit(code int) {\n",
       "func Exit(code int) {\n	if h := VerifExit; h != nil {\n		h(code)\n	}\n"))
add("os/verif_sim.go", '''package os

// VerifOp, if set, sees every file operation before it happens; if handled is true,
// the operation does not happen and returns n and err instead.
var VerifOp func(op, name string, f *File, b []byte) (n int, err error, handled bool)

// VerifExit, if set, is called before the process exits through Exit.
var VerifExit func(code int)
''')

# --- HTTP listener ---
patch("net/http/server.go",
      ("func (s *Server) ListenAndServe() error {\n",
       "func (s *Server) ListenAndServe() error {\n	if h := VerifServe; h != nil {\n		return h(s)\n	}\n"))
add("net/http/verif_sim.go", '''package http

// VerifServe, if set, serves in place of the network listener.
var VerifServe func(s *Server) error
''')

# --- scenarios of the experiments (left alone if they are no longer kept in this variable) ---
exp = os.path.join(repo, "exp")
texts = [open(os.path.join(exp, f)).read() for f in sorted(os.listdir(exp)) if f.endswith(".go") and not f.endswith("_test.go")]
found = sum(len(re.findall(r"^var\s+scenarios\s*=\s*\[\]string\s*\{", t, re.M)) for t in texts) == 1
dst = os.path.join(build, "exp_verif_sim.go")
open(dst, "w").write("""package exp

// VerifScenarios makes RealworldScenario run the given scenarios, if that can be done.
func VerifScenarios(names []string) (undo func(), ok bool) {
""" + ("""	old := scenarios
	scenarios = names
	return func() { scenarios = old }, true
""" if found else """	return func() {}, false
""") + """}

// VerifNewValue gives the next value of a signal, if that can be asked for.
func VerifNewValue(s *SensorData, nowMs int64, scenario string) (v any, ok bool) {
""" + ("""	return calculateNewValue(s, nowMs, scenario), true
""" if any(re.search(r"^func calculateNewValue\(\w+ \*SensorData, \w+ int64, \w+ string\) (any|interface\{\}) \{", t, re.M) for t in texts) else """	return nil, false
""") + """}

// VerifLatest names the directory of the latest experiment of a scenario, if that can be asked for.
func VerifLatest(dir string) (latest string, err error, ok bool) {
""" + ("""	latest, err = findLatestTimestampDir(dir)
	return latest, err, true
""" if any(re.search(r"^func findLatestTimestampDir\(\w+ string\) \(string, error\) \{", t, re.M) for t in texts) else """	return "", nil, false
""") + """}
""")
replace[os.path.join(exp, "verif_scenarios.go")] = dst

# --- simulator packages ---
src = os.path.join(here, "src")
for d, _, files in os.walk(src):
    for f in files:
        if not f.endswith(".go"):
            continue
        rel = os.path.relpath(os.path.join(d, f), src)
        if rel.startswith("root/"):
            dst = os.path.join(repo, rel[len("root/"):])
        else:
            dst = os.path.join(repo, "internal", "verifsim", rel)
        if os.path.exists(dst):
            sys.exit(f"overlay.py: {dst} exists in the repository")
        replace[dst] = os.path.join(d, f)

json.dump({"Replace": replace}, open(os.path.join(build, "overlay.json"), "w"), indent=1)
for f in ("go.mod", "go.sum"):
    shutil.copy(os.path.join(repo, f), os.path.join(build, f))
