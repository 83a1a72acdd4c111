package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
	"github.com/CAU-CPSS/logument/internal/verifsim/specgen"
)

// The web demo under the simulator: WebDemo itself runs, its requests are tasks that the
// scheduler interleaves at every file operation and every write of an answer.

var page []byte
var vssText []byte

func TestMain(*testing.M) {
	var err error
	if page, err = os.ReadFile(simfs.Repo() + "/index.html"); err == nil {
		vssText, err = os.ReadFile(simfs.Repo() + "/" + defaultDataset)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	args := os.Args[1:]
	os.Args = os.Args[:1] // WebDemo takes any as options of its own
	code := simkit.Main(args, []*simkit.Prop{{ID: "C18", Quick: 1600, Thorough: 150000, MaxMin: 200,
		Rule:   "schedules that differ from every other, of runs in which requests overlapped",
		Real:   []string{"web_demo.go", "internal/vssgen", "internal/logument", "internal/tsonpatch", "internal/tson", "net/http request routing", "Go standard library (goroutine scheduling, map order, math/rand, clock and files under the simulator)"},
		Stub:   []string{"network listener and connections: requests are handed to the registered handlers", "clock, randomness and map order: seeded", "disk: real files in a scratch directory behind a fault injector", "terminal: captured"},
		Assume: []string{"a handler that panics closes the connection without an answer, as net/http does", "cars and patches are asked for by plain numbers"},
		Gen:    genWeb, Exec: execWeb,
		NonTrivial: func(c *simkit.Ctx, tr *simkit.Trace) bool { return c.Probes["overlapping"] > 0 }},
		{ID: "C27", Quick: 2000, Thorough: 150000, MaxMin: 200,
			Rule:   "schedules that differ from every other, of runs in which several requests of pages were under way at once",
			Real:   []string{"index.html (its scripts, run by node)", "web_demo.go", "internal/vssgen", "internal/logument", "internal/tsonpatch", "internal/tson", "net/http request routing"},
			Stub:   []string{"browser: document, events, fetch, timers and clock are simulated (sim/page/page.js)", "network: requests, heads and bodies of answers are held and delivered by the scheduler", "handlers run one at a time (their interleavings: C18)", "disk: real files in a scratch directory behind a fault injector", "clock, randomness and map order: seeded"},
			Assume: []string{"a page is found as the real one by its element ids", "answers reach a page whole or not at all"},
			Gen:    genPage, Exec: execPage,
			NonTrivial: func(c *simkit.Ctx, tr *simkit.Trace) bool { return c.Probes["in_flight"] > 0 }}})
	simfs.Cleanup()
	os.Exit(code)
}

// request is one request on its way.
type request struct {
	id      int
	url     string
	n       int64 // task
	header  http.Header
	status  int
	body    bytes.Buffer
	gone    bool // the client went away
	kill    bool // the server stops
	hit     bool // a fault took effect in it
	aborted string
	steps   int
	started bool
}

const stopped = simkit.Sentinel("server stopped")

var errGone = errors.New("write: broken pipe")

func (q *request) Header() http.Header { return q.header }
func (q *request) WriteHeader(status int) {
	if q.status == 0 && status >= 200 {
		q.status = status
	}
}

func (q *request) Write(b []byte) (int, error) {
	q.WriteHeader(http.StatusOK)
	runtime.VerifYield()
	if q.kill {
		panic(stopped)
	}
	if q.gone {
		return 0, errGone
	}
	return q.body.Write(b)
}

func (q *request) serve(h http.Handler) {
	defer func() {
		if r := recover(); r != nil {
			q.aborted = fmt.Sprint("panic: ", r)
		}
	}()
	r, err := http.NewRequest("GET", q.url, nil)
	if err != nil {
		panic(err)
	}
	r.RequestURI, r.RemoteAddr = q.url, "192.0.2.1:4711"
	h.ServeHTTP(q, r)
}

// dataset is what the server has to answer from.
type dataset struct {
	docs, patches map[string][]byte
	states        map[string]*ref.Node
}

func readDataset(root string) (*dataset, error) {
	d := &dataset{map[string][]byte{}, map[string][]byte{}, map[string]*ref.Node{}}
	for car := 1; car <= defaultCarCount; car++ {
		for i := 1; i <= defaultFileCount; i++ {
			key := fmt.Sprintf("%d_%d", car, i)
			doc, err := os.ReadFile(fmt.Sprintf("%s/dataset/car_%d/tson/%s.tson", root, car, key))
			if err != nil {
				return nil, err
			}
			patch, err := os.ReadFile(fmt.Sprintf("%s/dataset/car_%d/patches/%s.json", root, car, key))
			if err != nil {
				return nil, err
			}
			n, err := parse(doc)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", key, err)
			}
			d.docs[key], d.patches[key], d.states[key] = doc, patch, n
		}
	}
	return d, nil
}

func parse(b []byte) (*ref.Node, error) {
	var t tson.Tson
	if err := tson.Unmarshal(b, &t); err != nil {
		return nil, err
	}
	return ref.From(t), nil
}

// server is one life of the demo.
type server struct {
	c    *simkit.Ctx
	fs   *simfs.FS
	data *dataset
	h    http.Handler
	reqs []*request
	task map[int]*request
	cur  *request
	done int

	trust bool // answers are not looked at
}

func (s *server) beforeOp(op, path string) {
	if runtime.VerifSelf() < 0 {
		return
	}
	q := s.cur
	runtime.VerifYield()
	if q != nil && q.kill {
		panic(stopped)
	}
}

// turn lets a task go on until its next wait.
func (s *server) turn(task int) {
	q := s.task[task]
	s.cur = q
	hits := s.fs.Hit
	before := runtime.VerifTasks()
	runtime.VerifTurn(task)
	for t := before; t < runtime.VerifTasks(); t++ {
		s.task[t] = q // started by this request
	}
	if s.fs.Hit > hits {
		q.hit = true
	}
	q.steps++
	s.cur = nil
	s.c.Check(q.steps < 100_000, "no-progress", "%s does not end", q.url)
	if task == int(q.n) && runtime.VerifState(task) == "done" {
		s.judge(q)
	}
}

func (s *server) ready() []int {
	var out []int
	for t := 0; t < runtime.VerifTasks(); t++ {
		if runtime.VerifState(t) == "ready" {
			out = append(out, t)
		}
	}
	return out
}

// drain lets everything end, with or without the server stopping.
func (s *server) drain(pick func(n int) int) {
	for {
		r := s.ready()
		if len(r) == 0 {
			break
		}
		s.turn(r[pick(len(r))])
	}
	for t := 0; t < runtime.VerifTasks(); t++ {
		s.c.Check(runtime.VerifState(t) != "blocked", "no-progress", "%s waits for ever", s.task[t].url)
	}
	runtime.VerifReset()
}

func (s *server) judge(q *request) {
	c := s.c
	c.Ops++
	s.done++
	if s.trust {
		return
	}
	c.Log("%d %s: %d %x %s", q.id, q.url, q.status, simkit.HashStr(q.body.String()), q.aborted)
	if q.kill {
		return
	}
	if q.gone {
		c.Probe("client_gone")
		return
	}
	status := q.status
	if status == 0 && q.aborted == "" {
		status = http.StatusOK
	}
	if q.aborted != "" {
		status = 0
	}
	var path string
	var car, patch int
	path, _, _ = strings.Cut(q.url, "?")
	hasPatch := strings.Contains(q.url, "&patch=")
	if i := strings.Index(q.url, "car="); i >= 0 {
		fmt.Sscanf(q.url[i:], "car=%d&patch=%d", &car, &patch)
	}
	exists := path == "/" || car >= 1 && car <= defaultCarCount && patch >= 0 && patch <= defaultFileCount && (path == "/patch" || !hasPatch || patch >= 1)
	if !exists {
		c.Probe("unknown_asked")
		c.Check(status != http.StatusOK, "wrong-answer", "%s does not exist, but was answered with %d bytes", q.url, q.body.Len())
		return
	}
	if status != http.StatusOK {
		c.Check(q.hit, "no-answer", "%s was answered with status %d (%s) although no fault occurred in it", q.url, status, q.aborted)
		c.Probe("fault_reported")
		return
	}
	if q.hit {
		c.Probe("fault_survived")
	}
	body := q.body.Bytes()
	switch path {
	case "/":
		c.Check(bytes.Equal(body, page), "wrong-answer", "the page was sent with %d instead of %d bytes", len(body), len(page))
		ct := q.header.Get("Content-Type")
		c.Check(strings.HasPrefix(ct, "text/html"), "wrong-answer", "the page was sent as %q", ct)
	case "/update":
		want := s.data.docs[fmt.Sprintf("%d_1", car)]
		if hasPatch {
			want = s.data.patches[fmt.Sprintf("%d_%d", car, patch)]
		}
		c.Check(bytes.Equal(body, want), "wrong-answer", "%s was answered with %q instead of %q", q.url, brief(body), brief(want))
	case "/patch":
		got, err := parse(body)
		c.Check(err == nil, "wrong-answer", "%s was answered with %q: %v", q.url, brief(body), err)
		want := s.data.states[fmt.Sprintf("%d_%d", car, max(1, patch))]
		d := ref.Diff(got, want, true)
		c.Check(d == "", "wrong-answer", "%s was answered with a document whose %s", q.url, d)
		c.State(got.Hash())
	}
}

func brief(b []byte) string {
	if len(b) > 80 {
		return string(b[:60]) + "..." + string(b[len(b)-17:])
	}
	return string(b)
}

func execWeb(c *simkit.Ctx, tr *simkit.Trace) {
	root := simfs.Scratch()
	fs := simfs.New(c, root)
	clock := &simfs.Clock{Now: tr.Cfg["clock"], Rest: tr.Cfg["tick"]}
	defer clock.Install(c)()
	text := vssText
	if len(tr.Init) > 0 {
		text = []byte(tr.Init[0])
	}
	write := func(name string, b []byte) {
		err := os.MkdirAll(filepath.Dir(root+"/"+name), 0o755)
		if err == nil {
			err = os.WriteFile(root+"/"+name, b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	write(defaultDataset, text)
	write("index.html", page)
	start := clock.Now
	at := 0
	defer runtime.VerifReset()
	defer func() { http.VerifServe = nil }()
	for {
		// one life of the server
		http.DefaultServeMux = http.NewServeMux()
		s := &server{c: c, fs: fs, task: map[int]*request{}}
		served := false
		http.VerifServe = func(srv *http.Server) error {
			served = true
			s.h = srv.Handler
			if s.h == nil {
				s.h = http.DefaultServeMux
			}
			s.serve(tr, &at, root)
			return http.ErrServerClosed
		}
		fs.Plan(nil)
		fs.BeforeOp = s.beforeOp
		msg, panicked, _ := fs.Run(WebDemo)
		c.Check(!panicked, "no-server", "WebDemo panicked: %s", msg)
		c.Check(served, "no-server", "WebDemo does not serve: %s", fs.Out.String())
		if at >= len(tr.Ev) {
			break
		}
		c.Probe("restarted")
	}
	c.SimMs = max(0, (clock.Now-start)/1_000_000)
}

// serve runs the events up to the end of this life.
func (s *server) serve(tr *simkit.Trace, at *int, root string) {
	c := s.c
	var err error
	old := os.VerifOp
	os.VerifOp = nil
	s.data, err = readDataset(root)
	os.VerifOp = old
	c.Check(err == nil, "no-server", "the server starts without its data set: %v", err)
	s.fs.Synced()
	// Whatever happens here, the tasks have to end
	defer func() {
		for _, q := range s.reqs {
			q.kill = true
		}
		for i := 0; ; i++ {
			r := s.ready()
			if len(r) == 0 || i > 100_000 {
				break
			}
			s.cur = s.task[r[0]]
			runtime.VerifTurn(r[0])
		}
		runtime.VerifReset()
	}()
	for ; *at < len(tr.Ev); *at++ {
		e := tr.Ev[*at]
		c.Step = *at
		switch e.Op {
		case "request":
			q := &request{id: len(s.reqs), url: e.Path, header: http.Header{}}
			s.reqs = append(s.reqs, q)
			q.n = int64(runtime.VerifGo(func() { q.serve(s.h) }))
			s.task[int(q.n)] = q
		case "step":
			r := s.ready()
			for i := int64(0); i <= e.B && len(r) > 0; i++ {
				t := r[int(e.A)%len(r)]
				s.turn(t)
				r = s.ready()
				if q := s.task[t]; len(r) > 0 && !q.started {
					q.started = true
					if len(s.reqs)-s.done > 1 {
						c.Probe("overlapping")
					}
				}
			}
		case "drain":
			r := simkit.NewRng(e.RS)
			s.drain(r.Intn)
		case "fault":
			if runtime.VerifTasks() > 0 {
				s.fs.Plan([]simfs.Fault{{Kind: e.Mode, N: e.A}})
			}
		case "gone":
			if len(s.reqs) > 0 {
				q := s.reqs[int(e.A)%len(s.reqs)]
				q.gone = true
			}
		case "restart":
			*at++
			return
		}
	}
	r := simkit.NewRng(tr.Seed)
	s.drain(r.Intn)
}

func genWeb(r *simkit.Rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": 1_700_000_000_000_000_000, "tick": []int64{1, 1_000_003, 37_000_000, 0}[r.Intn(4)]}}
	if !r.P(0.1) {
		tr.Init = []string{specgen.Wide(r)}
	}
	url := func() string {
		car, patch := fmt.Sprint(r.Between(1, defaultCarCount)), fmt.Sprint(r.Between(1, defaultFileCount))
		if r.P(0.3) {
			car = "1"
		}
		if r.P(0.06) {
			car = r.Pick("0", "6", "99", "10")
		}
		if r.P(0.06) {
			patch = r.Pick("11", "12", "100")
		}
		switch r.Weighted([]int{1, 2, 4, 8, 1}) {
		case 0:
			return "/"
		case 1:
			return "/update?car=" + car
		case 2:
			return "/update?car=" + car + "&patch=" + patch
		case 3:
			return "/patch?car=" + car + "&patch=" + patch
		}
		return "/patch?car=" + car + "&patch=" + r.Pick("0", "1")
	}
	faulty := r.P(0.5)
	n, kinds := r.Between(5, 60), []int{8, 10, 2, 1, 1}
	if r.P(0.03) { // a rush
		n, kinds = r.Between(120, 200), []int{8, 5, 1, 0, 0}
	}
	for range n {
		switch r.Weighted(kinds) {
		case 0:
			u := url()
			for j, k := 0, r.Weighted([]int{0, 3, 3, 1, 1}); j < k; j++ {
				if r.P(0.6) {
					u = url()
				}
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "request", Path: u})
			}
		case 1:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "step", A: int64(r.Intn(12)), B: int64(r.Weighted([]int{4, 2, 1, 1, 0, 0, 0, 1}))})
		case 2:
			if faulty {
				k := r.Pick("read_error", "read_open_error", "short_read", "close_error", "stat_error", "read_error", "read_open_error")
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "fault", Mode: k, A: int64(r.Intn(8))})
			}
		case 3:
			if faulty {
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "gone", A: int64(r.Intn(8))})
			}
		case 4:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "drain", RS: r.U64()})
			if r.P(0.1) {
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "restart"})
			}
		}
	}
	return tr
}
