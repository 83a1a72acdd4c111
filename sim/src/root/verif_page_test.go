package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math/big"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"

	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
	"github.com/CAU-CPSS/logument/internal/verifsim/specgen"
)

// C27: the page of the demo in several browser tabs. The scripts of index.html run in a
// simulated browser (sim/page/page.js, one process, one command at a time); their requests are
// answered by the demo itself, over a network that the scheduler holds.

var browser struct {
	in, out int // file descriptors
	cmd     *exec.Cmd
	buf     []byte
}

func startBrowser() {
	if browser.cmd != nil {
		return
	}
	inR, inW, err := os.Pipe()
	outR, outW, err2 := os.Pipe()
	if err = errors.Join(err, err2); err != nil {
		panic(err)
	}
	cmd := exec.Command("node", os.Getenv("VERIF_SIM")+"/page/page.js")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = inR, outW, os.Stderr
	cmd.Dir = "/"
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	inR.Close()
	outW.Close()
	browser.in, browser.out = int(inW.Fd()), int(outR.Fd())
	browser.cmd, browser.buf = cmd, nil
	keep = append(keep, inW, outR)
}

var keep []*os.File // not closed by the garbage collector

type pageCmd struct {
	Op     string `json:"op"`
	Tab    int    `json:"tab"`
	ID     string `json:"id,omitempty"`
	Text   string `json:"text"`
	Req    int    `json:"req"`
	Status int    `json:"status,omitempty"`
	Type   string `json:"type,omitempty"`
	Ms     int64  `json:"ms,omitempty"`
	Now    int64  `json:"now,omitempty"`
	Seed   int64  `json:"seed,omitempty"`
}

type pageState struct {
	View, Patch, Result, Snapshot, Car, N, Saved, Button string
	Disabled                                             bool
	Cars, Patches, Snapshots, Names, Foreign             []string
	Timers                                               int
}

type pageReply struct {
	State   *pageState
	Fetches []struct {
		ID          int
		URL, Method string
	}
	Aborted []int
	Errors  []string
	Broken  string
}

func tellBrowser(c *simkit.Ctx, m pageCmd) *pageReply {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(browser.in, b)
		if err != nil && err != syscall.EINTR {
			panic(err)
		}
		b = b[max(n, 0):]
	}
	for {
		if i := bytes.IndexByte(browser.buf, '\n'); i >= 0 {
			var r pageReply
			err := json.Unmarshal(browser.buf[:i], &r)
			browser.buf = browser.buf[i+1:]
			if err != nil {
				panic(err)
			}
			if r.Broken != "" {
				panic("browser: " + r.Broken)
			}
			return &r
		}
		var set syscall.FdSet
		set.Bits[browser.out/64] |= 1 << (browser.out % 64)
		n, err := syscall.Select(browser.out+1, &set, nil, nil, &syscall.Timeval{Sec: 30})
		if err == syscall.EINTR {
			continue
		}
		if n == 0 {
			browser.cmd.Process.Kill()
			browser.cmd.Wait()
			browser.cmd = nil
			c.Fail("no-progress", "the page does not come back from %s", m.Op)
		}
		chunk := make([]byte, 1<<16)
		k, err := syscall.Read(browser.out, chunk)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || k == 0 {
			panic(fmt.Sprint("the browser has ended: ", err))
		}
		browser.buf = append(browser.buf, chunk[:k]...)
	}
}

// call is one request of a page.
type call struct {
	tab, id    int
	epoch, car int // what was chosen when it was sent
	url        string
	stage      int // 0 sent, 1 answered by the server, 2 head received
	status     int // 0: the connection was lost
	kind       string
	body       string
}

type tab struct {
	open   bool
	st     *pageState
	epoch  int  // counts the choices of the user
	car    int  // counts the choices of a car
	failed bool // a request of this epoch has failed
	noDoc  bool // a request since the car was chosen has failed
	broken bool // some request has failed
	asked  map[string]bool
	snaps  []string
	click  bool   // the last action was to append
	label  string // of the button at first
}

type pages struct {
	*server
	tabs  []*tab
	calls []*call
	old   []*dataset // of all lives of the server
	good  map[string]bool
	lives int
	now   int64
}

// tell gives a command to the browser and looks at what the page shows then.
func (p *pages) tell(m pageCmd) {
	c := p.c
	hook := os.VerifOp
	os.VerifOp = nil
	r := tellBrowser(c, m)
	os.VerifOp = hook
	t := p.tabs[m.Tab]
	for _, f := range r.Fetches {
		c.Check(f.Method == "GET", "request", "the page sends %s %s", f.Method, f.URL)
		p.calls = append(p.calls, &call{tab: m.Tab, id: f.ID, url: f.URL, epoch: t.epoch, car: t.car})
		t.asked[f.URL] = true
		if len(p.calls) > 1 {
			c.Probe("in_flight")
		}
	}
	for _, id := range r.Aborted {
		for i, x := range p.calls {
			if x.id == id {
				p.calls = append(p.calls[:i], p.calls[i+1:]...)
				c.Probe("aborted")
				break
			}
		}
	}
	for range r.Errors {
		c.Probe("script_errors")
	}
	t.st = r.State
	st := t.st
	c.Ops++
	c.Log("%s %d: %s %s %q %v %d, %x", m.Op, m.Tab, st.Car, st.N, st.Button, st.Snapshots, len(r.Fetches), simkit.HashStr(st.View+"\x00"+st.Patch+"\x00"+st.Result+"\x00"+st.Snapshot))
	c.State(simkit.Mix(simkit.HashStr(fmt.Sprint(*st)), uint64(len(p.calls))))

	c.Check(len(st.Foreign) == 0, "markup", "data became markup: %v", st.Foreign)
	have := map[string]bool{}
	for _, s := range st.Snapshots {
		c.Check(!have[s], "snapshots", "the snapshot %q is listed twice", s)
		have[s] = true
	}
	for _, s := range t.snaps {
		c.Check(have[s], "snapshots", "the snapshot %q is gone", s)
	}
	t.snaps = st.Snapshots
	for i, s := range st.Snapshots {
		_, _, ok := named(s)
		_, _, ok2 := named(st.Names[i])
		c.Check(ok && ok2 && st.Names[i] == s, "snapshots", "a snapshot is called %q (%q)", st.Names[i], s)
	}
	if st.Saved != "" {
		car, n, _ := named(st.Saved)
		c.Check(p.isState(st.Snapshot, car, n), "snapshots", "the snapshot %q holds %q", st.Saved, brief([]byte(st.Snapshot)))
		c.Probe("snapshot")
	}
	// what stands in the result is an answer to some request for one, or tells of a failure
	if st.Result != "" && !t.broken {
		ok := false
		for u := range t.asked {
			var car, n int
			if strings.HasPrefix(u, "/patch?") {
				car, n, _ = askedFor(u)
				ok = ok || p.isState(st.Result, car, n)
			}
		}
		c.Check(ok, "result", "the result is %q, which was not asked for", brief([]byte(st.Result)))
	}
}

// named takes apart the name of a snapshot: patch n of the page is file n+1.
func named(s string) (car, n int, ok bool) {
	k, err := fmt.Sscanf(s, "car_%d_patch_%d Snapshot", &car, &n)
	return car, n + 1, err == nil && k == 2
}

func askedFor(u string) (car, n int, has bool) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return 0, 0, false
	}
	q := r.URL.Query()
	car, _ = strconv.Atoi(q.Get("car"))
	n, _ = strconv.Atoi(q.Get("patch"))
	return car, n, q.Get("patch") != ""
}

// isState tells whether a text is a car's document after patches up to file n.
func (p *pages) isState(text string, car, n int) bool {
	for i, d := range p.old {
		want := d.states[fmt.Sprintf("%d_%d", car, n)]
		if want == nil {
			continue
		}
		key := fmt.Sprint(i, " ", car, " ", n, " ", text)
		ok, known := p.good[key]
		if !known {
			got, err := parse([]byte(text))
			ok = err == nil && ref.Diff(got, want, true) == ""
			p.good[key] = ok
		}
		if ok {
			return true
		}
	}
	return false
}

// plain is a text without the spaces that do not mean anything.
func plain(s string) string {
	var b strings.Builder
	quoted := false
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case quoted && ch == '\\' && i+1 < len(s):
			b.WriteByte(ch)
			i++
			b.WriteByte(s[i])
			continue
		case ch == '"':
			quoted = !quoted
		case !quoted && (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'):
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// sameText tells whether a text is shown as it is, but for spaces and other ways to write the same value.
func sameText(shown, text string) bool {
	if plain(shown) == plain(text) {
		return true
	}
	var a, b any
	for s, v := range map[string]*any{shown: &a, text: &b} {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(v) != nil || d.More() {
			return false
		}
	}
	return sameJSON(a, b)
}

func sameJSON(a, b any) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		x, ok1 := new(big.Rat).SetString(string(a))
		y, ok2 := new(big.Rat).SetString(string(b))
		return ok && ok1 && ok2 && x.Cmp(y) == 0
	case []any:
		b, ok := b.([]any)
		return ok && slices.EqualFunc(a, b, sameJSON)
	case map[string]any:
		b, ok := b.(map[string]any)
		return ok && maps.EqualFunc(a, b, sameJSON)
	}
	return a == b
}

// shows checks what a box shows of the chosen file against what the server has.
func (p *pages) shows(failed bool, what, text, key string, of func(*dataset) map[string][]byte) {
	other := ""
	for _, d := range p.old {
		for k, b := range of(d) {
			if sameText(text, string(b)) {
				if k == key {
					p.c.Checks++
					return
				}
				other = k
			}
		}
	}
	if failed {
		p.c.Check(other == "", "shown", "%s is chosen, whose %s could not be fetched, but that of %s is shown", key, what, other)
		p.c.Probe("failure_shown")
		return
	}
	p.c.Check(other == "", "shown", "%s is chosen, but the %s of %s is shown", key, what, other)
	p.c.Check(false, "shown", "%s is chosen, but the %s shown is %q", key, what, brief([]byte(text)))
}

// quiet looks at a tab for which nothing is under way.
func (p *pages) quiet(t *tab) {
	st := t.st
	p.shows(t.noDoc, "document", st.View, st.Car+"_1", func(d *dataset) map[string][]byte { return d.docs })
	p.shows(t.failed, "patch", st.Patch, st.Car+"_"+st.N, func(d *dataset) map[string][]byte { return d.patches })
	if t.click && !t.failed {
		car, _ := strconv.Atoi(st.Car)
		n, _ := strconv.Atoi(st.N)
		ok := p.isState(st.Result, car, n)
		if !ok && st.Saved != "" {
			car, n, _ = named(st.Saved)
			ok = p.isState(st.Result, car, n)
		}
		p.c.Check(ok, "result", "patch %s of car %s was asked for, but the result is %q", st.N, st.Car, brief([]byte(st.Result)))
	}
	p.c.Probe("quiet")
}

func (p *pages) drop(x *call) {
	for i := range p.calls {
		if p.calls[i] == x {
			p.calls = append(p.calls[:i], p.calls[i+1:]...)
			return
		}
	}
}

func (p *pages) fails(x *call) {
	t := p.tabs[x.tab]
	t.broken = true
	t.failed = t.failed || x.epoch == t.epoch
	t.noDoc = t.noDoc || x.car == t.car
}

// answer lets the server handle a request.
func (p *pages) answer(url string) *request {
	s := p.server
	q := &request{id: len(s.reqs), url: url, header: http.Header{}}
	s.reqs = append(s.reqs, q)
	q.n = int64(runtime.VerifGo(func() { q.serve(s.h) }))
	s.task[int(q.n)] = q
	r := simkit.NewRng(uint64(q.id))
	s.drain(r.Intn)
	return q
}

// advance brings a request one step further.
func (p *pages) advance(x *call) {
	switch x.stage {
	case 0:
		q := p.answer(x.url)
		x.status, x.body, x.kind = q.status, q.body.String(), q.header.Get("Content-Type")
		if x.status == 0 {
			x.status = http.StatusOK
		}
		if q.aborted != "" {
			x.status = 0
		}
		x.stage = 1
	case 1:
		if x.status == 0 {
			p.lose(x)
			return
		}
		if x.status != http.StatusOK {
			p.fails(x)
			p.c.Probe("error_answer")
		}
		x.stage = 2
		p.tell(pageCmd{Op: "head", Tab: x.tab, Req: x.id, Status: x.status, Type: x.kind})
	case 2:
		p.drop(x)
		p.tell(pageCmd{Op: "body", Tab: x.tab, Req: x.id, Text: x.body})
	}
}

func (p *pages) lose(x *call) {
	p.fails(x)
	p.drop(x)
	p.tell(pageCmd{Op: "fail", Tab: x.tab, Req: x.id})
}

// settle lets all requests end, in any order, and timers too.
func (p *pages) settle(r *simkit.Rng) {
	for i := 0; i < 2_000; i++ {
		if len(p.calls) > 0 {
			p.advance(p.calls[r.Intn(len(p.calls))])
			continue
		}
		waits := false
		for j, t := range p.tabs {
			if t.open && t.st.Timers > 0 && i < 200 {
				p.tell(pageCmd{Op: "time", Tab: j, Ms: 1000})
				waits = true
			}
		}
		if !waits {
			break
		}
	}
	p.c.Check(len(p.calls) == 0, "no-progress", "the page asks for ever: %s", func() string {
		if len(p.calls) == 0 {
			return ""
		}
		return p.calls[0].url
	}())
	for _, t := range p.tabs {
		if t.open {
			p.quiet(t)
		}
	}
}

func (p *pages) act(t *tab, m pageCmd) {
	if v := map[string]string{"carSelect": t.st.Car, "patchSelect": t.st.N, "snapshotSelect": t.st.Saved}; m.Op == "select" && v[m.ID] == m.Text {
		return // no change
	}
	if m.Op == "select" && m.ID != "snapshotSelect" {
		t.epoch++
		t.failed, t.click = false, false
		if m.ID == "carSelect" {
			t.car++
			t.noDoc = false
		}
	}
	if m.Op == "click" {
		if t.st.Disabled {
			return
		}
		t.click = t.st.Button == t.label // not to keep a snapshot
	}
	p.tell(m)
}

func (p *pages) openTab(i int, seed uint64) {
	q := p.answer("/")
	if q.aborted != "" || q.status != http.StatusOK && q.status != 0 {
		return
	}
	for _, x := range append([]*call(nil), p.calls...) { // gone with the page before
		if x.tab == i {
			p.drop(x)
			p.c.Probe("reload_in_flight")
		}
	}
	p.tabs[i] = &tab{open: true, asked: map[string]bool{}}
	p.tell(pageCmd{Op: "open", Tab: i, Text: q.body.String(), Seed: int64(seed >> 1)})
	p.tabs[i].label = p.tabs[i].st.Button
}

// live runs events until the server restarts.
func (p *pages) live(tr *simkit.Trace, at *int) {
	c := p.c
	for ; *at < len(tr.Ev); *at++ {
		e := tr.Ev[*at]
		c.Step = *at
		i := e.Node % len(p.tabs)
		t := p.tabs[i]
		if e.Op == "open" {
			p.openTab(i, e.RS)
			continue
		}
		var x *call
		if len(p.calls) > 0 {
			x = p.calls[int(e.A)%len(p.calls)]
		}
		switch {
		case e.Op == "car" && t.open:
			p.act(t, pageCmd{Op: "select", Tab: i, ID: "carSelect", Text: t.st.Cars[int(e.A)%len(t.st.Cars)]})
		case e.Op == "patch" && t.open:
			p.act(t, pageCmd{Op: "select", Tab: i, ID: "patchSelect", Text: t.st.Patches[int(e.A)%len(t.st.Patches)]})
		case e.Op == "click" && t.open:
			p.act(t, pageCmd{Op: "click", Tab: i, ID: "appendSnapshotBtn"})
		case e.Op == "pick" && t.open && len(t.st.Snapshots) > 0:
			p.act(t, pageCmd{Op: "select", Tab: i, ID: "snapshotSelect", Text: t.st.Snapshots[int(e.A)%len(t.st.Snapshots)]})
		case e.Op == "net" && x != nil:
			if x != p.calls[0] {
				c.Probe("reordered")
			}
			for n := int64(0); n <= e.B && x.stage < 3; n++ {
				last := x.stage == 2 || x.stage == 1 && x.status == 0
				p.advance(x)
				if last {
					break
				}
			}
		case e.Op == "lose" && x != nil:
			c.Fault([]string{"request_lost", "answer_lost", "answer_cut"}[x.stage])
			p.lose(x)
		case e.Op == "proxy" && x != nil && x.stage < 2: // something between answers instead
			c.Fault("proxy_error")
			x.stage, x.status, x.kind = 1, []int{http.StatusBadGateway, http.StatusServiceUnavailable, http.StatusGatewayTimeout}[e.A%3], "text/html"
			x.body = []string{"<html><body><h1>Bad Gateway</h1></body></html>", "", "no upstream"}[e.B]
			p.advance(x)
		case e.Op == "fault":
			p.fs.Plan([]simfs.Fault{{Kind: e.Mode, N: e.A}})
		case e.Op == "time" && t.open:
			p.now += e.A
			p.tell(pageCmd{Op: "time", Tab: i, Ms: e.A})
		case e.Op == "settle":
			p.fs.Plan(nil)
			p.settle(simkit.NewRng(e.RS))
		case e.Op == "restart":
			*at++
			c.Fault("server_restart")
			for len(p.calls) > 0 {
				p.lose(p.calls[0])
			}
			return
		}
	}
	// In the end all works: what is chosen is shown, and can be appended and kept
	p.fs.Plan(nil)
	r := simkit.NewRng(tr.Seed ^ uint64(tr.Run))
	p.settle(r)
	for i, t := range p.tabs {
		if !t.open {
			continue
		}
		another := func(all []string, now string) string {
			for i := r.Intn(len(all)); ; i++ {
				if x := all[i%len(all)]; x != now || len(all) == 1 {
					return x
				}
			}
		}
		car, n := another(t.st.Cars, t.st.Car), another(t.st.Patches, t.st.N)
		p.act(t, pageCmd{Op: "select", Tab: i, ID: "carSelect", Text: car})
		p.act(t, pageCmd{Op: "select", Tab: i, ID: "patchSelect", Text: n})
		p.settle(r)
		c.Check(t.st.Car == car && t.st.N == n, "shown", "car %s, patch %s are chosen, but the page says %s, %s", car, n, t.st.Car, t.st.N)
		for k := 0; k < 3; k++ {
			p.act(t, pageCmd{Op: "click", Tab: i, ID: "appendSnapshotBtn"})
			p.settle(r)
		}
		k, _ := strconv.Atoi(n)
		found := false
		for _, s := range t.st.Snapshots {
			a, b, _ := named(s)
			found = found || fmt.Sprint(a) == car && b == k
		}
		c.Check(found, "stuck", "patch %s of car %s can not be kept as a snapshot; the button says %q", n, car, t.st.Button)
		for _, s := range t.st.Snapshots {
			p.act(t, pageCmd{Op: "select", Tab: i, ID: "snapshotSelect", Text: s})
			c.Check(t.st.Saved == s, "snapshots", "the snapshot %q can not be chosen", s)
		}
	}
}

func execPage(c *simkit.Ctx, tr *simkit.Trace) {
	startBrowser()
	root := simfs.Scratch()
	fs := simfs.New(c, root)
	clock := &simfs.Clock{Now: tr.Cfg["clock"], Rest: tr.Cfg["tick"]}
	defer clock.Install(c)()
	write := func(name string, b []byte) {
		err := os.MkdirAll(filepath.Dir(root+"/"+name), 0o755)
		if err == nil {
			err = os.WriteFile(root+"/"+name, b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	write(defaultDataset, []byte(tr.Init[0]))
	write("index.html", page)
	hook := os.VerifOp
	os.VerifOp = nil
	tellBrowser(c, pageCmd{Op: "reset", Now: 1_700_000_000_000})
	os.VerifOp = hook
	p := &pages{good: map[string]bool{}}
	for i := int64(0); i < tr.Cfg["tabs"]; i++ {
		p.tabs = append(p.tabs, &tab{})
	}
	at := 0
	defer runtime.VerifReset()
	defer func() { http.VerifServe = nil }()
	for {
		http.DefaultServeMux = http.NewServeMux()
		s := &server{c: c, fs: fs, task: map[int]*request{}, trust: true}
		served := false
		http.VerifServe = func(srv *http.Server) error {
			served = true
			s.h = srv.Handler
			if s.h == nil {
				s.h = http.DefaultServeMux
			}
			p.server = s
			old := os.VerifOp
			os.VerifOp = nil
			data, err := readDataset(root)
			os.VerifOp = old
			c.Check(err == nil, "no-server", "the server starts without its data set: %v", err)
			s.data = data
			p.old = append(p.old, data)
			fs.Synced()
			p.live(tr, &at)
			return http.ErrServerClosed
		}
		fs.Plan(nil)
		fs.BeforeOp = s.beforeOp
		msg, panicked, _ := fs.Run(WebDemo)
		c.Check(!panicked, "no-server", "WebDemo panicked: %s", msg)
		c.Check(served, "no-server", "WebDemo does not serve: %s", fs.Out.String())
		if at >= len(tr.Ev) {
			break
		}
	}
	c.SimMs = p.now
}

func genPage(r *simkit.Rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": []int64{0, 1_700_000_000_000_000_000, 1_763_000_000_123_456_789}[r.Intn(3)], "tick": []int64{1, 1_000_003, 37_000_000}[r.Intn(3)], "tabs": int64(r.Between(1, 3))}}
	tr.Init = []string{specgen.Small(r)}
	if r.P(0.1) {
		tr.Init = []string{specgen.Wide(r)}
	}
	faulty := r.P(0.6)
	tabs := int(tr.Cfg["tabs"])
	for i := 0; i < tabs; i++ {
		tr.Ev = append(tr.Ev, simkit.Ev{Op: "open", Node: i, RS: r.U64()})
	}
	fast := r.Between(2, 14) // how quick the network is beside the user
	for i, n := 0, r.Between(10, 150); i < n; i++ {
		e := simkit.Ev{Node: r.Intn(tabs), A: int64(r.Intn(30))}
		switch r.Weighted([]int{3, 3, 4, 1, fast, 1, 1, 1, 1, 1}) {
		case 0:
			e.Op = "car"
		case 1:
			e.Op = "patch"
		case 2:
			e.Op = "click"
		case 3:
			e.Op = "pick"
		case 4:
			e.Op, e.B = "net", int64(r.Intn(3))
			if r.P(0.5) {
				e.A = 0
			}
		case 5:
			if !faulty {
				continue
			}
			e.Op = "lose"
			if r.P(0.4) {
				e.Op, e.B = "proxy", int64(r.Intn(3))
			}
		case 6:
			if !faulty {
				continue
			}
			e.Op, e.A = "fault", int64(r.Intn(3))
			e.Mode = r.Pick("read_error", "read_open_error", "short_read", "close_error", "stat_error", "read_error", "read_open_error")
		case 7:
			e.Op, e.A = "time", int64(r.Between(1, 5000))
		case 8:
			e.Op, e.RS = "settle", r.U64()
		case 9:
			switch {
			case r.P(0.2):
				e.Op, e.RS = "open", r.U64()
			case faulty && r.P(0.15):
				e.Op = "restart"
			default:
				continue
			}
		}
		tr.Ev = append(tr.Ev, e)
	}
	return tr
}
