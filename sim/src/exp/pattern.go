package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C28: signals of every pattern, updated one by one in any order.

type signal struct {
	s        *exp.SensorData
	since    int // updates since it was defined or last fired
	byChance func() bool

	// choices of the current pattern that were there, and how often they were taken
	up, down, upOpp, downOpp, fire, fireOpp int
	next                                    map[string]map[string]bool // choices that came after another
	from                                    map[string]int
}

func (g *signal) fresh() {
	g.since, g.up, g.down, g.upOpp, g.downOpp, g.fire, g.fireOpp = 0, 0, 0, 0, 0, 0, 0
	g.next, g.from = map[string]map[string]bool{}, map[string]int{}
}

func execPattern(c *Ctx, tr *simkit.Trace) {
	fs := simfs.New(c, simfs.Scratch())
	clock := &simfs.Clock{Now: tr.Cfg["clock"], Rest: 1_003}
	defer clock.Install(c)()
	var all []*signal
	var now int64
	msg, panicked, _ := fs.Run(func() {
		for i, e := range tr.Ev {
			c.Step = i
			if e.Op == "signal" || e.Op == "pattern" {
				s := &exp.SensorData{}
				if err := json.Unmarshal([]byte(e.Val), s); err != nil || s.UpdateInterval <= 0 || s.ChangeParams == nil {
					continue
				}
				if e.Op == "signal" {
					all = append(all, &signal{s: s})
					all[len(all)-1].fresh()
				} else if len(all) > 0 { // another scenario begins
					g := all[e.Node%len(all)]
					if g.s.Type == s.Type {
						s.Path, s.UpdateInterval = g.s.Path, g.s.UpdateInterval
						*g.s = *s
						g.fresh()
					}
				}
				continue
			}
			if len(all) == 0 {
				continue
			}
			now += e.A
			c.SimMs += max(0, e.A)
			if e.A < 0 {
				c.Fault("clock_jump_back")
			}
			g := all[e.Node%len(all)]
			var kept []exp.SensorData
			for _, o := range all {
				k := *o.s
				k.ChangeParams = map[string]float64{}
				for n, v := range o.s.ChangeParams {
					k.ChangeParams[n] = v
				}
				kept = append(kept, k)
			}
			old := g.s.Value
			if e.Op == "broken" {
				c.Fault("sensor_broken")
				old = []any{nil, "n/a", 7, true, 1.5, []any{}}[e.B%6]
				if fmt.Sprintf("%T", old) == map[string]string{"number": "float64", "boolean": "bool", "string": "string"}[g.s.Type] {
					old = nil
				}
				g.s.Value = old
			}
			twin := *g.s
			twin.ChangeParams = maps.Clone(g.s.ChangeParams)
			g.byChance = func() bool { // whether the same draws change it when its time never comes
				if _, ok := twin.ChangeParams["reset_interval"]; ok {
					twin.ChangeParams["reset_interval"] = 1e15
				}
				before := twin.Value
				runtime.VerifSeed(e.RS)
				v, _ := exp.VerifNewValue(&twin, now, e.Mode)
				return !reflect.DeepEqual(v, before)
			}
			runtime.VerifSeed(e.RS)
			v, ok := exp.VerifNewValue(g.s, now, e.Mode)
			if !ok {
				return
			}
			c.Ops++
			c.Log("%s %v -> %v", g.s.Path, old, v)
			c.State(simkit.HashStr(fmt.Sprint(g.s.Type, g.s.ChangePattern, v)))
			g.since++
			c.Check(reflect.TypeOf(g.s.Value) == reflect.TypeOf(old) && (e.Op == "broken" || reflect.DeepEqual(g.s.Value, old)), "untouched", "asking for a new value of %s set it to %v", g.s.Path, g.s.Value)
			g.check(c, old, v, now, e.Op == "broken")
			g.s.Value = v
			for j, o := range all {
				k := *o.s
				k.ChangeCounter, kept[j].ChangeCounter = 0, 0
				if o == g {
					k.Value, kept[j].Value = nil, nil
				}
				c.Check(reflect.DeepEqual(k, kept[j]), "untouched", "a new value of %s changed %s from %+v to %+v", g.s.Path, o.s.Path, kept[j], k)
			}
		}
	})
	c.Check(!panicked, "panic", "a new value could not be found: %s", msg)
}

func rel(q, p float64) float64 {
	if q == 0 {
		return 0
	}
	return q * math.Log(q/p)
}

func (g *signal) check(c *Ctx, old, v any, now int64, broken bool) {
	s, p := g.s, g.s.ChangeParams
	bad := func(why string, args ...any) {
		c.Fail("pattern", "%s (%s, %v) goes from %v to %v: %s", s.Path, s.ChangePattern, p, old, v, fmt.Sprintf(why, args...))
	}
	must := func(ok bool, why string, args ...any) {
		c.Checks++
		if !ok {
			bad(why, args...)
		}
	}
	types := map[string]string{"number": "float64", "boolean": "bool", "string": "string"}
	if want := types[s.Type]; want != "" {
		must(fmt.Sprintf("%T", v) == want, "it is no %s", s.Type)
	} else {
		must(reflect.DeepEqual(v, old), "signals of the type %q do not change", s.Type)
		return
	}
	if broken { // time goes on
		since := g.since
		g.fresh()
		g.since = since
		return
	}
	tried := func(opp, taken int, chance float64, what string) {
		must(taken > 0 || math.Pow(1-chance, float64(opp)) > 1e-13, "in %d updates %s", opp, what)
	}
	fired := func(chance float64, changed bool) {
		g.fireOpp++
		if changed {
			g.fire++
		}
		must(chance > 0 || !changed, "its chance to change is %v", chance)
		must(chance < 1 || changed, "its chance to change is %v", chance)
		if 0 < chance && chance < 1 { // the chance of a rate like this one (Chernoff) or one further away
			n, q := float64(g.fireOpp), float64(g.fire)/float64(g.fireOpp)
			must(n*(rel(q, chance)+rel(1-q, 1-chance)) < 36, "it changed in %d of %d updates", g.fire, g.fireOpp)
		}
	}
	c.Probe(s.Type + " " + s.ChangePattern)
	known := map[string]string{"number": "constant_with_noise linear sinusoidal random_walk stepped triggered", "boolean": "toggle triggered", "string": "random_selection"}
	if !strings.Contains(" "+known[s.Type]+" ", " "+s.ChangePattern+" ") {
		must(reflect.DeepEqual(v, old), "it is constant")
		return
	}
	switch s.Type {
	case "boolean":
		chance := p["toggle_probability"]
		if s.ChangePattern == "triggered" {
			chance = p["threshold"]
		}
		fired(chance, v != old)
		return
	case "string":
		chance, n := p["change_probability"], int(p["num_choices"])
		if chance == 0 {
			chance = 0.05
		}
		t := v.(string)
		options := map[string]string{"ChargingStatus": "charging full error pending", "ChargingMode": "fast normal eco scheduled"}
		prefix := "value_"
		for k, o := range map[string]string{"Transmission": "gear_", "HVAC": "setting_"} {
			if strings.Contains(s.Path, k) {
				prefix = o
			}
		}
		for k, o := range options {
			if strings.Contains(s.Path, k) {
				must(t == old || strings.Contains(" "+o+" ", " "+t+" "), "it is one of %s", o)
				c.Probe("options")
				return
			}
		}
		if t != old {
			k, err := strconv.Atoi(strings.TrimPrefix(t, prefix))
			must(strings.HasPrefix(t, prefix) && err == nil && k >= 0 && k < n && t == prefix+strconv.Itoa(k), "it has %d choices", n)
			if g.next[old.(string)] == nil {
				g.next[old.(string)] = map[string]bool{}
			}
			g.next[old.(string)][t] = true
			g.from[old.(string)]++
		}
		if n < 2 { // there may be no other value
			c.Probe("no_choice")
			return
		}
		fired(chance, t != old)
		for i := 0; i < n && n <= 10; i++ {
			if k := prefix + strconv.Itoa(i); k != old {
				must(g.next[old.(string)][k] || math.Pow(1-1/float64(n), float64(g.from[old.(string)])) > 1e-13, "it never went from there to %s", k)
			}
		}
		return
	}
	x, y := old.(float64), v.(float64)
	lo, hi := p["min"], p["max"]
	eps := 1e-9 * (math.Abs(x) + math.Abs(y) + math.Abs(lo) + math.Abs(hi) + math.Abs(p["baseline"]) + math.Abs(p["amplitude"]) + 1e-300)
	near := func(a, b float64) bool { return math.Abs(a-b) <= eps }
	moved := func(canUp, canDown bool, chance float64) {
		if canUp {
			g.upOpp++
		}
		if canDown {
			g.downOpp++
		}
		if y > x {
			g.up++
		}
		if y < x {
			g.down++
		}
		tried(g.upOpp, g.up, chance, "it never went up")
		tried(g.downOpp, g.down, chance, "it never went down")
	}
	switch s.ChangePattern {
	case "constant_with_noise":
		b, n := p["baseline"], p["noise"]
		must(math.Abs(y-b) <= n+eps, "it stays within %v of %v", n, b)
		if n > 1e-6*math.Abs(b) && n > 0 {
			if y > b {
				g.up++
			} else {
				g.down++
			}
			tried(g.up+g.down, g.up, 0.45, "it was never above its base line")
			tried(g.up+g.down, g.down, 0.45, "it was never below its base line")
			if math.Abs(y-b) > n/2 {
				g.fire++
			}
			tried(g.up+g.down, g.fire, 0.45, "it stayed close to its base line")
		}
	case "linear":
		want := min(max(x+p["slope"]*float64(s.UpdateInterval)/1000, lo), hi)
		must(near(y, want), "it should be %v", want)
	case "sinusoidal":
		a, b := p["amplitude"], p["baseline"]
		must(math.Abs(y-b) <= math.Abs(a)+eps, "it stays within %v of %v", a, b)
		at := (now + int64(p["phase"])) % int64(p["period"])
		want := b + a*math.Sin(2*math.Pi*float64(at)/p["period"])
		must(math.Abs(y-want) <= eps+1e-6*math.Abs(a), "it should be %v", want)
	case "random_walk":
		must(y >= lo && y <= hi, "it stays in its range")
		if x < lo || x > hi {
			break // a scenario has set it
		}
		must(math.Abs(y-x) <= p["step_size"]+eps, "its steps are up to %v", p["step_size"])
		ok := p["step_size"] > 1e-6*math.Abs(x) && p["step_size"] > 0
		moved(ok && x < hi-p["step_size"], ok && x > lo+p["step_size"], 0.45)
	case "stepped":
		if float64(g.since*s.UpdateInterval) < p["step_interval"] {
			must(y == x, "its next step is later")
			break
		}
		g.since = 0
		up, down := min(max(x+p["step_size"], lo), hi), min(max(x-p["step_size"], lo), hi)
		must(near(y, up) || near(y, down), "it should be %v or %v", up, down)
		ok := p["step_size"] > 1e-6*math.Abs(x) && lo <= x && x <= hi
		moved(ok && up > x && down < x, ok && up > x && down < x, 0.45)
	case "triggered":
		a, b := p["min_value"], p["max_value"]
		due := float64(g.since*s.UpdateInterval) >= p["reset_interval"]
		changed := y != x
		if changed || due {
			must(y >= a-eps && y <= b+eps, "it takes values from %v to %v", a, b)
			g.since = 0
		}
		if !(b-a > 1e-6*(math.Abs(a)+math.Abs(b))) {
			g.since = 0 // can not be seen
			c.Probe("trigger_unseen")
			break
		}
		if due {
			must(changed, "it was to change by now")
		} else {
			fired(p["threshold"], changed)
			must(!changed || broken || g.byChance(), "its time has not come, and by chance it would not change")
		}
	}
}

func genPattern(r *rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": 1_700_000_000_000_000_000}}
	scenarios := append([]string{"mixed_scenario"}, scenarioNames...)
	f := func(xs ...float64) float64 { return xs[r.Intn(len(xs))] }
	sensor := func(typ string) string {
		s := &exp.SensorData{Type: typ, UpdateInterval: []int{10, 50, 100, 250, 1000, 1500, 60_000}[r.Intn(7)], ChangeParams: map[string]float64{}}
		s.Path = r.Pick("Vehicle.Speed", "Vehicle.Transmission.Gear", "Vehicle.Cabin.HVAC.Mode", "Vehicle.Powertrain.ChargingStatus", "Vehicle.Powertrain.ChargingMode", "Vehicle.Cabin.Name", "", "속도")
		p := s.ChangeParams
		lo := f(0, -1, 5, -90, 1e6, -0.25, 37.5)
		hi := lo + f(0, 0.004, 0.5, 1, 10, 100, 1000, 1e6)
		w := hi - lo
		s.ChangePattern = r.Pick("constant", "whatever", "")
		switch typ {
		case "number":
			s.Value = min(max([]float64{lo, hi, (lo + hi) / 2, lo + w*r.F()}[r.Intn(4)], lo), hi)
			if r.P(0.1) {
				s.Value = hi + 1 + w
			}
			s.ChangePattern = r.Pick("constant", "constant_with_noise", "linear", "sinusoidal", "random_walk", "random_walk", "stepped", "stepped", "triggered", "triggered", "toggle")
			p["min"], p["max"] = lo, hi
			switch s.ChangePattern {
			case "constant_with_noise":
				p["baseline"], p["noise"] = f(lo, hi, (lo+hi)/2), w*f(0, 0.01, 0.01, 0.5)
			case "linear":
				p["slope"] = f(0.1, -0.5, -0.04, 0, 3, -200, w/7, -w/11)
			case "sinusoidal":
				p["amplitude"], p["baseline"] = w*f(0, 0.1, 1), f(lo, hi, (lo+hi)/2)
				p["period"] = f(1, 7, 1000, 5000, 86_400_000)
				if r.P(0.5) {
					p["phase"] = f(0, 250, -1000, 12345)
				}
			case "random_walk":
				p["step_size"] = w * f(0, 0.01, 0.01, 0.1, 0.4, 3)
			case "stepped":
				p["step_size"], p["step_interval"] = w*f(0, 0.01, 0.1, 0.4, 3), f(0, float64(s.UpdateInterval), 3*float64(s.UpdateInterval), 3.5*float64(s.UpdateInterval), 10_000)
			case "triggered":
				p["min_value"], p["max_value"] = lo, hi
				p["threshold"], p["reset_interval"] = f(0, 0, 0.1, 0.5, 1), f(0, float64(s.UpdateInterval), 3*float64(s.UpdateInterval), 3.5*float64(s.UpdateInterval), 10_000, 1e12)
			}
		case "boolean":
			s.Value = r.P(0.5)
			s.ChangePattern = r.Pick("constant", "toggle", "toggle", "triggered", "triggered", "random_walk")
			k := "toggle_probability"
			if s.ChangePattern == "triggered" {
				k = "threshold"
			}
			p[k] = f(0, 0.05, 0.5, 0.9, 1)
		case "string":
			s.Value = r.Pick("", "x", "value_0", "value_1", "gear_0", "setting_0", "charging", "eco")
			s.ChangePattern = r.Pick("constant", "random_selection", "random_selection", "random_selection", "toggle")
			if s.ChangePattern == "random_selection" && r.P(0.9) {
				p["num_choices"], p["change_probability"] = f(0, 1, 2, 2, 3, 4, 10), f(0, 0.5, 1, 0.05)
			}
		default:
			s.Value = []any{"x", 1.5, true, nil}[r.Intn(4)]
		}
		b, err := json.Marshal(s)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	n := r.Between(1, 5)
	types := []string{}
	for i := 0; i < n; i++ {
		types = append(types, []string{"number", "number", "number", "number", "boolean", "string", "string", "object"}[r.Intn(8)])
		tr.Ev = append(tr.Ev, simkit.Ev{Op: "signal", Val: sensor(types[i])})
	}
	changes := f(0, 0, 0.01, 0.05)
	breaks := f(0, 0, 0, 0.02)
	step := int64(f(1, 10, 100, 777, 5000))
	for i, k := 0, []int{r.Between(20, 200), r.Between(20, 600), r.Between(20, 600), r.Between(600, 1500)}[r.Intn(4)]; i < k; i++ {
		e := simkit.Ev{Op: "update", Node: r.Intn(n), A: step, RS: r.U64() >> 20, Mode: scenarios[r.Intn(len(scenarios))]}
		if r.P(0.02) {
			e.A = []int64{0, -step, -10 * step, 3_600_000, -86_400_000, 1}[r.Intn(6)]
		}
		switch {
		case r.P(changes):
			e = simkit.Ev{Op: "pattern", Node: e.Node, Val: sensor(types[e.Node])}
		case r.P(breaks):
			e.Op, e.B = "broken", int64(r.Intn(6))
		}
		tr.Ev = append(tr.Ev, e)
	}
	return tr
}
