package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// Experiments on other signal definitions than the shipped ones.

// definitions of the signals as shipped, and the signals tracked
func copyDefs() map[string]exp.VSSSensor {
	out := map[string]exp.VSSSensor{}
	for p, s := range exp.VSSSensors {
		d := *s
		d.ChangePatterns = map[string]string{}
		for k, v := range s.ChangePatterns {
			d.ChangePatterns[k] = v
		}
		out[p] = d
	}
	return out
}

// define replaces the signal definitions and the tracked signals by those of the trace,
// if it has any.
func define(tr *simkit.Trace) (undo func()) {
	defs, tracked := exp.VSSSensors, exp.KeySensorPaths
	undo = func() { exp.VSSSensors, exp.KeySensorPaths = defs, tracked }
	own, keys := map[string]*exp.VSSSensor{}, []string(nil)
	for _, e := range tr.Ev {
		switch e.Op {
		case "define":
			s := &exp.VSSSensor{}
			if json.Unmarshal([]byte(e.Val), s) == nil && s.UpdateInterval > 0 && s.DefaultValue != nil {
				own[s.Path] = s
			}
		case "track":
			keys = append(keys, e.Path)
		}
	}
	if len(own) > 0 {
		exp.VSSSensors = map[string]*exp.VSSSensor{}
		for _, p := range simkit.SortedKeys(own) {
			exp.VSSSensors[p] = own[p]
		}
	}
	if keys != nil {
		exp.KeySensorPaths = keys
	}
	return undo
}

func checkDefs(c *Ctx, defs map[string]exp.VSSSensor) {
	c.Check(len(defs) == len(exp.VSSSensors), "definitions", "%d of %d signals are still defined", len(exp.VSSSensors), len(defs))
	for p, d := range defs {
		s := exp.VSSSensors[p]
		c.Check(s != nil && reflect.DeepEqual(*s, d), "definitions", "the definition of %s changed to %+v", p, s)
	}
}

var shipped = func() (out []exp.VSSSensor) {
	defs := copyDefs()
	for _, p := range simkit.SortedKeys(defs) {
		out = append(out, defs[p])
	}
	return
}()

var intervals = []int{10, 20, 30, 50, 70, 100, 100, 130, 150, 200, 250, 300, 500, 900, 1000, 1000, 1700, 5000, 10_000, 30_000, 60_000, 100_000, 299_900, 300_000, 86_400_000}

var numberPatterns = []string{"constant", "constant_with_noise", "linear", "linear", "sinusoidal", "random_walk", "random_walk", "random_walk", "toggle", "surge"}

// genDefs draws signal definitions: some of the shipped ones with other intervals, patterns and
// ranges, and signals of other names. busy bounds how many signals change often.
func genDefs(r *rng, must []string) (evs []simkit.Ev) {
	var defs []exp.VSSSensor
	keep := []float64{0.1, 0.3, 0.6}[r.Intn(3)]
	for _, s := range shipped {
		wanted := false
		for _, p := range must {
			wanted = wanted || p == s.Path
		}
		if wanted || r.P(keep) {
			own := map[string]string{}
			for k, v := range s.ChangePatterns {
				own[k] = v
			}
			s.ChangePatterns = own
			defs = append(defs, s)
		}
	}
	for i, n := 0, r.Intn(6); i < n || len(defs) == 0; i++ {
		name := []string{"Vehicle.Cabin.Seat%d", "Vehicle.Cabin.Door.Row%d.IsOpen", "Odometer%d", "Vehicle.Speed%d", "차량.속도%d", "Vehicle.a b%d", "Vehicle.\"quoted, %d\"",
			"Vehicle.timestamp.x%d", "Vehicle.value.x%d", "Vehicle.<tag>&%d", "Sensors.Battery%d.Temperature", "A.B.C.D.E.F.G.H%d"}[r.Intn(12)]
		d := exp.VSSSensor{Path: fmt.Sprintf(name, i), Type: []string{"number", "number", "number", "boolean", "string"}[r.Intn(5)],
			Category:       []string{exp.SensorTypeHigh, exp.SensorTypeMedium, exp.SensorTypeLow, exp.ActuatorTypeHigh, exp.ActuatorTypeLow, exp.AttributeType}[r.Intn(6)],
			UpdateInterval: 1000}
		switch d.Type {
		case "number":
			redefine(r, &d, true)
		case "boolean":
			d.DefaultValue = r.P(0.5)
		default:
			d.DefaultValue = []string{"", "x", "a\"b, c", "<b>&", "두 줄\nline", "true", "0"}[r.Intn(7)]
		}
		repattern(r, &d)
		defs = append(defs, d)
	}
	other := []float64{0.2, 0.6, 1}[r.Intn(3)]
	for i := range defs {
		d := &defs[i]
		if r.P(other) {
			d.UpdateInterval = intervals[r.Intn(len(intervals))]
		}
		if r.P(other) {
			repattern(r, d)
		}
		if d.Type == "number" && r.P(other) {
			redefine(r, d, false)
		}
		if d.Path == batteryPath && r.P(0.7) { // a battery that fills and empties
			for _, s := range append([]string{"mixed_scenario"}, scenarioNames...) {
				d.ChangePatterns[s] = []string{"random_walk", "random_walk", "constant_with_noise", "sinusoidal"}[r.Intn(4)]
			}
			w := []float64{100, 300, 1000, 10_000}[r.Intn(4)]
			d.Min, d.Max = -w*float64(r.Intn(3)), w
			d.UpdateInterval = []int{50, 100, 500, 1000, 5000}[r.Intn(5)]
		}
		b, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		evs = append(evs, simkit.Ev{Op: "define", Path: d.Path, Val: string(b)})
	}
	if r.P(0.5) {
		for i, n := 0, r.Between(1, 5); i < n; i++ {
			// the files are named after the paths
			p := defs[r.Intn(len(defs))].Path
			if r.P(0.1) {
				p = "Vehicle.Unknown"
			}
			dup := false
			for _, e := range evs {
				dup = dup || e.Op == "track" && e.Path == p
			}
			if !dup && !strings.ContainsAny(p, "/\x00") {
				evs = append(evs, simkit.Ev{Op: "track", Path: p})
			}
		}
	}
	return evs
}

func repattern(r *rng, d *exp.VSSSensor) {
	d.ChangePatterns = map[string]string{}
	for _, s := range append([]string{"mixed_scenario"}, scenarioNames...) {
		if r.P(0.15) || s == "mixed_scenario" && r.P(0.8) {
			continue
		}
		switch d.Type {
		case "number":
			d.ChangePatterns[s] = numberPatterns[r.Intn(len(numberPatterns))]
		case "boolean":
			d.ChangePatterns[s] = []string{"constant", "toggle", "toggle", "surge"}[r.Intn(4)]
		default:
			d.ChangePatterns[s] = []string{"constant", "surge"}[r.Intn(2)]
		}
	}
}

// redefine draws another range and default value. Some signals are started or bounded by the
// scenarios themselves, so their range has to contain that.
func redefine(r *rng, d *exp.VSSSensor, free bool) {
	lo, hi := 0.0, 0.0
	switch d.Path {
	case "Vehicle.Speed":
		hi = 110
	case "Vehicle.Acceleration.Longitudinal":
		lo, hi = -3, 2
	case "Vehicle.Chassis.SteeringWheel.Angle":
		lo, hi = -15, 15
	case "Vehicle.Chassis.Accelerator.PedalPosition":
		hi = 25
	case bat + "Charging.ChargingRate":
		hi = 13
	case bat + "Charging.TimeRemaining":
		hi = 180
	case batteryPath:
		hi = 100
	default:
		if free || strings.HasPrefix(d.Path, "Vehicle.CurrentLocation") {
			lo = []float64{0, -1, 5, -90, 1e6, -0.25}[r.Intn(6)]
			hi = lo
		}
	}
	w := []float64{0, 0.004, 0.5, 1, 10, 1000, 1e6}[r.Intn(7)]
	d.Min, d.Max = lo-w*float64(r.Intn(2)), hi+w*float64(r.Intn(2))
	v := []float64{d.Min, d.Max, (d.Min + d.Max) / 2, d.Min + (d.Max-d.Min)*float64(r.Intn(101))/100}[r.Intn(4)]
	d.DefaultValue = min(max(v, d.Min), d.Max)
}
