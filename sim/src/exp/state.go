package main

import (
	"math"
	"reflect"
	"runtime"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C22: vehicles whose driving scenario follows the battery.

const (
	bat         = "Vehicle.Powertrain.TractionBattery."
	batteryPath = bat + "StateOfCharge.Current"
)

// what changing the scenario sets
var setBy = map[string]map[string]func(old, v any) bool{
	"urban_traffic": {"Vehicle.Speed": between(40, 60)},
	"battery_charging": {
		"Vehicle.Speed":                             is(0.0),
		"Vehicle.Chassis.SteeringWheel.Angle":       is(0.0),
		"Vehicle.Acceleration.Longitudinal":         is(0.0),
		"Vehicle.Chassis.Brake.PedalPosition":       is(0.0),
		"Vehicle.Chassis.Accelerator.PedalPosition": is(0.0),
		bat + "Charging.IsCharging":                 is(true),
		bat + "Charging.ChargingRate":               between(11, 13),
		bat + "Charging.TimeRemaining": func(old, v any) bool {
			if f, ok := old.(float64); ok && f > 0 {
				return v == old
			}
			return between(120, 180)(old, v)
		},
	},
}

func is(x any) func(_, v any) bool { return func(_, v any) bool { return v == x } }
func between(lo, hi float64) func(_, v any) bool {
	return func(_, v any) bool { f, ok := v.(float64); return ok && f >= lo && f <= hi }
}

func groups(v *exp.VehicleData) map[string]map[string]*exp.SensorData {
	return map[string]map[string]*exp.SensorData{
		exp.SensorTypeHigh: v.SensorsHighFreq, exp.SensorTypeMedium: v.SensorsMedFreq, exp.SensorTypeLow: v.SensorsLowFreq,
		exp.ActuatorTypeHigh: v.ActuatorsHighVar, exp.ActuatorTypeLow: v.ActuatorsLowVar, exp.AttributeType: v.Attributes,
	}
}

func sensorsOf(v *exp.VehicleData) map[string]*exp.SensorData {
	out := map[string]*exp.SensorData{}
	for _, g := range groups(v) {
		for p, s := range g {
			out[p] = s
		}
	}
	return out
}

func copySensors(v *exp.VehicleData) map[string]exp.SensorData {
	out := map[string]exp.SensorData{}
	for p, s := range sensorsOf(v) {
		c := *s
		c.ChangeParams = map[string]float64{}
		for k, f := range s.ChangeParams {
			c.ChangeParams[k] = f
		}
		out[p] = c
	}
	return out
}

type drive struct {
	vehicle *exp.VehicleData
	state   *exp.ScenarioState
	kept    map[string]exp.SensorData // as they should be
	now     int64
	// the model
	scenario, before string
	level            float64
	last             int64
}

var execMixed = execPatchExp("scenario")

func execState(c *Ctx, tr *simkit.Trace) {
	if tr.Cfg["experiment"] == 1 {
		execMixed(c, tr)
		return
	}
	clock := &simfs.Clock{Now: tr.Cfg["clock"], Rest: 1000}
	defer clock.Install(c)()
	defer define(tr)()
	defs := copyDefs()
	var ds []*drive
	for i, name := range tr.Init {
		d := &drive{scenario: name, before: name, level: float64(tr.Cfg["level"])}
		initial := name
		if tr.Cfg["mixed"] == 1 {
			initial = "mixed_scenario"
		}
		c.Must("InitializeVehicleData", func() { d.vehicle = exp.InitializeVehicleData(initial) })
		c.Must("NewScenarioState", func() { d.state = exp.NewScenarioState(name, d.level) })
		d.kept = copySensors(d.vehicle)
		base := name
		if initial == "mixed_scenario" {
			base = "urban_traffic"
		}
		n := 0
		gs := groups(d.vehicle)
		for _, cat := range simkit.SortedKeys(gs) {
			for _, p := range simkit.SortedKeys(gs[cat]) {
				s := gs[cat][p]
				def, ok := defs[p]
				c.Check(ok && def.Category == cat && s.Path == p && s.Type == def.Type && s.UpdateInterval == def.UpdateInterval, "vehicle",
					"vehicle %d has %s as %+v in %s", i, p, *s, cat)
				want := def.ChangePatterns[base]
				if want == "" {
					want = def.ChangePatterns[initial]
				}
				if want == "" {
					want = "constant"
				}
				c.Check(s.ChangePattern == want, "vehicle", "in %s %s changes as %q instead of %q", base, p, s.ChangePattern, want)
				n++
			}
		}
		c.Check(n == len(defs), "vehicle", "vehicle %d has %d of %d signals", i, n, len(defs))
		ds = append(ds, d)
	}
	for i, e := range tr.Ev {
		c.Step = i
		if e.Op == "define" {
			continue
		}
		d := ds[e.Node%len(ds)]
		runtime.VerifSeed(e.RS)
		battery := d.vehicle.SensorsMedFreq[batteryPath]
		switch e.Op {
		case "level":
			if battery == nil {
				break
			}
			battery.Value = float64(e.A) / 1000
			if e.Mode == "broken" {
				battery.Value = "n/a"
				c.Fault("sensor_broken")
			}
			d.kept = copySensors(d.vehicle)
		case "lost":
			delete(d.vehicle.SensorsMedFreq, batteryPath)
			c.Fault("sensor_lost")
			d.kept = copySensors(d.vehicle)
		case "back":
			if battery == nil {
				def := defs[batteryPath]
				d.vehicle.SensorsMedFreq[batteryPath] = &exp.SensorData{Path: batteryPath, Type: def.Type, Value: float64(e.A) / 1000,
					UpdateInterval: def.UpdateInterval, ChangePattern: "linear", ChangeParams: map[string]float64{}}
				d.kept = copySensors(d.vehicle)
			}
		case "drive": // other signals move
			ss := sensorsOf(d.vehicle)
			for j, p := range simkit.SortedKeys(ss) {
				if _, ok := ss[p].Value.(float64); ok && p != batteryPath {
					ss[p].Value = float64((e.A*7+int64(j)*13)%200) - 50
				}
			}
			d.kept = copySensors(d.vehicle)
		case "tick":
			if e.A < 0 {
				c.Fault("clock_jump_back")
			}
			d.now += e.A
			c.SimMs += max(0, e.A)
			d.tick(c, e)
		}
		for j, o := range ds {
			c.Checks++
			if got := copySensors(o.vehicle); !reflect.DeepEqual(got, o.kept) {
				for _, p := range simkit.SortedKeys(o.kept) {
					if !reflect.DeepEqual(got[p], o.kept[p]) {
						c.Fail("untouched", "%s on vehicle %d changed %s of vehicle %d from %+v to %+v", e.Op, e.Node%len(ds), p, j, o.kept[p], got[p])
					}
				}
				c.Fail("untouched", "%s on vehicle %d changed the signals of vehicle %d", e.Op, e.Node%len(ds), j)
			}
			c.Check(o.state.CurrentScenario == o.scenario, "scenario", "%s on vehicle %d put vehicle %d from %s to %s", e.Op, e.Node%len(ds), j, o.scenario, o.state.CurrentScenario)
		}
		c.Log("%s %s %v %d", e.Op, d.scenario, d.level, d.now)
		c.State(simkit.Mix(simkit.HashStr(d.scenario+d.before), uint64(int64(d.level*10)), uint64(min(d.now-d.last, 61_000)/1000)))
	}
	checkDefs(c, defs)
}

func (d *drive) tick(c *Ctx, e simkit.Ev) {
	if b := d.vehicle.SensorsMedFreq[batteryPath]; b != nil {
		if f, ok := b.Value.(float64); ok {
			d.level = f
		}
	}
	old := d.scenario
	if d.now-d.last >= 60_000 {
		switch {
		case d.scenario == "urban_traffic" && d.level <= 10:
			d.before, d.scenario = d.scenario, "battery_charging"
		case d.scenario == "battery_charging" && d.level >= 99.95:
			d.scenario = d.before
		}
	} else if d.level <= 10 || d.level >= 99.95 {
		c.Probe("change_held_back")
	}
	var changed bool
	c.Must("UpdateScenarioState", func() { changed = d.state.UpdateScenarioState(d.vehicle, d.now) })
	c.Check(d.state.CurrentScenario == d.scenario, "scenario", "at %d with level %v (last change at %d) %s became %s instead of %s",
		d.now, d.level, d.last, old, d.state.CurrentScenario, d.scenario)
	c.Check(changed == (d.scenario != old), "scenario", "changing from %s to %s was told as %v", old, d.scenario, changed)
	c.Check(d.state.BatteryLevel == d.level, "level", "the battery level is %v, but the state has %v", d.level, d.state.BatteryLevel)
	if !changed {
		return
	}
	c.Probe("switched")
	c.Probe("switched_to_" + d.scenario)
	d.last = d.now
	got := copySensors(d.vehicle)
	for _, p := range simkit.SortedKeys(d.kept) {
		s, ok := got[p]
		c.Check(ok, "switch", "%s disappeared on the change to %s", p, d.scenario)
		if want, ok := exp.VSSSensors[p].ChangePatterns[d.scenario]; ok {
			c.Check(s.ChangePattern == want, "switch", "after the change to %s %s changes as %q instead of %q", d.scenario, p, s.ChangePattern, want)
		}
		if f := setBy[d.scenario][p]; f != nil {
			c.Check(f(d.kept[p].Value, s.Value), "switch", "the change to %s took %s from %v to %v", d.scenario, p, d.kept[p].Value, s.Value)
		} else {
			c.Check(s.Value == d.kept[p].Value, "switch", "the change to %s took %s from %v to %v", d.scenario, p, d.kept[p].Value, s.Value)
		}
		if f, ok := s.Value.(float64); ok && s.ChangePattern == "constant_with_noise" && setBy[d.scenario][p] == nil && exp.VSSSensors[p].ChangePatterns[d.scenario] != "" {
			// it varies around the value it has, by at most 1 % of its range
			own := s
			w := 0.01 * (exp.VSSSensors[p].Max - exp.VSSSensors[p].Min)
			var v any
			var known bool
			c.Must("calculateNewValue", func() { v, known = exp.VerifNewValue(&own, d.now, d.scenario) })
			n, ok := v.(float64)
			c.Check(!known || ok && math.Abs(n-f) <= w+1e-9*(1+math.Abs(f)), "switch", "after the change to %s, %s goes from %v to %v, but varies by %v", d.scenario, p, f, v, w)
			c.Probe("noise_after_change")
		}
		if p == batteryPath && s.ChangePattern == "linear" && exp.VSSSensors[p].ChangePatterns[d.scenario] == "linear" {
			slope := s.ChangeParams["slope"]
			c.Check((slope > 0) == (d.scenario == "battery_charging") && slope != 0, "switch", "in %s the battery moves by %v", d.scenario, slope)
		}
	}
	c.Check(len(got) == len(d.kept), "switch", "the change to %s added signals", d.scenario)
	d.kept = got
}

func genState(r *rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": 1_700_000_000_000_000_000, "level": int64(r.Intn(101)), "mixed": int64(r.Intn(2))}}
	if run%100 == 7 { // a complete experiment
		tr.Cfg["experiment"] = 1
		tr.Cfg["tick"] = 1_003
		if r.P(0.95) {
			tr.Ev = genDefs(r, []string{batteryPath, "Vehicle.Speed"})
		}
		tr.Ev = append(tr.Ev, simkit.Ev{Op: "experiment", Strs: []string{mixed}})
		return tr
	}
	if r.P(0.25) {
		for _, e := range genDefs(r, []string{batteryPath}) {
			if e.Op == "define" {
				tr.Ev = append(tr.Ev, e)
			}
		}
	}
	n := r.Between(1, 2)
	for i := 0; i < n; i++ {
		tr.Init = append(tr.Init, []string{"urban_traffic", "battery_charging", "highway_cruising"}[r.Weighted([]int{8, 2, 1})])
	}
	emit := func(e simkit.Ev) {
		e.Node = r.Intn(n)
		e.RS = r.U64() >> 20
		tr.Ev = append(tr.Ev, e)
	}
	level := func() int64 {
		return []int64{0, 9_999, 10_000, 10_001, 10_049, 99_949, 99_950, 99_951, 99_990, 100_000, int64(r.Intn(100_001)), int64(r.Intn(100_001))}[r.Intn(12)]
	}
	for i, k := 0, r.Between(5, 60); i < k; i++ {
		switch r.Weighted([]int{6, 10, 1, 1, 1, 2}) {
		case 0:
			emit(simkit.Ev{Op: "level", A: level()})
		case 1:
			dt := []int64{100, 1_000, 29_999, 30_000, 59_900, 59_999, 60_000, 60_001, 0, int64(r.Intn(200_000)), -int64(r.Intn(100_000))}[r.Weighted([]int{3, 2, 1, 1, 2, 2, 3, 1, 1, 4, 1})]
			emit(simkit.Ev{Op: "tick", A: dt})
		case 2:
			emit(simkit.Ev{Op: "level", Mode: "broken"})
		case 3:
			emit(simkit.Ev{Op: "lost"})
		case 4:
			emit(simkit.Ev{Op: "back", A: level()})
		case 5:
			emit(simkit.Ev{Op: "drive", A: int64(r.Intn(1000))})
		}
	}
	return tr
}
