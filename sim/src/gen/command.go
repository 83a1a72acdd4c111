package main

import (
	"flag"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

// Data sets asked for on the command line, as the README describes it.

// command spells what is asked for as arguments, in any order and form; what is left out has a default.
func command(r *rng, e simkit.Ev) []string {
	kv := [][2]string{{"cars", fmt.Sprint(e.A)}, {"files", fmt.Sprint(e.B)}}
	if r.P(0.7) {
		kv = append(kv, [2]string{"change_rate", spelled(r, e.Strs[0])})
	}
	if r.P(0.8) || e.Strs[2] != "1" {
		kv = append(kv, [2]string{"size", spelled(r, e.Strs[2])})
	}
	if r.P(0.3) {
		kv = append(kv, [2]string{"dataset", r.Pick("vss.json", "./vss.json")})
	}
	return spell(r, kv)
}

func spelled(r *rng, x string) string {
	f, _ := strconv.ParseFloat(x, 64)
	switch r.Intn(3) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return x
}

func spell(r *rng, kv [][2]string) (args []string) {
	for i := len(kv) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		kv[i], kv[j] = kv[j], kv[i]
	}
	for _, x := range kv {
		dash := r.Pick("-", "--")
		if r.P(0.5) {
			args = append(args, dash+x[0]+"="+x[1])
		} else {
			args = append(args, dash+x[0], x[1])
		}
	}
	return
}

// badCommand lacks something that is required, or says something that is no option or no number.
func badCommand(r *rng) []string {
	kv := [][2]string{{"cars", fmt.Sprint(r.Between(0, 3))}, {"files", fmt.Sprint(r.Between(0, 3))}}
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		kv = kv[r.Intn(2):][:1]
	case 2:
		kv[r.Intn(2)][1] = fmt.Sprint(-r.Between(1, 5))
	case 3:
		kv[r.Intn(2)][1] = r.Pick("many", "2.5", "1e2", "")
	case 4:
		kv = append(kv, [2]string{r.Pick("size", "change_rate"), r.Pick("half", "0,5")})
	case 5:
		kv = append(kv, [2]string{"colour", "red"})
	}
	return spell(r, kv)
}

// asked says what the arguments ask for; nil if they do not ask for a data set.
func asked(args []string, file string) *dataset {
	d := &dataset{specFile: file, cars: -1, files: -1, rate: 0.2, size: 1}
	for i := 0; i < len(args); i++ {
		name, val, ok := strings.Cut(strings.TrimLeft(args[i], "-"), "=")
		if !ok {
			if i++; i == len(args) {
				return nil
			}
			val = args[i]
		}
		var err error
		switch name {
		case "cars":
			d.cars, err = strconv.Atoi(val)
		case "files":
			d.files, err = strconv.Atoi(val)
		case "change_rate":
			d.rate, err = strconv.ParseFloat(val, 64)
		case "size":
			d.size, err = strconv.ParseFloat(val, 64)
		case "dataset":
			d.specFile = val
		default:
			return nil
		}
		if err != nil {
			return nil
		}
	}
	if d.cars < 0 || d.files < 0 {
		return nil
	}
	return d
}

// given says whether the options are what was asked for.
func (d *dataset) given(m map[string]any) string {
	for _, k := range simkit.SortedKeys(d.meta()) {
		if want := d.meta()[k]; !reflect.DeepEqual(m[k], want) {
			return fmt.Sprintf("%s is %v instead of %v", k, m[k], want)
		}
	}
	return ""
}

func parseArgs(args []string) map[string]any {
	own, line := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = own, line }()
	os.Args = append([]string{"logument"}, args...)
	flag.CommandLine = flag.NewFlagSet("logument", flag.ExitOnError)
	return vssgen.ParseArgs("vss.json")
}

// refused: what cannot be understood ends the program with a message, before anything else happens.
func (s *sim) refused(e simkit.Ev) {
	c := s.c
	code, left := -1, false
	os.VerifExit = func(n int) { code = n; panic(simkit.Sentinel("exit")) }
	defer func() { os.VerifExit = nil }()
	s.fs.Plan(nil)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(simkit.Sentinel); !ok || x != "exit" {
					panic(r)
				}
				left = true
			}
		}()
		s.fs.Run(func() { parseArgs(e.Strs) })
	}()
	out := s.fs.Out.String() + s.fs.Err.String()
	c.Check(left && code != 0, "command-line", "%q was taken for a request (exit code %d)", e.Strs, code)
	c.Check(strings.TrimSpace(out) != "", "command-line", "%q was refused without a word", e.Strs)
	c.Probe("command_refused")
}
