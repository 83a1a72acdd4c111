// Package specgen draws signal specifications.
package specgen

import (
	"encoding/json"
	"fmt"

	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// Small draws a small signal specification.
func Small(r *simkit.Rng) string {
	types := []string{"boolean", "string", "float", "double", "int8", "uint8", "int16", "uint16", "int32", "uint32", "float[]", "string[]", "uint8[]"}
	used := 0
	var node func(depth int) map[string]any
	node = func(depth int) map[string]any {
		m := map[string]any{"description": "d", "type": "branch", "uuid": "u"}
		children := map[string]any{}
		for i, n := 0, r.Between(1, 4); i < n; i++ {
			used++
			key := r.Pick("Speed", "Row1", "IsOpen", "0", "12", "Left", "DriverSide", "x/y", "a~b", "ü", "q\"q", "two words", "") + fmt.Sprint(used)
			if depth < 3 && r.P(0.4) {
				children[key] = node(depth + 1)
				continue
			}
			leaf := map[string]any{"description": "d", "type": "sensor", "datatype": types[r.Intn(len(types))], "uuid": "u"}
			switch {
			case leaf["datatype"] == "float" && r.P(0.4):
				leaf["unit"] = "percent"
			case leaf["datatype"] == "string" && r.P(0.5):
				leaf["allowed"] = []any{"ON", "off", "a\"b\\c", "", "한글", "tab\tx", "<b>&lt;R&amp;D</b>"}[r.Intn(3):]
			case r.P(0.2):
				leaf["min"], leaf["max"] = 0, 100
				leaf["comment"], leaf["deprecation"] = "c", "v1"
			}
			children[key] = leaf
		}
		m["children"] = children
		return m
	}
	b, _ := json.Marshal(map[string]any{"Vehicle": node(0)})
	return string(b)
}

// Wide draws a specification of some dozens of signals.
func Wide(r *simkit.Rng) string {
	children := map[string]any{}
	for i, n := 0, r.Between(4, 9); i < n; i++ {
		var m map[string]any
		json.Unmarshal([]byte(Small(r)), &m)
		children[fmt.Sprint("Part", i)] = m["Vehicle"]
	}
	b, _ := json.Marshal(map[string]any{"Vehicle": map[string]any{"description": "d", "type": "branch", "uuid": "u", "children": children}})
	return string(b)
}
