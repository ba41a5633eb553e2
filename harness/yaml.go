package zzverif

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/goccy/go-yaml"
)

// readYAML decodes every document of s, mappings in order; nil when it is
// invalid. Comment only documents are skipped.
func readYAML(s string) []any {
	d := yaml.NewDecoder(bytes.NewReader([]byte(s)), yaml.UseOrderedMap())
	r := []any{}
	for {
		var v any
		err := d.Decode(&v)
		if err == io.EOF {
			return r
		}
		if err != nil {
			return nil
		}
		r = append(r, v)
	}
}

// sameYAML compares decoded documents; with ordered, also the order of
// mapping keys.
func sameYAML(a, b any) bool {
	switch x := a.(type) {
	case yaml.MapSlice:
		y, ok := b.(yaml.MapSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameYAML(x[i].Key, y[i].Key) || !sameYAML(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameYAML(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case yaml.MapSlice, []any:
		return false
	}
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

// setYAML returns doc with the value at the path (keys and indexes) replaced.
func setYAML(doc any, p []any, v any) any {
	if len(p) == 0 {
		return v
	}
	switch x := doc.(type) {
	case yaml.MapSlice:
		r := append(yaml.MapSlice{}, x...)
		for i := range r {
			if r[i].Key == p[0] {
				r[i].Value = setYAML(r[i].Value, p[1:], v)
				return r
			}
		}
	case []any:
		if i, ok := p[0].(int); ok && i < len(x) {
			r := append([]any{}, x...)
			r[i] = setYAML(r[i], p[1:], v)
			return r
		}
	}
	panic(fmt.Sprint("harness: no path ", p))
}

// getYAML returns the value at the path.
func getYAML(doc any, p []any) any {
	if len(p) == 0 {
		return doc
	}
	switch x := doc.(type) {
	case yaml.MapSlice:
		for i := range x {
			if x[i].Key == p[0] {
				return getYAML(x[i].Value, p[1:])
			}
		}
	case []any:
		if i, ok := p[0].(int); ok && i < len(x) {
			return getYAML(x[i], p[1:])
		}
	}
	panic(fmt.Sprint("harness: no path ", p))
}

// yamlOf is the value a marshalled Go value has to read back as: strings are
// themselves, whatever the renderer makes of them.
func yamlOf(v any) any {
	switch x := v.(type) {
	case string:
		return x
	case []any:
		r := []any{}
		for _, e := range x {
			r = append(r, yamlOf(e))
		}
		return r
	case map[string]any:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r := yaml.MapSlice{}
		for _, k := range ks {
			r = append(r, yaml.MapItem{Key: k, Value: yamlOf(x[k])})
		}
		return r
	}
	b, err := yaml.Marshal(v)
	if err != nil {
		panic(err)
	}
	d := readYAML(string(b))
	if len(d) != 1 {
		return nil
	}
	return d[0]
}

// sameValue compares a decoded value with unordered mappings to one with
// ordered ones.
func sameValue(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(yaml.MapSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for _, i := range y {
			v, ok := x[fmt.Sprint(i.Key)]
			if !ok || !sameValue(v, i.Value) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return sameYAML(a, b)
}
