package zzverif

import (
	"encoding/json"
	"strconv"
)

// An independent strict JSON reader that keeps member order.

type jnode struct {
	kind byte // 's' string, 'n' number, 'o' object, 'a' array, 't', 'f', '0' null
	text string
	keys []string
	kids []*jnode
}

type jreader struct {
	s string
	i int
}

func (r *jreader) ws() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\n' || r.s[r.i] == '\t' || r.s[r.i] == '\r') {
		r.i++
	}
}

func (r *jreader) lit(l string, k byte) *jnode {
	if len(r.s)-r.i < len(l) || r.s[r.i:r.i+len(l)] != l {
		return nil
	}
	r.i += len(l)
	return &jnode{kind: k}
}

func (r *jreader) str() (string, bool) {
	if r.i >= len(r.s) || r.s[r.i] != '"' {
		return "", false
	}
	st := r.i
	r.i++
	for r.i < len(r.s) {
		switch c := r.s[r.i]; {
		case c == '"':
			r.i++
			return decodeStr(r.s[st:r.i])
		case c < ' ':
			return "", false
		case c == '\\':
			r.i++
		}
		r.i++
	}
	return "", false
}

// decodeStr decodes a JSON string literal; bytes that are not UTF-8 are kept.
func decodeStr(lit string) (string, bool) {
	var b []byte
	for i := 1; i < len(lit)-1; i++ {
		if lit[i] != '\\' {
			b = append(b, lit[i])
			continue
		}
		i++
		if i >= len(lit)-1 {
			return "", false
		}
		switch lit[i] {
		case '"', '\\', '/':
			b = append(b, lit[i])
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case 'u':
			u, ok := hex4(lit, i+1)
			if !ok {
				return "", false
			}
			i += 4
			r := rune(u)
			if r >= 0xd800 && r < 0xdc00 && i+6 < len(lit) && lit[i+1] == '\\' && lit[i+2] == 'u' {
				if v, ok := hex4(lit, i+3); ok && v >= 0xdc00 && v < 0xe000 {
					r = 0x10000 + (r-0xd800)<<10 + (rune(v) - 0xdc00)
					i += 6
				}
			}
			b = append(b, []byte(string(r))...)
		default:
			return "", false
		}
	}
	return string(b), true
}

func hex4(s string, i int) (int, bool) {
	if i+4 > len(s)-1 {
		return 0, false
	}
	n := 0
	for _, c := range []byte(s[i : i+4]) {
		switch {
		case c >= '0' && c <= '9':
			n = n*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			n = n*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			n = n*16 + int(c-'A') + 10
		default:
			return 0, false
		}
	}
	return n, true
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func (r *jreader) num() *jnode {
	st := r.i
	at := func() byte {
		if r.i < len(r.s) {
			return r.s[r.i]
		}
		return 0
	}
	if at() == '-' {
		r.i++
	}
	if at() == '0' {
		r.i++
	} else {
		if !digit(at()) {
			return nil
		}
		for digit(at()) {
			r.i++
		}
	}
	if at() == '.' {
		r.i++
		if !digit(at()) {
			return nil
		}
		for digit(at()) {
			r.i++
		}
	}
	if at() == 'e' || at() == 'E' {
		r.i++
		if at() == '+' || at() == '-' {
			r.i++
		}
		if !digit(at()) {
			return nil
		}
		for digit(at()) {
			r.i++
		}
	}
	return &jnode{kind: 'n', text: r.s[st:r.i]}
}

func (r *jreader) val() *jnode {
	r.ws()
	if r.i >= len(r.s) {
		return nil
	}
	switch r.s[r.i] {
	case 't':
		return r.lit("true", 't')
	case 'f':
		return r.lit("false", 'f')
	case 'n':
		return r.lit("null", '0')
	case '"':
		s, ok := r.str()
		if !ok {
			return nil
		}
		return &jnode{kind: 's', text: s}
	case '[', '{':
		n := &jnode{kind: 'a'}
		end := byte(']')
		if r.s[r.i] == '{' {
			n.kind, end = 'o', '}'
		}
		r.i++
		r.ws()
		if r.i < len(r.s) && r.s[r.i] == end {
			r.i++
			return n
		}
		for {
			r.ws()
			if end == '}' {
				k, ok := r.str()
				if !ok {
					return nil
				}
				n.keys = append(n.keys, k)
				r.ws()
				if r.i >= len(r.s) || r.s[r.i] != ':' {
					return nil
				}
				r.i++
			}
			v := r.val()
			if v == nil {
				return nil
			}
			n.kids = append(n.kids, v)
			r.ws()
			if r.i >= len(r.s) {
				return nil
			}
			c := r.s[r.i]
			r.i++
			if c == end {
				return n
			}
			if c != ',' {
				return nil
			}
		}
	}
	return r.num()
}

// readJSON parses a whole document; nil if it is not valid JSON.
func readJSON(s string) *jnode {
	r := &jreader{s: s}
	n := r.val()
	r.ws()
	if n == nil || r.i != len(s) {
		return nil
	}
	return n
}

// sameJSON compares documents; with ordered also the order of members.
func sameJSON(a, b *jnode, ordered bool) bool {
	if a == nil || b == nil || a.kind != b.kind || len(a.kids) != len(b.kids) {
		return false
	}
	switch a.kind {
	case 's':
		return a.text == b.text
	case 'n':
		return sameNum(a.text, b.text)
	case 'a':
		for i := range a.kids {
			if !sameJSON(a.kids[i], b.kids[i], ordered) {
				return false
			}
		}
		return true
	case 'o':
		if ordered {
			for i := range a.kids {
				if a.keys[i] != b.keys[i] || !sameJSON(a.kids[i], b.kids[i], ordered) {
					return false
				}
			}
			return true
		}
		// members as a multiset (duplicate keys keep their relative order)
		used := make([]bool, len(b.kids))
	next:
		for i := range a.kids {
			for j := range b.kids {
				if !used[j] && a.keys[i] == b.keys[j] {
					if !sameJSON(a.kids[i], b.kids[j], ordered) {
						return false
					}
					used[j] = true
					continue next
				}
			}
			return false
		}
	}
	return true
}

// sameNum compares the values of number literals exactly.
func sameNum(a, b string) bool {
	if a == b {
		return true
	}
	as, ad, ae := normNum(a)
	bs, bd, be := normNum(b)
	return as == bs && ad == bd && ae == be
}

// normNum is the sign, the digits without leading and trailing zeros, and the
// exponent of the last digit.
func normNum(s string) (neg bool, digits string, exp int) {
	if s != "" && s[0] == '-' {
		neg, s = true, s[1:]
	}
	for i := 0; i < len(s); i++ {
		if s[i] == 'e' || s[i] == 'E' {
			exp, _ = strconv.Atoi(s[i+1:])
			s = s[:i]
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			exp -= len(s) - i - 1
			s = s[:i] + s[i+1:]
		}
	}
	for s != "" && s[0] == '0' {
		s = s[1:]
	}
	for s != "" && s[len(s)-1] == '0' {
		s = s[:len(s)-1]
		exp++
	}
	if s == "" {
		exp = 0
	}
	return neg, s, exp
}

// quote is a JSON literal of s.
func quote(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func itoa(i int) string { return strconv.Itoa(i) }

// replacedJSON counts the values of a that b has replaced by p; ok is false if
// they differ in any other way.
func replacedJSON(a, b, p *jnode) (n int, ok bool) {
	if sameJSON(a, b, true) {
		return 0, true
	}
	if sameJSON(b, p, true) {
		return 1, true
	}
	if a.kind != b.kind || len(a.kids) != len(b.kids) || len(a.kids) == 0 {
		return 0, false
	}
	for i := range a.kids {
		if a.kind == 'o' && a.keys[i] != b.keys[i] {
			return 0, false
		}
		m, ok := replacedJSON(a.kids[i], b.kids[i], p)
		if !ok {
			return 0, false
		}
		n += m
	}
	return n, true
}

// replacedOld collects the values of a that b has replaced by p.
func replacedOld(a, b, p *jnode) (old []*jnode) {
	if sameJSON(a, b, true) {
		return nil
	}
	if sameJSON(b, p, true) || a.kind != b.kind || len(a.kids) != len(b.kids) {
		return []*jnode{a}
	}
	for i := range a.kids {
		old = append(old, replacedOld(a.kids[i], b.kids[i], p)...)
	}
	return old
}
