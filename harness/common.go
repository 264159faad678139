package main

import (
	"encoding/json"
	"unicode/utf8"
)

// cps is a text as a list of code points, the form texts have in the
// specifications. Bytes that are not valid UTF-8 are written as -byte.
type cps []int

func toCps(s string) cps {
	out := cps{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out = append(out, -int(s[i]))
		} else {
			out = append(out, int(r))
		}
		i += n
	}
	return out
}

func (c cps) str() string {
	var b []byte
	for _, v := range c {
		if v < 0 {
			b = append(b, byte(-v))
		} else {
			b = utf8.AppendRune(b, rune(v))
		}
	}
	return string(b)
}

func bytesOf(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

func cpsList(ss []string) []cps {
	out := []cps{}
	for _, s := range ss {
		out = append(out, toCps(s))
	}
	return out
}

func strList(cs []cps) []string {
	out := []string{}
	for _, c := range cs {
		out = append(out, c.str())
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func parse[T any](raw json.RawMessage) T {
	var v T
	check(json.Unmarshal(raw, &v))
	return v
}

type M map[string]any
