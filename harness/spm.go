package main

import (
	"encoding/binary"
	"math/rand"
	"strings"
)

// A rule of a precompiled map: from, to.
type rule [2]cps

// randMap gives rules for parts of t: no character 0, no rule twice.
func randMap(r *rand.Rand, t cps) []rule {
	out := []rule{}
	seen := map[string]bool{}
	part := func(n int) cps {
		x := cps{}
		for _, c := range subText(r, t, n) {
			if c > 0 {
				x = append(x, c)
			}
		}
		return x
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		f, to := part(3), part(3)
		if r.Intn(3) == 0 {
			to = append(to, pick(r, 120, 0x2581, 0x301))
		}
		if len(f) == 0 || seen[f.str()] {
			continue
		}
		seen[f.str()] = true
		out = append(out, rule{f, to})
	}
	return out
}

type trieNode struct {
	next  map[byte]*trieNode
	leaf  bool
	value uint32
}

// charsmap writes rules the way sentencepiece does: the size of a double array,
// the double array, the replacements, each ending in 0. alt picks among layouts.
func charsmap(rules []rule, alt int) []byte {
	var texts strings.Builder
	root := &trieNode{next: map[byte]*trieNode{}}
	if alt%2 == 1 {
		texts.WriteString("unused\x00")
	}
	for _, ru := range rules {
		to := ru[1].str() + "\x00"
		at := -1
		if alt%3 != 0 { // share the end of another text
			at = strings.Index(texts.String(), to)
		}
		if at < 0 {
			at = texts.Len()
			texts.WriteString(to)
		}
		n := root
		for _, b := range []byte(ru[0].str()) {
			if n.next[b] == nil {
				n.next[b] = &trieNode{next: map[byte]*trieNode{}}
			}
			n = n.next[b]
		}
		if !n.leaf {
			n.leaf, n.value = true, uint32(at)
		}
	}
	units := []uint32{0}
	used := map[uint32]bool{0: true}
	bases := map[uint32]bool{}
	fits := func(n *trieNode, base uint32) bool {
		if bases[base] || n.leaf && used[base] {
			return false
		}
		for b := range n.next {
			if used[base^uint32(b)] {
				return false
			}
		}
		return true
	}
	set := func(i uint32, f func(u uint32) uint32) {
		for uint32(len(units)) <= i {
			units = append(units, 0)
		}
		units[i] = f(units[i])
	}
	var place func(n *trieNode, at uint32)
	place = func(n *trieNode, at uint32) {
		if !n.leaf && len(n.next) == 0 {
			return
		}
		base, ext := uint32(1), false
		if alt%4 == 3 { // far away, at a multiple of 256
			for k := uint32(1); ; k++ {
				if b := at ^ k<<8; fits(n, b) {
					base, ext = b, true
					break
				}
			}
		} else {
			for !fits(n, base) {
				base++
			}
		}
		bases[base] = true
		set(at, func(u uint32) uint32 {
			off := (at ^ base) << 10
			if ext {
				off = (at^base)>>8<<10 | 1<<9
			}
			if n.leaf {
				off |= 1 << 8
			}
			return u | off
		})
		if n.leaf {
			used[base] = true
			set(base, func(uint32) uint32 { return 1<<31 | n.value })
		}
		for b := 1; b < 256; b++ {
			if n.next[byte(b)] != nil {
				used[base^uint32(b)] = true
				set(base^uint32(b), func(uint32) uint32 { return uint32(b) })
			}
		}
		for b := 1; b < 256; b++ {
			if c := n.next[byte(b)]; c != nil {
				place(c, base^uint32(b))
			}
		}
	}
	place(root, 0)
	for alt%2 == 0 && len(units)%256 != 0 {
		units = append(units, 0)
	}
	out := binary.LittleEndian.AppendUint32(nil, uint32(4*len(units)))
	for _, u := range units {
		out = binary.LittleEndian.AppendUint32(out, u)
	}
	all := texts.String()
	if alt%5 == 4 { // the last text without its 0
		all = strings.TrimSuffix(all, "\x00")
	}
	return append(out, all...)
}
