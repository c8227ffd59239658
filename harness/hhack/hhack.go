// Package hhack states what the zero-copy conversions must preserve.
package hhack

import (
	"github.com/chenquan/go-pkg/internal/hack"
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
)

// P19_ToBytes: a text as bytes.
// Bounds: texts of 0..8 (thorough 16) arbitrary bytes, and any part of one.
func P19_ToBytes() {
	s := sym.Str(0, 8+8*sym.Tier())
	i := sym.Choose(len(s) + 1)
	j := i + sym.Choose(len(s)-i+1)
	p := s[i:j]
	b := hack.StringToBytes(p)
	sym.Assert(len(b) == len(p), "the bytes have the length of the text")
	sym.Assert(sym.EqBytes(b, []byte(p)), "the bytes are those of the text")
	sym.Assert(cap(b) == len(b), "the bytes have no spare capacity")
	if len(b) == 0 {
		sym.Cover("empty")
	}
	if j < len(s) && len(p) > 0 {
		sym.Cover("a part with text behind it")
		keep := string([]byte(s))
		x := append(b, s[j]+1)
		sym.Assert(s == keep, "appending does not write behind the text")
		sym.Assert(sym.EqBytes(x[:len(p)], []byte(p)), "appending keeps the text")
	}
}

// P19_ToString: bytes as a text.
// Bounds: byte strings of 0..8 (thorough 16) arbitrary bytes with 0..1 bytes of spare capacity, and any part of one.
func P19_ToString() {
	b := sym.Bytes(0, 8+8*sym.Tier())
	if sym.Choose(2) == 1 {
		c := make([]byte, len(b), len(b)+1)
		copy(c, b)
		b = c
	}
	i := sym.Choose(len(b) + 1)
	j := i + sym.Choose(len(b)-i+1)
	p := b[i:j]
	s := hack.BytesToString(p)
	sym.Assert(len(s) == len(p), "the text has the length of the bytes")
	sym.Assert(s == string(p), "the text is those bytes")
	back := hack.StringToBytes(s)
	sym.Assert(sym.EqBytes(back, p) && len(back) == len(p) && cap(back) == len(p), "converting back gives the same bytes without spare capacity")
	if len(p) == 0 {
		sym.Cover("empty")
		return
	}
	sym.Cover("not empty")
	k := sym.Choose(len(p))
	old := s[k]
	p[k] = old + 1
	sym.Assert(s[k] == old+1, "no copy is made")
}

// P19_Large: long texts.
// Bounds: texts of 70, 300, 5000 and 70000 bytes, one of them arbitrary, and parts of them that start at 0, 1, 33 or the middle and end there, before the end, or at the end.
func P19_Large() {
	n := []int{70, 300, 5000, 70000}[sym.Choose(4)]
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte(i * 7)
	}
	at := []int{0, 33, n / 2, n - 1}[sym.Choose(4)]
	x := sym.Uint8()
	raw[at] = x
	s := string(raw)
	i := []int{0, 1, 33, n / 2}[sym.Choose(4)]
	j := []int{i, i + 1, n - 1, n}[sym.Choose(4)]
	p := s[i:j]
	b := hack.StringToBytes(p)
	sym.Assert(len(b) == j-i && cap(b) == j-i, "the bytes have the length of the text and no spare capacity")
	sym.Assert(sym.EqBytes(b, raw[i:j]), "the bytes are those of the text")
	t := hack.BytesToString(raw[i:j])
	sym.Assert(len(t) == j-i && t == p, "the text is those bytes")
	if at >= i && at < j {
		raw[at] = x + 1
		sym.Assert(t[at-i] == x+1 && s[at] == x, "no copy is made")
	}
	sym.Cover("done")
}
