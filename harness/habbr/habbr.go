// Package habbr states what abbreviating a text must return.
package habbr

import (
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

func check(text, marker string, offset, width int) {
	t, m := []rune(text), []rune(marker)
	n, l := len(t), len(m)
	got, err := xstring.Abbreviate(text, marker, offset, width)
	if width < l+1 {
		sym.Cover("too narrow")
		if err == nil {
			sym.Assert(n <= width && got == text, "a width that cannot hold the marker and a character is refused")
		}
		return
	}
	if n <= width {
		sym.Cover("fits")
		sym.Assert(err == nil && got == text, "a text that fits is returned unchanged")
		return
	}
	o := offset
	if o < 0 {
		o = 0
	}
	if o > n {
		o = n
	}
	want := o // the last start from which the rest still fills the width
	if n-want < width-l {
		want = n - (width - l)
	}
	if want > l+1 && width < 2*l+1 {
		sym.Cover("too narrow for an offset")
		sym.Assert(err != nil, "a width that cannot hold both markers and a character is refused when the text would start behind its beginning")
		return
	}
	sym.Assert(err == nil, "a width that is large enough is accepted")
	g := []rune(got)
	sym.Assert(len(g) == width, "the result has exactly the requested width")
	from, to := 0, 0 // the kept part of the text
	switch {
	case want <= l+1:
		sym.Cover("beginning kept")
		from, to = 0, width-l
	case want+width-l < n:
		sym.Cover("middle kept")
		from, to = want, want+width-2*l
	default:
		sym.Cover("end kept")
		from, to = n-(width-l), n
	}
	pos := 0
	same := true
	if from > 0 {
		for i := 0; i < l; i++ {
			same = sym.And(same, g[pos] == m[i])
			pos++
		}
		sym.Assert(same, "the marker stands where the beginning was dropped")
	}
	for i := from; i < to; i++ {
		same = sym.And(same, g[pos] == t[i])
		pos++
	}
	sym.Assert(same, "the kept part is a contiguous part of the text, at the requested offset")
	if to < n {
		for i := 0; i < l; i++ {
			same = sym.And(same, g[pos] == m[i])
			pos++
		}
		sym.Assert(same, "the marker stands where the end was dropped")
	}
	sym.Assert(pos == len(g), "nothing else is in the result")
	last := o
	if last > n-1 {
		last = n - 1
	}
	sym.Assert(from <= last && last < to || from == 0, "the character at the offset is kept, unless the beginning is")
}

// P16_Ascii: any offset and width.
// Bounds: texts of 1..10 (thorough 14) arbitrary one-byte characters, markers of 1..2 (thorough 3) one-byte characters; offset and width any 64-bit integers.
func P16_Ascii() {
	t := sym.UStrW(1, 10+4*sym.Tier(), 1)
	check(t, sym.UStrW(1, 2+sym.Tier(), 1), sym.Int(), sym.Int())
}

// P16_Wide: characters of more than one byte.
// Bounds: texts of 6..8 characters, one of them (thorough two) of any width, the others of one byte; markers of 1 character of any width or 2 of one byte; offset -1..9 and width 0..8.
func P16_Wide() {
	n := 6 + sym.Choose(3)
	k, k2 := sym.Choose(n), -1
	if sym.Tier() > 0 {
		k2 = sym.Choose(n)
	}
	t := ""
	for i := 0; i < n; i++ {
		if i == k || i == k2 {
			t += sym.UStr(1, 1)
		} else {
			t += sym.UStrW(1, 1, 1)
		}
	}
	m := ""
	if sym.Choose(2) == 0 {
		m = sym.UStr(1, 1)
	} else {
		m = sym.UStrW(2, 2, 1)
	}
	check(t, m, sym.IntRange(-1, 9), sym.IntRange(0, 8))
}

// P16_Long: long texts.
// Bounds: a text of 10..14 (thorough 20) one-byte characters and the usual three-dot marker, offset and width any 64-bit integers.
func P16_Long() {
	check(sym.UStrW(10, 14+6*sym.Tier(), 1), "...", sym.Int(), sym.Int())
}

// P16_NoPanic: any bytes, including an empty text or marker.
// Bounds: texts of 0..3 and markers of 0..1 arbitrary bytes, offset and width any 64-bit integers.
func P16_NoPanic() {
	xstring.Abbreviate(sym.Str(0, 3), sym.Str(0, 1), sym.Int(), sym.Int())
	sym.Cover("done")
}

// long makes a text of n characters: of one byte each, or of all widths mixed.
func long(n int, wide bool) []rune {
	pat := []rune("abcdefghijABC0xyzkq")
	if wide {
		pat = []rune("aé世b😀öz界zÅ")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	return r
}

// longText chooses a long text.
func longText() ([]rune, bool) {
	sizes := []int{70, 300, 1100, 5000}
	wide := sym.Choose(2) == 1
	return long(sizes[sym.Choose(3+sym.Tier())], wide), wide
}

// char is an arbitrary character, of one byte unless wide.
func char(wide bool) rune {
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return c
}

func place(n int) int { return []int{0, 63, n / 2, n - 1}[sym.Choose(4)] }

// P16_Large: long texts and long markers.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, one of them arbitrary; markers of 1, 3 and 40 characters; 8 offsets and 9 widths around the ends, the middle and the marker's length.
func P16_Large() {
	t, wide := longText()
	n := len(t)
	t[place(n)] = char(wide)
	m := long([]int{1, 3, 40}[sym.Choose(3)], wide)
	l := len(m)
	offs := []int{-5, 0, l, l + 1, l + 2, n / 2, n - l, n + 5}
	widths := []int{l, l + 1, 2 * l, 2*l + 1, 2*l + 2, n / 2, n - 1, n, n + 1}
	text, marker := string(t), string(m)
	o := offs[sym.Choose(len(offs))]
	for _, w := range widths {
		check(text, marker, o, w)
	}
	sym.Cover("done")
}
