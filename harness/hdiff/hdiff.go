// Package hdiff states what comparing texts position by position must report.
package hdiff

import (
	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

// firstDiff is the first character position at which the texts are not all equal.
func firstDiff(rs [][]rune) int {
	if len(rs) < 2 {
		return -1
	}
	for i := 0; ; i++ {
		ended := 0
		for _, r := range rs {
			if i >= len(r) {
				ended++
			}
		}
		if ended == len(rs) {
			return -1
		}
		if ended > 0 {
			return i
		}
		for _, r := range rs[1:] {
			if r[i] != rs[0][i] {
				return i
			}
		}
	}
}

func same(got, want string, msg string) {
	sym.Assert(len(got) == len(want), msg)
	sym.Assert(got == want, msg)
}

func texts(n, lo, hi, width int) ([]string, [][]rune) {
	var ss []string
	var rs [][]rune
	for i := 0; i < n; i++ {
		s := sym.UStrW(lo, hi, width)
		ss = append(ss, s)
		rs = append(rs, []rune(s))
	}
	return ss, rs
}

func check(ss []string, rs [][]rune) {
	want := firstDiff(rs)
	sym.Assert(xstring.IndexOfDifference(ss...) == want, "the index of difference is the first position where the texts are not all equal")
	got := xstring.CommonPrefix(ss...)
	switch {
	case len(ss) == 0:
		sym.Assert(got == "", "no text has the empty common prefix")
	case want == -1:
		same(got, ss[0], "the common prefix of equal texts is the text")
	default:
		same(got, string(rs[0][:want]), "the common prefix is the longest text all start with")
	}
}

// P14_Lists: lists of texts.
// Bounds: 0..3 texts of 0..2 characters of 1 or 2 bytes (thorough: any width).
func P14_Lists() {
	w := 2 + 2*sym.Tier()
	ss, rs := texts(sym.Choose(4), 0, 2, w)
	check(ss, rs)
	sym.Cover("done")
}

// P14_Wide: pairs of texts of characters of every width.
// Bounds: 2 texts of 0..2 arbitrary characters.
func P14_Wide() {
	ss, rs := texts(2, 0, 2, 4)
	check(ss, rs)
}

// P14_Long: longer and more texts.
// Bounds: 2..4 texts of 0..4 one-byte characters (4 texts: 0..2).
func P14_Long() {
	n := 2 + sym.Choose(3)
	hi := 4
	if n == 3 {
		hi = 3
	} else if n == 4 {
		hi = 2
	}
	ss, rs := texts(n, 0, hi, 1)
	check(ss, rs)
}

// P14_Two: the two-text variants.
// Bounds: 2 texts of 0..3 characters of 1 or 2 bytes, or of 0..2 arbitrary characters.
func P14_Two() {
	var ss []string
	var rs [][]rune
	if sym.Choose(2) == 0 {
		ss, rs = texts(2, 0, 3, 2)
	} else {
		ss, rs = texts(2, 0, 2, 4)
	}
	want := firstDiff(rs)
	sym.Assert(xstring.IndexOfDifferenceWithTwoStr(ss[0], ss[1]) == want, "the index of difference of two texts is their first differing position")
	got := xstring.Difference(ss[0], ss[1])
	if want == -1 {
		sym.Assert(got == "", "equal texts have no difference")
	} else {
		same(got, string(rs[1][want:]), "the difference is the remainder of the second text")
	}
	sym.Obs("diff", got)
}

// long makes a text of n characters: of one byte each, or of all widths mixed.
func long(n int, wide bool) []rune {
	pat := []rune("abcdefghijABC0xyzkq")
	if wide {
		pat = []rune("aé世b😀öz界zÅ")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	return r
}

// longText chooses a long text.
func longText() ([]rune, bool) {
	sizes := []int{70, 300, 1100, 5000}
	wide := sym.Choose(2) == 1
	return long(sizes[sym.Choose(3+sym.Tier())], wide), wide
}

// char is an arbitrary character, of one byte unless wide.
func char(wide bool) rune {
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return c
}

func place(n int) int { return []int{0, 63, n / 2, n - 1}[sym.Choose(4)] }

// P14_Large: long texts that agree for a long part.
// Bounds: lists of 2, 3 and 70 texts of 70, of 2, 3 and 17 texts of 300 and of 2 texts of 1100 characters (thorough also 5000) of one or of mixed widths, one of them with an arbitrary character or cut at the beginning, the middle or the end; the two-text variants.
func P14_Large() {
	base, wide := longText()
	n := len(base)
	m := 2
	if n <= 300 {
		m = []int{2, 3, 17}[sym.Choose(3)]
	}
	if m == 17 && n == 70 {
		m = 70
	}
	which := []int{0, m - 1}[sym.Choose(2)]
	at := place(n)
	var ss []string
	var rs [][]rune
	for i := 0; i < m; i++ {
		r := base
		if i == which {
			r = append([]rune(nil), base...)
			if sym.Choose(2) == 0 {
				r[at] = char(wide)
			} else {
				r = r[:at]
			}
		}
		rs = append(rs, r)
		ss = append(ss, string(r))
	}
	check(ss, rs)
	want := firstDiff(rs[:2])
	sym.Assert(xstring.IndexOfDifferenceWithTwoStr(ss[0], ss[1]) == want, "the index of difference of two long texts is their first differing position")
	got := xstring.Difference(ss[0], ss[1])
	if want == -1 {
		sym.Assert(got == "", "equal texts have no difference")
	} else {
		same(got, string(rs[1][want:]), "the difference is the remainder of the second text")
	}
	sym.Cover("done")
}
