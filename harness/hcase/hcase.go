// Package hcase states what matching with and without regard to case must answer.
package hcase

import (
	"unicode"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

// eq: the characters certainly count as equal ignoring case.
func eq(a, b rune) bool {
	return sym.Or(a == b, sym.Or(unicode.ToUpper(a) == unicode.ToUpper(b), unicode.ToLower(a) == unicode.ToLower(b)))
}

// near: they are related by some chain of case mappings; characters that are
// near but not eq (such as dotted and dotless i) may be treated either way.
func near(a, b rune) bool {
	la, lb := unicode.ToLower(a), unicode.ToLower(b)
	ua, ub := unicode.ToUpper(a), unicode.ToUpper(b)
	return sym.Or(eq(a, b), sym.Or(eq(la, lb), eq(ua, ub)))
}

func region(a []rune, i int, b []rune, j, n int, same func(a, b rune) bool) bool {
	if i < 0 || j < 0 || n < 0 || i > len(a) || j > len(b) || n > len(a)-i || n > len(b)-j {
		return false
	}
	r := true
	for k := 0; k < n; k++ {
		r = sym.And(r, same(a[i+k], b[j+k]))
	}
	return r
}

func exact(a, b rune) bool { return a == b }

// between asserts must => got and got => may.
func between(got, must, may bool, msg string) {
	sym.Assert(sym.Implies(must, got), msg+" (holds)")
	sym.Assert(sym.Implies(got, may), msg+" (does not hold)")
}

func equals(a, b string) {
	ra, rb := []rune(a), []rune(b)
	got := xstring.EqualsIgnoreCase(a, b)
	if len(ra) != len(rb) {
		sym.Cover("lengths differ")
		sym.Assert(!got, "texts of different length are not equal ignoring case")
		return
	}
	sym.Cover("lengths equal")
	between(got, region(ra, 0, rb, 0, len(ra), eq), region(ra, 0, rb, 0, len(ra), near), "equality ignoring case")
}

// P15_EqualsAny: single characters of every kind.
// Bounds: texts of 0..1 arbitrary characters.
func P15_EqualsAnyChar() { equals(sym.UStr(0, 1), sym.UStr(0, 1)) }

// P15_Equals: short texts.
// Bounds: texts of 0..3 one-byte characters, or of 0..2 characters of 1 or 2 bytes.
func P15_Equals() {
	if sym.Choose(2) == 0 {
		equals(sym.UStrW(0, 3, 1), sym.UStrW(0, 3, 1))
	} else {
		equals(sym.UStrW(0, 2, 1+sym.Tier()), sym.UStrW(0, 2, 1+sym.Tier()))
	}
}

// P15_Region: region tests with any positions and lengths.
// Bounds: texts of 0..2 one-byte characters (thorough 1 or 2 bytes); both positions and the length any 64-bit integer; with and without regard to case.
func P15_Region() {
	w := 1 + sym.Tier()
	a, b := sym.UStrW(0, 2, w), sym.UStrW(0, 2, w)
	ra, rb := []rune(a), []rune(b)
	i, j, n := sym.Int(), sym.Int(), sym.Int()
	fold := sym.Choose(2) == 1
	got := xstring.RegionMatches(a, fold, i, b, j, n)
	if fold {
		between(got, region(ra, i, rb, j, n, eq), region(ra, i, rb, j, n, near), "a region test ignoring case")
	} else {
		sym.Assert(got == region(ra, i, rb, j, n, exact), "a region test holds exactly when the regions are identical")
	}
}

// P15_RegionWide: region tests on characters of every width.
// Bounds: texts of 0..2 and 0..1 arbitrary characters; positions -1..3, length -1..3; with and without regard to case.
func P15_RegionWide() {
	a, b := sym.UStr(0, 1+sym.Tier()), sym.UStr(0, 1)
	ra, rb := []rune(a), []rune(b)
	i, j, n := sym.IntRange(-1, 3), sym.IntRange(-1, 2), sym.IntRange(-1, 2)
	fold := sym.Choose(2) == 1
	got := xstring.RegionMatches(a, fold, i, b, j, n)
	if fold {
		between(got, region(ra, i, rb, j, n, eq), region(ra, i, rb, j, n, near), "a region test ignoring case")
	} else {
		sym.Assert(got == region(ra, i, rb, j, n, exact), "a region test holds exactly when the regions are identical")
	}
}

func some(ra, rb []rune, same func(a, b rune) bool) bool {
	r := false
	for i := 0; i+len(rb) <= len(ra); i++ {
		r = sym.Or(r, region(ra, i, rb, 0, len(rb), same))
	}
	return r
}

func pair() (string, string) {
	if sym.Choose(2) == 0 {
		return sym.UStrW(0, 3, 1), sym.UStrW(0, 2, 1)
	}
	return sym.UStr(0, 1+sym.Tier()), sym.UStr(0, 1)
}

// P15_Contains: containment ignoring case.
// Bounds: texts of 0..3 and 0..2 one-byte characters, or of 0..1 (thorough 0..2) and 0..1 arbitrary characters.
func P15_Contains() {
	a, b := pair()
	ra, rb := []rune(a), []rune(b)
	between(xstring.ContainsIgnoreCase(a, b), some(ra, rb, eq), some(ra, rb, near), "containment ignoring case")
}

// P15_EndsWith: suffix tests with and without regard to case.
// Bounds: texts of 0..3 and 0..2 one-byte characters, or of 0..1 (thorough 0..2) and 0..1 arbitrary characters.
func P15_EndsWith() {
	a, b := pair()
	ra, rb := []rune(a), []rune(b)
	k := len(ra) - len(rb)
	switch sym.Choose(4) {
	case 0:
		between(xstring.EndsWith(a, b, true), region(ra, k, rb, 0, len(rb), eq), region(ra, k, rb, 0, len(rb), near), "a suffix test ignoring case")
	case 1:
		between(xstring.EndsWithIgnoreCase(a, b), region(ra, k, rb, 0, len(rb), eq), region(ra, k, rb, 0, len(rb), near), "a suffix test ignoring case")
	case 2:
		sym.Assert(xstring.EndsWith(a, b, false) == region(ra, k, rb, 0, len(rb), exact), "a suffix test holds exactly when the last region is identical")
	case 3:
		sym.Assert(xstring.EndsWithCase(a, b) == region(ra, k, rb, 0, len(rb), exact), "a suffix test holds exactly when the last region is identical")
	}
}

// P15_AnyOf: the any-of variants.
// Bounds: a text of 0..2 characters against 0..3 listed texts of 0..1 (the first 0..2) characters of 1 or 2 bytes.
func P15_AnyOf() {
	a := sym.UStrW(0, 2, 2)
	ra := []rune(a)
	n := sym.Choose(4)
	var list []string
	ends, equal := false, false
	for i := 0; i < n; i++ {
		hi := 1
		if i == 0 {
			hi = 2
		}
		s := sym.UStrW(0, hi, 1)
		list = append(list, s)
		rs := []rune(s)
		ends = sym.Or(ends, region(ra, len(ra)-len(rs), rs, 0, len(rs), exact))
		if len(rs) == len(ra) {
			equal = sym.Or(equal, region(ra, 0, rs, 0, len(rs), exact))
		}
	}
	sym.Assert(xstring.EqualsAny(a, list...) == equal, "equality with any holds exactly when one listed text is identical")
	if a != "" {
		sym.Assert(xstring.EndsWithAny(a, list...) == ends, "a suffix test with any holds exactly when one listed text is a suffix")
	} else {
		xstring.EndsWithAny(a, list...)
	}
}

// P15_NoPanic: texts that are not valid UTF-8 and any positions never make them panic.
// Bounds: texts of 0..2 and 0..1 arbitrary bytes, positions and length -1..3.
func P15_NoPanic() {
	a, b := sym.Str(0, 2), sym.Str(0, 1)
	i, j, n := sym.IntRange(-1, 3), sym.IntRange(-1, 3), sym.IntRange(-1, 3)
	switch sym.Choose(4) {
	case 0:
		xstring.RegionMatches(a, sym.Choose(2) == 1, i, b, j, n)
	case 1:
		xstring.EqualsIgnoreCase(a, b)
	case 2:
		xstring.ContainsIgnoreCase(a, b)
	case 3:
		xstring.EndsWithIgnoreCase(a, b)
	}
	sym.Cover("done")
}

// long makes a text of n characters: of one byte each, or of all widths mixed.
func long(n int, wide bool) []rune {
	pat := []rune("abcdefghijABC0xyzkq")
	if wide {
		pat = []rune("aé世b😀öz界zÅ")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	return r
}

// longText chooses a long text.
func longText() ([]rune, bool) {
	sizes := []int{70, 300, 1100, 5000}
	wide := sym.Choose(2) == 1
	return long(sizes[sym.Choose(3+sym.Tier())], wide), wide
}

// char is an arbitrary character, of one byte unless wide.
func char(wide bool) rune {
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return c
}

func place(n int) int { return []int{0, 63, n / 2, n - 1}[sym.Choose(4)] }

// P15_Large: long texts that agree up to case.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, the other with the case of every third character changed and an arbitrary character of one byte, or one character fewer, at the beginning, the middle or the end; equality, containment (up to 300 characters), suffixes and regions.
func P15_Large() {
	a, _ := longText()
	n := len(a)
	b := append([]rune(nil), a...)
	for i := range b {
		if i%3 == 1 {
			b[i] = unicode.ToUpper(b[i])
		} else if i%3 == 2 {
			b[i] = unicode.ToLower(b[i])
		}
	}
	at := place(n)
	if sym.Choose(2) == 0 {
		b[at] = char(false)
	} else {
		b = append(b[:at:at], b[at+1:]...)
	}
	sa, sb := string(a), string(b)
	switch sym.Choose(5) {
	case 0:
		equals(sa, sb)
	case 1:
		sym.Assume(n <= 300)
		for _, k := range []int{0, 1, n / 2} {
			r := b[k : k+30]
			between(xstring.ContainsIgnoreCase(sa, string(r)), some(a, r, eq), some(a, r, near), "containment ignoring case in a long text")
		}
	case 2:
		for _, k := range []int{1, n / 2, len(b) - 1} {
			r := b[k:]
			between(xstring.EndsWithIgnoreCase(sa, string(r)), region(a, n-len(r), r, 0, len(r), eq), region(a, n-len(r), r, 0, len(r), near), "a suffix test ignoring case on a long text")
			sym.Assert(xstring.EndsWithCase(sa, string(r)) == region(a, n-len(r), r, 0, len(r), exact), "a suffix test on a long text holds exactly when the last region is identical")
		}
	case 3:
		for _, k := range []int{0, 5, n / 2} {
			for _, d := range []int{n - k - 1, n - k, 33} {
				between(xstring.RegionMatches(sa, true, k, sb, k, d), region(a, k, b, k, d, eq), region(a, k, b, k, d, near), "a region test ignoring case on long texts")
				sym.Assert(xstring.RegionMatches(sa, false, k, sb, k, d) == region(a, k, b, k, d, exact), "a region test on long texts holds exactly when the regions are identical")
			}
		}
	case 4:
		list := []string{string(b[1:]), "x", sb, string(b[:n/2])}
		want := false
		if len(b) == n {
			want = region(a, 0, b, 0, n, exact)
		}
		sym.Assert(xstring.EqualsAny(sa, list...) == want, "equality with any holds exactly when one listed text is identical")
		ends := sym.Or(want, false)
		for _, t := range [][]rune{b[1:], []rune("x"), b, b[:n/2]} {
			ends = sym.Or(ends, region(a, n-len(t), t, 0, len(t), exact))
		}
		sym.Assert(xstring.EndsWithAny(sa, list...) == ends, "a suffix test with any holds exactly when one listed text is a suffix")
	}
	sym.Cover("done")
}

// P15_ManyListed: long lists of texts.
// Bounds: 17, 70 and 300 listed texts, one arbitrary two-byte text at the beginning, in the middle or at the end of the list.
func P15_ManyListed() {
	m := []int{17, 70, 300}[sym.Choose(3)]
	at := []int{0, m / 2, m - 1}[sym.Choose(3)]
	t := sym.Str(2, 2)
	list := make([]string, m)
	for i := range list {
		list[i] = string(long(3+i%5, false)) + "-"
	}
	list[at] = t
	sym.Assert(xstring.EqualsAny("zq", list...) == sym.And(t[0] == 'z', t[1] == 'q'), "equality with any of a long list holds exactly when one listed text is identical")
	sym.Assert(xstring.EndsWithAny("abczq", list...) == sym.And(t[0] == 'z', t[1] == 'q'), "a suffix test with any of a long list holds exactly when one listed text is a suffix")
	sym.Cover("done")
}
