// Package hsearch states what the search and trim helpers return.
package hsearch

import (
	"unicode"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

func at(s string, i int, sub string) bool {
	r := true
	for k := 0; k < len(sub); k++ {
		r = sym.And(r, s[i+k] == sub[k])
	}
	return r
}

func first(s, sub string) int {
	r := -1
	for i := len(s) - len(sub); i >= 0; i-- {
		r = sym.IteInt(at(s, i, sub), i, r)
	}
	return r
}

// P18_Index: the first occurrence of a substring.
// Bounds: texts of 0..8 (thorough 12) and substrings of 0..3 (4) arbitrary bytes.
func P18_Index() {
	s, sub := sym.Str(0, 8+4*sym.Tier()), sym.Str(0, 3+sym.Tier())
	want := first(s, sub)
	if sym.Choose(2) == 0 {
		sym.Assert(xstring.Index(s, sub) == want, "the index is the first occurrence, or -1")
	} else {
		sym.Assert(xstring.Contains(s, sub) == sym.And(want >= 0, s != ""), "containment holds exactly when there is an occurrence in a non-empty text")
	}
	sym.Cover("done")
}

// P18_AnyOf: whether one of several substrings occurs.
// Bounds: texts of 0..3 (thorough 4) arbitrary bytes, 0..3 substrings of 0..1 (the first 0..2) arbitrary bytes.
func P18_AnyOf() {
	s := sym.Str(0, 3+sym.Tier())
	n := sym.Choose(4)
	var list []string
	want := false
	for i := 0; i < n; i++ {
		hi := 1
		if i == 0 {
			hi = 2
		}
		x := sym.Str(0, hi)
		list = append(list, x)
		want = sym.Or(want, first(s, x) >= 0)
	}
	sym.Assert(xstring.ContainsAnySubstrings(s, list) == want, "the any-of search reports exactly whether one listed substring occurs")
	sym.Cover("done")
}

func in(r rune, set []rune) bool {
	x := false
	for _, c := range set {
		x = sym.Or(x, c == r)
	}
	return x
}

// P18_IndexAny: the first character of a set.
// Bounds: texts of 0..3 arbitrary characters or 0..5 one-byte ones, sets of 0..2 arbitrary characters.
func P18_IndexAny() {
	var s, set string
	if sym.Choose(2) == 0 {
		s, set = sym.UStr(0, 2+sym.Tier()), sym.UStr(0, 2)
	} else {
		s, set = sym.UStrW(0, 5, 1), sym.UStrW(0, 2+sym.Tier(), 1)
	}
	chars := []rune(set)
	want := -1
	var pos []int
	var rs []rune
	for i, r := range s {
		pos = append(pos, i)
		rs = append(rs, r)
	}
	for i := len(rs) - 1; i >= 0; i-- {
		want = sym.IteInt(in(rs[i], chars), pos[i], want)
	}
	sym.Assert(xstring.IndexAny(s, set) == want, "the index is that of the first character of the set, or -1")
	sym.Cover("done")
}

// trimmed asserts that got is s without its longest run of cut characters at the wanted ends.
func trimmed(s, got string, cut func(r rune) bool, left, right bool, what string) {
	rs := []rune(s)
	i, j := 0, len(rs)
	if left {
		for i < j && cut(rs[i]) {
			i++
		}
	}
	if right {
		for j > i && cut(rs[j-1]) {
			j--
		}
	}
	sym.Assert(got == string(rs[i:j]), what)
}

// P18_Trim: trimming the characters of a set.
// Bounds: texts of 0..2 (thorough 3) arbitrary characters with sets of 0..2 characters of which one is arbitrary and the other a space, or texts of 0..4 (5) and sets of 0..2 one-byte characters.
func P18_Trim() {
	var s, set string
	if sym.Choose(2) == 0 {
		s, set = sym.UStr(0, 2+sym.Tier()), sym.UStr(0, 1)
		if sym.Choose(2) == 1 {
			set += " "
		}
	} else {
		s, set = sym.UStrW(0, 4+sym.Tier(), 1), sym.UStrW(0, 2, 1)
	}
	chars := []rune(set)
	cut := func(r rune) bool { return in(r, chars) }
	switch sym.Choose(3) {
	case 0:
		trimmed(s, xstring.Trim(s, set), cut, true, true, "trimming removes exactly the cut characters at both ends")
	case 1:
		trimmed(s, xstring.TrimLeft(s, set), cut, true, false, "trimming on the left removes exactly the cut characters at the beginning")
	case 2:
		trimmed(s, xstring.TrimRight(s, set), cut, false, true, "trimming on the right removes exactly the cut characters at the end")
	}
	sym.Cover("done")
}

// P18_TrimSpace: trimming whitespace.
// Bounds: texts of 0..2 (thorough 3) arbitrary characters or 0..5 one-byte ones.
func P18_TrimSpace() {
	var s string
	if sym.Choose(2) == 0 {
		s = sym.UStr(0, 2+sym.Tier())
	} else {
		s = sym.UStrW(0, 5, 1)
	}
	trimmed(s, xstring.TrimSpace(s), unicode.IsSpace, true, true, "trimming removes exactly the whitespace at both ends")
	sym.Cover("done")
}

// P18_Len: character counting.
// Bounds: texts of 0..4 (thorough 5) arbitrary characters or 0..4 (5) arbitrary bytes.
func P18_Len() {
	if sym.Choose(2) == 0 {
		s := sym.UStr(0, 4+sym.Tier())
		sym.Assert(xstring.Len(s) == len([]rune(s)), "the length is the number of characters")
	} else {
		s := sym.Str(0, 4+sym.Tier())
		sym.Assert(xstring.Len(s) == len([]rune(s)), "the length is the number of decoded characters")
	}
	sym.Cover("done")
}

// long makes a text of n characters: of one byte each, or of all widths mixed.
func long(n int, wide bool) []rune {
	pat := []rune("abcdefghijABC0xyzkq")
	if wide {
		pat = []rune("aé世b😀öz界zÅ")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	return r
}

// longText chooses a long text.
func longText() ([]rune, bool) {
	sizes := []int{70, 300, 1100, 5000}
	wide := sym.Choose(2) == 1
	return long(sizes[sym.Choose(3+sym.Tier())], wide), wide
}

// char is an arbitrary character, of one byte unless wide.
func char(wide bool) rune {
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return c
}

func place(n int) int { return []int{0, 63, n / 2, n - 1}[sym.Choose(4)] }

// P18_Large: searching and trimming long texts.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000) of one or of mixed widths, one of them arbitrary (of one byte, unless mixed) at the beginning, the middle or the end; searches for substrings of 2 and 40 characters and sets of 2 characters, runs of 70 cut characters or whitespace at both ends, lists of 70 substrings.
func P18_Large() {
	r, wide := longText()
	n := len(r)
	at := place(n)
	c := char(wide)
	switch sym.Choose(5) {
	case 0: // one marked place, found by what surrounds it
		r[at] = '#'
		s := string(r)
		pos := len(string(r[:at]))
		sym.Assert(xstring.Index(s, "#") == pos, "the index is the first occurrence in a long text")
		to := at + 40
		if to > n {
			to = n
		}
		sym.Assert(xstring.Index(s, string(r[at:to])) == pos, "the index is the first occurrence of a long substring")
		sym.Assert(xstring.Contains(s, string(r[at:to])) && !xstring.Contains(s, "##"), "containment in a long text")
		sym.Assert(xstring.Index(s, string(r[at:to])+"#") == -1, "a substring that does not occur has no index")
		sym.Assert(xstring.IndexAny(s, "!#") == pos, "the index is that of the first character of the set in a long text")
		list := make([]string, 70)
		for i := range list {
			list[i] = "##"
		}
		sym.Assert(!xstring.ContainsAnySubstrings(s, list), "none of many substrings occurs")
		list[[]int{0, 35, 69}[sym.Choose(3)]] = string(r[at:to])
		sym.Assert(xstring.ContainsAnySubstrings(s, list), "one of many substrings occurs")
	case 1: // an arbitrary character that may be the one looked for
		r[at] = c
		s := string(r)
		pos := len(string(r[:at]))
		sym.Assert(xstring.IndexAny(s, "~!") == sym.IteInt(sym.Or(c == '~', c == '!'), pos, -1), "the index is that of the first character of the set in a long text")
		sym.Assert((xstring.Index(s, "!") >= 0) == (c == '!'), "a long text has an index exactly when there is an occurrence")
	case 2: // long runs of cut characters
		run := make([]rune, 70)
		for i := range run {
			run[i] = []rune("*世-")[i%3]
		}
		s := string(run) + string(c) + string(r) + string(c) + string(run)
		cut := func(x rune) bool { return x == '*' || x == '世' || x == '-' }
		r = append([]rune(nil), []rune(s)...)
		trimmed(string(r), xstring.Trim(s, "*世-"), cut, true, true, "trimming removes exactly the cut characters at both ends of a long text")
		trimmed(string(r), xstring.TrimLeft(s, "*世-"), cut, true, false, "trimming removes exactly the cut characters at the beginning of a long text")
		trimmed(string(r), xstring.TrimRight(s, "*世-"), cut, false, true, "trimming removes exactly the cut characters at the end of a long text")
	case 3: // long runs of whitespace
		run := make([]rune, 70)
		for i := range run {
			run[i] = []rune(" \t\u00a0\u2003\n")[i%5]
		}
		s := string(run) + string(c) + string(r) + string(c) + string(run)
		trimmed(s, xstring.TrimSpace(s), unicode.IsSpace, true, true, "trimming removes exactly the whitespace at both ends of a long text")
	case 4:
		r[at] = c
		s := string(r)
		sym.Assert(xstring.Len(s) == n, "the length is the number of characters of a long text")
		sym.Assert(xstring.Len(s+"\xff\xfe") == n+2, "the length is the number of decoded characters of a long text")
	}
	sym.Cover("done")
}
