// Package hclass states what the classification questions about a text answer.
package hclass

import (
	"unicode"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

func all(s string, p func(r rune) bool) bool {
	r := true
	for _, c := range s {
		r = sym.And(r, p(c))
	}
	return r
}

func letterOrDigit(r rune) bool { return sym.Or(unicode.IsLetter(r), unicode.IsDigit(r)) }

func text() string {
	switch sym.Choose(3) {
	case 0:
		return sym.UStr(0, 3+sym.Tier())
	case 1:
		return sym.Str(0, 4+sym.Tier())
	}
	return sym.UStrW(0, 8+4*sym.Tier(), 1)
}

// P17_Letters: alphabetic, alphanumeric and numeric texts.
// Bounds: texts of 0..3 (thorough 4) arbitrary characters, 0..4 (5) arbitrary bytes, or 0..8 (12) one-byte characters.
func P17_Letters() {
	s := text()
	switch sym.Choose(3) {
	case 0:
		sym.Assert(xstring.IsAlpha(s) == sym.And(s != "", all(s, unicode.IsLetter)), "a text is alphabetic exactly when it is non-empty and all characters are letters")
	case 1:
		sym.Assert(xstring.IsAlphanumeric(s) == sym.And(s != "", all(s, letterOrDigit)), "a text is alphanumeric exactly when it is non-empty and all characters are letters or digits")
	case 2:
		sym.Assert(xstring.IsNumeric(s) == sym.And(s != "", all(s, unicode.IsDigit)), "a text is numeric exactly when it is non-empty and all characters are digits")
	}
	sym.Cover("done")
}

// P17_Numerical: digits, one optional point, digits.
// Bounds: texts of 0..6 (thorough 9) arbitrary bytes, or 0..3 arbitrary characters.
func P17_Numerical() {
	var s string
	if sym.Choose(2) == 0 {
		s = sym.Str(0, 6+3*sym.Tier())
	} else {
		s = sym.UStr(0, 3)
	}
	// states: 0 nothing read, 1 digits, 2 after the point, 3 refused
	in0, in1, in2 := true, false, false
	for i := 0; i < len(s); i++ {
		d := sym.And(s[i] >= '0', s[i] <= '9')
		p := s[i] == '.'
		in0, in1, in2 = false, sym.And(d, sym.Or(in0, in1)), sym.Or(sym.And(p, in1), sym.And(d, in2))
	}
	sym.Assert(xstring.IsNumerical(s) == sym.Or(in1, in2), "a text is numerical exactly when it is digits optionally followed by a point and more digits")
	sym.Cover("done")
}

// P17_Blank: blank and empty texts and their defaults.
// Bounds: texts of 0..3 (thorough 4) arbitrary characters, 0..4 (5) arbitrary bytes, or 0..8 (12) one-byte characters; defaults of 0..1 characters.
func P17_Blank() {
	s := text()
	blank := all(s, unicode.IsSpace)
	switch sym.Choose(6) {
	case 0:
		sym.Assert(xstring.IsBlank(s) == blank, "a text is blank exactly when all its characters are whitespace")
	case 1:
		sym.Assert(xstring.IsNotBlank(s) == !blank, "not blank is the opposite of blank")
	case 2:
		sym.Assert(xstring.IsEmpty(s) == (len(s) == 0), "a text is empty exactly when it has no bytes")
	case 3:
		sym.Assert(xstring.IsNotEmpty(s) == (len(s) != 0), "not empty is the opposite of empty")
	case 4:
		d := sym.UStr(0, 1)
		got := xstring.DefaultIfBlank(s, d)
		if blank {
			sym.Cover("default for blank")
			sym.Assert(got == d, "a blank text is replaced by the default")
		} else {
			sym.Assert(got == s, "a text that is not blank is kept")
		}
	case 5:
		d := sym.UStr(0, 1)
		got := xstring.DefaultIfEmpty(s, d)
		if len(s) == 0 {
			sym.Cover("default for empty")
			sym.Assert(got == d, "an empty text is replaced by the default")
		} else {
			sym.Assert(got == s, "a text that is not empty is kept")
		}
	}
}

// P17_AnyNone: the variants over several texts.
// Bounds: 0..3 texts of 0..2 characters of 1 or 2 bytes.
func P17_AnyNone() {
	n := sym.Choose(4)
	var list []string
	blank, empty := n == 0, n == 0
	for i := 0; i < n; i++ {
		s := sym.UStrW(0, 2, 2)
		list = append(list, s)
		blank = sym.Or(blank, all(s, unicode.IsSpace))
		empty = sym.Or(empty, len(s) == 0)
	}
	switch sym.Choose(4) {
	case 0:
		sym.Assert(xstring.IsAnyBlank(list...) == blank, "any blank holds exactly when there is no text or a blank one")
	case 1:
		sym.Assert(xstring.IsNoneBlank(list...) == !blank, "none blank is the opposite of any blank")
	case 2:
		sym.Assert(xstring.IsAnyEmpty(list...) == empty, "any empty holds exactly when there is no text or an empty one")
	case 3:
		sym.Assert(xstring.IsNoneEmpty(list...) == !empty, "none empty is the opposite of any empty")
	}
	sym.Cover("done")
}

// long makes a text of n characters: of one byte each, or of all widths mixed.
func long(n int, wide bool) []rune {
	pat := []rune("abcdefghijABC0xyzkq")
	if wide {
		pat = []rune("aé世b😀öz界zÅ")
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = pat[i%len(pat)]
	}
	return r
}

// longText chooses a long text.
func longText() ([]rune, bool) {
	sizes := []int{70, 300, 1100, 5000}
	wide := sym.Choose(2) == 1
	return long(sizes[sym.Choose(3+sym.Tier())], wide), wide
}

// char is an arbitrary character, of one byte unless wide.
func char(wide bool) rune {
	c := sym.Rune()
	if !wide {
		sym.Assume(c < 0x80)
	}
	return c
}

func place(n int) int { return []int{0, 63, n / 2, n - 1}[sym.Choose(4)] }

// P17_Large: long texts with one unusual character.
// Bounds: texts of 70, 300 and 1100 characters (thorough also 5000): letters of one or of mixed widths, digits or whitespace, with one arbitrary character (of one byte, unless mixed) at the beginning, the middle or the end; lists of 70 texts.
func P17_Large() {
	s, wide := longText()
	n := len(s)
	k := sym.Choose(4)
	for i := range s {
		switch k {
		case 0:
			if !unicode.IsLetter(s[i]) {
				s[i] = 'l'
			}
		case 1:
			s[i] = rune('0' + i%10)
		case 2:
			s[i] = []rune(" \t\u00a0\n")[i%4]
		case 3:
			if i%2 == 0 {
				s[i] = '7'
			}
		}
	}
	c := char(wide)
	s[place(n)] = c
	t := string(s)
	switch k {
	case 0:
		sym.Assert(xstring.IsAlpha(t) == unicode.IsLetter(c), "a long text is alphabetic exactly when all characters are letters")
	case 1:
		sym.Assert(xstring.IsNumeric(t) == unicode.IsDigit(c), "a long text is numeric exactly when all characters are digits")
		whole, part := t, t[:len(t)-1]
		want := sym.And(c >= '0', c <= '9')
		sym.Assert(sym.Implies(want, sym.And(xstring.IsNumerical(whole), xstring.IsNumerical(part))), "a long text of digits is numerical")
		sym.Assert(xstring.IsNumerical(whole+".5"+part) == want, "digits, a point and digits are numerical however long")
		sym.Assert(!xstring.IsNumerical(whole+".5."), "two points are not numerical however long the text")
	case 2:
		sym.Assert(xstring.IsBlank(t) == unicode.IsSpace(c), "a long text is blank exactly when all its characters are whitespace")
		sym.Assert(xstring.IsNotBlank(t) == !unicode.IsSpace(c), "not blank is the opposite of blank")
		list := make([]string, 70)
		for i := range list {
			list[i] = "x"
		}
		list[[]int{0, 35, 69}[sym.Choose(3)]] = t
		sym.Assert(xstring.IsAnyBlank(list...) == unicode.IsSpace(c), "any blank holds exactly when one of many texts is blank")
		sym.Assert(xstring.IsNoneBlank(list...) == !unicode.IsSpace(c), "none blank is the opposite of any blank")
		sym.Assert(!xstring.IsAnyEmpty(list...) && xstring.IsNoneEmpty(list...), "none of the texts is empty")
		d := xstring.DefaultIfBlank(t, "d")
		sym.Assert(sym.Or(sym.And(unicode.IsSpace(c), d == "d"), sym.And(!unicode.IsSpace(c), d == t)), "a blank text is replaced by the default")
	case 3:
		for i := range s {
			if i%2 == 1 && s[i] != c && !unicode.IsLetter(s[i]) {
				s[i] = 'l'
			}
		}
		t = string(s)
		sym.Assert(xstring.IsAlphanumeric(t) == letterOrDigit(c), "a long text is alphanumeric exactly when all characters are letters or digits")
	}
	sym.Cover("done")
}
