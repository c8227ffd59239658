// Package hjoin states what a joiner must build.
package hjoin

import (
	"unicode/utf8"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/chenquan/go-pkg/xstring"
)

type model struct {
	prefix, sep, suffix string
	body                string
	n                   int
}

func (m *model) add(p string) {
	if m.n > 0 {
		m.body += m.sep
	}
	m.n++
	m.body += p
}

func (m *model) text() string { return m.prefix + m.body + m.suffix }

func agrees(j *xstring.Joiner, m *model, when string) {
	want := m.text()
	sym.Assert(j.Len() == len(want), "the reported length is the length of the joined text "+when)
	got := j.String()
	sym.Assert(len(got) == len(want), "the joined text is prefix, separated pieces and suffix "+when)
	sym.Assert(got == want, "the joined text is prefix, separated pieces and suffix "+when)
	sym.Assert(j.Cap() >= len(want), "the capacity is at least the length "+when)
}

func create(maxSep int) (*xstring.Joiner, *model) {
	m := &model{}
	switch sym.Choose(4) {
	case 0:
		return xstring.NewJoiner(), m
	case 1:
		m.sep = sym.Str(0, maxSep)
		return xstring.NewJoiner(xstring.WithJoinerStep(m.sep)), m
	case 2:
		m.prefix, m.sep, m.suffix = sym.Str(1, 1), sym.Str(1, 1), sym.Str(1, 1)
		return xstring.NewJoiner(xstring.WithJoiner(m.prefix, m.sep, m.suffix)), m
	}
	m.prefix, m.sep, m.suffix = sym.Str(0, 1), sym.Str(1, maxSep), sym.Str(0, 2)
	return xstring.NewJoiner(xstring.WithJoinerSuffix(m.suffix), xstring.WithJoinerPrefix(m.prefix), xstring.WithJoinerStep(m.sep)), m
}

func step(j *xstring.Joiner, m *model) {
	switch sym.Choose(6) {
	case 0:
		s := sym.Str(0, 1)
		n, err := j.WriteString(s)
		sym.Assert(n == len(s) && err == nil, "WriteString reports the piece's own length")
		m.add(s)
	case 1:
		b := sym.Uint8()
		sym.Assert(j.WriteByte(b) == nil, "WriteByte reports no error")
		m.add(string([]byte{b}))
	case 2:
		r := sym.Rune()
		n, err := j.WriteRune(r)
		s := string(r)
		sym.Assert(n == len(s) && n == utf8.RuneLen(r) && err == nil, "WriteRune reports the piece's own length")
		m.add(s)
	case 3:
		p := sym.Bytes(0, 2)
		s := string(p)
		n, err := j.Write(p)
		sym.Assert(n == len(p) && err == nil, "Write reports the piece's own length")
		for i := range p {
			p[i] ^= 0xff // the joiner must have copied the piece
		}
		m.add(s)
	case 4:
		g := []int{0, 1, 20}[sym.Choose(3)]
		had := j.Len()
		j.Grow(g)
		sym.Assert(j.Cap()-had >= g, "growing makes room for the requested bytes")
	case 5:
		j.Reset()
		m.body, m.n = "", 0
	}
}

// P09_Histories: every short history of writes, growth hints and resets.
// Bounds: 3 operations (thorough 4), prefix and separator and suffix of 0..2 arbitrary bytes, pieces of 0..2 bytes or any one character; text examined after every operation or only at the end.
func P09_Histories() {
	j, m := create(1)
	agrees(j, m, "before any write")
	n := 3 + sym.Tier()
	every := sym.Choose(2) == 1
	for i := 0; i < n; i++ {
		step(j, m)
		if every {
			agrees(j, m, "after every operation")
		}
	}
	agrees(j, m, "after a history")
	sym.Obs("text", j.String())
	sym.Cover("done")
}

// P09_Long: longer histories of plain pieces with resets and growth in between.
// Bounds: 6 operations out of writing a one-byte piece, an empty piece, growing, resetting; a two-byte separator, arbitrary bytes.
func P09_Long() {
	m := &model{prefix: "<", sep: sym.Str(2, 2), suffix: ">>"}
	j := xstring.NewJoiner(xstring.WithJoiner(m.prefix, m.sep, m.suffix))
	for i := 0; i < 6; i++ {
		switch sym.Choose(4) {
		case 0:
			s := sym.Str(1, 1)
			j.WriteString(s)
			m.add(s)
		case 1:
			j.WriteString("")
			m.add("")
		case 2:
			j.Grow(9)
		case 3:
			j.Reset()
			m.body, m.n = "", 0
		}
	}
	agrees(j, m, "after a long history")
	sym.Cover("done")
}

// P09_Snapshot: a text obtained earlier does not change.
// Bounds: 2 pieces before and 2 after, with an optional reset in between.
func P09_Snapshot() {
	m := &model{sep: sym.Str(0, 1)}
	j := xstring.NewJoiner(xstring.WithJoinerStep(m.sep))
	a, b, c := sym.Str(1, 1), sym.Str(0, 1), sym.Str(1, 2)
	j.WriteString(a)
	m.add(a)
	j.WriteString(b)
	m.add(b)
	s, want := j.String(), m.text()
	if sym.Choose(2) == 1 {
		j.Reset()
	}
	j.WriteString(c)
	j.WriteString(c)
	sym.Assert(s == want, "a text already obtained does not change")
}

// P09_Large: many pieces and long pieces.
// Bounds: 17, 70 or 300 pieces (thorough also 1100), every 40th an arbitrary byte, some of 65 or 300 bytes, growth hints 0, 1, 63, 64, 1000, 1025 or 5000 in between, prefix, separator and suffix of 40 bytes or of one arbitrary byte; the text examined at a quarter and at the end, then reset and used again.
func P09_Large() {
	sizes := []int{17, 70, 300, 1100}
	n := sizes[sym.Choose(3+sym.Tier())]
	m := &model{prefix: sym.Str(1, 1), sep: sym.Str(1, 1), suffix: sym.Str(1, 1)}
	if sym.Choose(2) == 1 {
		pat := "0123456789abcdefghijklmnopqrstuvwxyzABCD"
		m.prefix, m.sep, m.suffix = m.prefix+pat, pat+m.sep, m.suffix+pat
	}
	long := make([]byte, 300)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	j := xstring.NewJoiner(xstring.WithJoiner(m.prefix, m.sep, m.suffix))
	hint := sym.Choose(7)
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			s := string([]byte{'a' + byte(i%26)})
			switch {
			case i%40 == 3:
				s = sym.Str(1, 1)
			case i%40 == 9:
				s = ""
			case i == 11 || i == 15:
				s = string(long)
			case i == 13:
				s = string(long[:65])
			}
			switch i % 3 {
			case 0:
				k, err := j.WriteString(s)
				sym.Assert(k == len(s) && err == nil, "a write reports the length of its piece")
			case 1:
				k, err := j.Write([]byte(s))
				sym.Assert(k == len(s) && err == nil, "a write reports the length of its piece")
			case 2:
				if len(s) == 1 {
					sym.Assert(j.WriteByte(s[0]) == nil, "a write reports no error")
				} else {
					k, err := j.Write([]byte(s))
					sym.Assert(k == len(s) && err == nil, "a write reports the length of its piece")
				}
			}
			m.add(s)
			if i == 5 || i == 7 {
				j.Grow([]int{0, 1, 63, 64, 1000, 1025, 5000}[hint])
				agrees(j, m, "after a growth hint")
			}
			if i == n/4 {
				agrees(j, m, "within a long history")
				j.Grow(n)
			}
		}
		agrees(j, m, "after many pieces")
		j.Reset()
		m.body, m.n = "", 0
		agrees(j, m, "after a reset")
	}
	sym.Cover("done")
}
