package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

// ---- runes and UTF-8 ------------------------------------------------------------

// freshRune makes a symbolic Unicode scalar value; the UTF-8 width class is a
// fork so that string layout stays concrete.
func (w *W) freshRune(maxw int) *Term {
	k := 1 + w.chooseN(maxw, "len")
	c := w.ctx
	var r, v *Term
	switch k {
	case 1:
		v = w.fresh(7, 'a')
		r = c.Zext(v, 32)
	case 2:
		v = w.fresh(11, 0xE9)
		w.assumeFresh(c.raw(OUle, 0, c.K(11, 0x80), v, nil, 0))
		r = c.Zext(v, 32)
	case 3:
		v = w.fresh(17, 0x4E2D)
		w.assumeFresh(c.raw(OUle, 0, c.K(17, 0x800), v, nil, 0))
		w.assumeFresh(c.raw(OUle, 0, v, c.K(17, 0xFFFF), nil, 0))
		w.assumeFresh(c.Or(c.Ult(v, c.K(17, 0xD800)), c.Ult(c.K(17, 0xDFFF), v)))
		r = c.Zext(v, 32)
	default:
		v = w.fresh(21, 0x1F600)
		w.assumeFresh(c.raw(OUle, 0, c.K(21, 0x10000), v, nil, 0))
		w.assumeFresh(c.raw(OUle, 0, v, c.K(21, 0x10FFFF), nil, 0))
		r = c.Zext(v, 32)
	}
	w.rwidth[r] = k
	return r
}

func (w *W) runeWidth(r *Term) int {
	if r.isC() {
		n := utf8.RuneLen(rune(int32(r.val)))
		if n < 0 {
			return 0
		}
		return n
	}
	if k, ok := w.rwidth[r]; ok {
		return k
	}
	c := w.ctx
	k := 0
	switch {
	case w.branch(c.Ule(r, c.K(32, 0x7f))):
		k = 1
	case w.branch(c.Ule(r, c.K(32, 0x7ff))):
		k = 2
	case w.branch(c.And(c.Ule(r, c.K(32, 0xffff)), c.Or(c.Ult(r, c.K(32, 0xD800)), c.Ult(c.K(32, 0xDFFF), r)))):
		k = 3
	case w.branch(c.And(c.Ule(c.K(32, 0x10000), r), c.Ule(r, c.K(32, 0x10FFFF)))):
		k = 4
	}
	w.rwidth[r] = k
	return k
}

// encodeRune is utf8.AppendRune: invalid runes become U+FFFD.
func (w *W) encodeRune(r *Term) []V {
	if e, ok := w.encs[r]; ok {
		return e
	}
	k := w.runeWidth(r)
	if k == 0 {
		r = w.ctx.K(32, utf8.RuneError)
		k = 3
	}
	c := w.ctx
	var out []V
	if r.isC() {
		for _, b := range utf8.AppendRune(nil, rune(r.val)) {
			out = append(out, V{C: uint64(b)})
		}
	} else {
		cont := func(lo uint8) V { return fromTerm(c.Concat(c.K(2, 2), c.Extract(r, lo, 6))) }
		switch k {
		case 1:
			out = []V{fromTerm(c.Extract(r, 0, 8))}
		case 2:
			out = []V{fromTerm(c.Concat(c.K(3, 6), c.Extract(r, 6, 5))), cont(0)}
		case 3:
			out = []V{fromTerm(c.Concat(c.K(4, 14), c.Extract(r, 12, 4))), cont(6), cont(0)}
		default:
			out = []V{fromTerm(c.Concat(c.K(5, 30), c.Extract(r, 18, 3))), cont(12), cont(6), cont(0)}
		}
	}
	w.encs[r] = out
	if out[0].T != nil && (k > 1 || r.hi >= 0x80) {
		w.hints[out[0].T] = append(w.hints[out[0].T], r)
	}
	return out
}

func sameV(a, b V) bool { return a.T == b.T && (a.T != nil || a.C == b.C) }

// decodeAt is utf8.DecodeRune on the bytes of v from position i (i < len).
func (w *W) decodeAt(v V, i int) (*Term, int) {
	s := v.R.(*Slice)
	return w.decodeN(s.A, s.Off+i, s.Len-i)
}

func (w *W) decodeN(a *Agg, off, n int) (*Term, int) {
	c := w.ctx
	b0 := a.get(off)
	if b0.T == nil {
		var buf [4]byte
		m := 0
		conc := true
		for m < 4 && m < n {
			x := a.get(off + m)
			if x.T != nil {
				conc = false
				break
			}
			buf[m] = byte(x.C)
			m++
		}
		if conc || utf8.FullRune(buf[:m]) {
			r, sz := utf8.DecodeRune(buf[:m])
			return c.K(32, uint64(uint32(r))), sz
		}
	}
	t0 := w.term(b0, 8)
	if t0.hi < 0x80 {
		return c.Zext(t0, 32), 1
	}
	if b0.T != nil {
	hint:
		for _, r := range w.hints[b0.T] {
			e := w.encs[r]
			if len(e) > n {
				continue
			}
			for k := range e {
				if !sameV(e[k], a.get(off+k)) {
					continue hint
				}
			}
			return r, len(e)
		}
	}
	if w.branch(c.Ult(t0, c.K(8, 0x80))) {
		return c.Zext(t0, 32), 1
	}
	rng := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.K(8, lo), t), c.Ule(t, c.K(8, hi)))
	}
	at := func(k int) *Term { return w.term(a.get(off+k), 8) }
	low := func(t *Term, k uint8) *Term { return c.Extract(t, 0, k) }
	fin := func(r *Term, k int) (*Term, int) {
		if !r.isC() {
			w.rwidth[r] = k
			if _, ok := w.encs[r]; !ok {
				var e []V
				for j := 0; j < k; j++ {
					e = append(e, a.get(off+j))
				}
				w.encs[r] = e
				if e[0].T != nil {
					w.hints[e[0].T] = append(w.hints[e[0].T], r)
				}
			}
		}
		return r, k
	}
	if n >= 2 {
		b1 := at(1)
		if w.branch(c.And(rng(t0, 0xC2, 0xDF), rng(b1, 0x80, 0xBF))) {
			return fin(c.Zext(c.Concat(low(t0, 5), low(b1, 6)), 32), 2)
		}
		if n >= 3 {
			b2 := at(2)
			ok1 := c.Or(c.And(c.Eq(t0, c.K(8, 0xE0)), rng(b1, 0xA0, 0xBF)),
				c.Or(c.And(c.Eq(t0, c.K(8, 0xED)), rng(b1, 0x80, 0x9F)),
					c.And(c.And(rng(t0, 0xE1, 0xEF), c.Not(c.Eq(t0, c.K(8, 0xED)))), rng(b1, 0x80, 0xBF))))
			if w.branch(c.And(ok1, rng(b2, 0x80, 0xBF))) {
				return fin(c.Zext(c.Concat(low(t0, 4), c.Concat(low(b1, 6), low(b2, 6))), 32), 3)
			}
			if n >= 4 {
				b3 := at(3)
				ok1 := c.Or(c.And(c.Eq(t0, c.K(8, 0xF0)), rng(b1, 0x90, 0xBF)),
					c.Or(c.And(c.Eq(t0, c.K(8, 0xF4)), rng(b1, 0x80, 0x8F)),
						c.And(rng(t0, 0xF1, 0xF3), rng(b1, 0x80, 0xBF))))
				if w.branch(c.And(ok1, c.And(rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF)))) {
					return fin(c.Zext(c.Concat(low(t0, 3), c.Concat(low(b1, 6), c.Concat(low(b2, 6), low(b3, 6)))), 32), 4)
				}
			}
		}
	}
	return c.K(32, utf8.RuneError), 1
}

func (w *W) decodeAll(v V) []*Term {
	var out []*Term
	for i, n := 0, v.slen(); i < n; {
		r, sz := w.decodeAt(v, i)
		out = append(out, r)
		i += sz
	}
	return out
}

type runeAt struct {
	r       *Term
	pos, sz int
}

func (w *W) decodeList(v V) []runeAt {
	var out []runeAt
	for i, n := 0, v.slen(); i < n; {
		r, sz := w.decodeAt(v, i)
		out = append(out, runeAt{r, i, sz})
		i += sz
	}
	return out
}

func (w *W) lastRune(v V) (*Term, int) {
	c := w.ctx
	n := v.slen()
	if n == 0 {
		return c.K(32, utf8.RuneError), 0
	}
	isCont := func(k int) bool {
		t := w.term(v.at(k), 8)
		return w.branch(c.And(c.Ule(c.K(8, 0x80), t), c.Ule(t, c.K(8, 0xBF))))
	}
	start := n - 1
	t := w.term(v.at(start), 8)
	if w.branch(c.Ult(t, c.K(8, 0x80))) {
		return c.Zext(t, 32), 1
	}
	lim := n - 4
	if lim < 0 {
		lim = 0
	}
	if isCont(start) {
		for start--; start >= lim; start-- {
			if !isCont(start) {
				break
			}
		}
		if start < 0 {
			start = 0
		}
		if start < lim {
			// all continuation bytes: decoding at start-? never reaches the end
			return c.K(32, utf8.RuneError), 1
		}
	} else {
		return c.K(32, utf8.RuneError), 1
	}
	r, sz := w.decodeAt(v, start)
	if start+sz != n {
		return c.K(32, utf8.RuneError), 1
	}
	return r, sz
}

// ---- unicode tables as formulas ----------------------------------------------------

type seg struct {
	lo, hi uint32
	even   int64 // delta applied when (r-lo) is even
	odd    int64
}

var (
	predTabs = map[string][]seg{}
	mapTabs  = map[string][]seg{}
)

func predTab(name string, f func(rune) bool) []seg {
	var out []seg
	i := rune(0)
	for i <= unicode.MaxRune {
		if !f(i) {
			i++
			continue
		}
		j := i
		for j+1 <= unicode.MaxRune && f(j+1) {
			j++
		}
		out = append(out, seg{lo: uint32(i), hi: uint32(j)})
		i = j + 1
	}
	predTabs[name] = out
	return out
}

func mapTab(name string, f func(rune) rune) []seg {
	out := segsOf(func(r rune) int64 { return int64(f(r)) - int64(r) })
	mapTabs[name] = out
	return out
}

// segsOf cuts the characters into ranges on which d is constant or alternating.
func segsOf(d func(r rune) int64) []seg {
	var out []seg
	for i := rune(0); i <= unicode.MaxRune; {
		j := i
		for j+1 <= unicode.MaxRune && d(j+1) == d(i) {
			j++
		}
		if i < unicode.MaxRune && j-i < 2 {
			// alternating pattern
			k := i + 1
			for k+1 <= unicode.MaxRune && d(k+1) == d(k-1) {
				k++
			}
			if k-i >= 3 {
				out = append(out, seg{uint32(i), uint32(k), d(i), d(i + 1)})
				i = k + 1
				continue
			}
		}
		out = append(out, seg{uint32(i), uint32(j), d(i), d(i)})
		i = j + 1
	}
	return out
}

// runePred builds the predicate over term r (32 bits), restricted to r's bounds.
func (w *W) runePred(name string, r *Term) *Term {
	k := memoKey{"p:" + name, r}
	if m, ok := w.ctx.memo[k]; ok {
		return m
	}
	c := w.ctx
	if p, ok := c.prov[r]; ok {
		res := w.runePred(name+" after "+p.name, p.base)
		c.memo[k] = res
		return res
	}
	res := c.predTree(getPred(name), r)
	c.memo[k] = res
	return res
}

func (c *TermCtx) predTree(tab []seg, r *Term) *Term {
	var sel []seg
	for _, s := range tab {
		if uint64(s.hi) < r.lo || uint64(s.lo) > r.hi {
			continue
		}
		sel = append(sel, s)
	}
	var build func(a []seg) *Term
	build = func(a []seg) *Term {
		if len(a) == 0 {
			return c.ff
		}
		if len(a) == 1 {
			return c.And(c.Ule(c.K(32, uint64(a[0].lo)), r), c.Ule(r, c.K(32, uint64(a[0].hi))))
		}
		m := len(a) / 2
		return c.Ite(c.Ult(r, c.K(32, uint64(a[m].lo))), build(a[:m]), build(a[m:]))
	}
	return build(sel)
}

func (w *W) runeMap(name string, r *Term) *Term {
	if r.isC() {
		return w.ctx.K(32, uint64(uint32(hostMap(name)(rune(int32(r.val))))))
	}
	k := memoKey{"m:" + name, r}
	if m, ok := w.ctx.memo[k]; ok {
		return m
	}
	c := w.ctx
	if p, ok := c.prov[r]; ok {
		res := w.runeMap(name+" after "+p.name, p.base)
		c.memo[k] = res
		return res
	}
	var sel []seg
	for _, s := range getMap(name) {
		if uint64(s.hi) < r.lo || uint64(s.lo) > r.hi {
			continue
		}
		sel = append(sel, s)
	}
	var res *Term
	if len(sel) == 0 {
		res = r
	} else {
		res = c.Bin(OAdd, r, c.segTree(sel, r, 32))
		if r.hi > unicode.MaxRune {
			res = c.Ite(c.Ule(r, c.K(32, unicode.MaxRune)), res, r)
		} else if !res.isC() {
			lo, hi := uint64(1)<<32, uint64(0)
			for _, s := range sel {
				for _, d := range []int64{s.even, s.odd} {
					a, b := uint64(s.lo), uint64(s.hi)
					if a < r.lo {
						a = r.lo
					}
					if b > r.hi {
						b = r.hi
					}
					a, b = uint64(int64(a)+d), uint64(int64(b)+d)
					if a < lo {
						lo = a
					}
					if b > hi {
						hi = b
					}
				}
			}
			if lo > res.lo {
				res.lo = lo
			}
			if hi < res.hi {
				res.hi = hi
			}
		}
	}
	if !res.isC() && res != r && len(sel) > 1 {
		if c.prov == nil {
			c.prov = map[*Term]mapProv{}
		}
		c.prov[res] = mapProv{r, name}
	}
	c.memo[k] = res
	return res
}

var hostMaps = map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold}
var hostPreds = map[string]func(rune) bool{"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber,
	"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic,
	"IsMark": unicode.IsMark, "IsSymbol": unicode.IsSymbol, "IsTitle": unicode.IsTitle}

// mapProv says that a term is the named (composite) case mapping of base.
type mapProv struct {
	base *Term
	name string
}

var tabMu sync.Mutex

// segTree selects the constant of the segment that r lies in.
func (c *TermCtx) segTree(a []seg, r *Term, sort uint8) *Term {
	if len(a) == 1 {
		s := a[0]
		e := c.K(sort, uint64(s.even)&mask(sort))
		if s.even == s.odd {
			return e
		}
		o := c.K(sort, uint64(s.odd)&mask(sort))
		return c.Ite(c.Eq(c.Extract(r, 0, 1), c.K(1, uint64(s.lo&1))), e, o)
	}
	m := len(a) / 2
	return c.Ite(c.Ult(r, c.K(32, uint64(a[m].lo))), c.segTree(a[:m], r, sort), c.segTree(a[m:], r, sort))
}

// ---- equality of case-mapped characters -------------------------------------
//
// The characters fall into classes closed under every mapping. Each class has a
// shape (how the mappings permute its members) and a least member; two mapped
// characters are equal exactly when the classes are the same one and the mapped
// positions inside the class are equal. Said this way the solver does not have
// to rediscover the tables.

type foldInfo struct {
	min, shape, pos []seg
	nshape          int
	shapeBits       uint8
	members         map[rune][]rune // by least member
	where           map[rune][2]int // shape, position
	least           map[rune]rune
	maps            []map[string][]int
}

var foldOnce sync.Once
var fold foldInfo

func initFold() {
	parent := map[rune]rune{}
	var find func(r rune) rune
	find = func(r rune) rune {
		p, ok := parent[r]
		if !ok || p == r {
			return r
		}
		q := find(p)
		parent[r] = q
		return q
	}
	var names []string
	for n := range hostMaps {
		names = append(names, n)
	}
	sort.Strings(names)
	for r := rune(0); r <= unicode.MaxRune; r++ {
		for _, n := range names {
			if m := hostMaps[n](r); m != r {
				a, b := find(r), find(m)
				if a != b {
					if a < b {
						a, b = b, a
					}
					parent[a] = b
				}
				if _, ok := parent[r]; !ok {
					parent[r] = find(r)
				}
				if _, ok := parent[m]; !ok {
					parent[m] = find(m)
				}
			}
		}
	}
	fold.members = map[rune][]rune{}
	var all []rune
	for r := range parent {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for _, r := range all {
		k := find(r)
		fold.members[k] = append(fold.members[k], r)
	}
	shapes := map[string]int{}
	fold.where = map[rune][2]int{}
	one := map[string][]int{}
	for _, n := range names {
		one[n] = []int{0}
	}
	fold.maps = append(fold.maps, one)
	for _, r := range all {
		ms := fold.members[r]
		if len(ms) == 0 {
			continue
		}
		idx := map[rune]int{}
		for i, x := range ms {
			idx[x] = i
		}
		sig := ""
		tab := map[string][]int{}
		for _, n := range names {
			for _, x := range ms {
				tab[n] = append(tab[n], idx[hostMaps[n](x)])
			}
			sig += fmt.Sprint(tab[n])
		}
		sh, ok := shapes[sig]
		if !ok {
			sh = len(fold.maps)
			shapes[sig] = sh
			fold.maps = append(fold.maps, tab)
		}
		for i, x := range ms {
			fold.where[x] = [2]int{sh, i}
		}
	}
	fold.nshape = len(fold.maps)
	for fold.shapeBits = 1; 1<<fold.shapeBits < fold.nshape; fold.shapeBits++ {
	}
	least := func(r rune) rune { return find(r) }
	fold.least = map[rune]rune{}
	for _, r := range all {
		fold.least[r] = find(r)
	}
	fold.min = segsOf(func(r rune) int64 { return int64(least(r)) - int64(r) })
	fold.shape = segsOf(func(r rune) int64 { return int64(fold.where[r][0]) })
	fold.pos = segsOf(func(r rune) int64 { return int64(fold.where[r][1]) })
}

func (c *TermCtx) segSel(tab []seg, r *Term, sort uint8, what string) *Term {
	k := memoKey{"s:" + what, r}
	if m, ok := c.memo[k]; ok {
		return m
	}
	var sel []seg
	for _, s := range tab {
		if uint64(s.hi) >= r.lo && uint64(s.lo) <= r.hi {
			sel = append(sel, s)
		}
	}
	t := c.segTree(sel, r, sort)
	c.memo[k] = t
	return t
}

// tabBits is the table f over the bits of t.
func (c *TermCtx) tabBits(t *Term, f []uint64, sort uint8) *Term {
	same := true
	for _, v := range f {
		same = same && v == f[0]
	}
	if same {
		return c.K(sort, f[0])
	}
	var bit uint8
	for 2<<bit < len(f) {
		bit++
	}
	h := len(f) / 2
	return c.Ite(c.Eq(c.Extract(t, bit, 1), c.K(1, 0)), c.tabBits(t, f[:h], sort), c.tabBits(t, f[h:], sort))
}

// foldPos is the position, inside its class, of the mapped character.
func (c *TermCtx) foldPos(name string, r *Term) *Term {
	k := memoKey{"fp:" + name, r}
	if m, ok := c.memo[k]; ok {
		return m
	}
	sp := c.Concat(c.segSel(fold.shape, r, fold.shapeBits, "shape"), c.segSel(fold.pos, r, 3, "pos"))
	if name != "" {
		f := make([]uint64, 8<<fold.shapeBits)
		parts := strings.Split(name, " after ")
		for sh, tab := range fold.maps {
			n := len(tab["ToLower"])
			for i := 0; i < n; i++ {
				p := i
				for j := len(parts) - 1; j >= 0; j-- {
					p = tab[parts[j]][p]
				}
				f[sh<<3|i] = uint64(p)
			}
			for i := n; i < 8; i++ {
				f[sh<<3|i] = f[sh<<3|n-1]
			}
		}
		m := c.tabBits(sp, f, 3)
		c.memo[k] = m
		return m
	}
	m := c.Extract(sp, 0, 3)
	c.memo[k] = m
	return m
}

// mapEq is a == b when at least one of them is a case mapping; nil if it has nothing better.
func (c *TermCtx) mapEq(a, b *Term) *Term {
	pa, oka := c.prov[a]
	pb, okb := c.prov[b]
	if !oka && !okb {
		return nil
	}
	foldOnce.Do(initFold)
	if b.isC() {
		// the characters mapped to b
		f := hostMap(pa.name)
		k := rune(uint32(b.val))
		if w, ok := fold.where[k]; !ok || w[0] == 0 {
			return c.Eq(pa.base, b)
		}
		var t = c.ff
		for _, x := range fold.members[fold.least[k]] {
			if f(x) == k {
				t = c.Or(t, c.Eq(pa.base, c.K(32, uint64(x))))
			}
		}
		return t
	}
	ra, na, rb, nb := a, "", b, ""
	if oka {
		ra, na = pa.base, pa.name
	}
	if okb {
		rb, nb = pb.base, pb.name
	}
	if ra.hi > unicode.MaxRune || rb.hi > unicode.MaxRune {
		return nil
	}
	if ra == rb {
		n := "same " + na + " / " + nb
		k := memoKey{n, ra}
		if m, ok := c.memo[k]; ok {
			return m
		}
		tabMu.Lock()
		tab, ok := predTabs[n]
		if !ok {
			f, g := idMap(na), idMap(nb)
			tab = predTab(n, func(r rune) bool { return f(r) == g(r) })
		}
		tabMu.Unlock()
		m := c.predTree(tab, ra)
		c.memo[k] = m
		return m
	}
	key := func(r *Term) *Term { return c.Bin(OAdd, r, c.segSel(fold.min, r, 32, "min")) }
	sh := func(r *Term) *Term { return c.segSel(fold.shape, r, fold.shapeBits, "shape") }
	c.noMap = true
	same := c.Eq(key(ra), key(rb))
	c.noMap = false
	return c.And(same, c.And(c.Eq(sh(ra), sh(rb)), c.Eq(c.foldPos(na, ra), c.foldPos(nb, rb))))
}

func idMap(n string) func(rune) rune {
	if n == "" {
		return func(r rune) rune { return r }
	}
	return hostMap(n)
}

// hostMap is the mapping named "f after g after h".
func hostMap(name string) func(rune) rune {
	parts := strings.Split(name, " after ")
	return func(r rune) rune {
		for i := len(parts) - 1; i >= 0; i-- {
			r = hostMaps[parts[i]](r)
		}
		return r
	}
}

func getMap(name string) []seg {
	tabMu.Lock()
	defer tabMu.Unlock()
	if t, ok := mapTabs[name]; ok {
		return t
	}
	return mapTab(name, hostMap(name))
}

func getPred(name string) []seg {
	tabMu.Lock()
	defer tabMu.Unlock()
	if t, ok := predTabs[name]; ok {
		return t
	}
	if i := strings.Index(name, " after "); i >= 0 {
		f, g := hostPreds[name[:i]], hostMap(name[i+len(" after "):])
		return predTab(name, func(r rune) bool { return f(g(r)) })
	}
	return predTab(name, hostPreds[name])
}

func initTables() {
	for n, f := range hostPreds {
		predTab(n, f)
	}
	for n, f := range hostMaps {
		mapTab(n, f)
	}
}

// ---- strings ------------------------------------------------------------------------

func (w *W) indexStr(s, sub V, last bool) V {
	n, m := s.slen(), sub.slen()
	c := w.ctx
	if a, ok := concStr(s); ok {
		if b, ok := concStr(sub); ok {
			if last {
				return intV(strings.LastIndex(a, b))
			}
			return intV(strings.Index(a, b))
		}
	}
	r := c.K(64, ^uint64(0))
	if m > n {
		return fromTerm(r)
	}
	eqAt := func(i int) *Term {
		e := c.tt
		for k := 0; k < m; k++ {
			e = c.And(e, c.Eq(w.term(s.at(i+k), 8), w.term(sub.at(k), 8)))
			if e == c.ff {
				break
			}
		}
		return e
	}
	if last {
		for i := 0; i <= n-m; i++ {
			r = c.Ite(eqAt(i), c.K(64, uint64(i)), r)
		}
	} else {
		for i := n - m; i >= 0; i-- {
			r = c.Ite(eqAt(i), c.K(64, uint64(i)), r)
		}
	}
	return fromTerm(r)
}

func (w *W) indexByte(s, b V, last bool) V {
	c := w.ctx
	r := c.K(64, ^uint64(0))
	n := s.slen()
	bt := w.term(b, 8)
	for k := 0; k < n; k++ {
		i := n - 1 - k
		if last {
			i = k
		}
		r = c.Ite(c.Eq(w.term(s.at(i), 8), bt), c.K(64, uint64(i)), r)
	}
	return fromTerm(r)
}

func (w *W) countByte(s, b V) V {
	c := w.ctx
	r := c.K(64, 0)
	bt := w.term(b, 8)
	for i := 0; i < s.slen(); i++ {
		r = c.Bin(OAdd, r, c.Ite(c.Eq(w.term(s.at(i), 8), bt), c.K(64, 1), c.K(64, 0)))
	}
	return fromTerm(r)
}

func (w *W) caseMap(v V, name string) V {
	if s, ok := concStr(v); ok {
		if name == "ToLower" {
			return roString(strings.ToLower(s))
		}
		return roString(strings.ToUpper(s))
	}
	var out []V
	for _, x := range w.decodeList(v) {
		out = append(out, w.encodeRune(w.runeMap(name, x.r))...)
	}
	return w.strFromVs(out)
}

func (w *W) validUTF8(v V) bool {
	for i, n := 0, v.slen(); i < n; {
		r, sz := w.decodeAt(v, i)
		if sz == 1 && r.isC() && r.val == utf8.RuneError {
			return false
		}
		i += sz
	}
	return true
}

func init() {
	for n := range hostPreds {
		n := n
		reg("unicode."+n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			if a[0].T == nil {
				return boolV(hostPreds[n](rune(int32(a[0].C))))
			}
			return fromTerm(w.runePred(n, a[0].T))
		})
	}
	for n := range hostMaps {
		n := n
		reg("unicode."+n, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			return fromTerm(w.runeMap(n, w.term(a[0], 32)))
		})
	}
	R := reg
	for _, p := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString", "bytes.Index", "internal/bytealg.Index"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.indexStr(a[0], a[1], false) })
	}
	for _, p := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.indexStr(a[0], a[1], true) })
	}
	for _, p := range []string{"strings.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "bytes.IndexByte"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.indexByte(a[0], a[1], false) })
	}
	for _, p := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.indexByte(a[0], a[1], true) })
	}
	for _, p := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.countByte(a[0], a[1]) })
	}
	for _, p := range []string{"bytes.Equal", "internal/bytealg.Equal"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return fromTerm(w.eqStr(a[0], a[1])) })
	}
	for _, p := range []string{"strings.HasPrefix", "internal/stringslite.HasPrefix", "bytes.HasPrefix"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			n := a[1].slen()
			if n > a[0].slen() {
				return boolV(false)
			}
			return fromTerm(w.eqStr(w.sub(a[0], 0, n), a[1]))
		})
	}
	for _, p := range []string{"strings.HasSuffix", "internal/stringslite.HasSuffix", "bytes.HasSuffix"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			n, m := a[1].slen(), a[0].slen()
			if n > m {
				return boolV(false)
			}
			return fromTerm(w.eqStr(w.sub(a[0], m-n, m), a[1]))
		})
	}
	for _, p := range []string{"strings.Compare", "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "runtime.cmpstring"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			c := w.ctx
			return fromTerm(c.Ite(w.eqStr(a[0], a[1]), c.K(64, 0), c.Ite(w.ltStr(a[0], a[1]), c.K(64, ^uint64(0)), c.K(64, 1))))
		})
	}
	R("strings.ToLower", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.caseMap(a[0], "ToLower") })
	R("strings.ToUpper", func(w *W, t *Thread, a []V, ci *CallInfo) V { return w.caseMap(a[0], "ToUpper") })
	R("strings.IndexAny", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		c := w.ctx
		set := w.decodeAll(a[1])
		r := c.K(64, ^uint64(0))
		l := w.decodeList(a[0])
		for i := len(l) - 1; i >= 0; i-- {
			in := c.ff
			for _, s := range set {
				in = c.Or(in, c.Eq(s, l[i].r))
			}
			r = c.Ite(in, c.K(64, uint64(l[i].pos)), r)
		}
		return fromTerm(r)
	})
	R("strings.IndexRune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		c := w.ctx
		x := w.term(a[1], 32)
		r := c.K(64, ^uint64(0))
		l := w.decodeList(a[0])
		for i := len(l) - 1; i >= 0; i-- {
			hit := c.Eq(l[i].r, x)
			r = c.Ite(hit, c.K(64, uint64(l[i].pos)), r)
		}
		return fromTerm(r)
	})
	R("internal/bytealg.MakeNoZero", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		n := int(int64(w.conc(a[0])))
		if n < 0 || n > 1<<28 {
			w.rtPanic("makeslice: len out of range")
		}
		cp := roundupsize(uintptr(n))
		return V{R: &Slice{A: w.newBytes(cp), Len: n, Cap: cp}}
	})
	// utf8
	for _, p := range []string{"unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			if a[0].slen() == 0 {
				return tup(V{C: utf8.RuneError}, V{})
			}
			r, n := w.decodeAt(a[0], 0)
			return tup(fromTerm(r), intV(n))
		})
	}
	for _, p := range []string{"unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V {
			r, n := w.lastRune(a[0])
			return tup(fromTerm(r), intV(n))
		})
	}
	R("unicode/utf8.EncodeRune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		e := w.encodeRune(w.term(a[1], 32))
		s := a[0].slice()
		if s == nil || s.Len < len(e) {
			w.rtPanic("index out of range")
		}
		for i, b := range e {
			if w.racing {
				w.access(s.A, s.Off+i, true)
			}
			w.storeAt(s.A, s.Off+i, b)
		}
		return intV(len(e))
	})
	R("unicode/utf8.AppendRune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		return w.appendSlice(a[0], w.strFromVs(w.encodeRune(w.term(a[1], 32))), types.Typ[types.Uint8])
	})
	R("unicode/utf8.RuneLen", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		k := w.runeWidth(w.term(a[0], 32))
		if k == 0 {
			k = -1
		}
		return intV(k)
	})
	for _, p := range []string{"unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return intV(len(w.decodeAll(a[0]))) })
	}
	for _, p := range []string{"unicode/utf8.Valid", "unicode/utf8.ValidString"} {
		R(p, func(w *W, t *Thread, a []V, ci *CallInfo) V { return boolV(w.validUTF8(a[0])) })
	}
	R("unicode/utf8.ValidRune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		c := w.ctx
		r := w.term(a[0], 32)
		return fromTerm(c.Or(c.Ult(r, c.K(32, 0xD800)), c.And(c.Ult(c.K(32, 0xDFFF), r), c.Ule(r, c.K(32, 0x10FFFF)))))
	})
	R("unicode/utf8.FullRune", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		if s, ok := concStr(a[0]); ok {
			return boolV(utf8.FullRuneInString(s))
		}
		return boolV(w.fullRune(a[0]))
	})
	// regexp
	comp := func(must bool) ifn {
		return func(w *W, t *Thread, a []V, ci *CallInfo) V {
			s, ok := concStr(a[0])
			if !ok {
				w.abort("unsupported", "symbolic regular expression")
			}
			re, err := syntax.Parse(s, syntax.Perl)
			var prog *syntax.Prog
			if err == nil {
				prog, err = syntax.Compile(re.Simplify())
			}
			if err != nil {
				if must {
					w.goPanicStr("regexp: Compile(" + s + "): " + err.Error())
				}
				return tup(V{}, w.mkError("error parsing regexp: "+err.Error()))
			}
			box := w.newAgg(1)
			box.e[0] = V{R: w.newAgg(1)}
			w.regexps[box] = prog
			p := V{R: Ptr{box, 0}}
			if must {
				return p
			}
			return tup(p, V{})
		}
	}
	R("regexp.Compile", comp(false))
	R("regexp.MustCompile", comp(true))
	match := func(w *W, t *Thread, a []V, ci *CallInfo) V {
		if a[0].R == nil {
			w.nilDeref()
		}
		p, ok := a[0].R.(Ptr)
		if !ok || w.regexps[p.A] == nil {
			w.abort("unsupported", "unknown regexp value")
		}
		return fromTerm(w.reMatch(w.regexps[p.A], a[1]))
	}
	R("(*regexp.Regexp).MatchString", match)
	R("(*regexp.Regexp).Match", match)
	R("regexp.MatchString", func(w *W, t *Thread, a []V, ci *CallInfo) V {
		s, ok := concStr(a[0])
		if !ok {
			w.abort("unsupported", "symbolic regular expression")
		}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return tup(V{}, w.mkError(err.Error()))
		}
		prog, _ := syntax.Compile(re.Simplify())
		return tup(fromTerm(w.reMatch(prog, a[1])), V{})
	})
}

func (w *W) sub(v V, lo, hi int) V {
	if hi <= lo {
		return V{}
	}
	s := v.slice()
	return V{R: &Slice{A: s.A, Off: s.Off + lo, Len: hi - lo, Cap: hi - lo}}
}

// reMatch: NFA simulation with symbolic state activation.
func (w *W) reMatch(p *syntax.Prog, s V) *Term {
	c := w.ctx
	runes := w.decodeAll(s)
	n := len(runes)
	matched := c.ff
	cur := map[int]*Term{}
	isWord := func(r *Term) *Term {
		in := func(lo, hi uint64) *Term { return c.And(c.Ule(c.K(32, lo), r), c.Ule(r, c.K(32, hi))) }
		return c.Or(c.Or(in('a', 'z'), in('A', 'Z')), c.Or(in('0', '9'), c.Eq(r, c.K(32, '_'))))
	}
	empty := func(op syntax.EmptyOp, pos int) *Term {
		r := c.tt
		if op&syntax.EmptyBeginText != 0 && pos != 0 {
			return c.ff
		}
		if op&syntax.EmptyEndText != 0 && pos != n {
			return c.ff
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			r = c.And(r, c.Eq(runes[pos-1], c.K(32, '\n')))
		}
		if op&syntax.EmptyEndLine != 0 && pos != n {
			r = c.And(r, c.Eq(runes[pos], c.K(32, '\n')))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			a, b := c.ff, c.ff
			if pos > 0 {
				a = isWord(runes[pos-1])
			}
			if pos < n {
				b = isWord(runes[pos])
			}
			x := c.Ite(a, c.Not(b), b)
			if op&syntax.EmptyWordBoundary != 0 {
				r = c.And(r, x)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				r = c.And(r, c.Not(x))
			}
		}
		return r
	}
	// closure adds state i active under cond, at position pos
	var add func(m map[int]*Term, i int, cond *Term, pos int, path map[int]bool)
	add = func(m map[int]*Term, i int, cond *Term, pos int, path map[int]bool) {
		if cond == c.ff || path[i] {
			return
		}
		in := &p.Inst[i]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			path[i] = true
			add(m, int(in.Out), cond, pos, path)
			add(m, int(in.Arg), cond, pos, path)
			delete(path, i)
		case syntax.InstCapture, syntax.InstNop:
			path[i] = true
			add(m, int(in.Out), cond, pos, path)
			delete(path, i)
		case syntax.InstEmptyWidth:
			path[i] = true
			add(m, int(in.Out), c.And(cond, empty(syntax.EmptyOp(in.Arg), pos)), pos, path)
			delete(path, i)
		case syntax.InstMatch:
			matched = c.Or(matched, cond)
		case syntax.InstFail:
		default:
			if o, ok := m[i]; ok {
				m[i] = c.Or(o, cond)
			} else {
				m[i] = cond
			}
		}
	}
	for pos := 0; ; pos++ {
		add(cur, p.Start, c.tt, pos, map[int]bool{})
		if pos == n || matched == c.tt {
			break
		}
		next := map[int]*Term{}
		r := runes[pos]
		for i := range p.Inst {
			cond, ok := cur[i]
			if !ok {
				continue
			}
			in := &p.Inst[i]
			add(next, int(in.Out), c.And(cond, w.instMatch(in, r)), pos+1, map[int]bool{})
		}
		cur = next
	}
	return matched
}

func (w *W) instMatch(in *syntax.Inst, r *Term) *Term {
	c := w.ctx
	if r.isC() {
		x := rune(r.val)
		switch in.Op {
		case syntax.InstRuneAny:
			return c.tt
		case syntax.InstRuneAnyNotNL:
			return c.B(x != '\n')
		}
		return c.B(in.MatchRune(x))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return c.tt
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(r, c.K(32, '\n')))
	case syntax.InstRune1:
		return c.Eq(r, c.K(32, uint64(uint32(in.Rune[0]))))
	}
	if len(in.Rune) == 1 {
		res := c.Eq(r, c.K(32, uint64(uint32(in.Rune[0]))))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			r0 := in.Rune[0]
			for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
				res = c.Or(res, c.Eq(r, c.K(32, uint64(uint32(r1)))))
			}
		}
		return res
	}
	res := c.ff
	for i := 0; i+1 < len(in.Rune); i += 2 {
		res = c.Or(res, c.And(c.Ule(c.K(32, uint64(uint32(in.Rune[i]))), r), c.Ule(r, c.K(32, uint64(uint32(in.Rune[i+1]))))))
	}
	return res
}

// fullRune is utf8.FullRune.
func (w *W) fullRune(v V) bool {
	c := w.ctx
	n := v.slen()
	if n == 0 {
		return false
	}
	in := func(k int, lo, hi uint64) bool {
		t := w.term(v.at(k), 8)
		return w.branch(c.And(c.Ule(c.K(8, lo), t), c.Ule(t, c.K(8, hi))))
	}
	for _, l := range []struct {
		lo, hi   uint64
		sz       int
		alo, ahi uint64
	}{
		{0xC2, 0xDF, 2, 0x80, 0xBF}, {0xE0, 0xE0, 3, 0xA0, 0xBF}, {0xE1, 0xEC, 3, 0x80, 0xBF}, {0xED, 0xED, 3, 0x80, 0x9F},
		{0xEE, 0xEF, 3, 0x80, 0xBF}, {0xF0, 0xF0, 4, 0x90, 0xBF}, {0xF1, 0xF3, 4, 0x80, 0xBF}, {0xF4, 0xF4, 4, 0x80, 0x8F},
	} {
		if in(0, l.lo, l.hi) {
			return n >= l.sz || n > 1 && !in(1, l.alo, l.ahi) || n > 2 && !in(2, 0x80, 0xBF)
		}
	}
	return true
}
