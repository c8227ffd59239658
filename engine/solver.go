package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe, incrementally: the asserted
// prefix of the path condition is kept in push levels and only the part that
// differs from the previous query is re-sent.
type Solver struct {
	ctx      *TermCtx
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	stack    []*Term // asserted, one level each
	defs     [][]*Term
	declared map[string]bool
	seed     int
	timeout  int // ms
	deadline time.Time
	limit    int

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	MaxQ     time.Duration
	Fallback int
	CacheN   int
	cache    map[[2]uint64]bool // queries found unsatisfiable
	slice    []*Term
	log      *os.File
}

func NewSolver(ctx *TermCtx, seed int, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: solverBin(), seed: seed, timeout: timeoutMs}
	s.start()
	return s
}

func solverBin() string {
	if b := os.Getenv("VERIF_Z3"); b != "" {
		return b
	}
	return "z3-new"
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if d := os.Getenv("VERIF_SMTLOG"); d != "" && s.log == nil {
		s.log, _ = os.CreateTemp(d, "smt*.smt2")
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :random-seed %d)\n(set-option :global-declarations false)\n", s.timeout, s.seed%1000000))
	s.limit = s.timeout
	s.stack = nil
	s.defs = [][]*Term{nil}
	s.declared = map[string]bool{}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Flush()
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.log != nil {
		s.log.Close()
	}
}

func (s *Solver) restart() {
	for _, l := range s.defs {
		for _, t := range l {
			t.defLevel = 0
		}
	}
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

// define emits definitions for all non-leaf subterms of t at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OConst || t.defLevel > 0 {
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.defLevel > 0 {
			st = st[:len(st)-1]
			continue
		}
		var child *Term
		switch f.i {
		case 0:
			child = f.t.a
		case 1:
			child = f.t.b
		case 2:
			child = f.t.c
		}
		if f.i < 3 {
			f.i++
			if child != nil && child.op != OConst && child.defLevel == 0 {
				st = append(st, fr{child, 0})
			}
			continue
		}
		lvl := len(s.defs) - 1
		if f.t.op == OVar {
			s.send(fmt.Sprintf("(declare-fun %s () %s)\n", ref(f.t), sortName(f.t.sort)))
		} else {
			s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", ref(f.t), sortName(f.t.sort), body(f.t)))
		}
		f.t.defLevel = int32(lvl) + 1
		s.defs[lvl] = append(s.defs[lvl], f.t)
		st = st[:len(st)-1]
	}
}

func (s *Solver) push() {
	s.send("(push 1)\n")
	s.defs = append(s.defs, nil)
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		l := s.defs[len(s.defs)-1]
		for _, t := range l {
			t.defLevel = 0
		}
		s.defs = s.defs[:len(s.defs)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	s.pop(len(s.stack) - i)
	s.stack = s.stack[:i]
	for ; i < len(pc); i++ {
		s.push()
		s.define(pc[i])
		s.send("(assert " + ref(pc[i]) + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc ∧ extra. On Sat it returns a model for the first nvars
// variables (vars lists their sorts).
// key identifies a query by the part of the path condition that shares
// variables with it (the rest is satisfiable on its own).
func (s *Solver) key(pc []*Term, extra *Term) (k [2]uint64, ok bool) {
	if extra == nil || !extra.hasVar {
		return k, false
	}
	set := append([]uint64(nil), extra.varSet()...)
	if len(pc) > 400 {
		return k, false
	}
	s.slice = append(s.slice[:0], pc...)
	ids := []int32{extra.id}
	for again := true; again; {
		again = false
		rest := s.slice[:0]
		for _, t := range s.slice {
			v := t.varSet()
			hit := false
			for i, y := range v {
				if i < len(set) && y&set[i] != 0 {
					hit = true
					break
				}
			}
			if !hit {
				rest = append(rest, t)
				continue
			}
			ids = append(ids, t.id)
			for len(set) < len(v) {
				set = append(set, 0)
			}
			for i, y := range v {
				if y&^set[i] != 0 {
					set[i] |= y
					again = true
				}
			}
		}
		s.slice = rest
	}
	sort.Slice(ids[1:], func(i, j int) bool { return ids[1+i] < ids[1+j] })
	k[0], k[1] = 14695981039346656037, 88172645463325252
	for _, x := range ids {
		k[0] = (k[0] ^ uint64(uint32(x))) * 1099511628211
		y := k[1] + uint64(uint32(x))*0x9E3779B97F4A7C15
		y = (y ^ y>>30) * 0xBF58476D1CE4E5B9
		k[1] = (y ^ y>>27) * 0x94D049BB133111EB
	}
	return k, true
}

func (s *Solver) Check(pc []*Term, extra *Term, vars []uint8, old []uint64) (SatRes, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQ {
			s.MaxQ = d
		}
	}()
	key, keyed := s.key(pc, extra)
	if keyed && s.cache[key] {
		s.CacheN++
		return Unsat, nil
	}
	s.Queries++
	s.sync(pc)
	s.push()
	if extra != nil {
		s.define(extra)
		s.send("(assert " + ref(extra) + ")\n")
	}
	full := s.timeout
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline).Milliseconds()); left < full {
			full = left
		}
		if full < 200 {
			full = 200
		}
	}
	// first the incremental core, which is quick on the many easy queries; then
	// the bit-blasting tactic on the whole assertion stack; then the core again
	ask := func(limit int, cmd string) (string, error) {
		if limit != s.limit {
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", limit))
			s.limit = limit
		}
		s.send(cmd + "\n")
		s.in.Flush()
		return s.readLine()
	}
	line, err := ask(200, "(check-sat)")
	if err == nil && line == "unknown" {
		line, err = ask(full, "(check-sat-using qfbv)")
	}
	if err == nil && line == "unknown" {
		line, err = ask(full, "(check-sat)")
	}
	if err != nil {
		s.restart()
		s.UnknownN++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.UnsatN++
		s.pop(1)
		if keyed {
			if s.cache == nil {
				s.cache = map[[2]uint64]bool{}
			}
			s.cache[key] = true
		}
		return Unsat, nil
	case "sat":
		s.SatN++
		m, err := s.model(vars, old)
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver model error:", err)
			s.restart()
			s.UnknownN++
			return Unknown, nil
		}
		s.pop(1)
		return Sat, m
	case "unknown":
		s.pop(1)
		r, m := s.fallback(pc, extra, vars, old)
		if r == Unknown {
			s.UnknownN++
		}
		return r, m
	default:
		fmt.Fprintln(os.Stderr, "solver said:", line)
		s.restart()
		s.UnknownN++
		return Unknown, nil
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) model(vars []uint8, old []uint64) ([]uint64, error) {
	m := make([]uint64, len(vars))
	copy(m, old)
	var names []int
	var sb strings.Builder
	for i, w := range vars {
		v := s.ctx.Var(i, w)
		if v.defLevel > 0 {
			names = append(names, i)
			sb.WriteByte(' ')
			sb.WriteString(ref(v))
		}
	}
	if len(names) == 0 {
		return m, nil
	}
	s.send("(get-value (" + sb.String() + "))\n")
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("%s", txt)
	}
	vals, err := parseValues(txt)
	if err != nil {
		return nil, err
	}
	for _, i := range names {
		v, ok := vals[ref(s.ctx.Var(i, vars[i]))]
		if !ok {
			return nil, fmt.Errorf("no value for var %d in %s", i, txt)
		}
		m[i] = v
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string) (map[string]uint64, error) {
	out := map[string]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var n uint64
		var err error
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			n, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "_":
			// (_ bvN w)
			if i+3 < len(f) && strings.HasPrefix(f[i+2], "bv") {
				n, err = strconv.ParseUint(f[i+2][2:], 10, 64)
				out[f[i]] = n
				i += 2
				continue
			}
			return nil, fmt.Errorf("bad value %q", txt)
		default:
			return nil, fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			return nil, err
		}
		out[f[i]] = n
	}
	return out, nil
}

// fallback asks the other installed solvers, non-incrementally.
func (s *Solver) fallback(pc []*Term, extra *Term, vars []uint8, old []uint64) (SatRes, []uint64) {
	lim := 20.0
	if !s.deadline.IsZero() {
		if l := time.Until(s.deadline).Seconds(); l < lim {
			lim = l
		}
	}
	if lim < 1 {
		return Unknown, nil
	}
	tl := fmt.Sprintf("-T:%d", int(lim))
	s.Fallback++
	var sb strings.Builder
	done := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || done[t] {
			return
		}
		done[t] = true
		def(t.a)
		def(t.b)
		def(t.c)
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", ref(t), sortName(t.sort))
		} else {
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", ref(t), sortName(t.sort), body(t))
		}
	}
	all := append(append([]*Term{}, pc...), extra)
	for _, t := range all {
		if t != nil {
			def(t)
			fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
		}
	}
	sb.WriteString("(check-sat)\n")
	var names []int
	gv := ""
	for i, w := range vars {
		v := s.ctx.Var(i, w)
		if done[v] {
			names = append(names, i)
			gv += " " + ref(v)
		}
	}
	if gv != "" {
		sb.WriteString("(get-value (" + gv + "))\n")
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), time.Now().UnixNano()), []byte(sb.String()), 0o644)
	}
	for _, c := range [][]string{{"z3", "-in", "-smt2", tl}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		o, _ := cmd.Output()
		txt := string(o)
		if strings.HasPrefix(txt, "unsat") {
			s.UnsatN++
			return Unsat, nil
		}
		if strings.HasPrefix(txt, "sat") {
			m := make([]uint64, len(vars))
			copy(m, old)
			if gv != "" {
				vals, err := parseValues(txt[3:])
				if err != nil {
					continue
				}
				for _, i := range names {
					m[i] = vals[ref(s.ctx.Var(i, vars[i]))]
				}
			}
			s.SatN++
			return Sat, m
		}
	}
	return Unknown, nil
}
