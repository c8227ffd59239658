// Package stubs holds the environment models the symbolic executor uses in
// place of library code that it does not execute from source.
package stubs

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"
	"unsafe"

	"github.com/chenquan/go-pkg/internal/zzverif/sym"
	"github.com/panjf2000/ants/v2"
)

// ---- context ------------------------------------------------------------------

type cctx struct {
	parent   context.Context
	done     chan struct{}
	mu       sync.Mutex
	err      error
	cause    error
	children []*cctx
	dl       time.Time
	hasDl    bool
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	select {
	case <-c.done:
		return c.err
	default:
		return nil
	}
}
func (c *cctx) Value(k interface{}) interface{} {
	if k == &itself {
		return c
	}
	return c.parent.Value(k)
}

// itself is the key under which a cctx finds itself.
var itself int

func Cause(c context.Context) error {
	cc, ok := c.Value(&itself).(*cctx)
	if !ok {
		return c.Err()
	}
	cc.mu.Lock()
	defer cc.mu.Unlock()
	return cc.cause
}

func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	ch := c.children
	c.children = nil
	close(c.done)
	c.mu.Unlock()
	for _, x := range ch {
		x.cancel(err, cause)
	}
}

type vctx struct {
	context.Context
	k, v interface{}
}

func (c *vctx) Value(k interface{}) interface{} {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent context.Context, k, v interface{}) context.Context {
	return &vctx{parent, k, v}
}

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	p := parent
	for {
		if v, ok := p.(*vctx); ok {
			p = v.Context
			continue
		}
		break
	}
	if pc, ok := p.(*cctx); ok {
		pc.mu.Lock()
		if pc.err != nil {
			e, cs := pc.err, pc.cause
			pc.mu.Unlock()
			c.cancel(e, cs)
			return c
		}
		pc.children = append(pc.children, c)
		pc.mu.Unlock()
	} else if d := p.Done(); d != nil {
		go func() {
			select {
			case <-d:
				c.cancel(p.Err(), nil)
			case <-c.done:
			}
		}()
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.dl, c.hasDl = Now().Add(d), true
	if d <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
		return c, func() { c.cancel(context.Canceled, nil) }
	}
	go func() {
		sym.TimerWait(c.done)
		c.cancel(context.DeadlineExceeded, cause)
	}()
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, t.Sub(Now()))
}

func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, t.Sub(Now()), cause)
}

// ---- time -----------------------------------------------------------------------

// timeRep is time.Time.
type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const hasMonotonic = 1 << 63

// Now stands still: what takes time is decided by the schedule.
func Now() time.Time {
	const day = 24 * 60 * 60
	const sec = 1700000000 + (1969*365+1969/4-1969/100+1969/400)*day - (1884*365+1884/4-1884/100+1884/400)*day
	var t time.Time
	r := (*timeRep)(unsafe.Pointer(&t))
	r.wall, r.loc = hasMonotonic|sec<<30, time.Local
	return t
}

// TimeAdd moves the monotonic clock reading only, if there is one: it decides
// every comparison.
func TimeAdd(t time.Time, d time.Duration) time.Time {
	if r := (*timeRep)(unsafe.Pointer(&t)); r.wall&hasMonotonic != 0 {
		if te := r.ext + int64(d); (te < r.ext) == (d < 0) {
			r.ext = te
			return t
		}
	}
	return time.Unix(t.Unix()+int64(d/1e9), int64(t.Nanosecond())+int64(d%1e9))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

type timerState struct {
	mu   sync.Mutex
	live bool
	stop chan struct{}
	fire func()
}

func (s *timerState) start() {
	stop := make(chan struct{})
	s.live, s.stop = true, stop
	go func() {
		sym.TimerWait(stop)
		s.mu.Lock()
		fire := s.live && s.stop == stop
		if fire {
			s.live = false
		}
		s.mu.Unlock()
		if fire {
			s.fire()
		}
	}()
}

func NewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	s := &timerState{fire: func() {
		select {
		case c <- Now():
		default:
		}
	}}
	sym.SideSet(t, "timer", s)
	s.start()
	return t
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	s := &timerState{fire: f}
	sym.SideSet(t, "timer", s)
	s.start()
	return t
}

func TimerStop(t *time.Timer) bool {
	s, ok := sym.SideGet(t, "timer").(*timerState)
	if !ok {
		panic("time: Stop called on uninitialized Timer")
	}
	s.mu.Lock()
	was := s.live
	s.live = false
	if was {
		close(s.stop)
	}
	s.mu.Unlock()
	return was
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	was := TimerStop(t)
	s := sym.SideGet(t, "timer").(*timerState)
	s.mu.Lock()
	s.start()
	s.mu.Unlock()
	return was
}

func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go func() {
		sym.TimerWait(nil)
		c <- time.Time{}
	}()
	return c
}

// ---- ants -----------------------------------------------------------------------

type antsState struct {
	mu     sync.Mutex
	closed bool
	slots  chan struct{}
	opts   ants.Options
}

func NewPool(size int, options ...ants.Option) (*ants.Pool, error) {
	p := new(ants.Pool)
	st := &antsState{}
	for _, o := range options {
		o(&st.opts)
	}
	if size > 0 {
		st.slots = make(chan struct{}, size)
	}
	sym.SideSet(p, "ants", st)
	return p, nil
}

func state(p *ants.Pool) *antsState {
	if s, ok := sym.SideGet(p, "ants").(*antsState); ok {
		return s
	}
	panic("unknown ants pool")
}

func PoolSubmit(p *ants.Pool, task func()) error {
	s := state(p)
	if s.slots != nil {
		if s.opts.Nonblocking {
			select {
			case s.slots <- struct{}{}:
			default:
				return ants.ErrPoolOverload
			}
		} else {
			s.slots <- struct{}{}
		}
	}
	go func() {
		defer func() {
			if s.slots != nil {
				<-s.slots
			}
			if r := recover(); r != nil {
				if h := s.opts.PanicHandler; h != nil {
					h(r)
				}
			}
		}()
		task()
	}()
	return nil
}

func PoolRelease(p *ants.Pool) {}
func PoolReboot(p *ants.Pool)  {}

// ---- sync -----------------------------------------------------------------------

func SyncPoolGet(p *sync.Pool) interface{} {
	if x, ok := sym.PoolTake(p); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type mapState struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func mstate(p *sync.Map) *mapState {
	if s, ok := sym.SideGet(p, "syncmap").(*mapState); ok {
		return s
	}
	s := &mapState{m: map[interface{}]interface{}{}}
	sym.SideSet(p, "syncmap", s)
	return s
}

func SyncMapLoad(p *sync.Map, k interface{}) (interface{}, bool) {
	s := mstate(p)
	s.mu.Lock()
	v, ok := s.m[k]
	s.mu.Unlock()
	return v, ok
}
func SyncMapStore(p *sync.Map, k, v interface{}) {
	s := mstate(p)
	s.mu.Lock()
	s.m[k] = v
	s.mu.Unlock()
}
func SyncMapLoadOrStore(p *sync.Map, k, v interface{}) (interface{}, bool) {
	s := mstate(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	if o, ok := s.m[k]; ok {
		return o, true
	}
	s.m[k] = v
	return v, false
}
func SyncMapLoadAndDelete(p *sync.Map, k interface{}) (interface{}, bool) {
	s := mstate(p)
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	delete(s.m, k)
	return v, ok
}
func SyncMapDelete(p *sync.Map, k interface{}) { SyncMapLoadAndDelete(p, k) }
func SyncMapRange(p *sync.Map, f func(k, v interface{}) bool) {
	s := mstate(p)
	s.mu.Lock()
	var ks []interface{}
	for k := range s.m {
		ks = append(ks, k)
	}
	s.mu.Unlock()
	for _, k := range ks {
		if v, ok := SyncMapLoad(p, k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---- fmt ------------------------------------------------------------------------

type fmtErr struct{ s string }

func (e *fmtErr) Error() string { return e.s }

type wrapErr struct {
	s string
	e error
}

func (e *wrapErr) Error() string { return e.s }
func (e *wrapErr) Unwrap() error { return e.e }

func conv(args []interface{}) []interface{} {
	out := make([]interface{}, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case error:
			out[i] = x.Error()
		case interface{ String() string }:
			out[i] = x.String()
		default:
			out[i] = a
		}
	}
	return out
}

func Sprintf(f string, args ...interface{}) string { return sym.Sprintf(f, conv(args)) }

func Sprintln(args ...interface{}) string {
	s := ""
	for i, a := range conv(args) {
		if i > 0 {
			s += " "
		}
		s += sym.Sprintf("%v", []interface{}{a})
	}
	return s + "\n"
}

func Fprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, args...)))
}
func Fprint(w io.Writer, args ...interface{}) (int, error) { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

func Sprint(args ...interface{}) string {
	s := ""
	for i, a := range conv(args) {
		if i > 0 {
			_, o1 := args[i-1].(string)
			_, o2 := args[i].(string)
			if !o1 && !o2 {
				s += " "
			}
		}
		s += sym.Sprintf("%v", []interface{}{a})
	}
	return s
}

func Errorf(f string, args ...interface{}) error {
	g := []byte(f)
	var w error
	n := 0
	for i := 0; i+1 < len(g); i++ {
		if g[i] == '%' {
			if g[i+1] == 'w' {
				g[i+1] = 'v'
				if n < len(args) {
					if e, ok := args[n].(error); ok && w == nil {
						w = e
					}
				}
			}
			if g[i+1] != '%' {
				n++
			}
			i++
		}
	}
	s := sym.Sprintf(string(g), conv(args))
	if w != nil {
		return &wrapErr{s, w}
	}
	return &fmtErr{s}
}

func Discard(args ...interface{}) (int, error) { return 0, nil }

func Discardf(f string, args ...interface{}) (int, error) { return 0, nil }

// ---- errors (no reflection) --------------------------------------------------------

func ErrorsIs(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

var _ = errors.New

// ---- sort -------------------------------------------------------------------------

// SortSlice is the insertion sort that sort.Slice uses for up to 12 elements.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sym.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sym.SliceSwap(x, j, j-1)
		}
	}
}

func SortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	n := sym.SliceLen(x)
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func RandShuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, sym.RandIntn(i+1))
	}
}

func RandPerm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := sym.RandIntn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
