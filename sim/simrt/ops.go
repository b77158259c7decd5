package simrt

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---- goroutines ----

// Go starts f as a library task (site >= 0) or workload task (site < 0).
func Go(site int32, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.killed.Load() {
		runtime.Goexit()
	}
	cur := s.pre("go", site)
	t := s.newTask(fmt.Sprintf("go@%s", SiteName(site)), true, site)
	s.startTask(t, f)
	if cur != nil {
		cur.park("go", site)
	}
}

// Spawn starts a workload task.
func (s *Sim) Spawn(name string, f func()) *Task {
	t := s.newTask(name, false, -1)
	s.startTask(t, f)
	return t
}

// ---- channels ----

type Sender[T any] struct {
	ch   chan<- T
	site int32
}

func SendTo[T any](ch chan<- T, site int32) Sender[T] { return Sender[T]{ch, site} }

func (x Sender[T]) Do(v T) {
	s := S
	if s == nil {
		x.ch <- v
		return
	}
	t := s.pre("chan send", x.site)
	if t == nil {
		x.ch <- v
		return
	}
	id := chanID(x.ch)
	s.hbSendBefore(t, id, x.ch)
	blocked := false
	select {
	case x.ch <- v:
	default:
		blocked = true
		t.block("chan send", x.site)
		select {
		case x.ch <- v:
		case <-s.kill:
			runtime.Goexit()
		}
	}
	s.hbSendAfter(t, id, cap(x.ch) == 0 || blocked)
	t.park("chan sent", x.site)
}

func Recv[T any](ch <-chan T, site int32) T {
	v, _ := Recv2(ch, site)
	return v
}

func Recv2[T any](ch <-chan T, site int32) (v T, ok bool) {
	s := S
	if s == nil {
		v, ok = <-ch
		return
	}
	t := s.pre("chan receive", site)
	if t == nil {
		v, ok = <-ch
		return
	}
	id := chanID(ch)
	s.hbRecvBefore(t, id, ch)
	select {
	case v, ok = <-ch:
	default:
		t.block("chan receive", site)
		select {
		case v, ok = <-ch:
		case <-s.kill:
			runtime.Goexit()
		}
	}
	t.park("chan received", site)
	s.hbRecvAfter(t, id)
	return
}

func CloseCh[T any](ch chan<- T, site int32) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	t := s.pre("chan close", site)
	if t != nil {
		s.hbSendBefore(t, chanID(ch), ch)
	}
	close(ch)
	if t != nil {
		t.park("chan closed", site)
	}
}

func chanID(ch any) uintptr {
	if S.race == nil {
		return 0
	}
	return reflect.ValueOf(ch).Pointer()
}

type Case struct {
	ch   reflect.Value
	send reflect.Value
	dir  reflect.SelectDir
	c    any
}

type CaseSender[T any] struct{ ch chan<- T }

func SendCase[T any](ch chan<- T) CaseSender[T] { return CaseSender[T]{ch} }
func (x CaseSender[T]) V(v T) Case {
	return Case{reflect.ValueOf(x.ch), reflect.ValueOf(&v).Elem(), reflect.SelectSend, x.ch}
}
func RecvCase[T any](ch <-chan T) Case {
	return Case{reflect.ValueOf(ch), reflect.Value{}, reflect.SelectRecv, ch}
}

// RecvVal converts the received value back to its static type.
func RecvVal[T any](ch <-chan T, v reflect.Value) (r T) {
	if v.IsValid() {
		reflect.ValueOf(&r).Elem().Set(v)
	}
	return
}

// Select performs a select; -1 is the default case.
func Select(site int32, hasDefault bool, cases ...Case) (int, reflect.Value, bool) {
	s := S
	var t *Task
	if s != nil {
		t = s.pre("select", site)
	}
	rc := make([]reflect.SelectCase, len(cases), len(cases)+1)
	for i, c := range cases {
		rc[i] = reflect.SelectCase{Dir: c.dir, Chan: c.ch, Send: c.send}
		if c.ch.IsNil() {
			rc[i].Chan = reflect.Value{}
			rc[i].Send = reflect.Value{}
		}
	}
	if t == nil {
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			i = -1
		}
		return i, v, ok
	}
	if s.race != nil {
		for _, c := range cases {
			if !c.ch.IsNil() && c.dir == reflect.SelectRecv {
				s.hbRecvBefore(t, c.ch.Pointer(), c.c)
			}
		}
	}
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	for i := 0; i < len(order)-1; i++ {
		j := i + s.Sched.Int(len(order)-i)
		order[i], order[j] = order[j], order[i]
	}
	def := reflect.SelectCase{Dir: reflect.SelectDefault}
	finish := func(i int, v reflect.Value, ok bool) (int, reflect.Value, bool) {
		c := cases[i]
		if c.dir == reflect.SelectSend && s.race != nil {
			s.hbSendAfter(t, c.ch.Pointer(), c.ch.Cap() == 0)
		}
		t.park("selected", site)
		if c.dir == reflect.SelectRecv && s.race != nil {
			s.hbRecvAfter(t, c.ch.Pointer())
		}
		return i, v, ok
	}
	for _, i := range order {
		if !rc[i].Chan.IsValid() {
			continue
		}
		if s.race != nil && cases[i].dir == reflect.SelectSend {
			s.hbSendBefore(t, cases[i].ch.Pointer(), cases[i].c)
		}
		k, v, ok := reflect.Select([]reflect.SelectCase{rc[i], def})
		if k == 0 {
			return finish(i, v, ok)
		}
	}
	if hasDefault {
		return -1, reflect.Value{}, false
	}
	t.block("select", site)
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.kill)})
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		runtime.Goexit()
	}
	return finish(i, v, ok)
}

// ---- waiting for conditions (sync shims, network) ----

type WaitQ struct{ ws []chan struct{} }

// Pre is the scheduling point before an operation of a shim; nil when not
// under the scheduler.
func Pre(op string, site int32) *Task {
	if S == nil {
		return nil
	}
	return S.pre(op, site)
}

// Enqueue joins the queue without blocking yet.
func (q *WaitQ) Enqueue() chan struct{} {
	w := make(chan struct{})
	q.ws = append(q.ws, w)
	return w
}

// Wait blocks the task until the queue is woken.
func (t *Task) Wait(q *WaitQ, op string, site int32) { t.WaitTicket(q.Enqueue(), op, site) }

// WaitTicket blocks the task until the ticket from Enqueue is woken.
func (t *Task) WaitTicket(w chan struct{}, op string, site int32) {
	s := S
	t.block(op, site)
	select {
	case <-w:
	case <-s.kill:
		runtime.Goexit()
	}
	t.park(op, site)
}

// Park is a plain scheduling point.
func (t *Task) Park(op string, site int32) { t.park(op, site) }

// WakeAll wakes every waiter.
func (q *WaitQ) WakeAll() {
	for _, w := range q.ws {
		close(w)
	}
	q.ws = nil
}

// WakeOne wakes the oldest waiter.
func (q *WaitQ) WakeOne() bool {
	if len(q.ws) == 0 {
		return false
	}
	close(q.ws[0])
	q.ws = q.ws[1:]
	return true
}

// ---- time ----

func Sleep(d time.Duration, site int32) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	t := s.pre("sleep", site)
	if t == nil {
		time.Sleep(d)
		return
	}
	t.block("sleep", site)
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-s.kill:
		tm.Stop()
		runtime.Goexit()
	}
	t.park("sleep", site)
}

// AfterFunc is time.AfterFunc with f running as a task.
func AfterFunc(d time.Duration, f func(), site int32) *time.Timer {
	s := S
	if s == nil {
		return time.AfterFunc(d, f)
	}
	start := s.deferred("timer", f, site)
	return time.AfterFunc(d, start)
}

// ContextAfterFunc is context.AfterFunc with f running as a task.
func ContextAfterFunc(ctx context.Context, f func(), site int32) func() bool {
	s := S
	if s == nil {
		return context.AfterFunc(ctx, f)
	}
	return context.AfterFunc(ctx, s.deferred("ctx", f, site))
}

// deferred prepares a task that is started later from outside the scheduler;
// its number is fixed now so that it does not depend on the order of timers.
func (s *Sim) deferred(kind string, f func(), site int32) func() {
	t := s.newTask(kind+"@"+SiteName(site), true, site)
	t.st = stDone
	var snap []uint32
	if s.race != nil && s.cur != nil {
		snap = s.race.snapshot(s.cur)
	}
	used := false
	return func() {
		if s.killed.Load() || S != s {
			return
		}
		s.mu.Lock()
		n := t
		if used {
			n = s.newTask(t.Name, true, site)
		}
		used = true
		n.st = stNew
		s.mu.Unlock()
		if s.race != nil {
			s.race.setVC(n, snap)
		}
		s.startTask(n, f)
	}
}

func Gosched(site int32) {
	if t := Pre("gosched", site); t != nil {
		t.park("gosched", site)
	}
}

// ---- shared memory ----

func Rd[T any](p *T, site int32) *T {
	if S != nil && unsafe.Sizeof(*p) > 0 {
		S.access(unsafe.Pointer(p), site, false)
	}
	return p
}

func Wr[T any](p *T, site int32) *T {
	if S != nil && unsafe.Sizeof(*p) > 0 {
		S.access(unsafe.Pointer(p), site, true)
	}
	return p
}

// Setter is an assignment whose access is recorded after its right side.
type Setter[T any] struct {
	p    *T
	site int32
}

func SetTo[T any](p *T, site int32) Setter[T] { return Setter[T]{p, site} }
func (x Setter[T]) Do(v T)                    { *Wr(x.p, x.site) = v }

// Obj records the use of a stateful standard library object.
func Obj[T any](p *T, site int32) *T { return Wr(p, site) }

// ObjOf is Obj for an object behind an interface.
func ObjOf[T any](v T, site int32) T {
	if S != nil {
		if r := reflect.ValueOf(&v).Elem(); r.Kind() == reflect.Interface && r.Elem().Kind() == reflect.Pointer && !r.Elem().IsNil() {
			S.access(r.Elem().UnsafePointer(), site, true)
		}
	}
	return v
}

// BytesRd and BytesWr record the use of the contents of b, at sample positions:
// its ends and places that overlapping slices have in common.
func BytesRd[B ~[]E, E any](b B, site int32) B { return bytesAcc(b, site, false) }
func BytesWr[B ~[]E, E any](b B, site int32) B { return bytesAcc(b, site, true) }

func bytesAcc[B ~[]E, E any](b B, site int32, write bool) B {
	if S == nil || len(b) == 0 {
		return b
	}
	p := unsafe.Pointer(unsafe.SliceData([]E(b)))
	S.access(p, site, write)
	if S.race == nil {
		return b
	}
	n := uintptr(len(b))
	step := uintptr(64)
	for step < n/8 {
		step *= 2
	}
	for o := step - uintptr(p)%step; o < n-1; o += step {
		S.sample(unsafe.Add(p, o), site, write)
	}
	if n > 1 {
		S.sample(unsafe.Add(p, n-1), site, write)
	}
	return b
}

// sample is access without a scheduling point.
func (s *Sim) sample(p unsafe.Pointer, site int32, write bool) {
	if t := s.cur; t != nil && !s.killed.Load() {
		s.race.access(s, t, p, site, write)
	}
}

// Point is a place where a task may be preempted.
func Point(site int32) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.gap--
	if s.gap <= 0 {
		if s.killed.Load() {
			runtime.Goexit()
		}
		s.Stats.Preempts++
		s.gap = s.drawGap()
		s.cur.park("call", site)
	}
}

func MapRd[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if S != nil && m != nil {
		S.access(reflect.ValueOf(m).UnsafePointer(), site, false)
	}
	return m
}

func MapWr[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if S != nil && m != nil {
		S.access(reflect.ValueOf(m).UnsafePointer(), site, true)
	}
	return m
}

func (s *Sim) access(p unsafe.Pointer, site int32, write bool) {
	t := s.cur
	if t == nil || p == nil {
		return
	}
	s.gap--
	if s.gap <= 0 {
		if s.killed.Load() {
			runtime.Goexit()
		}
		s.Stats.Preempts++
		s.gap = s.drawGap()
		t.park("access", site)
	}
	if s.race != nil && !s.killed.Load() {
		s.race.access(s, t, p, site, write)
	}
}

// MapKeys returns the keys of m in an order chosen by the Sched tape.
func MapKeys[M ~map[K]V, K comparable, V any](m M, site int32) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return lessKey(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	if s := S; s != nil && s.cur != nil && len(keys) > 1 {
		for i := 0; i < len(keys)-1; i++ {
			j := i + s.Sched.Int(len(keys)-i)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Kind() == b.Kind() {
			return a.Int() < b.Int()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Kind() == b.Kind() {
			return a.Uint() < b.Uint()
		}
	case reflect.String:
		if a.Kind() == b.Kind() {
			return a.String() < b.String()
		}
	case reflect.Pointer, reflect.Chan:
		return false // no deterministic order exists
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// MapZero returns zero values for the iteration variables of a map.
func MapZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ChanZero returns the zero value of a channel's element.
func ChanZero[T any](ch <-chan T) (v T) { return }

func True() bool { return true }

// Forever is the empty select.
func Forever(site int32) {
	t := Pre("select", site)
	if t == nil {
		select {}
	}
	t.Never("select", site)
}

const tickLimit = 8 << 20

// Tick counts loop iterations to find loops that never yield.
func Tick(site int32) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.ticks++
	if s.ticks > tickLimit {
		if s.killed.Load() {
			runtime.Goexit()
		}
		t := s.cur
		s.mu.Lock()
		if s.Crash == nil {
			s.Crash = &Violation{"hang", fmt.Sprintf("endless loop at %s in %s", SiteName(site), t.Name)}
		}
		s.mu.Unlock()
		t.Never("endless loop", site)
	}
}

// Never blocks the task for the rest of the run.
func (t *Task) Never(op string, site int32) {
	t.block(op, site)
	<-S.kill
	runtime.Goexit()
}

// ---- process ----

func exit(what string, site int32) {
	s := S
	if s == nil || s.cur == nil {
		if s != nil && s.killed.Load() {
			runtime.Goexit()
		}
		panic("exit outside simulation: " + what)
	}
	if s.killed.Load() {
		runtime.Goexit()
	}
	t := s.cur
	s.mu.Lock()
	if s.Crash == nil {
		s.Crash = &Violation{"exit", fmt.Sprintf("process exited by %s at %s", what, SiteName(site))}
	}
	s.mu.Unlock()
	t.Never("exit", site)
}

func Fatal(site int32, a ...any) { exit("log.Fatal: "+strings.TrimSpace(fmt.Sprint(a...)), site) }
func Fatalf(site int32, f string, a ...any) {
	exit("log.Fatal: "+strings.TrimSpace(fmt.Sprintf(f, a...)), site)
}
func Exit(site int32, code int) { exit(fmt.Sprintf("os.Exit(%d)", code), site) }

// FatalError is an unrecoverable error of the Go runtime.
func FatalError(msg string) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	s.mu.Lock()
	if s.Crash == nil {
		s.Crash = &Violation{"crash", "fatal error: " + msg + "\n" + trimStack(debug.Stack())}
	}
	s.mu.Unlock()
	t.Never("fatal error", t.site)
}

var resets []func()

// AddReset registers the re-initialisation of a package's variables.
func AddReset(f func()) { resets = append(resets, f) }

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func FatalFn(a ...any)            { Fatal(-2, a...) }
func FatalfFn(f string, a ...any) { Fatalf(-2, f, a...) }
func ExitFn(code int)             { Exit(-2, code) }
func SleepFn(d time.Duration)     { Sleep(d, -2) }
func GoschedFn()                  { Gosched(-2) }
func Discard(a ...any)            {}

var Use int
