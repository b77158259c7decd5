// Package simsync replaces package sync in translated code.
package simsync

import (
	"fmt"
	"sort"
	"unsafe"

	"verif.local/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	held bool
	q    simrt.WaitQ
}

func (m *Mutex) Lock() {
	t := simrt.Pre("mutex lock", -3)
	if t == nil {
		m.held = true
		return
	}
	for m.held {
		t.Wait(&m.q, "mutex lock", -3)
	}
	m.held = true
	simrt.Acquire(t, unsafe.Pointer(m))
	t.Park("mutex locked", -3)
}

func (m *Mutex) TryLock() bool {
	t := simrt.Pre("mutex trylock", -3)
	if m.held {
		return false
	}
	m.held = true
	simrt.Acquire(t, unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	t := simrt.Pre("mutex unlock", -3)
	if !m.held {
		if t == nil {
			return
		}
		simrt.FatalError("sync: unlock of unlocked mutex")
	}
	simrt.Release(t, unsafe.Pointer(m))
	m.held = false
	m.q.WakeAll()
	if t != nil {
		t.Park("mutex unlocked", -3)
	}
}

type RWMutex struct {
	w       bool
	r       int
	waiting int // writers
	q       simrt.WaitQ
	rel     byte
}

func (m *RWMutex) Lock() {
	t := simrt.Pre("rwmutex lock", -3)
	if t == nil {
		m.w = true
		return
	}
	m.waiting++
	for m.w || m.r > 0 {
		t.Wait(&m.q, "rwmutex lock", -3)
	}
	m.waiting--
	m.w = true
	simrt.Acquire(t, unsafe.Pointer(m))
	simrt.Acquire(t, unsafe.Pointer(&m.rel))
	t.Park("rwmutex locked", -3)
}

func (m *RWMutex) TryLock() bool {
	t := simrt.Pre("rwmutex trylock", -3)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.Acquire(t, unsafe.Pointer(m))
	simrt.Acquire(t, unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	t := simrt.Pre("rwmutex unlock", -3)
	if !m.w {
		if t == nil {
			return
		}
		simrt.FatalError("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(t, unsafe.Pointer(m))
	m.w = false
	m.q.WakeAll()
	if t != nil {
		t.Park("rwmutex unlocked", -3)
	}
}

func (m *RWMutex) RLock() {
	t := simrt.Pre("rwmutex rlock", -3)
	if t == nil {
		m.r++
		return
	}
	for m.w || m.waiting > 0 {
		t.Wait(&m.q, "rwmutex rlock", -3)
	}
	m.r++
	simrt.Acquire(t, unsafe.Pointer(m))
	t.Park("rwmutex rlocked", -3)
}

func (m *RWMutex) TryRLock() bool {
	t := simrt.Pre("rwmutex tryrlock", -3)
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	simrt.Acquire(t, unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	t := simrt.Pre("rwmutex runlock", -3)
	if m.r == 0 {
		if t == nil {
			return
		}
		simrt.FatalError("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(t, unsafe.Pointer(&m.rel))
	m.r--
	m.q.WakeAll()
	if t != nil {
		t.Park("rwmutex runlocked", -3)
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	if o.done {
		o.m.Unlock()
		return
	}
	defer func() {
		o.done = true
		o.m.Unlock()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	t := simrt.Pre("waitgroup add", -3)
	if d < 0 {
		simrt.Release(t, unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	if t != nil {
		t.Park("waitgroup added", -3)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	t := simrt.Pre("waitgroup wait", -3)
	if t == nil {
		return
	}
	for w.n > 0 {
		t.Wait(&w.q, "waitgroup wait", -3)
	}
	simrt.Acquire(t, unsafe.Pointer(w))
	t.Park("waitgroup done", -3)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(-3, func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := simrt.Pre("cond wait", -3)
	if t == nil {
		return
	}
	tk := c.q.Enqueue()
	c.L.Unlock()
	t.WaitTicket(tk, "cond wait", -3)
	simrt.Acquire(t, unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	t := simrt.Pre("cond signal", -3)
	simrt.Release(t, unsafe.Pointer(c))
	c.q.WakeOne()
	if t != nil {
		t.Park("cond signalled", -3)
	}
}

func (c *Cond) Broadcast() {
	t := simrt.Pre("cond broadcast", -3)
	simrt.Release(t, unsafe.Pointer(c))
	c.q.WakeAll()
	if t != nil {
		t.Park("cond broadcast", -3)
	}
}

// Pool never shares an object between goroutines without an edge; it keeps a
// small stack so that re-use is exercised.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	t := simrt.Pre("pool get", -3)
	simrt.Acquire(t, unsafe.Pointer(p))
	if n := len(p.items); n > 0 && t != nil {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	t := simrt.Pre("pool put", -3)
	simrt.Release(t, unsafe.Pointer(p))
	if x != nil && len(p.items) < 8 && t != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) op(name string) *simrt.Task {
	t := simrt.Pre("map "+name, -3)
	if m.m == nil {
		m.m = map[any]any{}
	}
	simrt.Acquire(t, unsafe.Pointer(m))
	simrt.Release(t, unsafe.Pointer(m))
	return t
}

func (m *Map) Load(k any) (any, bool) { m.op("load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op("store"); m.m[k] = v }
func (m *Map) Delete(k any)           { m.op("delete"); delete(m.m, k) }
func (m *Map) Clear()                 { m.op("clear"); m.m = map[any]any{} }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("loadorstore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("loadanddelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.op("swap")
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("cas")
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("cad")
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op("range")
	var ks []any
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
