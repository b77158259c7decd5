package simrt

import (
	"fmt"
	"unsafe"
)

// Happens-before race detection over the accesses simgen instruments.  It is
// deliberately lenient (channels carry one accumulated clock), so it may miss
// a race but reports none that the synchronisation of the run excludes.

type raceState struct {
	clocks map[uintptr]*syncClock
	cells  map[unsafe.Pointer]*cell // keys keep objects alive: no address is re-used within a run
}

type syncClock struct {
	send, recv []uint32
	keep       any
}

type access struct {
	task int
	clk  uint32
	site int32
	atom bool
}

type cell struct {
	w     access
	hasW  bool
	reads []access
}

func newRaceState() *raceState {
	return &raceState{map[uintptr]*syncClock{}, map[unsafe.Pointer]*cell{}}
}

func join(a *[]uint32, b []uint32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (t *Task) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

func (r *raceState) fork(parent, t *Task) {
	if parent != nil {
		join(&t.vc, parent.vc)
		parent.tick()
	}
	t.tick()
}

func (r *raceState) snapshot(t *Task) []uint32 {
	c := append([]uint32(nil), t.vc...)
	t.tick()
	return c
}

func (r *raceState) setVC(t *Task, vc []uint32) {
	t.vc = append([]uint32(nil), vc...)
	t.tick()
}

func (r *raceState) exit(t *Task) {}

func (r *raceState) clock(id uintptr, keep any) *syncClock {
	c := r.clocks[id]
	if c == nil {
		c = &syncClock{keep: keep}
		r.clocks[id] = c
	}
	return c
}

func (s *Sim) hbSendBefore(t *Task, id uintptr, ch any) {
	if s.race == nil {
		return
	}
	s.mu.Lock()
	join(&s.race.clock(id, ch).send, t.vc)
	s.mu.Unlock()
	t.tick()
}

func (s *Sim) hbSendAfter(t *Task, id uintptr, sync bool) {
	if s.race == nil || !sync {
		return
	}
	s.mu.Lock()
	join(&t.vc, s.race.clock(id, nil).recv)
	s.mu.Unlock()
}

func (s *Sim) hbRecvBefore(t *Task, id uintptr, ch any) {
	if s.race == nil {
		return
	}
	s.mu.Lock()
	join(&s.race.clock(id, ch).recv, t.vc)
	s.mu.Unlock()
	t.tick()
}

func (s *Sim) hbRecvAfter(t *Task, id uintptr) {
	if s.race == nil {
		return
	}
	s.mu.Lock()
	join(&t.vc, s.race.clock(id, nil).send)
	s.mu.Unlock()
}

// Acquire and Release are the edges of the sync shims; key identifies the object.
func Acquire(t *Task, key unsafe.Pointer) {
	s := S
	if s == nil || s.race == nil || t == nil {
		return
	}
	s.mu.Lock()
	join(&t.vc, s.race.clock(uintptr(key), key).send)
	s.mu.Unlock()
}

func Release(t *Task, key unsafe.Pointer) {
	s := S
	if s == nil || s.race == nil || t == nil {
		return
	}
	s.mu.Lock()
	join(&s.race.clock(uintptr(key), key).send, t.vc)
	s.mu.Unlock()
	t.tick()
}

// AtomicAccess checks an atomic operation against plain accesses.
func AtomicAccess(t *Task, p unsafe.Pointer, site int32, write bool) {
	s := S
	if s == nil || s.race == nil || t == nil {
		return
	}
	s.race.accessA(s, t, p, site, write, true)
}

func (r *raceState) access(s *Sim, t *Task, p unsafe.Pointer, site int32, write bool) {
	r.accessA(s, t, p, site, write, false)
}

func (r *raceState) accessA(s *Sim, t *Task, p unsafe.Pointer, site int32, write, atom bool) {
	c := r.cells[p]
	if c == nil {
		c = &cell{}
		r.cells[p] = c
	}
	ordered := func(a access) bool {
		return a.task == t.ID || a.atom && atom || a.task < len(t.vc) && t.vc[a.task] >= a.clk
	}
	report := func(a access, aw bool) {
		if b := s.tasks[a.task].Group; s.Cfg.RaceGroups && (b == 0 || t.Group == 0 || b == t.Group) {
			return
		}
		k := func(w bool) string {
			if w {
				return "write"
			}
			return "read"
		}
		s.Violate("race", "data race: %s at %s by %s and %s at %s by %s are not ordered by synchronisation",
			k(aw), SiteName(a.site), s.tasks[a.task].Name, k(write), SiteName(site), t.Name)
	}
	if c.hasW && !ordered(c.w) {
		report(c.w, true)
		return
	}
	me := access{t.ID, t.vc[t.ID], site, atom}
	if write {
		for _, a := range c.reads {
			if !ordered(a) {
				report(a, false)
				return
			}
		}
		c.w, c.hasW = me, true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].task == t.ID {
			c.reads[i] = me
			return
		}
	}
	c.reads = append(c.reads, me)
}

var _ = fmt.Sprint

// JoinTask orders everything t did before what cur does next.
func JoinTask(cur, t *Task) {
	if S == nil || S.race == nil || cur == nil || t == nil {
		return
	}
	join(&cur.vc, t.vc)
}
