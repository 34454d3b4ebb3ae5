//go:build go1.21

package zzdst

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

// Race is a pair of accesses not ordered by happens-before, at least one a write.
type Race struct {
	Kind  string // memory or map
	A, B  string
	AW    bool
	BW    bool
	Tasks string
}

func (r Race) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	return fmt.Sprintf("%s race: %s at %s and %s at %s (%s)", r.Kind, k(r.AW), r.A, k(r.BW), r.B, r.Tasks)
}

// Key identifies the race independently of the order of the two accesses.
func (r Race) Key() string {
	l := []string{r.A, r.B}
	sort.Strings(l)
	return r.Kind + " " + l[0] + " " + l[1]
}

type epoch struct {
	slot int
	clk  uint32
	site int
	task string
}

type cell struct {
	w     epoch
	hasW  bool
	reads []epoch
}

type shadowKey struct {
	p unsafe.Pointer
}

func (s *Sim) assignSlot(t *Task) {
	for i, o := range s.slots {
		if o == nil {
			s.slots[i] = t
			t.slot = i
			t.vc = make([]uint32, len(s.slots))
			s.slotClk[i]++
			t.vc[i] = s.slotClk[i]
			return
		}
	}
	s.slots = append(s.slots, t)
	s.slotClk = append(s.slotClk, 1)
	t.slot = len(s.slots) - 1
	t.vc = make([]uint32, len(s.slots))
	t.vc[t.slot] = 1
}

func (s *Sim) freeSlot(t *Task) {
	s.slots[t.slot] = nil
	s.slotClk[t.slot] = t.vc[t.slot]
}

func (t *Task) acquire(vc []uint32) {
	if len(vc) > len(t.vc) {
		n := make([]uint32, len(vc))
		copy(n, t.vc)
		t.vc = n
	}
	for i, v := range vc {
		if v > t.vc[i] {
			t.vc[i] = v
		}
	}
}

// release publishes the clock of t: returns a copy and starts a new epoch.
func (s *Sim) release(t *Task) []uint32 {
	c := make([]uint32, len(t.vc))
	copy(c, t.vc)
	t.vc[t.slot]++
	return c
}

func merge(dst *[]uint32, src []uint32) {
	if len(src) > len(*dst) {
		n := make([]uint32, len(src))
		copy(n, *dst)
		*dst = n
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

func (t *Task) ordered(e epoch) bool {
	return e.slot < len(t.vc) && e.clk <= t.vc[e.slot]
}

func (s *Sim) report(kind string, t *Task, site int, w bool, o epoch, ow bool) {
	r := Race{Kind: kind, A: siteName(o.site), B: siteName(site), AW: ow, BW: w, Tasks: o.task + " / " + t.name}
	k := r.Key()
	if !s.raceSet[k] {
		s.raceSet[k] = true
		s.Races = append(s.Races, r)
	}
	if kind == "map" && s.Fail == nil {
		s.fail("crash", "concurrent map access (fatal error in the Go runtime): "+r.String())
	}
}

func (s *Sim) access(p unsafe.Pointer, site int, write bool, kind string) {
	t := s.cur
	if !s.cfg.Race {
		return
	}
	k := shadowKey{p}
	c := s.shadow[k]
	if c == nil {
		c = &cell{}
		s.shadow[k] = c
	}
	if c.hasW && c.w.slot != t.slot && !t.ordered(c.w) {
		s.report(kind, t, site, write, c.w, true)
	}
	me := epoch{t.slot, t.vc[t.slot], site, t.name}
	if write {
		for _, e := range c.reads {
			if e.slot != t.slot && !t.ordered(e) {
				s.report(kind, t, site, true, e, false)
			}
		}
		c.reads = c.reads[:0]
		c.w, c.hasW = me, true
		return
	}
	for i := range c.reads {
		if c.reads[i].slot == t.slot {
			c.reads[i] = me
			return
		}
	}
	// drop reads ordered before this one
	k2 := c.reads[:0]
	for _, e := range c.reads {
		if !t.ordered(e) {
			k2 = append(k2, e)
		}
	}
	c.reads = append(k2, me)
}

// R records a read of *p.
func R[T any](p *T, site int) *T {
	if s := active(); s != nil && p != nil {
		s.MemOps++
		s.point(pMem, site)
		if unsafe.Sizeof(*p) > 0 {
			s.access(unsafe.Pointer(p), site, false, "memory")
		}
	}
	return p
}

// W records a write of *p.
func W[T any](p *T, site int) *T {
	if s := active(); s != nil && p != nil {
		s.MemOps++
		s.point(pMem, site)
		if unsafe.Sizeof(*p) > 0 {
			s.access(unsafe.Pointer(p), site, true, "memory")
		}
	}
	return p
}

// RW records a read followed by a write of *p.
func RW[T any](p *T, site int) *T {
	R(p, site)
	return W(p, site)
}

// RS records a read of every word of *p.
func RS[T any](p *T, site int) *T { return words(p, site, false) }

// WS records a write of every word of *p.
func WS[T any](p *T, site int) *T { return words(p, site, true) }

func words[T any](p *T, site int, write bool) *T {
	s := active()
	if s == nil || p == nil {
		return p
	}
	s.MemOps++
	s.point(pMem, site)
	t := reflect.TypeOf(p).Elem()
	for _, off := range offsets(t) {
		s.access(unsafe.Add(unsafe.Pointer(p), off), site, write, "memory")
	}
	return p
}

var offCache = map[reflect.Type][]uintptr{}

func offsets(t reflect.Type) []uintptr {
	if o, ok := offCache[t]; ok {
		return o
	}
	var out []uintptr
	var walk func(t reflect.Type, base uintptr)
	walk = func(t reflect.Type, base uintptr) {
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, base+t.Field(i).Offset)
			}
		case reflect.Array:
			for i := 0; i < t.Len() && i < 64; i++ {
				walk(t.Elem(), base+uintptr(i)*t.Elem().Size())
			}
		default:
			if t.Size() > 0 {
				out = append(out, base)
			}
		}
	}
	walk(t, 0)
	offCache[t] = out
	return out
}

// TouchR records a read of *p by the harness without a scheduling point.
func TouchR[T any](p *T) {
	if s := S; s != nil && p != nil {
		s.access(unsafe.Pointer(p), HarnessSite, false, "memory")
	}
}

// TouchSlice records a read of every element of a slice by the harness.
func TouchSlice[T any](p []T) {
	for i := range p {
		TouchR(&p[i])
	}
}

// TouchMap records a read of a map by the harness.
func TouchMap[K comparable, V any](m map[K]V) {
	if s := S; s != nil && m != nil {
		s.access(mapPtr(m), HarnessSite, false, "map")
		if s.ended {
			runtime.Goexit()
		}
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR records a read of a map.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if s := active(); s != nil && m != nil {
		s.MemOps++
		s.point(pMem, site)
		s.access(mapPtr(m), site, false, "map")
		if s.ended {
			runtime.Goexit()
		}
	}
	return m
}

// MW records a write of a map.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if s := active(); s != nil && m != nil {
		s.MemOps++
		s.point(pMem, site)
		s.access(mapPtr(m), site, true, "map")
		if s.ended {
			runtime.Goexit()
		}
	}
	return m
}

// MKeys returns the keys of a map in an order drawn from the seed: the language
// leaves it open. Quiet sections see them sorted.
func MKeys[M ~map[K]V, K comparable, V any](m M, site int) []K {
	MR(m, site)
	return mkeys(m, site != HarnessSite)
}

// MK numbers a map key that is an address, so that such keys have an order that
// does not depend on the address.
func MK[K any](k K) K {
	if s := S; s != nil {
		s.addrID(reflect.ValueOf(k))
	}
	return k
}

func (s *Sim) addrID(v reflect.Value) uint64 {
	switch v.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Map:
		p := v.Pointer()
		n, ok := s.addrs[p]
		if !ok {
			n = uint64(len(s.addrs) + 1)
			s.addrs[p] = n
			s.keep = append(s.keep, v.Interface())
		}
		return n
	}
	return 0
}

func mkeys[M ~map[K]V, K comparable, V any](m M, shuffle bool) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return lessAny(keys[i], keys[j]) })
	if s := S; s != nil && shuffle && !s.quiet && len(keys) > 1 {
		s.mapRanges++
		r := NewRand(mix(s.cfg.Seed, uint64(s.mapRanges)))
		for i := len(keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func lessAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() != vb.Kind() {
		return va.Kind() < vb.Kind()
	}
	switch va.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		if S != nil {
			return S.addrID(va) < S.addrID(vb)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float()
	case reflect.String:
		return va.String() < vb.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// MKeyZero, MValZero and ElemZero return zero values for loop variables.
func MKeyZero[M ~map[K]V, K comparable, V any](m M) (z K) { return }

// MValZero returns the zero value of the map's elements.
func MValZero[M ~map[K]V, K comparable, V any](m M) (z V) { return }

// ElemZero returns the zero value of the slice's elements.
func ElemZero[S ~[]E, E any](s S) (z E) { return }

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// App records the accesses of append(s, n elements).
func App[S ~[]E, E any](s S, n int, site int) S {
	sim := active()
	if sim == nil {
		return s
	}
	var z E
	if unsafe.Sizeof(z) == 0 {
		return s
	}
	sim.point(pMem, site)
	if cap(s)-len(s) >= n {
		f := s[:cap(s)]
		for i := 0; i < n; i++ {
			sim.access(unsafe.Pointer(&f[len(s)+i]), site, true, "memory")
		}
		return s
	}
	for i := range s {
		sim.access(unsafe.Pointer(&s[i]), site, false, "memory")
	}
	return s
}

// AppSpread records the accesses of append(s, other...).
func AppSpread[S ~[]E, E any](s S, site int) S {
	n := 0
	if cap(s) > len(s) {
		n = 1
	}
	if n == 0 {
		return App(s, 1, site)
	}
	return App(s, n, site)
}

// SliceR records a read of every element.
func SliceR[S ~[]E, E any](s S, site int) S {
	sim := active()
	var z E
	if sim != nil && unsafe.Sizeof(z) > 0 && len(s) > 0 {
		sim.point(pMem, site)
		for i := range s {
			sim.access(unsafe.Pointer(&s[i]), site, false, "memory")
		}
	}
	return s
}

// SliceW records a write of every element.
func SliceW[S ~[]E, E any](s S, site int) S {
	sim := active()
	var z E
	if sim != nil && unsafe.Sizeof(z) > 0 && len(s) > 0 {
		sim.point(pMem, site)
		for i := range s {
			sim.access(unsafe.Pointer(&s[i]), site, true, "memory")
		}
	}
	return s
}
