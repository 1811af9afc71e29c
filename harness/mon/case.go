package mon

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Stage is one workload of a property: N cases, each run by Run.
type Stage struct {
	Name  string
	Quick int // cases in the quick tier
	Deep  int // cases in the thorough tier
	Run   func(c *C)
	// MeasureAlloc makes Call measure what each call allocates.
	MeasureAlloc bool
	// NoGuide excludes the stage from guided cases (its cases are expensive, or
	// do not depend on the generator alone).
	NoGuide bool
}

// Prop is a property and the workloads that decide it.
type Prop struct {
	ID     string
	Rule   string
	Stages []Stage
	// Need are features that must have been observed at least once (at least
	// the given number of times), else the run is inconclusive.
	Need map[string]int
	Race bool // runs in the race-detector build, all goroutines in one process
}

// Counters is what a shard observed.
type Counters struct {
	Cases    int64
	Calls    map[string]int64
	Errors   map[string]int64 // calls that returned an error
	Hits     map[string]int64
	Checks   int64
	Retained int64
	Spoiled  int64 // results edited by the monitors after they were judged
	Guarded  int64
	MaxAlloc int64
	Stages   map[string]int64
	Samples  []Sample
	Sigs     map[uint64]struct{} `json:"-"`
	// What guided the workload: counters in libsv's code, those reached, what
	// was observed of them and of comparisons, and the cases kept for it.
	CodeCounters, CodeReached, CodeFeatures, Kept int64
	// Agreed maps what was asked to what was answered, and Unique holds values
	// that may occur only once; both are compared between shards as well.
	Agreed map[uint64]Answer
	Unique map[string]string
}

// Answer is a fingerprint of an answer and where it was given.
type Answer struct {
	Hash uint64
	What string
}

type Sample struct {
	Stage string   `json:"stage"`
	Index int      `json:"index"`
	Trace []string `json:"trace"`
}

func NewCounters() *Counters {
	return &Counters{Calls: map[string]int64{}, Errors: map[string]int64{}, Hits: map[string]int64{}, Stages: map[string]int64{}, Sigs: map[uint64]struct{}{}, Agreed: map[uint64]Answer{}, Unique: map[string]string{}}
}

// Violation is thrown by C.Fail.
type Violation struct{ Msg string }

// C is the context of one case.
type C struct {
	R       *R
	Seed    uint64 // of the run
	Index   int
	Tier    string
	Cnt     *Counters
	Stage   *Stage
	Slot    *Slot
	Tracing bool
	Trace   []string
	sig     uint64
	triv    bool

	guards  []guard
	strs    []strGuard
	watches []watch
	ring    *Ring

	// In every other case the results are edited when it is over; those of the
	// others are retained.
	spoils bool
	owned  []any

	// LastAlloc is what the last call allocated, if measured.
	LastAlloc uint64
	inCall    string
	slotIndex int
}

type guard struct {
	whole []byte
	orig  []byte
	name  string
	pre   int // bytes in front of the argument
}

type strGuard struct {
	s, orig string
	name    string
}

type watch struct {
	name string
	want string
	get  func() string
}

// Fail reports a violation and ends the case.
func (c *C) Fail(format string, a ...any) {
	panic(Violation{fmt.Sprintf(format, a...)})
}

// Check fails the case unless ok.
func (c *C) Check(ok bool, format string, a ...any) {
	c.Cnt.Checks++
	if !ok {
		c.Fail(format, a...)
	}
}

func short(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x...(%d bytes, fnv %x)", b[:96], len(b), Hash64(b))
	}
	return hex.EncodeToString(b)
}

// ShowHook renders values of types this package does not know.
var ShowHook func(any) (string, bool)

// Show renders a value for a trace or message.
func Show(v any) string {
	switch x := v.(type) {
	case []byte:
		if x == nil {
			return "nil"
		}
		return short(x)
	case string:
		if len(x) > 300 {
			return fmt.Sprintf("%q...(%d chars, fnv %x)", x[:200], len(x), HashStr(x))
		}
		return fmt.Sprintf("%q", x)
	case [][]byte:
		var s []string
		for i, b := range x {
			if i == 12 {
				s = append(s, fmt.Sprintf("...(%d)", len(x)))
				break
			}
			s = append(s, short(b))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []string:
		if len(x) > 12 {
			return fmt.Sprintf("%q...(%d)", x[:12], len(x))
		}
		return fmt.Sprintf("%q", x)
	case error:
		return "error(" + x.Error() + ")"
	}
	s, ok := "", false
	if ShowHook != nil {
		s, ok = ShowHook(v)
	}
	if !ok {
		s = fmt.Sprintf("%v", v)
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// In records an input of the case: it goes into the signature by which distinct
// cases are counted, and into the trace.
func (c *C) In(name string, v any) {
	h := HashStr(name)
	switch x := v.(type) {
	case []byte:
		h ^= Hash64(x) * 3
	case string:
		h ^= HashStr(x) * 5
	default:
		h ^= HashStr(fmt.Sprint(v)) * 7
	}
	c.sig = mix(c.sig*31 + h)
	if c.Tracing {
		c.Trace = append(c.Trace, name+" = "+Show(v))
	}
}

// Trivial marks the case as one that exercises nothing worth counting.
func (c *C) Trivial() { c.triv = true }

// Hit counts an observed feature.
func (c *C) Hit(f string) { c.Cnt.Hits[f]++ }

// HitN counts something seen n times.
func (c *C) HitN(f string, n int) { c.Cnt.Hits[f] += int64(n) }

func (c *C) Note(format string, a ...any) {
	if c.Tracing {
		c.Trace = append(c.Trace, fmt.Sprintf(format, a...))
	}
}

const canary = 0xc5

// Buf returns a copy of b with a guarded margin before it and guarded spare
// capacity behind it. Every later call checks that nothing of it changed.
func (c *C) Buf(name string, b []byte) []byte {
	const post = 40
	pre := 16 + c.shift()
	w := make([]byte, pre+len(b)+post)
	for i := range w {
		w[i] = canary
	}
	copy(w[pre:], b)
	c.guards = append(c.guards, guard{w, append([]byte{}, w...), name, pre})
	c.Cnt.Guarded++
	return w[pre : pre+len(b)]
}

// shift is how far the next argument lies behind an aligned address: by turns
// nothing and a number of bytes that follows from the case's number.
func (c *C) shift() int {
	n := uint32(c.Index)*2654435761>>9 + uint32(len(c.guards)+len(c.strs))*7
	if n&16 == 0 {
		return 0
	}
	return int(n & 15)
}

// Unguard stops watching the buffer that b lies in.
func (c *C) Unguard(b []byte) {
	for i, g := range c.guards {
		if len(b) > 0 && len(g.whole) > g.pre && &g.whole[g.pre] == &b[0] {
			c.guards = append(c.guards[:i], c.guards[i+1:]...)
			return
		}
	}
}

// Bufs guards every element, and watches the list itself.
func (c *C) Bufs(name string, bs [][]byte) [][]byte {
	out := make([][]byte, 0, len(bs)+3)
	for i, b := range bs {
		if b == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, c.Buf(fmt.Sprintf("%s[%d]", name, i), b))
	}
	spare := []byte("spare capacity")
	full := out[:cap(out)]
	for i := len(out); i < len(full); i++ {
		full[i] = spare
	}
	id := func() string {
		var s strings.Builder
		for _, b := range full {
			fmt.Fprintf(&s, "%p/%d ", unsafe.SliceData(b), len(b))
		}
		return s.String()
	}
	c.Watch(name, id)
	return out
}

// Str returns a copy of s in memory of its own that later calls must not change.
func (c *C) Str(name, s string) string {
	k := c.shift()
	b := append(make([]byte, k, k+len(s)), s...)[k:]
	var t string
	if len(b) > 0 {
		t = unsafe.String(&b[0], len(b))
	}
	c.strs = append(c.strs, strGuard{t, s, name})
	c.Cnt.Guarded++
	return t
}

// Strs guards a list of strings, with spare capacity.
func (c *C) Strs(name string, ss []string) []string {
	out := make([]string, 0, len(ss)+3)
	for i, s := range ss {
		out = append(out, c.Str(fmt.Sprintf("%s[%d]", name, i), s))
	}
	full := out[:cap(out)]
	for i := len(out); i < len(full); i++ {
		full[i] = "spare capacity"
	}
	c.Watch(name, func() string { return strings.Join(full, "\x00") })
	return out
}

// Watch checks after every later call that get still returns what it returns now.
func (c *C) Watch(name string, get func() string) {
	c.watches = append(c.watches, watch{name, get(), get})
	c.Cnt.Guarded++
}

// ClearWatches forgets watches and guards (when the case is about to change what
// they watch).
func (c *C) ClearWatches() { c.guards, c.strs, c.watches = nil, nil, nil }

// CheckGuards verifies guards and watches.
func (c *C) CheckGuards(after string) {
	for _, g := range c.guards {
		if !bytes.Equal(g.whole, g.orig) {
			for i := range g.whole {
				if g.whole[i] != g.orig[i] {
					c.Fail("%s changed memory it was given: %s, offset %d of %d bytes (margins of %d and 40 bytes around them): %02x became %02x", after, g.name, i-g.pre, len(g.whole)-g.pre-40, g.pre, g.orig[i], g.whole[i])
				}
			}
		}
	}
	for _, g := range c.strs {
		if g.s != g.orig {
			c.Fail("%s changed the string %s it was given: %q became %q", after, g.name, g.orig, g.s)
		}
	}
	for i := range c.watches {
		w := &c.watches[i]
		if got := w.get(); got != w.want {
			c.Fail("%s changed %s: %s became %s", after, w.name, Show(w.want), Show(got))
		}
	}
}

// Call runs one call into the library and observes it at its boundary.
func (c *C) Call(api string, f func()) {
	c.Cnt.Calls[api]++
	if c.Slot != nil {
		c.Slot.Enter(c.Stage.Name, c.slotIndex, api)
	}
	c.inCall = api
	var m0, m1 runtime.MemStats
	if c.Stage.MeasureAlloc {
		runtime.ReadMemStats(&m0)
	}
	f()
	if c.Stage.MeasureAlloc {
		runtime.ReadMemStats(&m1)
		c.LastAlloc = m1.TotalAlloc - m0.TotalAlloc
		if int64(c.LastAlloc) > c.Cnt.MaxAlloc {
			c.Cnt.MaxAlloc = int64(c.LastAlloc)
		}
	}
	c.inCall = ""
	if c.Slot != nil {
		c.Slot.Leave()
	}
	c.CheckGuards(api)
}

// Do is Call for a function with one result.
func Do[T any](c *C, api string, f func() T) T {
	var r T
	c.Call(api, func() { r = f() })
	if c.Tracing {
		c.Trace = append(c.Trace, api+" -> "+Show(any(r)))
	}
	c.own(api, any(r))
	return r
}

// Do2 is Call for a function with a result and an error.
func Do2[T any](c *C, api string, f func() (T, error)) (T, error) {
	var r T
	var err error
	c.Call(api, func() { r, err = f() })
	if err != nil {
		c.Cnt.Errors[api]++
	}
	if c.Tracing {
		if err != nil {
			c.Trace = append(c.Trace, api+" -> "+Show(err))
		} else {
			c.Trace = append(c.Trace, api+" -> "+Show(any(r)))
		}
	}
	if err == nil {
		c.own(api, any(r))
	}
	return r, err
}

// Wraps are the calls whose result is, or is a part of, what they were given.
var Wraps = map[string]bool{}

// SpoilHook edits results of types this package does not know.
var SpoilHook func(any)

// Spoil edits a result as a caller may who owns it.
func Spoil(v any) {
	switch x := v.(type) {
	case []byte:
		n := len(x)
		x = x[:cap(x)]
		for i := range x {
			if i < 256 || i > n-64 {
				x[i] ^= 0xa5
			}
			if i > n+64 {
				break
			}
		}
	case [][]byte:
		for _, b := range x {
			if len(b) > 0 {
				b[0] ^= 0xa5
				b[len(b)-1] ^= 0x5a
			}
		}
		spoilList(x)
	case List:
		spoilList(x)
	case []string:
		y := append(x, "spoiled", "spoiled too")
		for i := range y {
			y[i] = "spoiled"
		}
		for i := range x {
			x[i] = "spoiled"
		}
	default:
		if SpoilHook != nil {
			SpoilHook(v)
		}
	}
}

// List is a list that is the caller's though its elements are not.
type List [][]byte

func spoilList(x [][]byte) {
	s := []byte("spoiled")
	y := append(x, s, s)
	for i := range y {
		y[i] = s
	}
	for i := range x {
		x[i] = s
	}
}

func (c *C) own(api string, v any) {
	if c.spoils && len(c.owned) < 64 && !Wraps[api] {
		switch v.(type) {
		case bool, string, int, uint64, float64:
		default:
			c.owned = append(c.owned, v)
		}
	}
}

// spoilOwned edits, after every other case, what its calls returned: nothing that
// later cases get may be changed by that.
func (c *C) spoilOwned() {
	if c.spoils {
		for _, v := range c.owned {
			Spoil(v)
			c.Cnt.Spoiled++
		}
	}
	c.owned = nil
}

// DoErr is Call for a function with an error only.
func DoErr(c *C, api string, f func() error) error {
	var err error
	c.Call(api, func() { err = f() })
	if err != nil {
		c.Cnt.Errors[api]++
	}
	if c.Tracing {
		c.Trace = append(c.Trace, fmt.Sprintf("%s -> %v", api, err))
	}
	return err
}

// Ring keeps results of past calls, and checks from time to time that they are
// still what they were.
type Ring struct {
	ents []ringEnt
	next int
}

type ringEnt struct {
	from string
	get  func() string
	want string
}

const ringSize = 48

// Keep retains a result: get is called later, and must return the same.
func (c *C) Keep(from string, get func() string) {
	if c.ring == nil || c.spoils {
		return
	}
	e := ringEnt{fmt.Sprintf("%s (stage %s, case %d)", from, c.Stage.Name, c.Index), get, get()}
	c.Cnt.Retained++
	if len(c.ring.ents) < ringSize {
		c.ring.ents = append(c.ring.ents, e)
		return
	}
	c.ring.ents[c.ring.next%ringSize] = e
	c.ring.next++
}

// KeepBytes retains bytes that were returned.
func (c *C) KeepBytes(from string, b []byte) {
	c.Keep(from, func() string { return string(b) })
}

func (c *C) checkRing() {
	if c.ring == nil {
		return
	}
	for _, e := range c.ring.ents {
		if got := e.get(); got != e.want {
			c.Fail("a result of %s was changed by later calls: %s became %s", e.from, Show(e.want), Show(got))
		}
	}
}

// EqBytes checks that got is want.
func (c *C) EqBytes(what string, got, want []byte) {
	c.Cnt.Checks++
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Fail("%s: got %s, want %s (lengths %d and %d, first difference at %d)", what, short(got), short(want), len(got), len(want), i)
	}
}

// Eq checks that got is want.
func Eq[T comparable](c *C, what string, got, want T) {
	c.Cnt.Checks++
	if got != want {
		c.Fail("%s: got %s, want %s", what, Show(any(got)), Show(any(want)))
	}
}

// Agree checks that a question gets the same answer whenever it is asked, in
// this process or another one.
func (c *C) Agree(question uint64, answer, what string) {
	c.Cnt.Checks++
	h := HashStr(answer)
	if a, ok := c.Cnt.Agreed[question]; ok {
		if a.Hash != h {
			c.Fail("%s gave another result when called before (%s)", what, a.What)
		}
		return
	}
	if len(c.Cnt.Agreed) >= maxRemembered {
		return
	}
	c.Cnt.Agreed[question] = Answer{h, fmt.Sprintf("%s; stage %s, case %d", what, c.Stage.Name, c.Index)}
}

// what a process remembers at most
const maxRemembered = 400000

// Only checks that a value has not been seen before, in this process or
// another one.
func (c *C) Only(value, what string) {
	c.Cnt.Checks++
	if w, ok := c.Cnt.Unique[value]; ok {
		c.Fail("%s was seen before, in %s", what, w)
	}
	if len(c.Cnt.Unique) >= 4*maxRemembered {
		return
	}
	c.Cnt.Unique[value] = fmt.Sprintf("%s; stage %s, case %d", what, c.Stage.Name, c.Index)
}
