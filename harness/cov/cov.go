// Package cov reads the coverage counters and comparisons of libsv's code, if
// that was compiled with -d=libfuzzer (see run.sh). Without that flag there are
// no counters, and the hooks below are never called.
package cov

import (
	"math/bits"
	"unsafe"
)

//go:linkname first internal/fuzz._counters
var first [0]byte

//go:linkname end internal/fuzz._ecounters
var end [0]byte

// The hooks are called in places where the compiler expects no call that could
// move the stack (between the steps of a range loop, whose position may be held as
// a number): they must not be able to, so all of them are nosplit.

//go:linkname traceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname traceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname traceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname traceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname traceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname traceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname traceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname traceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname hookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname hookEqualFold runtime.libfuzzerHookEqualFold

//go:nosplit
func traceCmp1(a, b uint8, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceCmp2(a, b uint16, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceCmp4(a, b uint32, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceCmp8(a, b uint64, pc uint) { cmp(a, b, pc) }

//go:nosplit
func traceConstCmp1(a, b uint8, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceConstCmp2(a, b uint16, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceConstCmp4(a, b uint32, pc uint) { cmp(uint64(a), uint64(b), pc) }

//go:nosplit
func traceConstCmp8(a, b uint64, pc uint) { cmp(a, b, pc) }

//go:nosplit
func hookStrCmp(a, b string, pc uint) { str(a, b, pc) }

//go:nosplit
func hookEqualFold(a, b string, pc uint) { str(a, b, pc) }

const sites = 1 << 13

var (
	counters = unsafe.Slice((*byte)(unsafe.Pointer(&first)), uintptr(unsafe.Pointer(&end))-uintptr(unsafe.Pointer(&first)))
	seen     = make([]byte, len(counters)) // buckets of hit counts seen, per counter
	near     [sites][3]uint64              // distances seen, per comparison
	on       bool
	fresh    int
	work     uint64
	total    int
)

// On says whether libsv is compiled with counters.
func On() bool { return len(counters) > 0 }

// Counters is the number of counters.
func Counters() int { return len(counters) }

// Reached is how many counters were ever not zero, and Features is how many
// different observations were made: counters with a new order of magnitude of
// hits, comparisons with a new distance of their operands.
func Reached() (n int) {
	for _, b := range seen {
		if b != 0 {
			n++
		}
	}
	return
}

func Features() int { return total }

//go:nosplit
func cmp(a, b uint64, pc uint) {
	if !on {
		return
	}
	work++
	s := &near[(pc^pc>>13)%sites]
	x := uint64(1) << (bits.OnesCount64(a^b) & 63)
	d := a - b
	if a < b {
		d = b - a
	}
	y := uint64(1) << (bits.Len64(d) & 63)
	if s[0]&x == 0 {
		s[0] |= x
		fresh++
	}
	if s[1]&y == 0 {
		s[1] |= y
		fresh++
	}
}

//go:nosplit
func str(a, b string, pc uint) {
	if !on {
		return
	}
	s := &near[(pc^pc>>13)%sites]
	n := 0
	for n < len(a) && n < len(b) && n < 60 && a[n] == b[n] {
		n++
	}
	if n == len(a) && n == len(b) {
		n = 61
	}
	if x := uint64(1) << (n & 63); s[2]&x == 0 {
		s[2] |= x
		fresh++
	}
}

// Start begins the observation of a case.
func Start() {
	clear(counters)
	fresh, work = 0, 0
	on = true
}

// Work is the number of comparisons made in the case that was last observed.
func Work() uint64 { return work }

// Stop ends it, and returns how many things were observed for the first time.
func Stop() int {
	on = false
	i := 0
	for ; i+8 <= len(counters); i += 8 {
		if *(*uint64)(unsafe.Pointer(&counters[i])) != 0 {
			for k := i; k < i+8; k++ {
				count(k)
			}
		}
	}
	for ; i < len(counters); i++ {
		count(i)
	}
	total += fresh
	return fresh
}

func count(k int) {
	n := counters[k]
	if n == 0 {
		return
	}
	b := byte(1)
	switch {
	case n >= 128:
		b = 128
	case n >= 32:
		b = 64
	case n >= 16:
		b = 32
	case n >= 8:
		b = 16
	case n >= 4:
		b = 8
	case n == 3:
		b = 4
	case n == 2:
		b = 2
	}
	if seen[k]&b == 0 {
		if seen[k] == 0 {
			fresh += 8
		}
		seen[k] |= b
		fresh++
	}
}
