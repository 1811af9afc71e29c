package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/ref"
)

// Data of 4 GiB and more, which no push can hold, lies in memory that is mapped and
// never touched, in a process of its own with a wider limit.

const hugeSpace = 8 << 30

// huge is what that process does: it prints what went wrong.
func huge(kind string) {
	bad := func(format string, a ...any) { fmt.Printf("wrong: "+format+"\n", a...) }
	if strconv.IntSize < 64 {
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: hugeSpace, Max: hugeSpace})
	n := int(wide(1<<32) + 5)
	if kind == "transaction" {
		n = 1<<28 + 5
	}
	mem, err := syscall.Mmap(-1, 0, n+64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println("skipped:", err)
		return
	}
	switch kind {
	case "push":
		hugePush(mem[:n], n, bad)
	case "decode":
		hugeDecode(mem, bad)
	case "transaction":
		hugeTx(mem, n, bad)
	}
	runtime.KeepAlive(mem)
	fmt.Println("done")
}

func hugePush(mem []byte, n int, bad func(string, ...any)) {
	for _, l := range []int{n - 7, n - 6, n - 5, n - 4, n} {
		d := mem[:l:l]
		p, err := script.GetPushDataPrefix(d)
		if l < n-5 {
			want := []byte{0x4e, byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)}
			if err != nil || !bytes.Equal(p, want) {
				bad("GetPushDataPrefix of %d bytes = %x, %v instead of %x", l, p, err, want)
			}
			continue
		}
		if err == nil {
			bad("GetPushDataPrefix of %d bytes, which no push can hold, = %x without an error", l, p)
		}
	}
	for _, l := range []int{n - 5, n} {
		d := mem[:l:l]
		if b, err := script.EncodeParts([][]byte{{1, 2}, d, {3}}); err == nil {
			bad("EncodeParts with a part of %d bytes, which no push can hold, gives %d bytes without an error", l, len(b))
		}
		s := script.NewFromBytes([]byte{0x51})
		if err := s.AppendPushData(d); err == nil || s.ToString() != "51" {
			bad("AppendPushData of %d bytes: error %v, the script has %d bytes", l, err, len(*s))
		}
		if err := s.AppendPushDataArray([][]byte{{1}, d}); err == nil || s.ToString() != "51" {
			bad("AppendPushDataArray with %d bytes: error %v, the script has %d bytes", l, err, len(*s))
		}
		if _, err := output.NewOpReturn(d); err == nil {
			bad("NewOpReturn of %d bytes gives no error", l)
		}
		if _, err := output.NewOpReturnParts([][]byte{{1}, d}); err == nil {
			bad("NewOpReturnParts with %d bytes gives no error", l)
		}
	}
}

// hugeDecode decodes a push of up to 2^32-1 bytes, and one that is a byte short.
func hugeDecode(mem []byte, bad func(string, ...any)) {
	mem[0] = 0x4e
	for _, l := range []int{1<<30 + 1, wide(1<<31 - 1), wide(1 << 31), wide(1<<31 + 9), wide(1<<32 - 1)} {
		copy(mem[1:], []byte{byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)})
		mem[5+l] = 0x76
		mem[5+l-1] = 0x77
		parts, err := script.DecodeParts(mem[: 5+l+1 : 5+l+1])
		if err != nil || len(parts) != 2 || len(parts[0]) != l || parts[0][l-1] != 0x77 || !bytes.Equal(parts[1], []byte{0x76}) {
			bad("DecodeParts of a push of %d bytes and an opcode gives %d parts and %v", l, len(parts), err)
		}
		parts, err = script.DecodeParts(mem[: 5+l-1 : 5+l-1])
		if err == nil || len(parts) != 0 {
			bad("DecodeParts of a push of %d bytes, of which one is not there, gives %d parts and no error", l, len(parts))
		}
		mem[5+l], mem[5+l-1] = 0, 0
	}
}

// hugeTx parses and writes a transaction with a script of 2^28 bytes.
func hugeTx(mem []byte, n int, bad func(string, ...any)) {
	big := mem[:n:n]
	for i := 0; i < n; i += 4093 {
		big[i] = byte(i >> 12)
	}
	for k := 0; k < 2; k++ {
		m := &ref.Tx{Version: 2, Lock: 7}
		m.Ins = []ref.In{{Vout: 1, Seq: 5, Script: []byte{1, 2}}}
		m.Outs = []ref.Out{{Sats: 99, Script: []byte{0x51}}}
		if k == 0 {
			m.Ins[0].Script = big
		} else {
			m.Outs[0].Script = big
		}
		b := m.Encode()
		t, err := transaction.NewFromBytes(b)
		if err != nil || len(t.Inputs) != 1 || len(t.Outputs) != 1 {
			bad("NewFromBytes of a transaction with a script of %d bytes: %v", n, err)
			continue
		}
		if s := t.Inputs[0].UnlockingScript; s == nil || !bytes.Equal(*s, m.Ins[0].Script) {
			bad("the unlocking script of %d bytes came back with %d bytes or others", len(m.Ins[0].Script), len(sbytes(s)))
		}
		if s := t.Outputs[0].LockingScript; s == nil || !bytes.Equal(*s, m.Outs[0].Script) {
			bad("the locking script of %d bytes came back with %d bytes or others", len(m.Outs[0].Script), len(sbytes(s)))
		}
		if got := t.ToBytes(); !bytes.Equal(got, b) {
			bad("ToBytes of a transaction with a script of %d bytes gives %d bytes, or others, and not %d", n, len(got), len(b))
		}
		if id := t.GetTxID(); id != ref.RevHex(ref.Sha256d(b)) {
			bad("GetTxID of a transaction with a script of %d bytes: %s", n, id)
		}
	}
}

// cHuge has a process work on data of that size.
func cHuge(c *C, kind string) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	// not an observed call: it is the other process that makes those
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	out, err := exec.CommandContext(ctx, exe, "huge", kind).Output()
	c.In("case", c.Index)
	text := string(out)
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "wrong: ") {
			c.Fail("%s", l[7:])
		}
	}
	if !strings.Contains(text, "done") && !strings.Contains(text, "skipped") && strconv.IntSize == 64 {
		what := ""
		if e, ok := err.(*exec.ExitError); ok {
			what = string(e.Stderr[:min(len(e.Stderr), 300)])
		}
		// code that copies the data may run out of memory, or take too long
		if strings.HasPrefix(what, "panic") {
			c.Fail("huge data (%s) ends the process: %s", kind, what)
		}
		return
	}
	if strings.Contains(text, "done") {
		c.Hit("huge data")
	}
}
