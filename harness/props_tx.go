package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime"
	"strings"
	"time"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/mon"
	"verif/harness/ref"
)

func parseTx(c *C, b []byte) (*Tx, error) {
	return mon.Do2(c, "transaction.NewFromBytes", func() (*Tx, error) { return transaction.NewFromBytes(b) })
}

func parseTxHex(c *C, s string) (*Tx, error) {
	return mon.Do2(c, "transaction.NewFromString", func() (*Tx, error) { return transaction.NewFromString(s) })
}

func parseIn(c *C, b []byte) (i *input.Input, n int, err error) {
	c.Call("input.NewFromBytes", func() { i, n, err = input.NewFromBytes(b) })
	if err != nil {
		c.Cnt.Errors["input.NewFromBytes"]++
	}
	return
}

func parseOut(c *C, b []byte) (o *output.Output, n int, err error) {
	c.Call("output.NewFromBytes", func() { o, n, err = output.NewFromBytes(b) })
	if err != nil {
		c.Cnt.Errors["output.NewFromBytes"]++
	}
	return
}

func txBytes(c *C, t *Tx) []byte  { return mon.Do(c, "Transaction.ToBytes", t.ToBytes) }
func txString(c *C, t *Tx) string { return mon.Do(c, "Transaction.ToString", t.ToString) }
func txID(c *C, t *Tx) string     { return mon.Do(c, "Transaction.GetTxID", t.GetTxID) }

// sizeAt maps the index of a systematic case to a script length.
func sizeAt(i int) int {
	if i <= 600 {
		return i
	}
	extra := []int{1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 70000, 131071, 131072}
	return extra[(i-601)%len(extra)]
}

const nSizes = 622

// countAt maps the index of a systematic case to a count of inputs or outputs.
func countAt(i int) int {
	const all = 301
	if i < all {
		return i
	}
	xs := []int{399, 400, 401, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000}
	if i-all < len(xs) {
		return xs[i-all]
	}
	big := []int{65534, 65535, 65536, 65537}
	return big[(i-all-len(xs))%4]
}

const nCounts = 301 + 16

// largeCount gives counts up to hi, many of them around numbers at which
// implementations like to change their ways.
func largeCount(r *R, hi int) int {
	for {
		n := 0
		switch r.N(4) {
		case 0:
			n = 1<<r.In(8, 17) + r.In(-1, 2)
		case 1:
			n = mon.Pick(r, 100, 250, 256, 1000, 1024, 4096, 5000, 10000)*r.In(1, 9) + r.In(-1, 1)
		default:
			n = r.In(250, 1<<r.In(9, 17))
		}
		if n <= hi {
			return n
		}
	}
}

func t01Round(c *C, m *ref.Tx) {
	t := buildTx(c, m)
	small := len(m.Ins)+len(m.Outs) < 300 && m.Size() < 1<<20
	if small {
		c.Watch("the transaction", func() string { return dumpTx(t) })
	}
	b := txBytes(c, t)
	p, err := parseTx(c, c.Buf("serialised transaction", b))
	c.Check(err == nil, "the serialised transaction does not parse: %v", err)
	checkTxIs(c, "parsed from bytes", p, m, false)
	s := txString(c, t)
	p2, err := parseTxHex(c, c.Str("serialised transaction", s))
	c.Check(err == nil, "the serialised transaction does not parse from hex: %v", err)
	checkTxIs(c, "parsed from hex", p2, m, false)
	// canonical bytes, made by the reference encoder
	e := m.Encode()
	p3, err := parseTx(c, e)
	c.Check(err == nil, "a canonical encoding does not parse: %v", err)
	c.EqBytes("parsed and serialised again", txBytes(c, p3), e)
	mon.Eq(c, "parsed and serialised again as hex", txString(c, p3), ref.Hex(e))
	c.EqBytes("parsed twice and serialised", txBytes(c, p), e)
	if small {
		c.Keep("transaction.NewFromBytes", func() string { return dumpTx(p) })
		c.KeepBytes("Transaction.ToBytes", b)
	}
}

func t01Parts(c *C) {
	m := genIn(c.R, 70000)
	c.In("input", m.Encode(m.Script))
	in := mkIn(&m)
	b := mon.Do(c, "Input.ToBytes", func() []byte { return in.ToBytes(false) })
	tail := c.R.Bytes(c.R.N(20))
	if c.R.P(20) {
		tail = nil
	}
	c.In("bytes behind", tail)
	p, n, err := parseIn(c, c.Buf("input bytes", ref.Cat(b, tail)))
	c.Check(err == nil, "a serialised input does not parse: %v", err)
	mon.Eq(c, "consumed by the input", n, len(b))
	checkInIs(c, "parsed input", p, &m, false)
	e := m.Encode(m.Script)
	p, n, err = parseIn(c, ref.Cat(e, tail))
	c.Check(err == nil && n == len(e), "a canonical input does not parse: %v, %d of %d bytes", err, n, len(e))
	c.EqBytes("input parsed and serialised", mon.Do(c, "Input.ToBytes", func() []byte { return p.ToBytes(false) }), e)

	o := genOut(c.R, 70000)
	c.In("output", o.Encode())
	oo := mkOut(&o)
	b = mon.Do(c, "Output.ToBytes", oo.ToBytes)
	po, n, err := parseOut(c, c.Buf("output bytes", ref.Cat(b, tail)))
	c.Check(err == nil, "a serialised output does not parse: %v", err)
	mon.Eq(c, "consumed by the output", n, len(b))
	checkOutIs(c, "parsed output", po, &o)
	e = o.Encode()
	po, n, err = parseOut(c, ref.Cat(e, tail))
	c.Check(err == nil && n == len(e), "a canonical output does not parse: %v, %d of %d bytes", err, n, len(e))
	c.EqBytes("output parsed and serialised", mon.Do(c, "Output.ToBytes", po.ToBytes), e)
}

func smallTx(r *R, ni, no int) *ref.Tx {
	t := &ref.Tx{Version: genU32(r), Lock: genU32(r)}
	for i := 0; i < ni; i++ {
		in := ref.In{Hash: genHash(r), Vout: genU32(r), Seq: genU32(r), PrevSats: genU64(r), HasPrev: true}
		in.Script = r.Bytes(r.N(4))
		in.PrevScript = r.Bytes(r.N(4))
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < no; i++ {
		t.Outs = append(t.Outs, ref.Out{Sats: genU64(r), Script: r.Bytes(r.N(4))})
	}
	return t
}

// minimalTx has only empty scripts, so that its inputs and outputs are as short
// as they can be: no shorter encoding has as many of them.
func minimalTx(r *R, ni, no int) *ref.Tx {
	t := &ref.Tx{Version: genU32(r), Lock: genU32(r)}
	same := r.Bool()
	for i := 0; i < ni; i++ {
		in := ref.In{Hash: genHash(r), Vout: genU32(r), Seq: genU32(r), HasPrev: true}
		if same && i > 0 {
			in = t.Ins[0]
		}
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < no; i++ {
		t.Outs = append(t.Outs, ref.Out{Sats: mon.Pick(r, 0, genU64(r))})
	}
	return t
}

// manyAt gives numbers of inputs and outputs, one of which may be large.
func manyAt(r *R, i int) (ni, no int) {
	k := countAt(i / 3 % nCounts)
	if i >= 3*nCounts {
		k = mon.Pick(r, r.N(300), r.N(3000), r.In(1000, 12000))
	}
	switch i % 3 {
	case 0:
		return k, r.N(3)
	case 1:
		return r.N(3), k
	}
	return k, k
}

// largeTx gives numbers of inputs and outputs, one or both of which are large.
func largeTx(c *C) (ni, no int) {
	r := c.R
	ni, no = largeCount(r, 70000), largeCount(r, 70000)
	if c.Index < 2 { // behind 2^16 in any case
		ni, no = 1<<16+r.In(1, 4000), 1<<16+r.In(1, 4000)
	}
	switch c.Index % 3 {
	case 0:
		ni = r.In(1, 3)
	case 1:
		no = r.N(3)
	}
	c.In("inputs", ni)
	c.In("outputs", no)
	c.Hit("thousands of inputs or outputs")
	return
}

// twinTx has the same input and output objects in it several times over.
func twinTx(r *R) (*Tx, *ref.Tx) {
	m := smallTx(r, r.N(3), r.N(3))
	if r.P(30) {
		m = genTx(r)
		m.Ins, m.Outs = m.Ins[:min(len(m.Ins), 3)], m.Outs[:min(len(m.Outs), 3)]
	}
	for i := range m.Outs {
		m.Outs[i].Sats >>= 4 // for the total
	}
	t := mkTx(m)
	ins, outs, ti, to := m.Ins, m.Outs, t.Inputs, t.Outputs
	m.Ins, m.Outs, t.Inputs, t.Outputs = nil, nil, nil, nil
	for i := r.N(9); i > 0 && len(ins) > 0; i-- {
		j := r.N(len(ins))
		m.Ins, t.Inputs = append(m.Ins, ins[j]), append(t.Inputs, ti[j])
	}
	for i := r.N(9); i > 0 && len(outs) > 0; i-- {
		j := r.N(len(outs))
		m.Outs, t.Outputs = append(m.Outs, outs[j]), append(t.Outputs, to[j])
	}
	return t, m
}

// sizedTx has scripts of exactly the given length somewhere.
func sizedTx(r *R, n int) *ref.Tx {
	t := smallTx(r, r.In(1, 3), r.In(1, 3))
	t.Ins[r.N(len(t.Ins))].Script = genBytes(r, n)
	t.Outs[r.N(len(t.Outs))].Script = genBytes(r, n)
	t.Ins[r.N(len(t.Ins))].PrevScript = genBytes(r, n)
	return t
}

// t02Observe compares everything a transaction says of itself with the model.
// giantTx has a script of about 2^24 bytes, in an input or an output.
func giantTx(c *C) *ref.Tx {
	r := c.R
	n := 1<<24 + mon.Pick(r, -1, 0, 1, r.In(2, 70000))
	m := smallTx(r, 2, 2)
	if c.Index%2 == 0 {
		m.Outs[r.N(2)].Script = r.Bytes(n)
	} else {
		i := r.N(2)
		m.Ins[i].Script, m.Ins[i].NilScript = r.Bytes(n), false
	}
	c.In("script length", n)
	c.In("transaction", ref.Sha256(m.Encode()))
	return m
}

func t02Observe(c *C, t *Tx, m *ref.Tx, what string) {
	e := m.Encode()
	c.EqBytes(what+": ToBytes", txBytes(c, t), e)
	mon.Eq(c, what+": GetTxID", txID(c, t), m.ID())
	mon.Eq(c, what+": ToString", txString(c, t), ref.Hex(e))
	mon.Eq(c, what+": InputCount", mon.Do(c, "Transaction.InputCount", t.InputCount), len(m.Ins))
	mon.Eq(c, what+": OutputCount", mon.Do(c, "Transaction.OutputCount", t.OutputCount), len(m.Outs))
	var sum uint64
	for i := range m.Outs {
		sum += m.Outs[i].Sats
	}
	mon.Eq(c, what+": GetTotalOutputSatoshis", mon.Do(c, "Transaction.GetTotalOutputSatoshis", t.GetTotalOutputSatoshis), sum)
	ins := mon.Do(c, "Transaction.GetInputs", t.GetInputs)
	outs := mon.Do(c, "Transaction.GetOutputs", t.GetOutputs)
	mon.Eq(c, what+": GetInputs", len(ins), len(m.Ins))
	mon.Eq(c, what+": GetOutputs", len(outs), len(m.Outs))
	for i := range ins {
		checkInIs(c, fmt.Sprintf("%s: GetInputs[%d]", what, i), ins[i], &m.Ins[i], false)
		if len(ins) < 40 || i%50 == 0 {
			c.EqBytes(what+": Input.ToBytes", mon.Do(c, "Input.ToBytes", func() []byte { return ins[i].ToBytes(false) }), m.Ins[i].Encode(m.Ins[i].Script))
			c.EqBytes(what+": Input.ToBytes cleared", mon.Do(c, "Input.ToBytes", func() []byte { return ins[i].ToBytes(true) }), m.Ins[i].Encode(nil))
		}
	}
	for i := range outs {
		checkOutIs(c, fmt.Sprintf("%s: GetOutputs[%d]", what, i), outs[i], &m.Outs[i])
		if len(outs) < 40 || i%50 == 0 {
			c.EqBytes(what+": Output.ToBytes", mon.Do(c, "Output.ToBytes", outs[i].ToBytes), m.Outs[i].Encode())
			c.EqBytes(what+": Output.GetBytesForSigHash", mon.Do(c, "Output.GetBytesForSigHash", outs[i].GetBytesForSigHash), m.Outs[i].Encode())
			mon.Eq(c, what+": GetLockingScriptHexString", mon.Do(c, "Output.GetLockingScriptHexString", outs[i].GetLockingScriptHexString), ref.Hex(m.Outs[i].Script))
		}
	}
}

// boundTotals keeps the sum of the outputs below 2^64.
func boundTotals(m *ref.Tx) {
	var sum uint64
	for i := range m.Outs {
		if sum+m.Outs[i].Sats < sum {
			m.Outs[i].Sats = 1
		}
		sum += m.Outs[i].Sats
	}
}

// editTx makes one edit to a transaction object and its model alike.
func editTx(c *C, t *Tx, m *ref.Tx) {
	r := c.R
	var what string
	switch k := r.N(22); {
	case k == 0:
		m.Version = genU32(r)
		t.Version = m.Version
		what = "version"
	case k == 1:
		m.Lock = genU32(r)
		t.Locktime = m.Lock
		what = "lock time"
	case k <= 3:
		in := genIn(r, 300)
		m.Ins = append(m.Ins, in)
		o := mkIn(&in)
		if r.Bool() {
			c.Call("Transaction.AddInput", func() { t.AddInput(o) })
		} else {
			t.Inputs = append(t.Inputs, o)
		}
		what = "add input"
	case k <= 5:
		out := genOut(r, 300)
		m.Outs = append(m.Outs, out)
		o := mkOut(&out)
		if r.Bool() {
			c.Call("Transaction.AddOutput", func() { t.AddOutput(o) })
		} else {
			t.Outputs = append(t.Outputs, o)
		}
		what = "add output"
	case k == 6 && len(m.Ins) > 0:
		i := r.N(len(m.Ins))
		m.Ins = append(m.Ins[:i:i], m.Ins[i+1:]...)
		t.Inputs = append(t.Inputs[:i], t.Inputs[i+1:]...)
		what = "remove input"
	case k == 7 && len(m.Outs) > 0:
		i := r.N(len(m.Outs))
		m.Outs = append(m.Outs[:i:i], m.Outs[i+1:]...)
		t.Outputs = append(t.Outputs[:i], t.Outputs[i+1:]...)
		what = "remove output"
	case k == 8 && len(m.Ins) > 1:
		i, j := r.N(len(m.Ins)), r.N(len(m.Ins))
		m.Ins[i], m.Ins[j] = m.Ins[j], m.Ins[i]
		t.Inputs[i], t.Inputs[j] = t.Inputs[j], t.Inputs[i]
		what = "swap inputs"
	case k == 9 && len(m.Outs) > 1:
		i, j := r.N(len(m.Outs)), r.N(len(m.Outs))
		m.Outs[i], m.Outs[j] = m.Outs[j], m.Outs[i]
		t.Outputs[i], t.Outputs[j] = t.Outputs[j], t.Outputs[i]
		what = "swap outputs"
	case k <= 15 && len(m.Ins) > 0:
		i := r.N(len(m.Ins))
		mi, ti := &m.Ins[i], t.Inputs[i]
		switch r.N(9) {
		case 0:
			mi.Vout = genU32(r)
			ti.PreviousTxOutIndex = mi.Vout
			what = "output index"
		case 1:
			mi.Seq = genU32(r)
			ti.SequenceNumber = mi.Seq
			what = "sequence"
		case 2:
			mi.Hash = genHash(r)
			ti.PreviousTxID = mi.TxID()
			what = "previous transaction ID"
		case 3:
			mi.Script, mi.NilScript = genScript(r, 300), false
			ti.UnlockingScript = scr(mi.Script)
			what = "unlocking script replaced"
		case 4:
			if len(mi.Script) > 0 && ti.UnlockingScript != nil {
				j := r.N(len(mi.Script))
				mi.Script = append([]byte{}, mi.Script...)
				mi.Script[j] ^= 0x55
				(*ti.UnlockingScript)[j] ^= 0x55
			}
			what = "unlocking script changed in place"
		case 5:
			mi.Script, mi.NilScript = genScript(r, 300), false
			s := scr(mi.Script)
			if e := r.P(80); e {
				if err := mon.DoErr(c, "Transaction.ApplyUnlockingScript", func() error { return t.ApplyUnlockingScript(uint32(i), s) }); err != nil {
					c.Fail("ApplyUnlockingScript at an existing input: %v", err)
				}
			} else {
				ti.UnlockingScript = s
			}
			what = "unlocking script applied"
		case 6:
			mi.PrevSats = genU64(r)
			ti.PreviousTxSatoshis = mi.PrevSats
			what = "spent satoshis"
		case 7:
			mi.PrevScript, mi.HasPrev = genScript(r, 300), true
			ti.PreviousTxScript = scr(mi.PrevScript)
			what = "spent script replaced"
		case 8:
			if mi.HasPrev {
				d := r.Bytes(r.N(80))
				mi.PrevScript = append(append([]byte{}, mi.PrevScript...), ref.Push(d)...)
				if err := mon.DoErr(c, "Script.AppendPushData", func() error { return ti.PreviousTxScript.AppendPushData(d) }); err != nil {
					c.Fail("AppendPushData: %v", err)
				}
			}
			what = "spent script extended"
		}
		what = fmt.Sprintf("input %d %s", i, what)
	case len(m.Outs) > 0:
		i := r.N(len(m.Outs))
		mo, to := &m.Outs[i], t.Outputs[i]
		switch r.N(5) {
		case 0, 1:
			mo.Sats = genU64(r)
			to.Satoshis = mo.Sats
			what = "satoshis"
		case 2:
			mo.Script = genScript(r, 300)
			to.LockingScript = scr(mo.Script)
			what = "locking script replaced"
		case 3:
			if len(mo.Script) > 0 {
				j := r.N(len(mo.Script))
				mo.Script = append([]byte{}, mo.Script...)
				mo.Script[j] ^= 0xaa
				(*to.LockingScript)[j] ^= 0xaa
			}
			what = "locking script changed in place"
		case 4:
			mo.Script = append(append([]byte{}, mo.Script...), 0x51)
			c.Call("Script.AppendOpCode", func() { to.LockingScript.AppendOpCode(0x51) })
			what = "locking script extended"
		}
		what = fmt.Sprintf("output %d %s", i, what)
	default:
		m.Lock++
		t.Locktime++
		what = "lock time + 1"
	}
	// the model's slices may share; keep them apart
	c.In("edit", what)
	c.Hit("edit: " + strings.TrimLeft(strings.TrimLeft(strings.TrimPrefix(strings.TrimPrefix(what, "input"), "output"), " "), "0123456789 "))
}

func t02History(c *C) {
	m := genTx(c.R)
	if len(m.Ins) > 20 {
		m.Ins = m.Ins[:20]
	}
	if len(m.Outs) > 20 {
		m.Outs = m.Outs[:20]
	}
	m = m.Clone()
	boundTotals(m)
	inTx(c, m)
	t := buildTx(c, m)
	t02Observe(c, t, m, "at first")
	for k := c.R.In(1, 8); k > 0; k-- {
		editTx(c, t, m)
		for i := range m.Outs {
			if m.Outs[i].Sats > 1<<58 {
				m.Outs[i].Sats >>= 8
				t.Outputs[i].Satoshis = m.Outs[i].Sats
			}
		}
		switch c.R.N(4) {
		case 0:
			mon.Eq(c, "GetTxID after an edit", txID(c, t), m.ID())
		case 1:
			c.EqBytes("ToBytes after an edit", txBytes(c, t), m.Encode())
		case 2: // several edits before the next look
		default:
			t02Observe(c, t, m, "after an edit")
		}
	}
	t02Observe(c, t, m, "at the end")
	d := dumpTx(t)
	id := txID(c, t)
	c.Check(id == m.ID(), "GetTxID, repeated: %s", id)
	mon.Eq(c, "the transaction after being observed", dumpTx(t), d)
}

// allocBound is what a call may allocate for n bytes of input.
func allocBound(n int) uint64 { return 1<<16 + 64*uint64(n) }

func t03Tx(c *C, b []byte) {
	g := c.Buf("transaction bytes", b)
	c.In("bytes", b)
	t, err := parseTx(c, g)
	c.Check(c.LastAlloc <= allocBound(len(b)), "NewFromBytes allocated %d bytes for %d bytes of input", c.LastAlloc, len(b))
	m, canon, ok := ref.UnTx(b)
	switch {
	case !ok:
		c.Hit("tx bytes incomplete")
		c.Check(err != nil, "NewFromBytes accepted bytes that are not one complete transaction encoding")
	case canon:
		c.Hit("tx bytes complete")
		c.Check(err == nil, "NewFromBytes rejected a complete canonical encoding: %v", err)
	default:
		c.Hit("tx bytes complete, VarInts not shortest")
	}
	if err == nil {
		checkTxIs(c, "parsed", t, m, false)
	}
	if c.R.P(50) {
		t, err2 := parseTxHex(c, mixCase(c.R, ref.Hex(b)))
		mon.Eq(c, "NewFromString fails as NewFromBytes does", err2 != nil, err != nil)
		if err2 == nil {
			checkTxIs(c, "parsed from hex", t, m, false)
		}
	}
}

func t03InOut(c *C, b []byte) {
	g := c.Buf("bytes", b)
	i, n, err := parseIn(c, g)
	c.Check(c.LastAlloc <= allocBound(len(b)), "input.NewFromBytes allocated %d bytes for %d bytes of input", c.LastAlloc, len(b))
	m, size, canon, ok := ref.UnIn(b)
	if !ok {
		c.Hit("input bytes incomplete")
		c.Check(err != nil, "input.NewFromBytes accepted an incomplete input")
	} else if canon {
		c.Hit("input bytes complete")
		c.Check(err == nil, "input.NewFromBytes rejected a complete input: %v", err)
	}
	if err == nil {
		mon.Eq(c, "bytes consumed by the input", n, size)
		checkInIs(c, "parsed input", i, &m, false)
	}
	o, n, err := parseOut(c, g)
	c.Check(c.LastAlloc <= allocBound(len(b)), "output.NewFromBytes allocated %d bytes for %d bytes of input", c.LastAlloc, len(b))
	mo, size, canon, ok := ref.UnOut(b)
	if !ok {
		c.Hit("output bytes incomplete")
		c.Check(err != nil, "output.NewFromBytes accepted an incomplete output")
	} else if canon {
		c.Hit("output bytes complete")
		c.Check(err == nil, "output.NewFromBytes rejected a complete output: %v", err)
	}
	if err == nil {
		mon.Eq(c, "bytes consumed by the output", n, size)
		checkOutIs(c, "parsed output", o, &mo)
	}
}

// tails are what may be behind data in a file, or in front.
var tails = []string{"\n", "\r\n", "\r", " ", "\t", "\x00", "\x00\x00", "\x00\x00\x00\x00", "\n\n", "\x1a", "\x04", "\"", "'", ",", ";", "0x", "0X", "x", "h", "\xff", "\xef\xbb\xbf", "\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00", "\u00a0", "\u200b", "\u200c", "\u200d", "\u2060", "\ufeff", "\u3000", "\u2003", "\u0085", "\v", "\f", "\x7f", "\x1b[0m", "\u202e", "\ufffd", ".", ":", "?", "/", "=", "%20", "#", "&", "\\n", "L", "_", "<", ">"}

// hugeVarInt is a VarInt that announces more than there can be.
func hugeVarInt(r *R) []byte {
	switch r.N(6) {
	case 0:
		return append([]byte{0xfd}, r.Bytes(2)...)
	case 1:
		return append([]byte{0xfe}, r.Bytes(4)...)
	case 2:
		return ref.VarInt(genU64(r))
	case 3:
		return ref.VarInt(0xffffffffffffffff - uint64(r.N(60)))
	case 4:
		return ref.VarInt(1<<63 - 1 - uint64(r.N(60)) + uint64(r.N(2)))
	}
	return ref.VarInt(uint64(1)<<r.In(16, 63) + uint64(r.N(100)))
}

// hostileTx is a transaction encoding with one VarInt replaced.
func hostileTx(r *R) []byte {
	m := smallTx(r, r.N(4), r.N(4))
	at := r.N(2 + len(m.Ins) + len(m.Outs))
	vi := func(k int, n int) []byte {
		if k == at {
			if r.P(30) {
				return ref.VarInt(uint64(n + r.In(-2, 3)))
			}
			return hugeVarInt(r)
		}
		return ref.VarInt(uint64(n))
	}
	b := ref.LE32(m.Version)
	b = append(b, vi(0, len(m.Ins))...)
	for i := range m.Ins {
		in := &m.Ins[i]
		b = append(b, ref.Cat(in.Hash[:], ref.LE32(in.Vout), vi(2+i, len(in.Script)), in.Script, ref.LE32(in.Seq))...)
	}
	b = append(b, vi(1, len(m.Outs))...)
	for i := range m.Outs {
		o := &m.Outs[i]
		b = append(b, ref.Cat(ref.LE64(o.Sats), vi(2+len(m.Ins)+i, len(o.Script)), o.Script)...)
	}
	b = append(b, ref.LE32(m.Lock)...)
	if r.P(20) {
		b = append(b, r.Bytes(r.N(40))...)
	}
	return b
}

// nonCanonical encodes a VarInt longer than needed.
func nonCanonical(r *R, v uint64) []byte {
	switch r.N(3) {
	case 0:
		return append([]byte{0xfd}, ref.LE16(uint16(v))...)
	case 1:
		return append([]byte{0xfe}, ref.LE32(uint32(v))...)
	}
	return append([]byte{0xff}, ref.LE64(v)...)
}

func init() {
	register(&mon.Prop{
		ID:   "T01",
		Rule: "each case makes a random or systematic transaction (script lengths 0..600 and around 2^16, counts 0..2000 and around 2^16, extreme field values, shared and empty scripts, up to 12000 inputs or outputs as short as can be, up to 70000 of either), builds it in one of six ways, serialises, parses and serialises again; a case counts as distinct by the bytes of its transaction",
		Stages: []mon.Stage{
			{Name: "round trip", Quick: 9000, Deep: 600000, Run: func(c *C) { m := genTx(c.R); inTx(c, m); t01Round(c, m) }},
			{Name: "script sizes", Quick: nSizes, Deep: 4 * nSizes, Run: func(c *C) {
				n := sizeAt(c.Index % nSizes)
				c.In("script length", n)
				m := sizedTx(c.R, n)
				inTx(c, m)
				t01Round(c, m)
			}},
			{Name: "counts", Quick: 2*nCounts + 4, Deep: 2 * (2*nCounts + 8), Run: func(c *C) {
				n := countAt(c.Index / 2)
				m := smallTx(c.R, 1, n)
				if c.Index%2 == 0 {
					m = smallTx(c.R, n, 1)
				}
				inTx(c, m)
				t01Round(c, m)
			}},
			{Name: "empty scripts", Quick: 3*nCounts + 40, Deep: 6 * nCounts, Run: func(c *C) {
				ni, no := manyAt(c.R, c.Index)
				m := minimalTx(c.R, ni, no)
				c.In("inputs", ni)
				c.In("outputs", no)
				inTx(c, m)
				t01Round(c, m)
			}},
			{Name: "large", Quick: 24, Deep: 600, Run: func(c *C) {
				ni, no := largeTx(c)
				m := smallTx(c.R, ni, no)
				inTx(c, m)
				t01Round(c, m)
			}},
			{Name: "inputs and outputs", Quick: 9000, Deep: 600000, Run: t01Parts},
			{Name: "scripts around 2^24 bytes", Quick: 3, Deep: 8, Run: func(c *C) { m := giantTx(c); t01Round(c, m) }},
			{Name: "script of 2^28 bytes", Quick: 1, Deep: 1, NoGuide: true, Run: func(c *C) { cHuge(c, "transaction") }},
		},
		Need: map[string]int{"tx with 253 or more inputs": 5, "tx with 253 or more outputs": 5, "tx without inputs": 5, "tx without outputs": 5},
	})
	register(&mon.Prop{
		ID:   "T02",
		Rule: "each case builds a transaction, compares everything it says of itself with a reference encoder, then edits it step by step (fields, scripts in place, adding, removing, swapping, signing scripts) and compares again; other cases have the same input or output object several times in a transaction, or up to 70000 inputs or outputs; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by transaction and edits",
		Stages: []mon.Stage{
			rareStage("T02"),
			{Name: "wire", Quick: 20000, Deep: 1500000, Run: func(c *C) {
				m := genTx(c.R)
				boundTotals(m)
				inTx(c, m)
				t := buildTx(c, m)
				t02Observe(c, t, m, "built")
			}},
			{Name: "script sizes", Quick: nSizes, Run: func(c *C) {
				m := sizedTx(c.R, sizeAt(c.Index%nSizes))
				boundTotals(m)
				inTx(c, m)
				t02Observe(c, buildTx(c, m), m, "built")
			}},
			{Name: "counts", Quick: 2*nCounts + 8, Deep: 2 * (2*nCounts + 8), Run: func(c *C) {
				n := countAt(c.Index / 2)
				m := smallTx(c.R, 1, n)
				if c.Index%2 == 0 {
					m = smallTx(c.R, n, 1)
				}
				boundTotals(m)
				inTx(c, m)
				t02Observe(c, buildTx(c, m), m, "built")
			}},
			{Name: "scripts around 2^24 bytes", Quick: 3, Deep: 8, Run: func(c *C) {
				m := giantTx(c)
				boundTotals(m)
				t02Observe(c, mkTx(m), m, "built")
			}},
			{Name: "large", Quick: 24, Deep: 600, Run: func(c *C) {
				ni, no := largeTx(c)
				m := smallTx(c.R, ni, no)
				boundTotals(m)
				inTx(c, m)
				t02Observe(c, buildTx(c, m), m, "built")
			}},
			{Name: "shared objects", Quick: 12000, Deep: 600000, Run: func(c *C) {
				t, m := twinTx(c.R)
				inTx(c, m)
				t02Observe(c, t, m, "with objects in it several times")
			}},
			{Name: "history", Quick: 20000, Deep: 1500000, Run: t02History},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "edit: add input": 50, "edit: remove output": 20},
	})
	register(&mon.Prop{
		ID:   "T03",
		Rule: "each case is a byte string derived from a transaction encoding (whole, cut at a position, with bytes added, with a VarInt replaced by a huge or longer one, mutated) or random; the parser's verdict and fields are compared with a reference parser, and what it allocates with the length of the bytes; distinct by the bytes",
		Stages: []mon.Stage{
			{Name: "mutated", Quick: 36000, Deep: 3600000, MeasureAlloc: true, Run: func(c *C) {
				m := smallTx(c.R, c.R.N(4), c.R.N(4))
				if c.R.P(20) {
					m = genTx(c.R)
				}
				b := m.Encode()
				if len(b) > 20000 {
					b = smallTx(c.R, 2, 2).Encode()
				}
				if c.R.P(95) {
					b = mutate(c.R, b)
				}
				t03Tx(c, b)
			}},
			{Name: "large", Quick: 24, Deep: 600, MeasureAlloc: true, Run: func(c *C) {
				ni, no := largeTx(c)
				b := smallTx(c.R, ni, no).Encode()
				t03Tx(c, b)
				for n := 0; n < 6; n++ {
					c.ClearWatches()
					switch n {
					case 0: // as counted, and something more
						t03Tx(c, ref.Cat(b, c.R.Bytes(c.R.In(1, 80))))
					case 1:
						t03Tx(c, ref.Cat(b, make([]byte, c.R.In(1, 10))))
					case 2: // something less
						t03Tx(c, b[:len(b)-c.R.In(1, 60)])
					case 3:
						t03Tx(c, b[:c.R.N(len(b))])
					case 4:
						t03Tx(c, mutate(c.R, b))
					case 5:
						t03Tx(c, ref.Cat(b, smallTx(c.R, c.R.N(3), c.R.N(3)).Encode()))
					}
				}
			}},
			{Name: "cut", Quick: 150, Deep: 4000, MeasureAlloc: true, Run: func(c *C) {
				m := smallTx(c.R, c.R.N(3), c.R.N(3))
				if c.R.P(15) {
					m = sizedTx(c.R, c.R.In(250, 260))
				}
				b := m.Encode()
				c.In("tx", b)
				for n := 0; n < len(b); n++ {
					if n > 60 && len(b) > 300 && n%5 != 0 && len(b)-n > 20 {
						continue
					}
					t, err := parseTx(c, b[:n:n])
					c.Check(err != nil, "NewFromBytes accepted the first %d of %d bytes of a transaction: %s", n, len(b), dumpTx(t))
				}
				for k := 1; k <= 10; k++ {
					_, err := parseTx(c, ref.Cat(b, c.R.Bytes(k)))
					c.Check(err != nil, "NewFromBytes accepted a transaction with %d bytes left over", k)
				}
				for _, x := range tails {
					_, err := parseTx(c, ref.Cat(b, []byte(x)))
					c.Check(err != nil, "NewFromBytes accepted a transaction with %q left over", x)
					_, err = parseTxHex(c, ref.Hex(b)+x)
					c.Check(err != nil, "NewFromString accepted a transaction with %q left over", x)
					_, err = parseTxHex(c, x+ref.Hex(b))
					c.Check(err != nil, "NewFromString accepted a transaction with %q in front", x)
					if len(x) > 0 && m.Lock == 0 {
						// nor in place of the lock time's last bytes
						_, err = parseTx(c, ref.Cat(b[:len(b)-1], []byte(x[:1]), []byte(x[1:])))
						c.Check((err == nil) == (len(x) == 1), "NewFromBytes with %q for the last byte: %v", x, err)
					}
				}
				_, err := parseTx(c, ref.Cat(b, b))
				c.Check(err != nil, "NewFromBytes accepted two transactions for one")
				if len(m.Ins) > 0 {
					e := m.Ins[0].Encode(m.Ins[0].Script)
					for n := range e {
						t03InOut(c, e[:n:n])
						c.ClearWatches()
					}
				}
				if len(m.Outs) > 0 {
					e := m.Outs[0].Encode()
					for n := range e {
						t03InOut(c, e[:n:n])
						c.ClearWatches()
					}
				}
			}},
			{Name: "empty scripts", Quick: 3*nCounts + 60, Deep: 6 * nCounts, MeasureAlloc: true, Run: func(c *C) {
				r := c.R
				ni, no := manyAt(r, c.Index)
				b := minimalTx(r, ni, no).Encode()
				t03Tx(c, b)
				c.ClearWatches()
				t03Tx(c, b[:len(b)-r.In(1, 10)])
				c.ClearWatches()
				t03Tx(c, append(b, r.Bytes(r.In(1, 9))...))
			}},
			{Name: "announced lengths", Quick: 36000, Deep: 3600000, MeasureAlloc: true, Run: func(c *C) { t03Tx(c, hostileTx(c.R)) }},
			{Name: "VarInts not shortest", Quick: 500, Deep: 20000, MeasureAlloc: true, Run: func(c *C) {
				r := c.R
				m := smallTx(r, r.N(4), r.N(4))
				vi := func(n int) []byte {
					if r.P(40) {
						return nonCanonical(r, uint64(n))
					}
					return ref.VarInt(uint64(n))
				}
				b := ref.Cat(ref.LE32(m.Version), vi(len(m.Ins)))
				for i := range m.Ins {
					in := &m.Ins[i]
					b = ref.Cat(b, in.Hash[:], ref.LE32(in.Vout), vi(len(in.Script)), in.Script, ref.LE32(in.Seq))
				}
				b = append(b, vi(len(m.Outs))...)
				for i := range m.Outs {
					o := &m.Outs[i]
					b = ref.Cat(b, ref.LE64(o.Sats), vi(len(o.Script)), o.Script)
				}
				t03Tx(c, append(b, ref.LE32(m.Lock)...))
			}},
			{Name: "counts that are not met", Quick: 400, Deep: 8000, MeasureAlloc: true, Run: func(c *C) {
				// counts around what is there, with content of the other kind behind
				r := c.R
				ni, no := r.N(300), r.N(300)
				m := smallTx(r, ni, no)
				b := ref.LE32(m.Version)
				b = append(b, ref.VarInt(uint64(max(0, ni+r.In(-1, 1))))...)
				for i := range m.Ins {
					b = append(b, m.Ins[i].Encode(m.Ins[i].Script)...)
				}
				b = append(b, ref.VarInt(uint64(max(0, no+r.In(-1, 1))))...)
				for i := range m.Outs {
					b = append(b, m.Outs[i].Encode()...)
				}
				t03Tx(c, append(b, ref.LE32(m.Lock)...))
			}},
			{Name: "inputs and outputs", Quick: 30000, Deep: 2400000, MeasureAlloc: true, Run: func(c *C) {
				r := c.R
				var b []byte
				in, out := genIn(r, 300), genOut(r, 300)
				switch r.N(6) {
				case 0:
					b = in.Encode(in.Script)
				case 1:
					b = out.Encode()
				case 2:
					b = ref.Cat(in.Hash[:], ref.LE32(in.Vout), hugeVarInt(r), in.Script, ref.LE32(in.Seq))
				case 3:
					b = ref.Cat(ref.LE64(out.Sats), hugeVarInt(r), out.Script)
				case 4:
					b = mutate(r, in.Encode(in.Script))
				case 5:
					b = mutate(r, out.Encode())
				}
				if r.P(25) {
					b = append(b, r.Bytes(r.N(10))...)
				}
				c.In("bytes", b)
				t03InOut(c, b)
			}},
			{Name: "short", Quick: 18000, Deep: 720000, MeasureAlloc: true, Run: func(c *C) {
				b := genBytes(c.R, c.R.N(64))
				if len(b) > 4 {
					b[4] = mon.Pick(c.R, byte(0), 1, 0xfd, 0xfe, 0xff, b[4])
				}
				t03Tx(c, b)
				t03InOut(c, b)
			}},
			{Name: "text", Quick: 9000, Deep: 360000, Run: func(c *C) {
				s := ref.Hex(smallTx(c.R, 1, 1).Encode())
				switch c.R.N(4) {
				case 0:
					s = badHex(c.R, c.R.N(80))
				case 1:
					s = s[:c.R.N(len(s))]
				default:
					s = mutateText(c.R, s, "0123456789abcdefABCDEFgx \n")
				}
				c.In("text", s)
				t, err := parseTxHex(c, c.Str("text", s))
				ok := false
				if isHex(s) {
					b, _ := hex.DecodeString(s)
					var m *ref.Tx
					var canon bool
					if m, canon, ok = ref.UnTx(b); ok {
						c.Check(err == nil || !canon, "NewFromString rejected a complete canonical encoding: %v", err)
						if err == nil {
							checkTxIs(c, "parsed from hex", t, m, false)
						}
					}
				}
				if !ok {
					c.Check(err != nil, "NewFromString accepted text that is not a complete transaction encoding in hex")
				}
			}},
		},
		Need: map[string]int{"tx bytes incomplete": 1000, "tx bytes complete": 200, "input bytes incomplete": 500, "output bytes incomplete": 300},
	})
	register(&mon.Prop{
		ID:     "T04",
		Rule:   "each case parses a transaction, input or output from a caller's buffer, then overwrites the buffer, edits one part after the other, and checks that nothing else changed (all other parts, the buffer, bytes returned before); distinct by transaction",
		Stages: []mon.Stage{{Name: "tx", Quick: 48000, Deep: 3600000, Run: t04Tx}, {Name: "parts", Quick: 36000, Deep: 1900000, Run: t04Parts}, {Name: "scripts that outlive their transaction", Quick: 320, Deep: 20000, Run: t04Outlive}, {Name: "output", Quick: 36000, Deep: 1900000, Run: t04Serialised}},
		Need:   map[string]int{"script appended": 300, "script overwritten": 300, "buffer overwritten": 1000},
	})
	register(&mon.Prop{
		ID:     "T05",
		Rule:   "each case is a history of calls that add inputs and outputs, with valid and invalid arguments, checked after every call against a model of the transaction; distinct by the calls",
		Stages: []mon.Stage{{Name: "history", Quick: 60000, Deep: 4500000, Run: t05}, {Name: "long history", Quick: 24, Deep: 400, Run: t05Long}, {Name: "large", Quick: 24, Deep: 600, Run: t05Large}},
		Need:   map[string]int{"valid From": 500, "invalid From": 300, "valid PayTo": 500, "invalid PayTo": 300, "valid NewFromUTXO": 200, "invalid NewFromUTXO": 100},
	})
	register(&mon.Prop{
		ID:     "T06",
		Rule:   "each case makes a transaction near the border of what is coinbase (one input with an all-zero ID and extreme or near-extreme index and sequence, or ones with one thing changed), and asks whether it is coinbase; distinct by transaction",
		Stages: []mon.Stage{{Name: "coinbase", Quick: 80000, Deep: 4000000, Run: t06}, {Name: "history", Quick: 15000, Deep: 600000, Run: t06History}},
		Need:   map[string]int{"coinbase": 500, "not coinbase": 500},
	})
	register(&mon.Prop{
		ID:   "T07",
		Rule: "each case serialises a transaction with cleared inputs for every (or, for many inputs, some) index and several scripts, and compares with the reference encoding; distinct by transaction, index and script",
		Stages: []mon.Stage{
			{Name: "cleared", Quick: 24000, Deep: 1800000, Run: func(c *C) { t07(c, genTx(c.R), -1) }},
			{Name: "script sizes", Quick: nSizes, Run: func(c *C) { t07(c, sizedTx(c.R, sizeAt(c.Index%nSizes)), sizeAt(c.Index%nSizes)) }},
			{Name: "counts", Quick: 2 * nCounts, Run: func(c *C) {
				n := countAt(c.Index / 2 % nCounts)
				if c.Index%2 == 0 {
					t07(c, smallTx(c.R, n, 1), -1)
				} else {
					t07(c, smallTx(c.R, 2, n), -1)
				}
			}},
			{Name: "shared objects", Quick: 6000, Deep: 300000, Run: func(c *C) {
				t, m := twinTx(c.R)
				t07Of(c, t, m, -1)
			}},
			{Name: "large", Quick: 16, Deep: 400, Run: func(c *C) {
				ni, no := largeTx(c)
				t07(c, smallTx(c.R, ni, no), -1)
			}},
			{Name: "more than 2^16 inputs", Quick: 3, Deep: 24, Run: func(c *C) {
				n := mon.Pick(c.R, 1<<15, 1<<16, 1<<16) + c.R.In(1, 300)
				if c.Index == 0 {
					n = 1<<16 + c.R.In(1, 300)
				}
				t07(c, smallTx(c.R, n, 1), -1)
			}},
		},
		Need: map[string]int{"cleared": 1000, "tx with 253 or more inputs": 3},
	})
}

// t04Edit changes one script of the transaction, by appending or overwriting,
// and returns the model with that change.
func t04Edit(c *C, t *Tx, m *ref.Tx) *ref.Tx {
	r := c.R
	m = m.Clone()
	var s *script.Script
	var ms *[]byte
	if k := r.N(len(m.Ins) + len(m.Outs)); k < len(m.Ins) {
		s, ms = t.Inputs[k].UnlockingScript, &m.Ins[k].Script
		c.In("edit input script", k)
	} else {
		k -= len(m.Ins)
		s, ms = t.Outputs[k].LockingScript, &m.Outs[k].Script
		c.In("edit output script", k)
	}
	switch r.N(4) {
	case 0:
		d := r.Bytes(r.In(1, 60))
		c.Call("Script.AppendPushData", func() { s.AppendPushData(d) })
		*ms = ref.Cat(*ms, ref.Push(d))
		c.Hit("script appended")
	case 1:
		for k := r.In(1, 50); k > 0; k-- {
			c.Call("Script.AppendOpCode", func() { s.AppendOpCode(0x6a) })
			*ms = append(*ms, 0x6a)
		}
		c.Hit("script appended")
	case 2:
		d := r.Bytes(r.In(1, 60))
		*s = append(*s, d...)
		*ms = ref.Cat(*ms, d)
		c.Hit("script appended")
	case 3:
		for i := range *s {
			(*s)[i] ^= 0xff
			(*ms)[i] ^= 0xff
		}
		c.Hit("script overwritten")
	}
	return m
}

func t04Tx(c *C) {
	r := c.R
	m := genTx(r)
	for i := range m.Ins {
		m.Ins[i].NilScript = false
	}
	if len(m.Ins) > 30 {
		m.Ins = m.Ins[:30]
	}
	if len(m.Outs) > 30 {
		m.Outs = m.Outs[:30]
	}
	inTx(c, m)
	// the buffer is larger than the transaction, as when reading from a stream
	e := m.Encode()
	buf := make([]byte, len(e), len(e)+64)
	copy(buf, e)
	var t *Tx
	var err error
	fromHex := r.P(15)
	if fromHex {
		t, err = parseTxHex(c, ref.Hex(e))
	} else {
		t, err = parseTx(c, buf)
	}
	c.Check(err == nil, "parsing: %v", err)
	checkTxIs(c, "parsed", t, m, false)
	if r.P(70) {
		r.Fill(buf[:cap(buf)])
		c.Hit("buffer overwritten")
		checkTxIs(c, "after the parsed buffer was overwritten", t, m, false)
	}
	whole := append([]byte{}, buf[:cap(buf)]...)
	if len(m.Ins)+len(m.Outs) == 0 {
		return
	}
	for k := r.In(1, 5); k > 0; k-- {
		b := txBytes(c, t)
		keep := append([]byte{}, b...)
		m = t04Edit(c, t, m)
		checkTxIs(c, "after an edit of one script", t, m, false)
		c.EqBytes("the parsed buffer after an edit", buf[:cap(buf)], whole)
		c.EqBytes("bytes serialised before an edit", b, keep)
		if r.Bool() {
			r.Fill(b[:cap(b)])
			checkTxIs(c, "after serialised bytes were overwritten", t, m, false)
		}
	}
	c.EqBytes("serialised at the end", txBytes(c, t), m.Encode())
}

// t04Outlive keeps only the scripts of parsed and built transactions, while these
// and the bytes they come from are collected and others are made.
func t04Outlive(c *C) {
	r := c.R
	var kept, want [][]byte
	var objs []*script.Script
	keep := func(s *script.Script, w []byte) {
		if s == nil || r.P(30) {
			return
		}
		if r.P(40) {
			objs = append(objs, s)
			kept = append(kept, nil)
		} else { // the bytes only
			objs = append(objs, nil)
			kept = append(kept, *s)
		}
		want = append(want, w)
	}
	c.In("seed", r.U64())
	n := 24
	for k := 0; k < n; k++ {
		m := smallTx(r, r.N(4), r.N(4))
		for i := range m.Ins {
			m.Ins[i].Script = r.Bytes(r.N(120))
		}
		for i := range m.Outs {
			m.Outs[i].Script = r.Bytes(r.N(120))
		}
		var t *Tx
		var err error
		switch r.N(4) {
		case 0:
			t, err = parseTxHex(c, ref.Hex(m.Encode()))
		case 1:
			t = &Tx{}
			for i := range m.Ins {
				in, _, e := parseIn(c, m.Ins[i].Encode(m.Ins[i].Script))
				c.Check(e == nil, "parsing an input: %v", e)
				t.Inputs = append(t.Inputs, in)
			}
			for i := range m.Outs {
				o, _, e := parseOut(c, m.Outs[i].Encode())
				c.Check(e == nil, "parsing an output: %v", e)
				t.Outputs = append(t.Outputs, o)
			}
		default:
			t, err = parseTx(c, m.Encode())
		}
		c.Check(err == nil, "parsing: %v", err)
		for i := range m.Ins {
			keep(t.Inputs[i].UnlockingScript, m.Ins[i].Script)
		}
		for i := range m.Outs {
			keep(t.Outputs[i].LockingScript, m.Outs[i].Script)
		}
		if r.P(30) {
			txBytes(c, t)
		}
		t = nil
		c.ClearWatches()
		if k%8 == 3 {
			runtime.GC()
			time.Sleep(200 * time.Microsecond)
		}
	}
	runtime.GC()
	for i, w := range want {
		b := kept[i]
		if objs[i] != nil {
			b = *objs[i]
		}
		c.EqBytes("a script whose transaction is gone", b, w)
	}
	c.Hit("scripts that outlive their transaction")
}

func t04Parts(c *C) {
	r := c.R
	// several inputs and outputs parsed from one buffer
	var buf []byte
	var ms []ref.In
	var mo []ref.Out
	for k := r.In(1, 4); k > 0; k-- {
		in := genIn(r, 200)
		ms = append(ms, in)
		buf = append(buf, in.Encode(in.Script)...)
	}
	for k := r.In(1, 4); k > 0; k-- {
		o := genOut(r, 200)
		mo = append(mo, o)
		buf = append(buf, o.Encode()...)
	}
	c.In("buffer", buf)
	rest := buf
	t := &Tx{}
	for range ms {
		i, n, err := parseIn(c, rest)
		c.Check(err == nil && n <= len(rest), "parsing an input: %v", err)
		t.Inputs = append(t.Inputs, i)
		rest = rest[n:]
	}
	for range mo {
		o, n, err := parseOut(c, rest)
		c.Check(err == nil && n <= len(rest), "parsing an output: %v", err)
		t.Outputs = append(t.Outputs, o)
		rest = rest[n:]
	}
	m := &ref.Tx{Ins: ms, Outs: mo}
	checkTxIs(c, "parsed parts", t, m, false)
	keep := append([]byte{}, buf...)
	m = t04Edit(c, t, m)
	c.EqBytes("the parsed buffer after an edit", buf, keep)
	checkTxIs(c, "after an edit of one part", t, m, false)
	r.Fill(buf)
	c.Hit("buffer overwritten")
	checkTxIs(c, "after the parsed buffer was overwritten", t, m, false)
}

func t04Serialised(c *C) {
	r := c.R
	m := smallTx(r, r.In(1, 4), r.In(1, 4))
	t := mkTx(m)
	for i := range m.Ins {
		m.Ins[i].Script = genScript(r, 200)
		t.Inputs[i].UnlockingScript = scr(m.Ins[i].Script)
	}
	inTx(c, m)
	type out struct {
		name string
		b    []byte
		want []byte
	}
	var outs []out
	add := func(name string, f func() []byte) {
		b := mon.Do(c, name, f)
		outs = append(outs, out{name, b, append([]byte{}, b...)})
	}
	k := r.N(len(m.Ins))
	q := r.N(len(m.Outs))
	for pass := 0; pass < 3; pass++ {
		add("Transaction.ToBytes", t.ToBytes)
		add("Input.ToBytes", func() []byte { return t.Inputs[k].ToBytes(false) })
		add("Input.ToBytes", func() []byte { return t.Inputs[k].ToBytes(true) })
		add("Output.ToBytes", t.Outputs[q].ToBytes)
		add("Output.GetBytesForSigHash", t.Outputs[q].GetBytesForSigHash)
		add("Transaction.ToBytesWithClearedInputs", func() []byte { return t.ToBytesWithClearedInputs(k, []byte{0x51}) })
		add("Transaction.GetInputSignatureHash", func() []byte {
			b, err := t.GetInputSignatureHash(uint32(k), 0x41)
			if err != nil {
				panic(err)
			}
			return b
		})
		for _, o := range outs {
			c.EqBytes("bytes of "+o.name+" returned before", o.b, o.want)
		}
		// overwrite one of them: nothing else may change
		i := r.N(len(outs))
		o := &outs[i]
		full := o.b[:cap(o.b)]
		r.Fill(full)
		o.want = append([]byte{}, o.b...)
		checkTxIs(c, "after bytes of "+o.name+" were overwritten", t, m, false)
		for _, o := range outs {
			c.EqBytes("bytes of "+o.name+" after others were overwritten", o.b, o.want)
		}
		c.Hit("buffer overwritten")
		m2 := t04Edit(c, t, m)
		m = m2
		for _, o := range outs {
			c.EqBytes("bytes of "+o.name+" after an edit of the transaction", o.b, o.want)
		}
	}
	c.EqBytes("serialised at the end", txBytes(c, t), m.Encode())
}

// genAddr returns a valid address and its hash.
func genAddr(r *R) (string, []byte) {
	h := genBytes(r, 20)
	return ref.Base58Check(append([]byte{mon.Pick(r, byte(0), 0x6f)}, h...)), h
}

// badAddr returns text that is not an address by the reference.
func badAddr(r *R) string {
	for {
		var s string
		a, h := genAddr(r)
		switch r.N(12) {
		case 0:
			s = ref.Base58Check(append([]byte{mon.Pick(r, byte(5), 0xc4, 1, 0x6e, 0x70, 0x80, 0xff)}, h...))
		case 1:
			s = ref.Base58Check(append([]byte{0}, genBytes(r, mon.Pick(r, 0, 19, 21, 32))...))
		case 2:
			s = "1" + a
		case 3:
			s = a[1:]
		case 4:
			s = ref.Base58(r.Bytes(25))
		case 5:
			s = ref.Base58(ref.Cat([]byte{mon.Pick(r, byte(0), 0x6f)}, r.Bytes(24)))
		case 6:
			s = a + mon.Pick(r, mon.Pick(r, tails...), mon.Pick(r, tails...), "1", "z")
		case 7:
			s = mon.Pick(r, mon.Pick(r, tails...), mon.Pick(r, tails...), "bitcoin:", "l", "0") + a
			if r.P(30) {
				s += mon.Pick(r, tails...)
			}
		case 8:
			s = ""
		case 9:
			s = strings.ToLower(a)
		default:
			s = mutateText(r, a, ref.B58+"0OIl")
		}
		if _, _, ok := ref.UnAddress(s); !ok {
			return s
		}
	}
}

// badTxID returns text that is not the hex of 32 bytes.
func badTxID(r *R) string {
	for {
		var s string
		h := ref.Hex(r.Bytes(32))
		switch r.N(7) {
		case 0:
			s = h[:r.N(64)]
		case 1:
			s = h + ref.Hex(r.Bytes(r.In(1, 3)))
		case 2:
			s = h + "0"
		case 3:
			s = mutateText(r, h, "ghijxyz \n-")
		case 4:
			s = "0x" + h[2:]
		case 5:
			s = ""
		case 6:
			s = " " + h[1:]
		}
		if len(s) != 64 || !isHex(s) {
			return s
		}
	}
}

func t05(c *C) {
	r := c.R
	t := mon.Do(c, "transaction.New", transaction.New)
	m := &ref.Tx{Version: 1}
	checkTxIs(c, "a new transaction", t, m, true)
	for k := r.In(2, 14); k > 0; k-- {
		t05Step(c, t, m)
	}
	t2 := mon.Do(c, "transaction.New", transaction.New)
	checkTxIs(c, "another new transaction", t2, &ref.Tx{Version: 1}, true)
	c.EqBytes("serialised at the end", txBytes(c, t), m.Encode())
}

// reuseIn lets an input share values with an earlier one.
func reuseIn(r *R, m *ref.Tx, in *ref.In) {
	n := len(m.Ins)
	if n == 0 || !r.P(35) {
		return
	}
	p := &m.Ins[r.N(n)]
	in.Hash = p.Hash
	if r.P(70) {
		in.Vout = p.Vout
	}
	if r.Bool() && p.HasPrev {
		in.PrevScript, in.PrevSats = append([]byte{}, p.PrevScript...), p.PrevSats
	}
}

func t05Step(c *C, t *Tx, m *ref.Tx) {
	r := c.R
	before := dumpTx(t)
	var oldIns []*input.Input
	var oldOuts []*output.Output
	oldIns = append(oldIns, t.Inputs...)
	oldOuts = append(oldOuts, t.Outputs...)
	failed := false
	switch r.N(11) {
	case 0, 1: // From
		in := ref.In{Hash: genHash(r), Vout: genU32(r), PrevScript: genScript(r, 300), HasPrev: true, PrevSats: genU64(r), Seq: 0xffffffff, NilScript: true}
		reuseIn(r, m, &in)
		id, sc := mixCase(r, in.TxID()), mixCase(r, ref.Hex(in.PrevScript))
		bad := ""
		if r.P(35) {
			if r.Bool() {
				id, bad = badTxID(r), "id"
			} else {
				sc, bad = badHex(r, r.N(30)), "script"
			}
		}
		c.In("From", fmt.Sprintf("%s:%d %s %d", id, in.Vout, sc, in.PrevSats))
		gid, gsc := c.Str("txID", id), c.Str("script", sc)
		err := mon.DoErr(c, "Transaction.From", func() error { return t.From(gid, in.Vout, gsc, in.PrevSats) })
		if bad == "" {
			c.Hit("valid From")
			c.Check(err == nil, "From rejects a valid output: %v", err)
			if n := len(t.Inputs); n > 0 {
				mon.Eq(c, "the previous transaction's id in the input From added", t.Inputs[n-1].PreviousTxID, id)
				c.Check(t.Inputs[n-1].PreviousTxScript != nil, "the input From added has no previous script")
			}
			m.Ins = append(m.Ins, in)
		} else {
			c.Hit("invalid From")
			c.Check(err != nil, "From accepts a malformed %s", bad)
			failed = true
		}
	case 2, 3: // PayTo
		a, h := genAddr(r)
		sats := genU64(r)
		bad := r.P(35)
		if n := len(m.Outs); n > 0 && r.P(30) { // to somebody paid before
			if p := m.Outs[r.N(n)].Script; len(p) == 25 && string(p) == string(ref.P2PKH(p[3:23])) {
				h = append([]byte{}, p[3:23]...)
				a = ref.Base58Check(append([]byte{mon.Pick(r, byte(0), 0x6f)}, h...))
			}
		}
		if bad {
			a = badAddr(r)
		}
		c.In("PayTo", fmt.Sprintf("%q %d", a, sats))
		ga := c.Str("address", a)
		err := mon.DoErr(c, "Transaction.PayTo", func() error { return t.PayTo(ga, sats) })
		if !bad {
			c.Hit("valid PayTo")
			c.Check(err == nil, "PayTo rejects a valid address: %v", err)
			m.Outs = append(m.Outs, ref.Out{Sats: sats, Script: ref.P2PKH(h)})
		} else {
			c.Hit("invalid PayTo")
			c.Check(err != nil, "PayTo accepts %q", a)
			failed = true
		}
	case 4, 5: // AddInput
		in := genIn(r, 300)
		reuseIn(r, m, &in)
		o := mkIn(&in)
		if r.P(25) {
			in = ref.In{Seq: 0xffffffff}
			o = mon.Do(c, "input.New", input.New)
			c.Check(o != nil && o.SequenceNumber == 0xffffffff && len(sbytes(o.UnlockingScript)) == 0 && o.PreviousTxID == "" && o.PreviousTxOutIndex == 0, "input.New is not empty: %s", dumpIn(o))
			o.PreviousTxID = in.TxID()
		}
		c.In("AddInput", in.Encode(in.Script))
		c.Call("Transaction.AddInput", func() { t.AddInput(o) })
		m.Ins = append(m.Ins, in)
		c.Check(len(t.Inputs) == len(m.Ins) && t.Inputs[len(m.Ins)-1] == o, "AddInput did not append the input given")
	case 6, 7: // AddOutput
		out := genOut(r, 300)
		if n := len(m.Outs); n > 0 && r.P(20) {
			out.Script = append([]byte{}, m.Outs[r.N(n)].Script...)
		}
		o := mkOut(&out)
		c.In("AddOutput", out.Encode())
		c.Call("Transaction.AddOutput", func() { t.AddOutput(o) })
		m.Outs = append(m.Outs, out)
		c.Check(len(t.Outputs) == len(m.Outs) && t.Outputs[len(m.Outs)-1] == o, "AddOutput did not append the output given")
	case 8, 9: // NewFromUTXO
		in := ref.In{Hash: genHash(r), Vout: genU32(r), PrevScript: genScript(r, 300), HasPrev: true, PrevSats: genU64(r), Seq: genU32(r), NilScript: true}
		reuseIn(r, m, &in)
		id, sc := mixCase(r, in.TxID()), mixCase(r, ref.Hex(in.PrevScript))
		bad := ""
		if r.P(35) {
			if r.Bool() {
				id, bad = badTxID(r), "id"
			} else {
				sc, bad = badHex(r, r.N(30)), "script"
			}
		}
		c.In("NewFromUTXO", fmt.Sprintf("%s:%d %d %s %d", id, in.Vout, in.PrevSats, sc, in.Seq))
		o, err := mon.Do2(c, "input.NewFromUTXO", func() (*input.Input, error) { return input.NewFromUTXO(id, in.Vout, in.PrevSats, sc, in.Seq) })
		if bad == "" {
			c.Hit("valid NewFromUTXO")
			c.Check(err == nil, "NewFromUTXO rejects a valid output: %v", err)
			checkInIs(c, "NewFromUTXO", o, &in, true)
			mon.Eq(c, "the previous transaction's id in NewFromUTXO's input", o.PreviousTxID, id)
			c.Check(o.PreviousTxScript != nil, "NewFromUTXO's input has no previous script")
			c.Call("Transaction.AddInput", func() { t.AddInput(o) })
			m.Ins = append(m.Ins, in)
		} else {
			c.Hit("invalid NewFromUTXO")
			c.Check(err != nil, "NewFromUTXO accepts a malformed %s", bad)
			failed = true
		}
	case 10: // the same object or value once more
		if len(t.Inputs) > 0 && r.Bool() {
			j := mon.Pick(r, len(t.Inputs)-1, r.N(len(t.Inputs)))
			o := mkIn(&m.Ins[j])
			if r.Bool() {
				o = t.Inputs[j]
				c.Hit("the same input object again")
			}
			c.In("AddInput again", j)
			c.Call("Transaction.AddInput", func() { t.AddInput(o) })
			m.Ins = append(m.Ins, m.Ins[j])
		} else if len(t.Outputs) > 0 {
			j := mon.Pick(r, len(t.Outputs)-1, r.N(len(t.Outputs)))
			o := mkOut(&m.Outs[j])
			if r.Bool() {
				o = t.Outputs[j]
			}
			c.In("AddOutput again", j)
			c.Call("Transaction.AddOutput", func() { t.AddOutput(o) })
			m.Outs = append(m.Outs, m.Outs[j])
		}
	}
	if failed {
		mon.Eq(c, "the transaction after a failed call", dumpTx(t), before)
	}
	checkTxIs(c, "after the call", t, m, true)
	for i, o := range oldIns {
		c.Check(t.Inputs[i] == o, "input %d is not the one added before", i)
	}
	for i, o := range oldOuts {
		c.Check(t.Outputs[i] == o, "output %d is not the one added before", i)
	}
	mon.Eq(c, "InputCount", t.InputCount(), len(m.Ins))
	mon.Eq(c, "OutputCount", t.OutputCount(), len(m.Outs))
	c.ClearWatches()
}

// t05Long adds several hundred inputs and outputs.
func t05Long(c *C) {
	r := c.R
	t := mon.Do(c, "transaction.New", transaction.New)
	m := &ref.Tx{Version: 1}
	for k := 0; k < 300; k++ {
		if r.Bool() {
			in := ref.In{Hash: genHash(r), Vout: genU32(r), PrevScript: r.Bytes(2), HasPrev: true, PrevSats: genU64(r), Seq: 0xffffffff}
			err := mon.DoErr(c, "Transaction.From", func() error { return t.From(in.TxID(), in.Vout, ref.Hex(in.PrevScript), in.PrevSats) })
			c.Check(err == nil, "From: %v", err)
			m.Ins = append(m.Ins, in)
		} else {
			a, h := genAddr(r)
			s := genU64(r)
			err := mon.DoErr(c, "Transaction.PayTo", func() error { return t.PayTo(a, s) })
			c.Check(err == nil, "PayTo: %v", err)
			m.Outs = append(m.Outs, ref.Out{Sats: s, Script: ref.P2PKH(h)})
		}
		mon.Eq(c, "InputCount", t.InputCount(), len(m.Ins))
		mon.Eq(c, "OutputCount", t.OutputCount(), len(m.Outs))
		if k%10 == 9 {
			err := mon.DoErr(c, "Transaction.From", func() error { return t.From(badTxID(r), 0, "51", 1) })
			c.Check(err != nil, "From accepts a malformed transaction ID")
			err = mon.DoErr(c, "Transaction.PayTo", func() error { return t.PayTo(badAddr(r), 1) })
			c.Check(err != nil, "PayTo accepts an invalid address")
		}
	}
	inTx(c, m)
	checkTxIs(c, "after 300 calls", t, m, true)
	c.EqBytes("serialised", txBytes(c, t), m.Encode())
}

// t05Large adds thousands of inputs and outputs.
func t05Large(c *C) {
	r := c.R
	t := mon.Do(c, "transaction.New", transaction.New)
	ni, no := largeTx(c)
	m := smallTx(r, ni, no)
	m.Version, m.Lock = 1, 0
	inTx(c, m)
	i, o := 0, 0
	hash := r.Bytes(20)
	addr := ref.Base58Check(ref.Cat([]byte{0}, hash))
	for i < ni || o < no {
		if i < ni && (o == no || r.Bool()) {
			in := &m.Ins[i]
			if r.P(20) {
				in.Script, in.NilScript, in.Seq = nil, true, 0xffffffff
				err := t.From(in.TxID(), in.Vout, ref.Hex(in.PrevScript), in.PrevSats)
				c.Check(err == nil, "From: %v", err)
			} else {
				t.AddInput(mkIn(in))
			}
			i++
		} else {
			out := &m.Outs[o]
			if r.P(10) {
				out.Script = ref.P2PKH(hash)
				err := t.PayTo(addr, out.Sats)
				c.Check(err == nil, "PayTo: %v", err)
			} else {
				t.AddOutput(mkOut(out))
			}
			o++
		}
		c.Check(len(t.Inputs) == i && t.InputCount() == i, "%d inputs after %d were added", len(t.Inputs), i)
		c.Check(len(t.Outputs) == o && t.OutputCount() == o, "%d outputs after %d were added", len(t.Outputs), o)
	}
	checkTxIs(c, "after all calls", t, m, true)
	c.EqBytes("serialised", txBytes(c, t), m.Encode())
}

func t06Expect(c *C, t *Tx, m *ref.Tx) {
	got := mon.Do(c, "Transaction.IsCoinbase", t.IsCoinbase)
	if len(m.Ins) == 1 {
		in := &m.Ins[0]
		zero := in.Hash == [32]byte{}
		switch {
		case zero && in.Vout == 0xffffffff:
			c.Hit("coinbase")
			c.Check(got, "a transaction with one input, all-zero ID and index ffffffff is not reported as coinbase (sequence %x)", in.Seq)
		case zero && in.Seq == 0xffffffff:
			c.Hit("undecided")
		default:
			c.Hit("not coinbase")
			c.Check(!got, "a transaction whose only input is %s:%x, sequence %x is reported as coinbase", in.TxID(), in.Vout, in.Seq)
		}
		return
	}
	c.Hit("not coinbase")
	c.Check(!got, "a transaction with %d inputs is reported as coinbase", len(m.Ins))
}

func t06Gen(r *R) *ref.Tx {
	near := func() uint32 {
		if r.P(55) {
			return 0xffffffff
		}
		return mon.Pick(r, uint32(0), 1, 0xfffffffe, 0x7fffffff, 0xffffff00, 0x00ffffff, 0xffff, r.U32(), genU32(r))
	}
	in := ref.In{Vout: near(), Seq: near(), Script: r.Bytes(r.In(0, 100))}
	if r.P(35) {
		switch r.N(5) {
		case 0:
			in.Hash = genHash(r)
		case 1:
			in.Hash[0] = 1
		case 2:
			in.Hash[31] = 1
		case 3:
			in.Hash[r.N(32)] = 1 << r.N(8)
		case 4:
			in.Hash[31] = 0x80
		}
	}
	m := &ref.Tx{Version: genU32(r), Lock: genU32(r), Ins: []ref.In{in}}
	for k := r.N(4); k > 0; k-- {
		m.Outs = append(m.Outs, genOut(r, 60))
	}
	switch r.N(8) {
	case 0:
		m.Ins = nil
	case 1:
		m.Ins = append(m.Ins, in)
	case 2:
		for k := r.In(1, 5); k > 0; k-- {
			m.Ins = append(m.Ins, genIn(r, 40))
		}
	case 3:
		m.Ins = append([]ref.In{genIn(r, 40)}, m.Ins...)
	}
	return m
}

func t06(c *C) {
	m := t06Gen(c.R)
	inTx(c, m)
	t06Expect(c, t06Bare(c, buildTx(c, m)), m)
}

// t06Bare takes away or puts in what a coinbase transaction is not told by.
func t06Bare(c *C, t *Tx) *Tx {
	for _, in := range t.Inputs {
		if c.R.P(30) {
			in.UnlockingScript = nil
			c.Hit("input without script")
		}
		if c.R.P(20) {
			in.PreviousTxScript, in.PreviousTxSatoshis = nil, c.R.U64()
		}
		if c.R.P(20) {
			s := Script(c.R.Bytes(c.R.N(30)))
			in.PreviousTxScript = &s
		}
	}
	return t
}

func t06History(c *C) {
	m := t06Gen(c.R)
	inTx(c, m)
	t := buildTx(c, m)
	for k := 0; k < 4; k++ {
		t06Expect(c, t, m)
		if c.R.Bool() {
			editTx(c, t, m)
		} else {
			n := t06Gen(c.R)
			inTx(c, n)
			m.Ins = n.Ins
			t.Inputs = nil
			for i := range n.Ins {
				t.Inputs = append(t.Inputs, mkIn(&n.Ins[i]))
			}
		}
	}
	t06Bare(c, t)
	t06Expect(c, t, m)
}

func t07(c *C, m *ref.Tx, size int) { t07Of(c, nil, m, size) }

func t07Of(c *C, t *Tx, m *ref.Tx, size int) {
	r := c.R
	inTx(c, m)
	if len(m.Ins) == 0 {
		c.Trivial()
	}
	if t == nil {
		t = buildTx(c, m)
	}
	c.Watch("the transaction", func() string { return dumpTx(t) })
	if len(m.Ins) > 300 {
		c.ClearWatches()
	}
	idx := make([]int, 0)
	for i := range m.Ins {
		if len(m.Ins) <= 8 || i == 0 || i == len(m.Ins)-1 || (i >= 252 && i <= 257 && len(m.Ins) < 300) || r.N(len(m.Ins)) < 3 {
			idx = append(idx, i)
		}
	}
	for _, i := range idx {
		s := genScript(r, 300)
		switch {
		case size >= 0:
			s = genBytes(r, size)
		case r.P(30) && m.Ins[i].HasPrev:
			s = m.Ins[i].PrevScript
		}
		c.In(fmt.Sprintf("script for %d", i), s)
		g := c.Buf("script", s)
		b := mon.Do(c, "Transaction.ToBytesWithClearedInputs", func() []byte { return t.ToBytesWithClearedInputs(i, g) })
		c.Hit("cleared")
		c.EqBytes(fmt.Sprintf("ToBytesWithClearedInputs(%d)", i), b, m.EncodeCleared(i, s))
		c.KeepBytes("Transaction.ToBytesWithClearedInputs", b)
		if size < 0 {
			c.Unguard(g)
		}
	}
	if len(m.Ins) <= 300 { // an index that names no input
		n := len(m.Ins)
		i := mon.Pick(r, -1, -1, -2, -n, -n-1, n, n+1, wide(1<<31), wide(1<<32), -1<<31, wide(1<<32+int64(n/2)), math.MaxInt, math.MinInt, 256, 65536)
		if i < 0 || i >= n {
			s := genBytes(r, r.In(0, 40))
			c.In(fmt.Sprintf("script for %d", i), s)
			b := mon.Do(c, "Transaction.ToBytesWithClearedInputs", func() []byte { return t.ToBytesWithClearedInputs(i, c.Buf("script", s)) })
			c.EqBytes(fmt.Sprintf("ToBytesWithClearedInputs(%d)", i), b, m.EncodeCleared(-1, nil))
			c.Hit("index of no input")
		}
	}
	c.EqBytes("ToBytes afterwards", txBytes(c, t), m.Encode())
	checkTxIs(c, "the transaction afterwards", t, m, true)
}
