package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/mon"
	"verif/harness/ref"
)

type Tx = transaction.Transaction

func scr(b []byte) *script.Script {
	s := script.Script(append([]byte{}, b...))
	return &s
}

// mkIn makes an input object from a model, field by field.
func mkIn(m *ref.In) *input.Input {
	i := &input.Input{PreviousTxID: m.TxID(), PreviousTxOutIndex: m.Vout, SequenceNumber: m.Seq, PreviousTxSatoshis: m.PrevSats}
	if !m.NilScript {
		i.UnlockingScript = scr(m.Script)
	}
	if m.HasPrev {
		i.PreviousTxScript = scr(m.PrevScript)
	}
	return i
}

func mkOut(m *ref.Out) *output.Output {
	return &output.Output{Satoshis: m.Sats, LockingScript: scr(m.Script)}
}

// mkTx makes a transaction object field by field, without calling libsv.
func mkTx(m *ref.Tx) *Tx {
	t := &Tx{Version: m.Version, Locktime: m.Lock}
	for i := range m.Ins {
		t.Inputs = append(t.Inputs, mkIn(&m.Ins[i]))
	}
	for i := range m.Outs {
		t.Outputs = append(t.Outputs, mkOut(&m.Outs[i]))
	}
	return t
}

// setPrev gives a parsed transaction what its inputs spend.
func setPrev(t *Tx, m *ref.Tx) {
	for i := range m.Ins {
		t.Inputs[i].PreviousTxSatoshis = m.Ins[i].PrevSats
		if m.Ins[i].HasPrev {
			t.Inputs[i].PreviousTxScript = scr(m.Ins[i].PrevScript)
		}
	}
}

// buildTx makes a transaction object in one of the ways a user can.
func buildTx(c *C, m *ref.Tx) *Tx {
	r := c.R
	switch way := r.N(6); way {
	case 0:
		c.Note("built field by field")
		return mkTx(m)
	case 1:
		c.Note("built with New, AddInput and AddOutput")
		t := mon.Do(c, "transaction.New", transaction.New)
		t.Version, t.Locktime = m.Version, m.Lock
		for i := range m.Ins {
			in := mkIn(&m.Ins[i])
			c.Call("Transaction.AddInput", func() { t.AddInput(in) })
		}
		for i := range m.Outs {
			o := mkOut(&m.Outs[i])
			c.Call("Transaction.AddOutput", func() { t.AddOutput(o) })
		}
		return t
	case 2:
		c.Note("parsed from bytes")
		t, err := mon.Do2(c, "transaction.NewFromBytes", func() (*Tx, error) { return transaction.NewFromBytes(m.Encode()) })
		c.Check(err == nil, "NewFromBytes rejects a transaction encoding: %v", err)
		c.Check(len(t.Inputs) == len(m.Ins) && len(t.Outputs) == len(m.Outs), "NewFromBytes: %d inputs and %d outputs instead of %d and %d", len(t.Inputs), len(t.Outputs), len(m.Ins), len(m.Outs))
		setPrev(t, m)
		return t
	case 3:
		c.Note("parsed from hex")
		h := mixCase(r, ref.Hex(m.Encode()))
		t, err := mon.Do2(c, "transaction.NewFromString", func() (*Tx, error) { return transaction.NewFromString(h) })
		c.Check(err == nil, "NewFromString rejects a transaction encoding: %v", err)
		c.Check(len(t.Inputs) == len(m.Ins) && len(t.Outputs) == len(m.Outs), "NewFromString: %d inputs and %d outputs instead of %d and %d", len(t.Inputs), len(t.Outputs), len(m.Ins), len(m.Outs))
		setPrev(t, m)
		return t
	case 4:
		c.Note("built with NewFromUTXO, input.NewFromBytes, output.NewFromBytes")
		t := &Tx{Version: m.Version, Locktime: m.Lock}
		for i := range m.Ins {
			in := &m.Ins[i]
			var o *input.Input
			var err error
			if in.HasPrev && r.Bool() {
				o, err = mon.Do2(c, "input.NewFromUTXO", func() (*input.Input, error) {
					return input.NewFromUTXO(in.TxID(), in.Vout, in.PrevSats, ref.Hex(in.PrevScript), in.Seq)
				})
				c.Check(err == nil, "NewFromUTXO: %v", err)
				if !in.NilScript {
					o.UnlockingScript = scr(in.Script)
				}
			} else {
				c.Call("input.NewFromBytes", func() { o, _, err = input.NewFromBytes(in.Encode(in.Script)) })
				c.Check(err == nil, "input.NewFromBytes: %v", err)
				o.PreviousTxSatoshis = in.PrevSats
				if in.HasPrev {
					o.PreviousTxScript = scr(in.PrevScript)
				}
			}
			t.Inputs = append(t.Inputs, o)
		}
		for i := range m.Outs {
			var o *output.Output
			var err error
			c.Call("output.NewFromBytes", func() { o, _, err = output.NewFromBytes(m.Outs[i].Encode()) })
			c.Check(err == nil, "output.NewFromBytes: %v", err)
			t.Outputs = append(t.Outputs, o)
		}
		return t
	default:
		c.Note("edited from another transaction that was used before")
		old := genTx(r)
		if len(old.Ins) > 30 {
			old.Ins = old.Ins[:30]
		}
		t := mkTx(old)
		mon.Do(c, "Transaction.GetTxID", t.GetTxID)
		mon.Do(c, "Transaction.ToBytes", t.ToBytes)
		if len(old.Ins) > 0 {
			mon.Do2(c, "Transaction.GetInputSignatureHash", func() ([]byte, error) { return t.GetInputSignatureHash(0, 0x41) })
		}
		t.Version, t.Locktime = m.Version, m.Lock
		// reuse the objects in place where there are some
		for i := range m.Ins {
			n := mkIn(&m.Ins[i])
			if i < len(t.Inputs) {
				if o := t.Inputs[i]; r.Bool() {
					o.PreviousTxID, o.PreviousTxOutIndex, o.PreviousTxSatoshis = n.PreviousTxID, n.PreviousTxOutIndex, n.PreviousTxSatoshis
					o.PreviousTxScript, o.UnlockingScript, o.SequenceNumber = n.PreviousTxScript, n.UnlockingScript, n.SequenceNumber
				} else {
					*o = *n
				}
			} else {
				t.Inputs = append(t.Inputs, n)
			}
		}
		t.Inputs = t.Inputs[:len(m.Ins)]
		for i := range m.Outs {
			n := mkOut(&m.Outs[i])
			if i < len(t.Outputs) {
				t.Outputs[i].Satoshis = n.Satoshis
				if r.Bool() {
					*t.Outputs[i].LockingScript = *n.LockingScript
				} else {
					t.Outputs[i].LockingScript = n.LockingScript
				}
			} else {
				t.Outputs = append(t.Outputs, n)
			}
		}
		t.Outputs = t.Outputs[:len(m.Outs)]
		return t
	}
}

func sstr(s *script.Script) string {
	if s == nil {
		return "nil"
	}
	return ref.Hex(*s)
}

func sbytes(s *script.Script) []byte {
	if s == nil {
		return nil
	}
	return *s
}

// dumpIn and dumpTx render everything a transaction holds.
func dumpIn(i *input.Input) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("{%s:%d sats %d prev %s unlock %s seq %d}", i.PreviousTxID, i.PreviousTxOutIndex, i.PreviousTxSatoshis, sstr(i.PreviousTxScript), sstr(i.UnlockingScript), i.SequenceNumber)
}

func dumpOut(o *output.Output) string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("{%d %s}", o.Satoshis, sstr(o.LockingScript))
}

func dumpTx(t *Tx) string {
	if t == nil {
		return "nil"
	}
	var s strings.Builder
	fmt.Fprintf(&s, "v%d lock %d ins", t.Version, t.Locktime)
	for _, i := range t.Inputs {
		s.WriteString(" " + dumpIn(i))
	}
	s.WriteString(" outs")
	for _, o := range t.Outputs {
		s.WriteString(" " + dumpOut(o))
	}
	return s.String()
}

// checkTxIs checks that a transaction object holds what the model says; prev
// says whether the spent outputs' fields are compared as well.
func checkTxIs(c *C, what string, t *Tx, m *ref.Tx, prev bool) {
	c.Check(t != nil, "%s: no transaction", what)
	mon.Eq(c, what+": version", t.Version, m.Version)
	mon.Eq(c, what+": lock time", t.Locktime, m.Lock)
	mon.Eq(c, what+": number of inputs", len(t.Inputs), len(m.Ins))
	mon.Eq(c, what+": number of outputs", len(t.Outputs), len(m.Outs))
	for i := range m.Ins {
		checkInIs(c, fmt.Sprintf("%s: input %d", what, i), t.Inputs[i], &m.Ins[i], prev)
	}
	for i := range m.Outs {
		checkOutIs(c, fmt.Sprintf("%s: output %d", what, i), t.Outputs[i], &m.Outs[i])
	}
}

func checkInIs(c *C, what string, in *input.Input, m *ref.In, prev bool) {
	c.Check(in != nil, "%s is nil", what)
	mon.Eq(c, what+": previous transaction ID", strings.ToLower(in.PreviousTxID), m.TxID())
	mon.Eq(c, what+": output index", in.PreviousTxOutIndex, m.Vout)
	mon.Eq(c, what+": sequence", in.SequenceNumber, m.Seq)
	c.EqBytes(what+": unlocking script", sbytes(in.UnlockingScript), m.Script)
	if prev {
		mon.Eq(c, what+": spent satoshis", in.PreviousTxSatoshis, m.PrevSats)
		if m.HasPrev {
			c.EqBytes(what+": spent script", sbytes(in.PreviousTxScript), m.PrevScript)
		}
	}
}

func checkOutIs(c *C, what string, o *output.Output, m *ref.Out) {
	c.Check(o != nil && o.LockingScript != nil, "%s is nil or has no script", what)
	mon.Eq(c, what+": satoshis", o.Satoshis, m.Sats)
	c.EqBytes(what+": locking script", *o.LockingScript, m.Script)
}

// inTx records the transaction as an input of the case.
func inTx(c *C, m *ref.Tx) {
	c.In("tx", m.Encode())
	for i := range m.Ins {
		if m.Ins[i].HasPrev {
			c.In(fmt.Sprintf("spent[%d]", i), ref.Cat(ref.LE64(m.Ins[i].PrevSats), m.Ins[i].PrevScript))
		}
		if i == 8 {
			break
		}
	}
	switch n := len(m.Ins); {
	case n == 0:
		c.Hit("tx without inputs")
	case n >= 253:
		c.Hit("tx with 253 or more inputs")
	}
	switch n := len(m.Outs); {
	case n == 0:
		c.Hit("tx without outputs")
	case n >= 253:
		c.Hit("tx with 253 or more outputs")
	}
}

func init() {
	for _, n := range []string{"script.NewFromBytes", "script.DecodeParts", "Script.GetPublicKeyHash", "utils.SortByteArrays", "Transaction.GetInputs", "Transaction.GetOutputs"} {
		mon.Wraps[n] = true
	}
	mon.SpoilHook = spoilObject
	mon.ShowHook = func(v any) (string, bool) {
		switch x := v.(type) {
		case *Tx:
			return dumpTx(x), true
		case *input.Input:
			return dumpIn(x), true
		case *output.Output:
			return dumpOut(x), true
		case *script.Script:
			return sstr(x), true
		case []*input.Input:
			return fmt.Sprintf("%d inputs", len(x)), true
		case []*output.Output:
			return fmt.Sprintf("%d outputs", len(x)), true
		}
		return "", false
	}
}

// spoil edits an object that a call has made.
func spoilObject(v any) {
	switch x := v.(type) {
	case *Tx:
		if x == nil {
			return
		}
		x.Version ^= 0x55555555
		x.Locktime ^= 0xaaaaaaaa
		for _, i := range x.Inputs {
			spoilObject(i)
		}
		for _, o := range x.Outputs {
			spoilObject(o)
		}
		x.Inputs = append(x.Inputs, &input.Input{})
		x.Outputs = append(x.Outputs, nil)
		x.Inputs[0] = nil
	case *input.Input:
		if x == nil {
			return
		}
		x.PreviousTxID = "spoiled"
		x.PreviousTxOutIndex ^= 0x33333333
		x.PreviousTxSatoshis ^= 0x3333333333333333
		x.SequenceNumber ^= 0x33333333
		spoilObject(x.PreviousTxScript)
		spoilObject(x.UnlockingScript)
	case *output.Output:
		if x == nil {
			return
		}
		x.Satoshis ^= 0x3333333333333333
		spoilObject(x.LockingScript)
	case *script.Script:
		if x == nil {
			return
		}
		mon.Spoil([]byte(*x))
		*x = append(*x, "spoiled"...)
	case *Address:
		if x != nil {
			x.AddressString, x.PublicKeyHash = "spoiled", "spoiled"
		}
	case *RS:
		if x == nil {
			return
		}
		mon.Spoil(x.PublicKeys)
		mon.Spoil(x.Signatures)
		x.SignaturesRequired++
	case *big.Int:
		if x == nil {
			return
		}
		for i, b := 0, x.Bits(); i < len(b); i++ {
			b[i] ^= 1
		}
		x.SetInt64(-1)
	}
}
