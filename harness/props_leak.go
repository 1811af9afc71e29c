package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif/harness/mon"
	"verif/harness/ref"
)

// G04 is about what calls leave behind when their arguments and results are gone.

// held is what the process holds.
type held struct {
	heap       int64
	goroutines int
	files      int
}

func holding() (h held) {
	// pools are emptied, and finalizers run, within some collections
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	h.heap = int64(m.HeapAlloc) + int64(m.StackInuse)
	h.goroutines = runtime.NumGoroutine()
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		h.files = len(l)
	}
	return
}

// leak makes call, again and again, with other arguments each time, and checks
// that what the process holds does not grow by it. Something fixed may be kept:
// it is the growth of the second half that counts.
func leak(c *C, api string, least, calls int, budget time.Duration, call func(n int)) {
	made := 0
	some := func(n, least int, d time.Duration) (k int) {
		t0 := time.Now()
		for k < n && (k < least || time.Since(t0) < d) {
			c.Call(api, func() {
				for i := 0; i < 10 && k < n; i++ {
					call(made)
					made++
					k++
				}
			})
		}
		return
	}
	some(min(200, least), least, 0)
	h0 := holding()
	half := some(calls/2, least, budget/2)
	h1 := holding()
	some(half, half, 0)
	h2 := holding()
	for i := 0; i < 100 && h2.goroutines > h0.goroutines; i++ { // those about to end
		time.Sleep(10 * time.Millisecond)
		h2 = holding()
	}
	c.Cnt.Calls[api] += int64(made) - int64(made+9)/10
	c.Cnt.Checks += 3
	if g := h2.heap - h0.heap; h2.heap-h1.heap > max(120<<10, g/3) {
		c.Fail("after %d calls of %s whose arguments and results are gone, %d bytes are left behind, and after %d more calls %d bytes", half, api, h1.heap-h0.heap, half, g)
	}
	if g := h2.goroutines - h0.goroutines; g > 20 && h2.goroutines-h1.goroutines > g/3 {
		c.Fail("after %d calls of %s %d goroutines are left behind, and after %d more calls %d", half, api, h1.goroutines-h0.goroutines, half, g)
	}
	if g := h2.files - h0.files; g > 20 && h2.files-h1.files > g/3 {
		c.Fail("after %d calls of %s %d files are left open, and after %d more calls %d", half, api, h1.files-h0.files, half, g)
	}
	c.HitN("calls whose arguments and results are gone", made)
	if made > 10000 {
		c.Hit("more than 10000 calls of an operation")
	}
	c.In("operation", api)
	c.In("calls", made)
}

// g04Many makes thousands of calls of each operation.
func g04Many(c *C) {
	o := &allOps[c.Index%len(allOps)]
	base := c.R.U64()
	budget := 1000 * time.Millisecond
	if c.Tier == "thorough" {
		budget *= 5
	}
	leak(c, o.name, 2000, 80000, budget, func(n int) {
		f := o.mk(&A{seed: base + uint64(n)*0x9e3779b97f4a7c15})()
		if n%16 == 0 {
			_ = f.show()
		}
	})
}

// g04Same makes thousands of calls with the same objects.
func g04Same(c *C) {
	r := c.R
	budget := 400 * time.Millisecond
	switch c.Index % 3 {
	case 0:
		t := mkTx(opTx(r))
		for len(t.Inputs) == 0 || len(t.Outputs) == 0 {
			t = mkTx(opTx(r))
		}
		leak(c, "reading a transaction", 2000, 80000, budget, func(n int) {
			_ = readTx[n%len(readTx)].f(t, n%7)
		})
	case 1:
		rs := (&A{seed: r.U64()}).mkRS()
		leak(c, "reading a redeem script", 2000, 80000, budget, func(n int) {
			_ = readRS[n%len(readRS)].f(rs)
		})
	case 2:
		s := scr(genClass(r))
		leak(c, "reading a script", 2000, 80000, budget, func(n int) {
			_ = readScript[n%len(readScript)].f(s)
		})
	}
}

// what is done with large arguments
var leakLarge = []struct {
	name string
	mk   func(r *R) func()
}{
	{"large transactions", func(r *R) func() {
		m := smallTx(r, r.In(1, 300), r.In(1, 300))
		m.Ins[0].Script = r.Bytes(r.N(30000))
		m.Outs[0].Script = r.Bytes(r.N(30000))
		b := m.Encode()
		return func() {
			t, err := transaction.NewFromBytes(b)
			if err != nil {
				return
			}
			_ = t.ToString()
			_ = t.GetTxID()
			t.Inputs[0].PreviousTxScript = &script.Script{}
			_, _ = t.GetInputSignatureHash(0, 0x41)
			_ = t.ToBytesWithClearedInputs(0, b)
			_, _ = transaction.NewFromString(ref.Hex(b))
			_, _, _ = input.NewFromBytes(t.Inputs[0].ToBytes(false))
			_, _, _ = output.NewFromBytes(t.Outputs[0].ToBytes())
		}
	}},
	{"large scripts", func(r *R) func() {
		s := genScript(r, 30000)
		d := [][]byte{r.Bytes(r.N(70000)), r.Bytes(r.N(300))}
		return func() {
			x := scr(s)
			_, _ = script.DecodeParts(s)
			_, _ = script.DecodeStringParts(ref.Hex(s))
			a, _ := x.ToASM()
			_, _ = script.NewFromASM(a)
			_, _ = script.NewFromHexString(x.ToString())
			_, _ = script.EncodeParts(d)
			_ = x.AppendPushDataArray(d)
			_, _ = output.NewOpReturnParts(d)
			_, _, _, _ = x.IsP2PK(), x.IsP2PKH(), x.IsMultisigOut(), x.IsData()
		}
	}},
	{"large texts", func(r *R) func() {
		d := r.Bytes(r.In(1000, 60000))
		k := newAES(r.Bytes(16))
		return func() {
			ct, _ := crypto.Encrypt(k, d)
			_, _ = crypto.Decrypt(k, ct)
			_, _ = crypto.Decrypt(k, d)
			_, _, _, _ = crypto.Sha256(d), crypto.Sha256d(d), crypto.Ripemd160(d), crypto.Hash160(d)
			s := bip276("bitcoin-script", 1, 1, d)
			_, _, _, _, _ = address.DecodeBIP276(s)
			_, _ = address.ValidateAddress(s)
			_, _ = address.ValidateAddress(ref.Hex(d))
			_, _ = address.NewFromString(ref.Hex(d))
			_, _ = block.ExpandTargetFrom(ref.Hex(d))
		}
	}},
	{"large Merkle trees", func(r *R) func() {
		l := make([]string, r.In(1, 800))
		for i := range l {
			l[i] = ref.Hex(r.Bytes(32))
		}
		return func() {
			b := block.GetMerkleBranches(l)
			_, _ = block.MerkleRootFromBranches(l[0], 0, b)
			_ = block.BuildMerkleRootFromCoinbase(ref.Rev([]byte(l[0])[:32]), l)
		}
	}},
}

func g04Large(c *C) {
	t := leakLarge[c.Index%len(leakLarge)]
	r := c.R
	leak(c, t.name, 30, 3000, 1000*time.Millisecond, func(int) { t.mk(r)() })
}

// leakHuge are calls with megabytes of data, whole and damaged at the end.
var leakHuge = []struct {
	name string
	mk   func(r *R) func()
}{
	{"huge transactions", func(r *R) func() {
		m := smallTx(r, 2, 2)
		if r.Bool() {
			m.Ins[r.N(2)].Script = make([]byte, r.In(1<<20, 6<<20))
		} else {
			m.Outs[r.N(2)].Script = make([]byte, r.In(1<<20, 6<<20))
		}
		b := m.Encode()
		h := ref.Hex(b)
		k := mon.Pick(r, 1, 2, 4, 5, 60, len(b)/2)
		return func() {
			t, err := transaction.NewFromBytes(b)
			if err == nil {
				_ = t.GetTxID()
				t.Inputs[1].PreviousTxScript = nil
				_, _ = t.GetInputSignatureHash(1, 0x41)
				i, o := t.Inputs[0].ToBytes(false), t.Outputs[0].ToBytes()
				_, _, _ = input.NewFromBytes(i[:len(i)-1])
				_, _, _ = output.NewFromBytes(o[:len(o)-1])
			}
			_, _ = transaction.NewFromBytes(b[:len(b)-k])
			_, _ = transaction.NewFromBytes(append(b[:len(b):len(b)], 0))
			_, _ = transaction.NewFromString(h[:len(h)-1])
			_, _ = transaction.NewFromString(h[:len(h)-2*k])
		}
	}},
	{"huge scripts", func(r *R) func() {
		d := make([]byte, r.In(1<<20, 6<<20))
		s := ref.Push(d)
		h := ref.Hex(s)
		return func() {
			_, _ = script.DecodeParts(s)
			_, _ = script.DecodeParts(s[:len(s)-1])
			_, _ = script.DecodeStringParts(h[:len(h)-2])
			_, _ = script.DecodeStringParts(h[:len(h)-1])
			_, _ = scr(s[:len(s)-1]).ToASM()
			_ = scr(s[:len(s)-1]).IsP2PK()
			_ = scr(s[:len(s)-1]).IsMultisigOut()
			_, _ = script.NewFromASM(h + "z")
			_ = scr(nil).AppendPushDataHexString(h + "z")
			_, _ = script.NewFromHexString(h + "0")
			_, _ = output.NewHashPuzzle(h, "00", 1)
			_, _ = output.NewHashPuzzle("", h, 1)
			_, _ = script.NewP2PKHFromPubKeyStr(h + "0")
		}
	}},
	{"huge texts", func(r *R) func() {
		d := make([]byte, r.In(1<<20, 3<<20))
		k := newAES(r.Bytes(16))
		s := bip276("bitcoin-script", 1, 1, d[:min(len(d), 1<<20+r.N(9))])
		h := ref.Hex(d)
		return func() {
			ct, _ := crypto.Encrypt(k, d)
			_, _ = crypto.Decrypt(k, ct[:len(ct)-1])
			_, _ = crypto.Decrypt(k, d)
			_, _, _, _, _ = address.DecodeBIP276(s[:len(s)-1])
			_, _ = address.ValidateAddress(s[:len(s)-1] + "0")
			_, _ = address.ValidateAddress(h)
			_, _ = address.NewFromString(h)
			_, _ = block.ExpandTargetFrom(h)
			_, _ = block.DifficultyFromBits(h)
			_, _ = utils.Decode32Byte(h)
			_, _, _ = block.GetCoinbaseParts(1, 1, h+"0", h, "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMr", d)
			_, _, _ = block.GetCoinbaseParts(1, 1, h, h, "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMR", d)
		}
	}},
	{"huge Merkle trees", func(r *R) func() {
		l := make([]string, r.In(2000, 12000))
		h := ref.Hex(r.Bytes(32))
		for i := range l {
			l[i] = h
		}
		return func() {
			_ = block.GetMerkleBranches(l)
			_, _ = block.MerkleRootFromBranches(l[0], 0, l)
			_, _ = block.MerkleRootFromBranches(l[0], 0, append(l[:len(l):len(l)], "zz"))
			_ = block.BuildMerkleRootFromCoinbase(ref.Rev([]byte(l[0])[:32]), l)
		}
	}},
}

func g04Huge(c *C) {
	t := leakHuge[c.Index%len(leakHuge)]
	seed := c.R.U64()
	c.In("seed", seed)
	leak(c, t.name, 3, 30, 600*time.Millisecond, func(n int) { t.mk(mon.NewR(seed, uint64(n)))() })
	c.Hit("huge data, whole and damaged")
}

// aside is a context of its own for calls whose traces and results nobody keeps.
func aside(c *C, r *R) *C {
	return &C{R: r, Seed: c.Seed, Tier: c.Tier, Cnt: c.Cnt, Stage: c.Stage}
}

// g04Hostile does what g03 does: damaged and invalid data, and errors.
func g04Hostile(c *C) {
	t := hostileTargets[c.Index%len(hostileTargets)]
	seed := c.R.U64()
	out := ""
	budget := 400 * time.Millisecond
	if c.Tier == "thorough" {
		budget *= 5
	}
	run := func() {
		leak(c, t.name, 1000, 40000, budget, func(n int) {
			r := mon.NewR(seed, uint64(n))
			h := &hostile{c: aside(c, r)}
			t.run(h, r)
		})
	}
	if c.Index/len(hostileTargets)%2 == 0 {
		run()
	} else {
		out, _ = printed(c, run)
		c.Check(out == "", "calls with %s write to the standard output: %s", t.name, mon.Show(out))
		c.Hit("standard output watched")
	}
	c.HitN("calls with damaged arguments", 1000)
}

// anyXPub is an extended key that no call has been given before.
func anyXPub(r *R) *ref.XPub {
	x := *poolXPub(r)
	r.Fill(x.Chain[:])
	x.Num = r.U32()
	x.Depth = byte(r.N(256))
	return &x
}

func anyPriv(r *R) *bsvec.PrivateKey {
	d := r.Bytes(32)
	d[0] &= 0x7f
	k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), d)
	return k
}

// what is done with arguments that never come again
var leakWide = []struct {
	name  string
	least int
	calls int
	do    func(r *R)
}{
	{"child keys", 700, 4000, func(r *R) {
		rs, _ := script.NewRedeemScript(2)
		p := anyXPub(r).String()
		for i := 0; i < 2; i++ {
			_ = rs.AddPublicKey(p, []uint32{r.U32() >> 1, r.U32() >> 1})
		}
		_ = rs.AddPublicKey(p, []uint32{r.U32() | 1<<31, r.U32()})
		_ = rs.AddPublicKey(p, nil)
		_ = rs.AddPublicKey(p[1:], []uint32{r.U32() >> 1, 0})
		_, _ = rs.GetRedeemScript(), rs.GetRedeemScriptHash()
		_ = rs.GetAddress()
	}},
	{"child keys of a script", 700, 4000, func(r *R) {
		ks := []electrumKey{{x: anyXPub(r), a: uint16(r.U32()), b: uint16(r.U32())}, {x: anyXPub(r), a: uint16(r.U32()), b: uint16(r.U32())}}
		rs, err := script.NewRedeemScriptFromElectrum(ref.Hex(electrum(0x52, ks, 0x52)))
		if err == nil {
			_ = rs.GetAddress()
		}
		_, _ = script.NewRedeemScriptFromElectrum(ref.Hex(electrum(0x52, ks[:1], 0x52)))
	}},
	{"private keys", 700, 4000, func(r *R) {
		k := anyPriv(r)
		h := r.Bytes(20)
		m := smallTx(r, r.In(1, 3), r.In(1, 3))
		for i := range m.Ins {
			m.Ins[i].HasPrev, m.Ins[i].PrevScript = true, ref.P2PKH(h)
		}
		t := mkTx(m)
		s := &signature.InternalSigner{PrivateKey: k, SigHashFlag: sighash.Flag(0x40 | r.N(4))}
		_ = t.Sign(uint32(r.N(4)), s)
		a, err := address.NewFromPublicKey(k.PubKey(), r.Bool())
		if err == nil {
			l, _ := script.NewP2PKHFromAddress(a.AddressString)
			t.Inputs[0].PreviousTxScript = l
		}
		_ = t.SignAuto(s)
		_, _ = script.NewP2PKHFromPubKeyBytes(k.PubKey().SerializeCompressed())
		_ = t.GetTxID()
	}},
	{"addresses", 2000, 40000, func(r *R) {
		h := r.Bytes(20)
		s := ref.Base58Check(append([]byte{byte(r.N(2) * 0x6f)}, h...))
		if a, err := address.NewFromString(s); err == nil {
			_, _ = script.NewP2PKHFromAddress(a.AddressString)
			_, _ = output.NewP2PKHFromAddress(s, r.U64())
		}
		_, _ = address.ValidateAddress(s)
		_, _ = address.ValidateAddress(s[1:])
		_, _ = address.NewFromString(s + "1")
		_, _ = address.NewFromPublicKeyString(ref.Hex(r.Bytes(33)), true)
		_, _ = address.NewFromPublicKeyHash(h, r.Bool())
		_, _ = script.NewP2PKHFromAddress(ref.Hex(h))
		_, _ = script.NewP2PKHFromPubKeyHashStr(ref.Hex(h))
		_, _ = script.NewP2PKHFromPubKeyStr(ref.Hex(h[1:]))
		b := bip276(mon.Pick(r, "bitcoin-script", "bitcoin-template", ref.Hex(h)), r.N(256), r.N(256), r.Bytes(r.N(60)))
		_, _, _, _, _ = address.DecodeBIP276(b)
		_, _, _, _, _ = address.DecodeBIP276(b[:len(b)-1])
		_, _ = address.ValidateAddress(b)
	}},
	{"keys and texts", 2000, 20000, func(r *R) {
		k, d := newAES(r.Bytes(mon.Pick(r, 16, 24, 32))), r.Bytes(r.N(200))
		ct, _ := crypto.Encrypt(k, d)
		_, _ = crypto.Decrypt(k, ct)
		_, _ = crypto.Decrypt(newAES(r.Bytes(16)), ct)
		_, _ = crypto.Decrypt(k, ct[:r.N(len(ct))])
		_, _, _, _ = crypto.Sha256(d), crypto.Sha256d(d), crypto.Ripemd160(d), crypto.Hash160(d)
		_, _ = output.NewHashPuzzle(ref.Hex(d), ref.Hex(r.Bytes(20)), r.U64())
		_, _ = output.NewHashPuzzle(ref.Hex(d), ref.Hex(r.Bytes(19)), r.U64())
	}},
	{"Merkle proofs", 500, 10000, func(r *R) {
		l := make([]string, r.In(1, 40))
		for i := range l {
			l[i] = ref.Hex(r.Bytes(32))
		}
		n := r.N(len(l))
		b := block.GetMerkleBranches(l)
		_, _ = block.MerkleRootFromBranches(l[0], 0, b)
		_, _ = block.MerkleRootFromBranches(l[n], n, b)
		_, _ = block.MerkleRootFromBranches(l[n], len(l)*2, b)
		_, _ = block.MerkleRootFromBranches(l[n], -1-n, b)
		_, _ = block.MerkleRootFromBranches(l[n][1:], 0, b)
		if len(b) > 0 {
			b[r.N(len(b))] = mon.Pick(r, "", "zz", l[0][2:])
		}
		_, _ = block.MerkleRootFromBranches(l[0], 0, b)
		_ = block.BuildMerkleRootFromCoinbase(r.Bytes(32), l)
	}},
	{"targets", 2000, 80000, func(r *R) {
		b := r.Bytes(4)
		_, _ = block.ExpandTargetFrom(ref.Hex(b))
		_, _ = block.ExpandTargetFromAsInt(ref.Hex(b))
		_, _ = block.DifficultyFromBits(ref.Hex(b))
		_, _ = block.ExpandTargetFrom(ref.Hex(b[1:]))
		_, _ = block.DifficultyFromBits("x" + ref.Hex(b))
		_ = block.DifficultyToHashrate(mon.Pick(r, "BSV", "BCH", ref.Hex(b)), r.U64(), float64(r.N(1000)))
	}},
	{"transactions and errors", 2000, 40000, func(r *R) {
		m := smallTx(r, r.N(4), r.N(4))
		b := m.Encode()
		t, err := transaction.NewFromBytes(b)
		if err == nil {
			_, _ = t.GetInputSignatureHash(uint32(r.N(6)), sighash.Flag(r.N(256)))
			_ = t.GetTxID()
			_ = t.From(ref.Hex(r.Bytes(32)), r.U32(), ref.Hex(r.Bytes(25)), r.U64())
			_ = t.From(ref.Hex(r.Bytes(31)), r.U32(), ref.Hex(r.Bytes(25)), r.U64())
			_ = t.From(ref.Hex(r.Bytes(32)), r.U32(), "xy", r.U64())
			_ = t.PayTo(ref.Hex(r.Bytes(20)), r.U64())
			_ = t.ApplyUnlockingScript(uint32(r.N(9)), scr(r.Bytes(20)))
		}
		_, _ = transaction.NewFromBytes(b[:r.N(len(b))])
		_, _ = transaction.NewFromBytes(append(b, r.Bytes(r.In(1, 50))...))
		_, _ = transaction.NewFromString(ref.Hex(b)[1:])
		_, _ = transaction.NewFromString(ref.Hex(b[:len(b)-1]))
		_, _, _ = input.NewFromBytes(b)
		_, _, _ = output.NewFromBytes(b)
	}},
	{"scripts and errors", 2000, 40000, func(r *R) {
		b := r.Bytes(r.N(100))
		_, _ = script.NewFromHexString(ref.Hex(b))
		_, _ = script.NewFromHexString(ref.Hex(b) + "x")
		_, _ = script.NewFromASM(ref.Hex(b) + " OP_DUP")
		_, _ = script.NewFromASM("OP_" + ref.Hex(b))
		_, _ = script.DecodeParts(b)
		_, _ = script.DecodeStringParts(ref.Hex(b))
		s := script.NewFromBytes(b)
		_, _ = s.ToASM()
		_, _ = s.GetPublicKeyHash()
		_, _ = script.NewRedeemScript(r.N(30) - 5)
	}},
}

func g04Wide(c *C) {
	t := leakWide[c.Index%len(leakWide)]
	seed := c.R.U64()
	budget := 800 * time.Millisecond
	if c.Tier == "thorough" {
		budget *= 5
	}
	out, _ := printed(c, func() {
		leak(c, t.name, t.least, t.calls, budget, func(n int) { t.do(mon.NewR(seed, uint64(n))) })
	})
	c.Check(out == "", "calls with %s write to the standard output: %s", t.name, mon.Show(out))
	c.Hit("standard output watched")
}

// printed gives what is written to the standard output and the standard error
// while f runs, in whatever way it is written.
func printed(c *C, f func()) (out, err string) {
	var files [2]*os.File
	var saved [2]int
	for i := range files {
		w, e := os.CreateTemp("", "printed")
		if e != nil {
			panic(e)
		}
		os.Remove(w.Name())
		files[i] = w
		if saved[i], e = syscall.Dup(i + 1); e != nil {
			panic(e)
		}
		syscall.CloseOnExec(saved[i])
	}
	for i, w := range files {
		syscall.Dup3(int(w.Fd()), i+1, 0)
	}
	func() {
		defer func() {
			for i := range files {
				syscall.Dup3(saved[i], i+1, 0)
				syscall.Close(saved[i])
			}
		}()
		f()
	}()
	var s [2]string
	for i, w := range files {
		n, _ := w.Seek(0, 2)
		b := make([]byte, n)
		w.ReadAt(b, 0)
		s[i] = string(b)
		w.Close()
	}
	return s[0], s[1]
}

// secret is something that may not be printed.
type secret struct {
	name string
	b    []byte
}

// tells says whether a text has the bytes in it, in one of the usual forms.
func (s secret) tells(text string) bool {
	if len(s.b) < 12 {
		return false
	}
	for _, f := range []string{string(s.b), fmt.Sprintf("%x", s.b), fmt.Sprintf("%X", s.b), base64.StdEncoding.EncodeToString(s.b)[:len(s.b)], fmt.Sprint(s.b), fmt.Sprint(ref.Rev(s.b))} {
		if strings.Contains(text, f) {
			return true
		}
	}
	return false
}

// g04Silent makes calls of all operations and looks at what is printed.
func g04Silent(c *C) {
	o := &allOps[c.Index%len(allOps)]
	c.In("operation", o.name)
	base := c.R.U64()
	c.In("seed", base)
	out, _ := printed(c, func() {
		c.Call(o.name, func() {
			for n := 0; n < 60; n++ {
				_ = o.mk(&A{seed: base + uint64(n)})()
			}
		})
	})
	c.Check(out == "", "%s writes to the standard output: %s", o.name, mon.Show(out))
	c.Hit("standard output watched")
}

// g04Secrets looks for keys and texts in what is printed and in errors.
func g04Secrets(c *C) {
	r := c.R
	k := keyN(r.In(12, nKeys-1))
	aesKey, text := r.Bytes(mon.Pick(r, 16, 24, 32)), r.Bytes(r.In(16, 60))
	if r.Bool() {
		text = []byte("my text " + ref.Hex(text[:8]))
	}
	xprv := ref.NewXPrv(poolXPub(r), k.d)
	puzzle := "the secret " + ref.Hex(r.Bytes(8))
	secrets := []secret{{"the private key", k.d.Bytes()}, {"the private key", []byte(k.d.String())}, {"the AES key", aesKey}, {"the plaintext", text},
		{"the extended private key", []byte(xprv.String())}, {"the hash puzzle's secret", []byte(puzzle)}}
	c.In("key", k.pub)
	c.In("text", text)
	m := signTx(r, []*key{k, k})
	sg, _ := genSigner(r, k)
	var errs []error
	e := func(err error) {
		if err != nil {
			errs = append(errs, err)
		}
	}
	lame := r.N(6)
	out, prt := printed(c, func() {
		c.Call("operations with secrets", func() {
			t := mkTx(m)
			if lame == 0 {
				t.Inputs[1].PreviousTxID = ""
			}
			e(t.Sign(uint32(r.N(3)), sg))
			e(t.SignAuto(sg))
			_, err := (&signature.InternalSigner{PrivateKey: k.priv}).Sign(uint32(r.N(3)), t)
			e(err)
			b := newAES(aesKey)
			ct, err := crypto.Encrypt(b, text)
			e(err)
			_, err = crypto.Decrypt(b, ct)
			e(err)
			if len(ct) > 20 { // damaged: an error, but not one with the text in it
				ct[len(ct)-1-r.N(4)] ^= byte(1 + r.N(255))
				_, err = crypto.Decrypt(b, ct)
				e(err)
				_, err = crypto.Decrypt(b, ct[:len(ct)-1-r.N(3)])
				e(err)
			}
			_, err = crypto.Decrypt(newAES(r.Bytes(16)), ct)
			e(err)
			rs, err := script.NewRedeemScript(2)
			e(err)
			e(rs.AddPublicKey(xprv.String(), []uint32{0, uint32(r.N(9))}))
			e(rs.AddPublicKey(xprv.String(), []uint32{0}))
			_, err = output.NewHashPuzzle(puzzle, ref.Hex(r.Bytes(20-lame/5)), 1)
			e(err)
		})
	})
	c.Check(out == "", "operations with secrets write to the standard output: %s", mon.Show(out))
	for _, s := range secrets {
		c.Check(!s.tells(prt), "%s is written to the standard error: %s", s.name, mon.Show(prt))
		for _, err := range errs {
			c.Check(!s.tells(err.Error()), "%s is in an error: %s", s.name, mon.Show(err.Error()))
		}
	}
	if len(errs) > 0 {
		c.Hit("errors of operations with secrets")
	}
	c.Check(bytes.Equal(k.d.Bytes(), k.priv.D.Bytes()), "the private key changed")
}

func init() {
	nops := len(allOps)
	register(&mon.Prop{
		ID:   "G04",
		Rule: "each case makes thousands of calls of an operation with other arguments each time (or with the same objects, or with large ones), drops arguments and results, collects garbage and measures what the process holds after half of the calls and after all: heap of more than 120 KB, goroutines and open files that grow on are violations; other cases redirect the process's standard output and error during calls of all operations and look for output, and for secrets in it and in errors; around each case the settings of the process (environment, directory, limits, logger, time zone, random source, signals, scheduler and collector) are compared; distinct by the operations and the numbers of calls, or the arguments",
		Stages: []mon.Stage{
			{Name: "many calls", Quick: nops, Deep: nops * 3, Run: g04Keeps(g04Many), NoGuide: true},
			{Name: "same objects", Quick: 24, Deep: 96, Run: g04Keeps(g04Same), NoGuide: true},
			{Name: "large", Quick: 2 * shards, Deep: 12 * shards, Run: g04Keeps(g04Large), NoGuide: true},
			{Name: "huge", Quick: 2 * len(leakHuge), Deep: 20 * len(leakHuge), Run: g04Keeps(g04Huge), NoGuide: true},
			{Name: "damaged", Quick: 2 * len(hostileTargets), Deep: 8 * len(hostileTargets), Run: g04Keeps(g04Hostile), NoGuide: true},
			{Name: "never again", Quick: 2 * len(leakWide), Deep: 8 * len(leakWide), Run: g04Keeps(g04Wide), NoGuide: true},
			{Name: "output", Quick: 4 * nops, Deep: 100 * nops, Run: g04Keeps(g04Silent), NoGuide: true},
			{Name: "sealed", Quick: 2 * sealedParts, Deep: 8 * sealedParts, Run: g04Sealed, NoGuide: true},
			{Name: "secrets", Quick: 2000, Deep: 100000, Run: g04Keeps(g04Secrets), NoGuide: true},
		},
		Need: map[string]int{"calls whose arguments and results are gone": 100000, "standard output watched": nops, "settings compared": 20000, "huge data, whole and damaged": 8, "errors of operations with secrets": 500, "calls with damaged arguments": 20000, "calls while files, network and processes were out of reach": 10000},
	})
}
