package main

import (
	"errors"
	"fmt"
	"math/big"
	"sync"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/harness/mon"
	"verif/harness/ref"
)

// key is a key pair; the public part is computed by the reference.
type key struct {
	d    *big.Int
	priv *bsvec.PrivateKey
	pt   *ref.Point
	pub  []byte // compressed
	hash []byte
}

var (
	keyMu   sync.Mutex
	keyPool = map[int]*key{}
)

// keyN returns the n-th key of a fixed list that begins with extreme ones.
func keyN(n int) *key {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k := keyPool[n]; k != nil {
		return k
	}
	d := new(big.Int)
	switch {
	case n < 3:
		d.SetInt64(int64(n + 1))
	case n < 5:
		d.Sub(ref.N, big.NewInt(int64(n-2)))
	case n == 5:
		d.Lsh(big.NewInt(1), 255)
		d.Mod(d, ref.N)
	case n == 6:
		d.SetBytes(mon.NewR(uint64(n)).Bytes(16))
	case n < 12:
		// X begins with one and with two zero bytes, Y with one, the hash of the
		// key with one and with two
		d.SetInt64([]int64{153, 44629, 122, 182, 202760}[n-7])
	default:
		d.SetBytes(mon.NewR(uint64(n), 77).Bytes(32))
		d.Mod(d, new(big.Int).Sub(ref.N, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
	}
	k := newKey(d)
	keyPool[n] = k
	return k
}

func newKey(d *big.Int) *key {
	b := make([]byte, 32)
	d.FillBytes(b)
	priv, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
	pt := ref.MulG(d)
	k := &key{d: d, priv: priv, pt: pt, pub: pt.Compressed()}
	k.hash = ref.Hash160(k.pub)
	return k
}

const nKeys = 40

func genKey(r *R) *key { return keyN(r.N(nKeys)) }

func genFlag(r *R) byte {
	if r.P(60) {
		return mon.Pick(r, byte(0x41), 0x42, 0x43, 0xc1, 0xc2, 0xc3)
	}
	return byte(r.U32()) | 0x40
}

func sigHash(c *C, t *Tx, n uint32, f byte) ([]byte, error) {
	return mon.Do2(c, "Transaction.GetInputSignatureHash", func() ([]byte, error) { return t.GetInputSignatureHash(n, sighash.Flag(f)) })
}

func s01Compare(c *C, t *Tx, m *ref.Tx, n int, f byte, what string) {
	h, err := sigHash(c, t, uint32(n), f)
	c.Check(err == nil, "%s: GetInputSignatureHash(%d, %#x) of %d inputs and %d outputs fails: %v", what, n, f, len(m.Ins), len(m.Outs), err)
	c.EqBytes(fmt.Sprintf("%s: GetInputSignatureHash(%d, %#x) of %d inputs and %d outputs", what, n, f, len(m.Ins), len(m.Outs)), h, m.SigHash(n, f))
	c.KeepBytes("Transaction.GetInputSignatureHash", h)
	if f&0x1f == 3 && n >= len(m.Outs) {
		c.Hit("SINGLE without output")
	}
	switch f & 0x9f {
	case 1:
		c.Hit("ALL")
	case 2:
		c.Hit("NONE")
	case 3:
		c.Hit("SINGLE")
	case 0x81:
		c.Hit("ALL|ANYONECANPAY")
	case 0x82:
		c.Hit("NONE|ANYONECANPAY")
	case 0x83:
		c.Hit("SINGLE|ANYONECANPAY")
	default:
		c.Hit("other base type")
	}
}

func someIndexes(r *R, n int, k int) []int {
	if n <= k {
		p := r.Perm(n)
		return p
	}
	idx := []int{0, n - 1}
	for len(idx) < k {
		idx = append(idx, r.N(n))
	}
	return idx
}

func s01(c *C) {
	m := genTx(c.R)
	if len(m.Ins) == 0 {
		m.Ins = append(m.Ins, genIn(c.R, 100))
	}
	inTx(c, m)
	t := buildTx(c, m)
	d := dumpTx(t)
	for _, n := range someIndexes(c.R, len(m.Ins), 4) {
		for k := 0; k < 4; k++ {
			f := genFlag(c.R)
			c.In("index and flag", fmt.Sprintf("%d %#x", n, f))
			s01Compare(c, t, m, n, f, "built")
		}
	}
	mon.Eq(c, "the transaction afterwards", dumpTx(t), d)
}

// s01Flags tries all hash types with FORKID on one transaction.
func s01Flags(c *C) {
	r := c.R
	m := smallTx(r, r.In(1, 4), r.N(4))
	inTx(c, m)
	t := buildTx(c, m)
	for f := 0; f < 256; f++ {
		if f&0x40 != 0 {
			for n := range m.Ins {
				s01Compare(c, t, m, n, byte(f), "all flags")
			}
		}
	}
}

func s01History(c *C) {
	r := c.R
	m := smallTx(r, r.In(1, 5), r.N(5))
	if r.P(40) {
		m = genTx(r)
		if len(m.Ins) > 12 {
			m.Ins = m.Ins[:12]
		}
		if len(m.Outs) > 12 {
			m.Outs = m.Outs[:12]
		}
	}
	m = m.Clone()
	inTx(c, m)
	t := buildTx(c, m)
	for k := r.In(2, 10); k > 0; k-- {
		if len(m.Ins) > 0 {
			for q := r.N(4); q > 0; q-- {
				s01Compare(c, t, m, r.N(len(m.Ins)), genFlag(r), "in a history")
			}
			if r.P(10) { // interleave other users of the same data
				mon.Do(c, "Transaction.GetTxID", t.GetTxID)
				sigHash(c, t, uint32(len(m.Ins)), 0x41)
			}
		}
		editTx(c, t, m)
		for i := range m.Ins {
			if !m.Ins[i].HasPrev {
				m.Ins[i].HasPrev = true
				t.Inputs[i].PreviousTxScript = scr(m.Ins[i].PrevScript)
			}
		}
	}
	for n := range m.Ins {
		s01Compare(c, t, m, n, genFlag(r), "at the end of a history")
		s01Compare(c, t, m, n, 0x41, "at the end of a history")
	}
}

// s02 changes one part at a time and looks whether the signature hash changes.
func s02(c *C) {
	r := c.R
	m := genTx(r)
	many := c.Index%400 == 17
	if many { // indexes beyond 2^8, and what is alike in the low bits
		n := r.In(257, 700)
		m = smallTx(r, n, mon.Pick(r, n, n, n-1, 257, r.In(1, n)))
		if r.P(60) {
			m = smallTx(r, largeCount(r, 2200), largeCount(r, 2200))
		}
		if r.P(10) {
			m = smallTx(r, 257+largeCount(r, 20000), r.In(1, 300))
		} else if r.P(10) {
			m = smallTx(r, r.In(257, 400), largeCount(r, 20000))
		}
		c.Hit("thousands of inputs or outputs")
	}
	for len(m.Ins) < 1 {
		m.Ins = append(m.Ins, genIn(r, 100))
	}
	if len(m.Ins) > 30 && r.P(80) && !many {
		m.Ins = m.Ins[:30]
	}
	if len(m.Outs) > 30 && r.P(80) && !many {
		m.Outs = m.Outs[:30]
	}
	if r.P(50) && len(m.Ins) < 3 {
		m.Ins = append(m.Ins, genIn(r, 60), genIn(r, 60))
	}
	m = m.Clone()
	inTx(c, m)
	n := r.N(len(m.Ins))
	if many && len(m.Ins) > 256 && r.P(85) {
		n = r.In(256, len(m.Ins)-1)
		c.Hit("index of 256 or more")
	}
	f := genFlag(r)
	base, acp := f&0x1f, f&0x80 != 0
	c.In("index and flag", fmt.Sprintf("%d %#x", n, f))
	t := buildTx(c, m)
	h0, err := sigHash(c, t, uint32(n), f)
	c.Check(err == nil, "GetInputSignatureHash: %v", err)
	h0 = append([]byte{}, h0...)
	other := -1
	if len(m.Ins) > 1 {
		other = (n + 1 + r.N(len(m.Ins)-1)) % len(m.Ins)
	}
	all := base != 2 && base != 3
	outCovered := func(i int) bool { return all || base == 3 && i == n }
	flip32 := func(p *uint32) { *p ^= 1 << r.N(32) }
	flip64 := func(p *uint64) { *p ^= 1 << r.N(64) }
	flipHash := func(h *[32]byte) { h[r.N(32)] ^= 1 << r.N(8) }
	changeScript := func(s []byte) []byte {
		s = append([]byte{}, s...)
		switch {
		case len(s) == 0 || r.P(25):
			return append(s, byte(r.U32()))
		case r.P(30):
			return s[:len(s)-1]
		}
		s[r.N(len(s))] ^= 1 << r.N(8)
		return s
	}
	type change struct {
		name    string
		covered bool
		do      func(m *ref.Tx)
	}
	cs := []change{
		{"version", true, func(m *ref.Tx) { flip32(&m.Version) }},
		{"lock time", true, func(m *ref.Tx) { flip32(&m.Lock) }},
		{"own previous transaction ID", true, func(m *ref.Tx) { flipHash(&m.Ins[n].Hash) }},
		{"own output index", true, func(m *ref.Tx) { flip32(&m.Ins[n].Vout) }},
		{"own amount", true, func(m *ref.Tx) { flip64(&m.Ins[n].PrevSats) }},
		{"own spent script", true, func(m *ref.Tx) { m.Ins[n].PrevScript = changeScript(m.Ins[n].PrevScript) }},
		{"own sequence", true, func(m *ref.Tx) { flip32(&m.Ins[n].Seq) }},
		{"own unlocking script", false, func(m *ref.Tx) { m.Ins[n].Script, m.Ins[n].NilScript = changeScript(m.Ins[n].Script), false }},
		{"an input appended", !acp, func(m *ref.Tx) { m.Ins = append(m.Ins, genIn(r, 60)) }},
		{"an output appended", all || base == 3 && n == len(m.Outs), func(m *ref.Tx) { m.Outs = append(m.Outs, genOut(r, 60)) }},
	}
	if other >= 0 {
		cs = append(cs,
			change{"other previous transaction ID", !acp, func(m *ref.Tx) { flipHash(&m.Ins[other].Hash) }},
			change{"other output index", !acp, func(m *ref.Tx) { flip32(&m.Ins[other].Vout) }},
			change{"other sequence", all && !acp, func(m *ref.Tx) { flip32(&m.Ins[other].Seq) }},
			change{"other amount", false, func(m *ref.Tx) { flip64(&m.Ins[other].PrevSats) }},
			change{"other spent script", false, func(m *ref.Tx) { m.Ins[other].PrevScript = changeScript(m.Ins[other].PrevScript) }},
			change{"other unlocking script", false, func(m *ref.Tx) {
				m.Ins[other].Script, m.Ins[other].NilScript = changeScript(m.Ins[other].Script), false
			}},
		)
		if n < len(m.Ins)-1 {
			last := len(m.Ins) - 1
			cs = append(cs, change{"last input removed", !acp, func(m *ref.Tx) { m.Ins = m.Ins[:last] }})
		}
	}
	for k := 0; many && k < 6 && len(m.Outs) > 0; k++ { // anywhere
		i := r.N(len(m.Outs))
		cs = append(cs, change{fmt.Sprintf("output %d satoshis", i), outCovered(i), func(m *ref.Tx) { flip64(&m.Outs[i].Sats) }})
		if j := r.N(len(m.Ins)); j != n {
			cs = append(cs, change{fmt.Sprintf("output index of input %d", j), !acp, func(m *ref.Tx) { flip32(&m.Ins[j].Vout) }},
				change{fmt.Sprintf("sequence of input %d", j), all && !acp, func(m *ref.Tx) { flip32(&m.Ins[j].Seq) }})
		}
	}
	for i := range m.Outs {
		if i != n && i != n&255 && i != 0 && i != len(m.Outs)-1 && r.N(len(m.Outs)) > 2 {
			continue
		}
		cs = append(cs,
			change{fmt.Sprintf("output %d satoshis", i), outCovered(i), func(m *ref.Tx) { flip64(&m.Outs[i].Sats) }},
			change{fmt.Sprintf("output %d script", i), outCovered(i), func(m *ref.Tx) { m.Outs[i].Script = changeScript(m.Outs[i].Script) }},
		)
	}
	if k := len(m.Outs); k > 0 {
		cs = append(cs, change{"last output removed", all || base == 3 && n == k-1, func(m *ref.Tx) { m.Outs = m.Outs[:k-1] }})
	}
	if len(m.Ins) > 40 || len(m.Outs) > 40 {
		for i := range cs { // few for large transactions
			j := r.N(i + 1)
			cs[i], cs[j] = cs[j], cs[i]
		}
		if many {
			cs = cs[:min(len(cs), 20)]
		} else {
			cs = cs[:5]
		}
	}
	for _, ch := range cs {
		m2 := m.Clone()
		ch.do(m2)
		var t2 *Tx
		if r.P(25) { // in the object whose hash was computed before
			t2 = mkTx(m)
			sigHash(c, t2, uint32(n), f)
			applyModel(t2, m2)
		} else {
			t2 = mkTx(m2)
		}
		d := dumpTx(t2)
		h, err := sigHash(c, t2, uint32(n), f)
		c.Check(err == nil, "GetInputSignatureHash after a change of %s: %v", ch.name, err)
		same := string(h) == string(h0)
		c.Check(same != ch.covered, "hash type %#x, input %d of %d, %d outputs: the signature hash changed: %v after a change of %s, which is covered: %v", f, n, len(m.Ins), len(m.Outs), !same, ch.name, ch.covered)
		mon.Eq(c, "the transaction after computing a signature hash", dumpTx(t2), d)
		if ch.covered {
			c.Hit("covered part changed")
		} else {
			c.Hit("uncovered part changed")
		}
	}
	// another hash type
	g := genFlag(r)
	h, err := sigHash(c, t, uint32(n), g)
	c.Check(err == nil, "GetInputSignatureHash: %v", err)
	c.Check((string(h) == string(h0)) == (f == g), "hash types %#x and %#x: same signature hash: %v", f, g, string(h) == string(h0))
	h, err = sigHash(c, t, uint32(n), f)
	c.Check(err == nil && string(h) == string(h0), "the signature hash, computed again, is another one: %v", err)
	s02Errors(c, t, m, n, f)
}

// applyModel sets the fields of an existing object to those of the model.
func applyModel(t *Tx, m *ref.Tx) {
	t.Version, t.Locktime = m.Version, m.Lock
	for i := range m.Ins {
		n := mkIn(&m.Ins[i])
		if i < len(t.Inputs) {
			o := t.Inputs[i]
			o.PreviousTxID, o.PreviousTxOutIndex, o.PreviousTxSatoshis = n.PreviousTxID, n.PreviousTxOutIndex, n.PreviousTxSatoshis
			o.PreviousTxScript, o.UnlockingScript, o.SequenceNumber = n.PreviousTxScript, n.UnlockingScript, n.SequenceNumber
		} else {
			t.Inputs = append(t.Inputs, n)
		}
	}
	t.Inputs = t.Inputs[:len(m.Ins)]
	for i := range m.Outs {
		if i < len(t.Outputs) {
			t.Outputs[i].Satoshis = m.Outs[i].Sats
			*t.Outputs[i].LockingScript = append([]byte{}, m.Outs[i].Script...)
		} else {
			t.Outputs = append(t.Outputs, mkOut(&m.Outs[i]))
		}
	}
	t.Outputs = t.Outputs[:len(m.Outs)]
}

func badIndex(r *R, n int) uint32 {
	for {
		i := mon.Pick(r, uint32(n), uint32(n), uint32(n)+1, uint32(n)+uint32(r.N(300)), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffff, 0x10000, 0x10000+uint32(r.N(n+1)), 0x100+uint32(r.N(n+1)), 0xffffffff-uint32(r.N(n+1)), r.U32())
		if uint64(i) >= uint64(n) {
			return i
		}
	}
}

func s02Errors(c *C, t *Tx, m *ref.Tx, n int, f byte) {
	r := c.R
	d := dumpTx(t)
	i := badIndex(r, len(m.Ins))
	_, err := sigHash(c, t, i, f)
	c.Check(err != nil, "GetInputSignatureHash(%d) of %d inputs reports no error", i, len(m.Ins))
	id, ps := t.Inputs[n].PreviousTxID, t.Inputs[n].PreviousTxScript
	t.Inputs[n].PreviousTxID = ""
	_, err = sigHash(c, t, uint32(n), f)
	c.Check(err != nil, "GetInputSignatureHash without previous transaction ID reports no error")
	t.Inputs[n].PreviousTxID, t.Inputs[n].PreviousTxScript = id, nil
	_, err = sigHash(c, t, uint32(n), f)
	c.Check(err != nil, "GetInputSignatureHash without previous script reports no error")
	t.Inputs[n].PreviousTxScript = ps
	empty := mkTx(&ref.Tx{Version: 1, Outs: m.Outs})
	_, err = sigHash(c, empty, 0, f)
	c.Check(err != nil, "GetInputSignatureHash of no inputs reports no error")
	mon.Eq(c, "the transaction after errors", dumpTx(t), d)
	c.Hit("error cases")
}

// checkUnlock checks that input n carries a valid unlocking script of the key.
func checkUnlock(c *C, what string, t *Tx, m *ref.Tx, n int, k *key, flag byte) {
	s := sbytes(t.Inputs[n].UnlockingScript)
	toks, ok := ref.Tokens(s)
	c.Check(ok && len(toks) == 2 && toks[0].Push && toks[1].Push, "%s: the unlocking script of input %d is not two pushes: %x", what, n, s)
	c.EqBytes(what+": unlocking script in minimal pushes", s, ref.Cat(ref.Push(toks[0].Data), ref.Push(toks[1].Data)))
	c.EqBytes(what+": public key pushed", toks[1].Data, k.pub)
	sig := toks[0].Data
	c.Check(len(sig) > 1, "%s: empty signature", what)
	mon.Eq(c, what+": hash type byte", sig[len(sig)-1], flag)
	rr, ss, err := ref.ParseDER(sig[:len(sig)-1])
	c.Check(err == nil, "%s: signature %x: %v", what, sig, err)
	c.Check(ref.LowS(ss), "%s: the signature's S is high: %x", what, sig)
	hash := ref.Rev(m.SigHash(n, flag))
	c.Check(ref.Verify(k.pt, hash, rr, ss), "%s: the signature of input %d (hash type %#x, %d inputs, %d outputs) does not verify: %x", what, n, flag, len(m.Ins), len(m.Outs), sig)
	c.Hit("signature verified")
	checkNonce(c, k, hash, rr, ss)
}

// checkNonce finds out the nonce of a valid signature, as whoever knows the key can,
// and checks that it does not give the key away: that it is not a small number and
// was not used for another hash or key. (The nonce may have been negated to make S low.)
func checkNonce(c *C, k *key, hash []byte, rr, ss *big.Int) {
	e := new(big.Int).Mul(rr, k.priv.D)
	e.Add(e, new(big.Int).SetBytes(hash))
	e.Mul(e, new(big.Int).ModInverse(ss, ref.N)).Mod(e, ref.N)
	if f := new(big.Int).Sub(ref.N, e); f.Cmp(e) < 0 {
		e = f
	}
	c.Check(e.BitLen() > 150, "the nonce of a signature has %d bits", e.BitLen())
	c.Agree(mon.HashStr("nonce "+e.String()), fmt.Sprintf("%x %x", k.pub, hash), "the key and hash signed with the nonce "+e.String())
}

// signTx makes a transaction that spends outputs of the given keys.
func signTx(r *R, owners []*key) *ref.Tx {
	m := &ref.Tx{Version: mon.Pick(r, uint32(1), 2, genU32(r)), Lock: mon.Pick(r, uint32(0), genU32(r))}
	for _, k := range owners {
		in := ref.In{Hash: genHash(r), Vout: genU32(r), Seq: genU32(r), PrevSats: genU64(r), HasPrev: true, PrevScript: ref.P2PKH(k.hash)}
		switch r.N(4) {
		case 0:
			in.NilScript = true
		case 1:
			in.Script = []byte{}
		case 2:
			in.Script = genScript(r, 150)
		case 3:
			in.Script = ref.Cat(ref.Push(r.Bytes(71)), ref.Push(k.pub))
		}
		if len(in.Script) > 0 {
			in.NilScript = false
		}
		m.Ins = append(m.Ins, in)
	}
	for i := mon.Pick(r, 0, 1, 1, 2, 2, len(owners), r.N(6)); i > 0; i-- {
		m.Outs = append(m.Outs, genOut(r, 100))
	}
	if r.P(25) { // inputs that differ in little
		for i := 1; i < len(m.Ins); i++ {
			if r.P(70) {
				alike(r, &m.Ins[i], &m.Ins[i-1-r.N(min(i, 2))])
			}
		}
	}
	return m
}

// alike makes two inputs the same in all but one of what a signature depends on, or
// in all.
func alike(r *R, a, b *ref.In) {
	was := *a
	a.Hash, a.Vout, a.Seq, a.PrevSats = b.Hash, b.Vout, b.Seq, b.PrevSats
	switch r.N(6) {
	case 0:
		a.Hash = was.Hash
	case 1, 2:
		a.Vout = mon.Pick(r, b.Vout+1, b.Vout^1<<r.N(32))
	case 3:
		a.Seq = mon.Pick(r, b.Seq+1, b.Seq^1<<r.N(32))
	case 4:
		a.PrevSats = mon.Pick(r, b.PrevSats+1, b.PrevSats^1<<r.N(64))
	}
}

// adopt copies the unlocking script the library made into the model.
func adopt(t *Tx, m *ref.Tx, n int) {
	m.Ins[n].Script = append([]byte{}, sbytes(t.Inputs[n].UnlockingScript)...)
	m.Ins[n].NilScript = false
}

func genSigner(r *R, k *key) (*signature.InternalSigner, byte) {
	if r.P(35) {
		return &signature.InternalSigner{PrivateKey: k.priv}, 0x41
	}
	f := genFlag(r)
	return &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(f)}, f
}

func signerState(s *signature.InternalSigner) string {
	return fmt.Sprintf("%x %x %x %d", s.PrivateKey.D, s.PrivateKey.X, s.PrivateKey.Y, s.SigHashFlag)
}

func doSign(c *C, t *Tx, n uint32, s transaction.Signer) error {
	return mon.DoErr(c, "Transaction.Sign", func() error { return t.Sign(n, s) })
}

func doSignAuto(c *C, t *Tx, s transaction.Signer) error {
	return mon.DoErr(c, "Transaction.SignAuto", func() error { return t.SignAuto(s) })
}

func s03(c *C) {
	r := c.R
	var owners []*key
	for i := mon.Pick(r, 1, 1, 2, 3, r.In(1, 5)); i > 0; i-- {
		owners = append(owners, genKey(r))
	}
	m := signTx(r, owners)
	if r.P(30) { // signing is not restricted to P2PKH inputs
		m.Ins[r.N(len(m.Ins))].PrevScript = genScript(r, 300)
	}
	m = m.Clone()
	inTx(c, m)
	t := buildTx(c, m)
	flags := make([]byte, len(m.Ins))
	for _, n := range r.Perm(len(m.Ins)) {
		s, f := genSigner(r, owners[n])
		flags[n] = f
		before := signerState(s)
		c.In("sign", fmt.Sprintf("%d %#x", n, f))
		if r.P(80) {
			err := doSign(c, t, uint32(n), s)
			c.Check(err == nil, "signing input %d: %v", n, err)
		} else {
			t2, err := mon.Do2(c, "InternalSigner.Sign", func() (*Tx, error) { return s.Sign(uint32(n), t) })
			c.Check(err == nil && t2 != nil, "signing input %d: %v", n, err)
			t = t2
		}
		c.Check(n < len(t.Inputs) && t.Inputs[n].UnlockingScript != nil, "input %d has no unlocking script", n)
		adopt(t, m, n)
		checkTxIs(c, "after signing one input", t, m, true)
		mon.Eq(c, "the signer after signing", signerState(s), before)
		if f&0x1f == 3 && n >= len(m.Outs) {
			c.Hit("signed SINGLE without output")
		}
	}
	for n := range m.Ins {
		checkUnlock(c, "after all inputs are signed", t, m, n, owners[n], flags[n])
	}
	if r.P(30) { // sign one again with another hash type
		n := r.N(len(m.Ins))
		f := genFlag(r)
		s := &signature.InternalSigner{PrivateKey: owners[n].priv, SigHashFlag: sighash.Flag(f)}
		err := doSign(c, t, uint32(n), s)
		c.Check(err == nil, "signing input %d again: %v", n, err)
		adopt(t, m, n)
		checkTxIs(c, "after signing again", t, m, true)
		checkUnlock(c, "signed again", t, m, n, owners[n], f)
		c.Hit("signed again")
		if k := genKey(r); r.Bool() { // the same hash with another key
			err := doSign(c, t, uint32(n), &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(f)})
			c.Check(err == nil, "signing input %d with another key: %v", n, err)
			adopt(t, m, n)
			checkUnlock(c, "signed with another key", t, m, n, k, f)
			owners[n] = k
		}
	}
	b := txBytes(c, t)
	p, err := parseTx(c, b)
	c.Check(err == nil, "the signed transaction does not parse: %v", err)
	checkTxIs(c, "the signed transaction, parsed", p, m, false)
}

// s03Edit signs, edits and signs again: the new signature must be of the new transaction.
func s03Edit(c *C) {
	r := c.R
	k := genKey(r)
	m := signTx(r, []*key{k, k, genKey(r)}).Clone()
	t := buildTx(c, m)
	inTx(c, m)
	s, f := genSigner(r, k)
	c.In("flag", f)
	for pass := 0; pass < 3; pass++ {
		if len(m.Ins) == 0 {
			return
		}
		n := r.N(len(m.Ins))
		if !m.Ins[n].HasPrev {
			m.Ins[n].HasPrev = true
			t.Inputs[n].PreviousTxScript = scr(m.Ins[n].PrevScript)
		}
		err := doSign(c, t, uint32(n), s)
		c.Check(err == nil, "signing input %d: %v", n, err)
		adopt(t, m, n)
		checkTxIs(c, "after signing", t, m, true)
		checkUnlock(c, "signed after edits", t, m, n, k, f)
		for q := r.In(1, 3); q > 0; q-- {
			editTx(c, t, m)
		}
	}
}

// s03Signer signs many times with one signer object, whose key and hash type
// are changed in between, and with signers made in the memory of one variable.
func s03Signer(c *C) {
	r := c.R
	n := r.In(2, 5)
	owners := make([]*key, n)
	for i := range owners {
		owners[i] = genKey(r)
	}
	m := signTx(r, owners).Clone()
	inTx(c, m)
	t := buildTx(c, m)
	var s signature.InternalSigner
	for k := r.In(4, 10); k > 0; k-- {
		i := r.N(n)
		f := mon.Pick(r, byte(0), 0, 0x41, genFlag(r))
		if r.Bool() {
			s.PrivateKey, s.SigHashFlag = owners[i].priv, sighash.Flag(f)
		} else {
			s = signature.InternalSigner{PrivateKey: owners[i].priv, SigHashFlag: sighash.Flag(f)}
		}
		want := f
		if f == 0 {
			want = 0x41
		}
		c.In("sign", fmt.Sprintf("%d %#x", i, f))
		if r.P(75) {
			err := doSign(c, t, uint32(i), &s)
			c.Check(err == nil, "signing input %d: %v", i, err)
			adopt(t, m, i)
			checkTxIs(c, "after signing with a signer used before", t, m, true)
			checkUnlock(c, "signed by a signer used before", t, m, i, owners[i], want)
		} else {
			err := doSignAuto(c, t, &s)
			c.Check(err == nil, "SignAuto: %v", err)
			for j := range m.Ins {
				if owners[j] == owners[i] {
					adopt(t, m, j)
				}
			}
			checkTxIs(c, "after SignAuto with a signer used before", t, m, true)
			for j := range m.Ins {
				if owners[j] == owners[i] {
					checkUnlock(c, "signed automatically by a signer used before", t, m, j, owners[j], want)
				}
			}
		}
		mon.Eq(c, "the signer's hash type after signing", byte(s.SigHashFlag), f)
		c.Check(s.PrivateKey == owners[i].priv, "signing changed the signer's key")
		c.Hit("signer used again")
	}
}

// sHidden signs, takes the signatures away, changes what is signed but is not in the
// transaction's bytes (what an input spends), and signs again.
func sHidden(c *C, auto bool) {
	r := c.R
	k, other := genKey(r), keyN(nKeys+r.N(8))
	own := make([]*key, r.In(1, 3))
	for i := range own {
		own[i] = k
	}
	first := signTx(r, own)
	inTx(c, first)
	s, f := genSigner(r, k)
	c.In("flag", f)
	m := first.Clone()
	t := buildTx(c, m)
	for pass := 0; pass < 3; pass++ {
		if pass > 0 {
			i := r.N(len(own))
			switch x := &m.Ins[i]; r.N(4) {
			case 0, 1:
				x.PrevSats = mon.Pick(r, x.PrevSats+1, x.PrevSats^1<<r.N(64), genU64(r))
			case 2:
				if own[i] = k; string(x.PrevScript) == string(ref.P2PKH(k.hash)) {
					own[i], x.PrevScript = other, ref.P2PKH(other.hash)
				} else {
					x.PrevScript = ref.P2PKH(k.hash)
				}
			case 3:
				if b := nudge(r, x.PrevScript); !auto && len(b) > 0 {
					x.PrevScript = b
				}
			}
			c.In("spent output changed", fmt.Sprintf("%d %d %x", i, m.Ins[i].PrevSats, m.Ins[i].PrevScript))
			for i := range m.Ins {
				m.Ins[i].Script, m.Ins[i].NilScript = first.Ins[i].Script, first.Ins[i].NilScript
			}
			if r.P(40) {
				t = mkTx(m)
			} else {
				for i := range m.Ins {
					x := mkIn(&m.Ins[i])
					y := t.Inputs[i]
					y.UnlockingScript, y.PreviousTxSatoshis, y.PreviousTxScript = x.UnlockingScript, x.PreviousTxSatoshis, x.PreviousTxScript
				}
			}
			if r.P(30) {
				s = &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(f)}
			}
			c.Hit("spent output changed")
		}
		var signed []int
		if auto {
			err := doSignAuto(c, t, s)
			c.Check(err == nil, "SignAuto: %v", err)
			for i := range own {
				if own[i] == k {
					signed = append(signed, i)
				}
			}
		} else {
			signed = append(signed, r.N(len(own)))
			err := doSign(c, t, uint32(signed[0]), s)
			c.Check(err == nil, "signing input %d: %v", signed[0], err)
		}
		for _, i := range signed {
			adopt(t, m, i)
		}
		if !auto || pass == 0 { // inputs of others may be given an empty script
			checkTxIs(c, "after signing", t, m, true)
		}
		for _, i := range signed {
			checkUnlock(c, "signed when what it spends has changed", t, m, i, k, f)
		}
		for i := range own {
			if auto && own[i] != k && string(sbytes(t.Inputs[i].UnlockingScript)) != string(m.Ins[i].Script) {
				c.Fail("SignAuto signed input %d, which is now of another key", i)
			}
		}
	}
}

// s03Many signs inputs of transactions with many of them, at indexes where an
// encoding or a narrower type would show.
func s03Many(c *C) {
	r := c.R
	n := mon.Pick(r, 257, 300, 258, 513, r.In(256, 700), 256+largeCount(r, 6000))
	if c.Index%16 == 5 {
		n = 0x10000 + r.In(1, 20)
	}
	if c.Index%16 == 9 {
		n = 0x8000 + r.In(1, 20)
	}
	idx := []int{n - 1, 256 + r.N(n-256), r.N(n)}
	if n > 0x10000 {
		idx = []int{0x10000 + r.N(n-0x10000), n - 1}
	}
	s03Of(c, n, mon.Pick(r, 0, 0, n), idx)
	c.Hit("one of many signed")
}

// s03Of signs some inputs of a transaction with the given numbers of inputs and outputs.
func s03Of(c *C, n, no int, idx []int) {
	r := c.R
	k := genKey(r)
	own := make([]*key, n)
	for i := range own {
		own[i] = k
	}
	m := signTx(r, own)
	for i := range m.Ins {
		m.Ins[i].Script, m.Ins[i].NilScript = nil, true
	}
	for len(m.Outs) < no && no < 1000 {
		m.Outs = append(m.Outs, genOut(r, 30))
	}
	inTx(c, m)
	t := mkTx(m)
	for _, i := range idx {
		s, f := genSigner(r, k)
		c.In("sign", fmt.Sprintf("%d %#x", i, f))
		err := doSign(c, t, uint32(i), s)
		c.Check(err == nil, "signing input %d of %d: %v", i, n, err)
		adopt(t, m, i)
		checkUnlock(c, "one of many", t, m, i, k, f)
	}
	checkTxIs(c, "after signing", t, m, true)
}

// foreign is an input script that SignAuto with key k must leave alone.
func foreign(r *R, k *key) []byte {
	for {
		p := ref.P2PKH(k.hash)
		var s []byte
		switch r.N(14) {
		case 0:
			s = ref.P2PKH(keyN(nKeys + r.N(8)).hash)
		case 1:
			s = ref.Cat([]byte{0xa9, 0x14}, k.hash, []byte{0x87})
		case 2:
			s = append(ref.Push(k.pub), 0xac)
		case 3:
			s = ref.P2PKH(ref.Hash160(k.pt.Uncompressed()))
		case 4:
			s = append(p, 0x51)
		case 5:
			s = p[:len(p)-1]
		case 6:
			p[r.N(len(p))] ^= 1 << r.N(8)
			s = p
		case 7:
			s = append([]byte{0x51}, p...)
		case 8:
			s = ref.Cat([]byte{0x76, 0xa9, 0x4c, 0x14}, k.hash, []byte{0x88, 0xac})
		case 9:
			s = genScript(r, 200)
		case 10:
			s = ref.Cat([]byte{0x6a}, p)
		case 11:
			s = genMultisig(r)
		case 12:
			s = ref.Cat([]byte{0xa9, 0x14}, r.Bytes(20), []byte{0x88, 0x76, 0xa9, 0x14}, k.hash, []byte{0x88, 0xac})
		case 13:
			s = []byte{}
		}
		if string(s) != string(ref.P2PKH(k.hash)) {
			return s
		}
	}
}

func s04(c *C) {
	r := c.R
	n := mon.Pick(r, 1, 2, 3, 4, 6, r.In(1, 10))
	nk := r.In(1, 3)
	var keys []*key
	for _, i := range r.Perm(nKeys)[:nk] {
		keys = append(keys, keyN(i))
	}
	owner := make([]*key, n)
	var sk []*key
	for i := range owner {
		owner[i] = keys[r.N(nk)]
		sk = append(sk, owner[i])
	}
	m := signTx(r, sk)
	for i := range m.Ins {
		if r.P(30) {
			owner[i] = nil
			if r.P(25) {
				m.Ins[i].HasPrev, m.Ins[i].PrevScript = false, nil
			} else {
				// not of any key that signs
				for ok := false; !ok; {
					m.Ins[i].PrevScript = foreign(r, keys[r.N(nk)])
					ok = true
					for _, k := range keys {
						if string(m.Ins[i].PrevScript) == string(ref.P2PKH(k.hash)) {
							ok = false
						}
					}
				}
			}
			c.Hit("foreign input")
		}
	}
	m = m.Clone()
	inTx(c, m)
	var t *Tx
	if r.P(30) {
		t = mkTx(m)
	} else {
		t = buildTx(c, m)
	}
	// the builders set a previous script only if there is one
	for i := range m.Ins {
		if !m.Ins[i].HasPrev {
			t.Inputs[i].PreviousTxScript = nil
		}
	}
	flags := map[int]byte{}
	for q, ki := range r.Perm(nk) {
		k := keys[ki]
		s, f := genSigner(r, k)
		c.In("sign with key", fmt.Sprintf("%d %#x", ki, f))
		before := signerState(s)
		nilBefore := make([]bool, n)
		for i := range m.Ins {
			nilBefore[i] = t.Inputs[i].UnlockingScript == nil
		}
		if r.P(85) {
			err := doSignAuto(c, t, s)
			c.Check(err == nil, "SignAuto: %v", err)
		} else {
			t2, err := mon.Do2(c, "InternalSigner.SignAuto", func() (*Tx, error) { return s.SignAuto(t) })
			c.Check(err == nil && t2 != nil, "SignAuto: %v", err)
			t = t2
		}
		mon.Eq(c, "the signer after signing", signerState(s), before)
		mon.Eq(c, "inputs after SignAuto", len(t.Inputs), n)
		for i := range m.Ins {
			if owner[i] == k {
				c.Check(t.Inputs[i].UnlockingScript != nil, "SignAuto did not sign input %d", i)
				adopt(t, m, i)
				flags[i] = f
			} else if nilBefore[i] && len(sbytes(t.Inputs[i].UnlockingScript)) != 0 {
				c.Fail("SignAuto signed input %d, which is not of its key: spent script %x", i, m.Ins[i].PrevScript)
			}
		}
		checkTxIs(c, fmt.Sprintf("after SignAuto with key %d of %d", q+1, nk), t, m, true)
		for i := range m.Ins {
			if !m.Ins[i].HasPrev {
				c.Check(t.Inputs[i].PreviousTxScript == nil, "SignAuto gave input %d a previous script", i)
			}
		}
		if r.P(30) && q < nk-1 { // a failing call in between
			i := badIndex(r, n)
			c.Check(doSign(c, t, i, s) != nil, "signing input %d of %d reports no error", i, n)
		}
	}
	for i := range m.Ins {
		if owner[i] != nil {
			checkUnlock(c, "after SignAuto with all keys", t, m, i, owner[i], flags[i])
		}
	}
}

func s04Many(c *C) {
	r := c.R
	a, b := keyN(r.N(nKeys)), keyN(nKeys+1)
	n := mon.Pick(r, 17, 33, 65, 100, 129, 254, 257, 300, 515, r.In(1025, 1100))
	if r.P(4) {
		n = r.In(2049, 4200)
	}
	own := make([]*key, n)
	for i := range own {
		own[i] = a
		if r.P(30) {
			own[i] = b
		}
	}
	s04Of(c, a, own)
}

// s04Count signs a few inputs of a transaction with as many as the index says, or
// as many of its inputs as the index says.
func s04Count(c *C) {
	r := c.R
	a, b := keyN(r.N(nKeys)), keyN(nKeys+1)
	i := c.Index % 400
	if i >= 300 {
		own := make([]*key, i-300+1+mon.Pick(r, 0, r.N(5)))
		for j := range own {
			own[j] = b
		}
		for _, j := range r.Perm(len(own))[:i-300+1] {
			own[j] = a
		}
		s04Of(c, a, own)
		return
	}
	own := make([]*key, i+1)
	for j := range own {
		own[j] = b
	}
	for k := r.N(5); k > 0; k-- {
		own[r.N(len(own))] = a
	}
	if r.Bool() {
		own[i] = a
	}
	s04Of(c, a, own)
}

func s04Of(c *C, a *key, own []*key) {
	r, n := c.R, len(own)
	m := signTx(r, own)
	for i := range m.Ins {
		m.Ins[i].Script, m.Ins[i].NilScript = nil, true
	}
	inTx(c, m)
	t := mkTx(m)
	err := doSignAuto(c, t, &signature.InternalSigner{PrivateKey: a.priv})
	c.Check(err == nil, "SignAuto: %v", err)
	for i := range m.Ins {
		if own[i] == a {
			adopt(t, m, i)
		}
	}
	checkTxIs(c, "after SignAuto", t, m, true)
	seen := 0
	for _, i := range r.Perm(n) {
		if own[i] == a {
			checkUnlock(c, "after SignAuto", t, m, i, a, 0x41)
			if seen++; seen == 12 {
				break
			}
		}
	}
	for i := range m.Ins {
		if own[i] == a {
			c.Check(len(sbytes(t.Inputs[i].UnlockingScript)) > 100, "SignAuto did not sign input %d of %d", i, n)
		}
	}
}

// fakeSigner is an external signer.
type fakeSigner struct {
	calls []string
	ret   *Tx
	edit  func(t *Tx)
	err   error
}

func (f *fakeSigner) answer(t *Tx) (*Tx, error) {
	if f.edit != nil {
		f.edit(t)
		return t, f.err
	}
	return f.ret, f.err
}

func (f *fakeSigner) Sign(i uint32, t *Tx) (*Tx, error) {
	f.calls = append(f.calls, fmt.Sprintf("Sign %d %s", i, dumpTx(t)))
	return f.answer(t)
}

func (f *fakeSigner) SignAuto(t *Tx) (*Tx, error) {
	f.calls = append(f.calls, "SignAuto "+dumpTx(t))
	return f.answer(t)
}

func s05(c *C) {
	r := c.R
	m := genTx(r)
	if len(m.Ins) > 20 {
		m.Ins = m.Ins[:20]
	}
	if len(m.Outs) > 20 {
		m.Outs = m.Outs[:20]
	}
	inTx(c, m)
	t := mkTx(m)
	d := dumpTx(t)
	idx := mon.Pick(r, uint32(0), uint32(r.N(len(m.Ins)+1)), badIndex(r, len(m.Ins)))
	auto := r.P(40)
	m2 := genTx(r)
	if len(m2.Ins) > 20 {
		m2.Ins = m2.Ins[:20]
	}
	fs := &fakeSigner{}
	mode := r.N(5)
	c.In("mode", fmt.Sprint(mode, idx, auto))
	switch mode {
	case 0:
		fs.err = errors.New("no")
	case 1:
		fs.ret, fs.err = mkTx(m2), errors.New("no, and here is a transaction")
	case 2:
		fs.ret = mkTx(m2)
	case 3:
		fs.edit = func(t *Tx) {
			t.Version++
			t.Inputs = append(t.Inputs, mkIn(&ref.In{}))
			t.Outputs = nil
		}
	case 4: // a signer that signs a copy
		cp := m.Clone()
		for i := range cp.Ins {
			if uint32(i) == idx || auto {
				cp.Ins[i].Script, cp.Ins[i].NilScript = ref.Cat(ref.Push(r.Bytes(71)), ref.Push(r.Bytes(33))), false
			}
		}
		fs.ret = mkTx(cp)
	}
	var err error
	var want, answer string
	if fs.ret != nil {
		answer = dumpTx(fs.ret)
	}
	if auto {
		want = "SignAuto " + d
		err = doSignAuto(c, t, fs)
	} else {
		want = fmt.Sprintf("Sign %d %s", idx, d)
		err = doSign(c, t, idx, fs)
	}
	c.Check(len(fs.calls) == 1 && fs.calls[0] == want, "the signer was called %d times: %s, want %s", len(fs.calls), mon.Show(fs.calls), mon.Show(want))
	if fs.err != nil {
		c.Hit("external signer fails")
		c.Check(err != nil, "the signer's error is not reported")
		mon.Eq(c, "the transaction after the signer failed", dumpTx(t), d)
		return
	}
	c.Hit("external signer signs")
	c.Check(err == nil, "the signer succeeded, and signing reports %v", err)
	if fs.edit != nil {
		e := mkTx(m)
		fs.edit(e)
		mon.Eq(c, "the transaction after the signer edited it", dumpTx(t), dumpTx(e))
		return
	}
	mon.Eq(c, "the transaction after the signer returned another", dumpTx(t), answer)
	mon.Eq(c, "the transaction the signer returned", dumpTx(fs.ret), answer)
	if r.P(50) { // sign it once more
		fs.calls = nil
		d := dumpTx(t)
		fs.ret = mkTx(m2)
		answer = dumpTx(fs.ret)
		if r.Bool() {
			err = doSign(c, t, 3, fs)
			want = "Sign 3 " + d
		} else {
			err = doSignAuto(c, t, fs)
			want = "SignAuto " + d
		}
		c.Check(err == nil && len(fs.calls) == 1 && fs.calls[0] == want, "second signing: %v, calls %s", err, mon.Show(fs.calls))
		mon.Eq(c, "the transaction after the second signing", dumpTx(t), answer)
	}
}

// usingSigner is an external signer that uses the library itself.
type usingSigner struct {
	f func(i uint32, auto bool, t *Tx) (*Tx, error)
}

func (s usingSigner) Sign(i uint32, t *Tx) (*Tx, error) { return s.f(i, false, t) }
func (s usingSigner) SignAuto(t *Tx) (*Tx, error)       { return s.f(0, true, t) }

// s05Nested signs with an external signer that signs with the library inside its
// own call: the transaction it got, a copy, or another one.
func s05Nested(c *C) {
	r := c.R
	k := genKey(r)
	own := []*key{k}
	for i := r.N(4); i > 0; i-- {
		own = append(own, mon.Pick(r, k, genKey(r)))
	}
	m := signTx(r, own)
	inTx(c, m)
	s, _ := genSigner(r, k)
	other := signTx(r, []*key{k})
	auto := r.P(40)
	n := uint32(r.N(len(own)))
	mode := r.N(4)
	c.In("mode", fmt.Sprint(mode, auto, n))
	sign := func(t *Tx, sg transaction.Signer) error {
		if auto {
			return t.SignAuto(sg)
		}
		return t.Sign(n, sg)
	}
	var depth int
	var fail error
	var f func(i uint32, auto bool, t *Tx) (*Tx, error)
	f = func(i uint32, a bool, t *Tx) (*Tx, error) {
		depth++
		if depth == 1 && mode != 1 {
			if err := sign(t, usingSigner{f}); err != nil { // once more, deeper
				return nil, err
			}
			return t, fail
		}
		_ = t.GetTxID()
		_, _ = t.GetInputSignatureHash(n, sighash.AllForkID)
		x := t
		switch mode {
		case 1, 2:
			x = mkTx(m)
		case 3:
			if err := mkTx(other).Sign(0, s); err != nil {
				return nil, err
			}
		}
		return x, sign(x, s)
	}
	if r.P(30) {
		fail = errors.New("no")
		if mode != 1 {
			mode = 1
		}
	}
	want := mkTx(m)
	t := mkTx(m)
	d := dumpTx(t)
	before := r.Bool()
	var werr error
	if before {
		c.Call("signing", func() { werr = sign(want, s) })
	}
	ff := f
	if fail != nil {
		ff = func(i uint32, a bool, t *Tx) (*Tx, error) {
			x, _ := f(i, a, t)
			return x, fail
		}
	}
	err := mon.DoErr(c, "signing with a signer that signs", func() error { return sign(t, usingSigner{ff}) })
	if !before {
		c.Call("signing", func() { werr = sign(want, s) })
	}
	c.Hit("external signer uses the library")
	if fail != nil {
		c.Check(err != nil, "the error of a signer that signs with the library is not reported")
		mon.Eq(c, "the transaction after a signer failed that signs with the library", dumpTx(t), d)
		return
	}
	mon.Eq(c, "signing with a signer that signs fails as it does", err != nil, werr != nil)
	if werr == nil {
		mon.Eq(c, "the transaction signed within an external signer", dumpTx(t), dumpTx(want))
	}
}

func s05Internal(c *C) {
	r := c.R
	k := genKey(r)
	var own []*key
	for i := r.N(5); i > 0; i-- {
		own = append(own, mon.Pick(r, k, k, genKey(r)))
	}
	m := signTx(r, own)
	inTx(c, m)
	t := mkTx(m)
	s, _ := genSigner(r, k)
	st := signerState(s)
	for pass := 0; pass < 4; pass++ {
		var idx uint32
		mode := r.N(4)
		c.In("mode", mode)
		if len(m.Ins) == 0 {
			mode = 0
		}
		restore := func() {}
		switch mode {
		case 0:
			idx = badIndex(r, len(m.Ins))
		case 1:
			idx = uint32(r.N(len(m.Ins)))
			in := t.Inputs[idx]
			id := in.PreviousTxID
			in.PreviousTxID = ""
			restore = func() { in.PreviousTxID = id }
		case 2:
			idx = uint32(r.N(len(m.Ins)))
			in := t.Inputs[idx]
			p := in.PreviousTxScript
			in.PreviousTxScript = nil
			restore = func() { in.PreviousTxScript = p }
		case 3: // automatic signing that cannot be completed
			last := -1
			for i, o := range own {
				if o == k {
					last = i
				}
			}
			if last < 0 {
				continue
			}
			in := t.Inputs[last]
			id := in.PreviousTxID
			in.PreviousTxID = ""
			d := dumpTx(t)
			err := doSignAuto(c, t, s)
			c.Hit("automatic signing fails")
			c.Check(err != nil, "SignAuto reports no error although input %d of its key lacks the previous transaction ID", last)
			mon.Eq(c, "the transaction after failed automatic signing", dumpTx(t), d)
			in.PreviousTxID = id
			continue
		}
		d := dumpTx(t)
		err := doSign(c, t, idx, s)
		c.Hit("signing fails")
		c.Check(err != nil, "signing input %d of %d reports no error (mode %d)", idx, len(m.Ins), mode)
		mon.Eq(c, "the transaction after failed signing", dumpTx(t), d)
		mon.Eq(c, "the signer after failed signing", signerState(s), st)
		restore()
	}
	// the transaction can still be signed
	for i, o := range own {
		if o == k && r.P(30) {
			err := doSign(c, t, uint32(i), s)
			c.Check(err == nil, "signing after failures: %v", err)
			adopt(t, m, i)
			checkTxIs(c, "signed after failures", t, m, true)
		}
	}
}

func s05Apply(c *C) {
	r := c.R
	m := genTx(r)
	inTx(c, m)
	t := buildTx(c, m)
	var last *script.Script
	for pass := 0; pass < 6; pass++ {
		s := genScript(r, 200)
		o := scr(s)
		if last != nil && r.P(40) {
			if r.Bool() { // the same script object for another input
				o, s = last, append([]byte{}, *last...)
			} else { // other bytes, as many as in what is there
				s = r.Bytes(len(*last))
				o = scr(s)
			}
		}
		last = o
		given := string(s)
		c.Keep("the script given to ApplyUnlockingScript", func() string { return mon.Show(given == string(*o)) })
		if len(m.Ins) > 0 && r.P(60) {
			i := r.N(len(m.Ins))
			err := mon.DoErr(c, "Transaction.ApplyUnlockingScript", func() error { return t.ApplyUnlockingScript(uint32(i), o) })
			c.Check(err == nil, "ApplyUnlockingScript(%d) of %d: %v", i, len(m.Ins), err)
			m.Ins[i].Script, m.Ins[i].NilScript = s, false
			c.Hit("applied")
		} else {
			i := badIndex(r, len(m.Ins))
			err := mon.DoErr(c, "Transaction.ApplyUnlockingScript", func() error { return t.ApplyUnlockingScript(i, o) })
			c.Check(err != nil, "ApplyUnlockingScript(%d) of %d inputs reports no error", i, len(m.Ins))
			c.Hit("not applied")
		}
		checkTxIs(c, "after ApplyUnlockingScript", t, m, true)
	}
	c.EqBytes("serialised", txBytes(c, t), m.Encode())
	if r.P(20) { // a place where no input is, in the middle of the list or at its end
		k := r.N(len(t.Inputs) + 1)
		t.Inputs = append(append(t.Inputs[:k:k], nil), t.Inputs[k:]...)
		err := mon.DoErr(c, "Transaction.ApplyUnlockingScript", func() error { return t.ApplyUnlockingScript(uint32(k), scr([]byte{0x51})) })
		c.Check(err != nil && t.Inputs[k] == nil, "ApplyUnlockingScript(%d) reports no error where the input is nil", k)
		c.Hit("nil input")
	}
}

// s05Unlock checks the constructor of P2PKH unlocking scripts.
func s05Unlock(c *C) {
	r := c.R
	pub, sig, f := r.Bytes(mon.Pick(r, 33, 65, r.In(1, 80))), r.Bytes(mon.Pick(r, 70, 71, 72, r.In(1, 80))), byte(r.U32())
	c.In("pub", pub)
	c.In("sig", sig)
	gp, gs := c.Buf("public key", pub), c.Buf("signature", sig)
	s, err := mon.Do2(c, "script.NewP2PKHUnlockingScript", func() (*script.Script, error) {
		return script.NewP2PKHUnlockingScript(gp, gs, sighash.Flag(f))
	})
	c.Check(err == nil, "NewP2PKHUnlockingScript: %v", err)
	c.EqBytes("NewP2PKHUnlockingScript", *s, ref.Cat(ref.Push(append(append([]byte{}, sig...), f)), ref.Push(pub)))
	c.KeepBytes("script.NewP2PKHUnlockingScript", *s)
}

func init() {
	register(&mon.Prop{
		ID:   "S01",
		Rule: "each case computes signature hashes for several inputs and hash types of a transaction, when built and between edits, and compares them with a reference digest; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by transaction, inputs, hash types and edits",
		Stages: []mon.Stage{
			{Name: "digest", Quick: 20000, Deep: 1600000, Run: s01},
			rareStage("S01"),
			{Name: "constants", Quick: 1, Deep: 1, NoGuide: true, Run: signingConstants},
			{Name: "all hash types", Quick: 150, Deep: 3000, Run: s01Flags},
			{Name: "history", Quick: 16000, Deep: 1200000, Run: s01History},
			{Name: "script sizes", Quick: nSizes, Run: func(c *C) {
				m := sizedTx(c.R, sizeAt(c.Index%nSizes))
				inTx(c, m)
				t := buildTx(c, m)
				for n := range m.Ins {
					for _, f := range []byte{0x41, 0xc3, 0x43} {
						s01Compare(c, t, m, n, f, "sized")
					}
				}
			}},
			{Name: "shared objects", Quick: 6000, Deep: 300000, Run: func(c *C) {
				t, m := twinTx(c.R)
				inTx(c, m)
				for n := range m.Ins {
					s01Compare(c, t, m, n, genFlag(c.R), "with objects in it several times")
				}
			}},
			{Name: "scripts around 2^24 bytes", Quick: 3, Deep: 8, Run: func(c *C) {
				r := c.R
				m := giantTx(c)
				n := 1<<24 + r.In(-2, 70000)
				m.Ins[1].PrevScript = r.Bytes(n)
				c.In("spent script length", n)
				t := mkTx(m)
				for i := range m.Ins {
					s01Compare(c, t, m, i, mon.Pick(r, byte(0x41), 0xc3, 0x43), "giant")
				}
			}},
			{Name: "counts", Quick: 2*nCounts + 48, Deep: 4*nCounts + 96, Run: func(c *C) {
				n := countAt(c.Index / 2 % (nCounts + 4))
				if c.Index >= 2*nCounts+8 && c.R.P(90) {
					n = largeCount(c.R, 20000)
				}
				m := smallTx(c.R, max(1, n), 2)
				if c.Index%2 == 1 {
					m = smallTx(c.R, 3, n)
				}
				inTx(c, m)
				t := mkTx(m)
				for _, i := range someIndexes(c.R, len(m.Ins), 3) {
					for _, f := range []byte{0x41, 0x43, 0xc3} {
						s01Compare(c, t, m, i, f, "counts")
					}
				}
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "ALL": 100, "NONE": 100, "SINGLE": 100, "ALL|ANYONECANPAY": 100, "NONE|ANYONECANPAY": 100, "SINGLE|ANYONECANPAY": 100, "SINGLE without output": 50, "other base type": 100},
	})
	register(&mon.Prop{
		ID:     "S02",
		Rule:   "each case takes a transaction, an input and a hash type, changes every part of it in turn by one bit or element, and checks that the signature hash changes exactly if the hash type covers the part; distinct by transaction, input and hash type",
		Stages: []mon.Stage{{Name: "commitment", Quick: 16000, Deep: 1200000, Run: s02}},
		Need:   map[string]int{"covered part changed": 1000, "uncovered part changed": 1000, "error cases": 500, "index of 256 or more": 15},
	})
	register(&mon.Prop{
		ID:   "S03",
		Rule: "each case signs all inputs of a transaction in random order with keys (extreme ones among them) and hash types, or signs with one signer object whose key and hash type change, or signs again when only what an input spends has changed, or signs inputs at indexes beyond 2^8, 2^15 and 2^16, and verifies every signature with a reference secp256k1 over the reference digest; distinct by transaction, order and hash types",
		Stages: []mon.Stage{{Name: "sign", Quick: 1200, Deep: 30000, Run: s03}, {Name: "sign and edit", Quick: 400, Deep: 10000, Run: s03Edit},
			{Name: "one signer", Quick: 300, Deep: 8000, Run: s03Signer},
			{Name: "rare zeros", Quick: len(rare), Deep: 4 * len(rare), Run: s03Rare, NoGuide: true},
			{Name: "spent output changed", Quick: 200, Deep: 5000, Run: func(c *C) { sHidden(c, false) }}, {Name: "many inputs", Quick: 48, Deep: 800, Run: s03Many},
			{Name: "counts", Quick: 600, Deep: 1200, Run: func(c *C) {
				n := c.Index%300 + 1
				if c.Index/300%2 == 0 {
					s03Of(c, n, 0, []int{c.R.N(n)})
				} else {
					s03Of(c, c.R.In(1, 4), n, []int{0})
				}
			}}},
		Need: map[string]int{"signature verified": 800, "signed SINGLE without output": 20, "signed again": 50, "signer used again": 500, "one of many signed": 20, "spent output changed": 200},
	})
	register(&mon.Prop{
		ID:     "S04",
		Rule:   "each case makes a transaction with inputs of one to three keys and inputs that are not theirs (other keys, near misses of P2PKH, other types, none), signs automatically with one key after the other in random order, or again when only what an input spends has changed, and checks every input after every step; distinct by transaction and order",
		Stages: []mon.Stage{{Name: "sign", Quick: 900, Deep: 25000, Run: s04}, {Name: "many inputs", Quick: 40, Deep: 400, Run: s04Many}, {Name: "counts", Quick: 400, Deep: 2000, Run: s04Count}, {Name: "spent output changed", Quick: 150, Deep: 4000, Run: func(c *C) { sHidden(c, true) }}},
		Need:   map[string]int{"signature verified": 800, "foreign input": 300, "spent output changed": 150},
	})
	register(&mon.Prop{
		ID:     "S05",
		Rule:   "each case signs with an external signer that fails, returns another transaction or edits the one it got, or uses the library itself (signs what it got, a copy, another transaction, with signers within signers), or lets the internal signer fail (index out of range, nothing spent), or applies unlocking scripts; distinct by transaction and what the signer does",
		Stages: []mon.Stage{{Name: "external", Quick: 25000, Deep: 1500000, Run: s05}, {Name: "nested", Quick: 4000, Deep: 300000, Run: s05Nested}, {Name: "internal", Quick: 15000, Deep: 800000, Run: s05Internal}, {Name: "apply", Quick: 15000, Deep: 800000, Run: s05Apply}, {Name: "unlocking script", Quick: 5000, Deep: 200000, Run: s05Unlock}},
		Need:   map[string]int{"external signer fails": 500, "external signer signs": 500, "external signer uses the library": 500, "signing fails": 1000, "automatic signing fails": 200, "applied": 300, "not applied": 300, "nil input": 20},
	})
}
