package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif/harness/mon"
	"verif/harness/ref"
)

// hostile gives untrusted bytes or text to one entry point after another.
type hostile struct {
	c *C
	n int // size of the arguments of the call
}

// call makes one call and bounds what it allocates.
func (h *hostile) call(api string, f func() error) error {
	c := h.c
	err := mon.DoErr(c, api, f)
	if c.Stage.MeasureAlloc {
		bound := uint64(3<<20) + 400*uint64(h.n)
		c.Check(c.LastAlloc <= bound, "%s allocated %d bytes for an input of %d bytes", api, c.LastAlloc, h.n)
	}
	if err != nil {
		c.Hit("rejected")
	} else {
		c.Hit("accepted")
	}
	return err
}

// use makes use of what a parser returned.
func (h *hostile) use(api string, f func()) {
	h.call(api, func() error { f(); return nil })
}

func (h *hostile) useScript(s *script.Script) {
	c := h.c
	if s == nil { // an input not signed yet
		return
	}
	h.n = max(h.n, len(*s))
	h.use("Script.ToString", func() { _ = s.ToString() })
	h.use("Script.ToASM", func() { s.ToASM() })
	h.use("Script.IsP2PKH", func() { s.IsP2PKH() })
	h.use("Script.IsP2PK", func() { s.IsP2PK() })
	h.use("Script.IsP2SH", func() { s.IsP2SH() })
	h.use("Script.IsData", func() { s.IsData() })
	h.use("Script.IsMultisigOut", func() { s.IsMultisigOut() })
	h.use("Script.GetPublicKeyHash", func() { s.GetPublicKeyHash() })
	if c.R.P(20) {
		t := script.Script(append([]byte{}, *s...))
		h.use("Script appends", func() {
			t.AppendPushData([]byte{1, 2})
			t.AppendOpCode(0xac)
			_, _ = t.ToASM()
		})
	}
}

func (h *hostile) useParts(l [][]byte) {
	h.use("script.EncodeParts", func() { script.EncodeParts(l) })
}

func (h *hostile) useIn(i *input.Input) {
	h.use("Input.String", func() { _ = i.String() })
	h.use("Input.ToBytes", func() { i.ToBytes(false); i.ToBytes(true) })
	h.useScript(i.UnlockingScript)
	h.useScript(i.PreviousTxScript)
	t := transaction.New()
	t.AddInput(i)
	h.use("Transaction.ToBytes", func() { t.ToBytes(); t.GetTxID() })
	h.use("Transaction.GetInputSignatureHash", func() { t.GetInputSignatureHash(0, 0x41) })
}

func (h *hostile) useOut(o *output.Output) {
	h.use("Output.String", func() { _ = o.String() })
	h.use("Output.ToBytes", func() { o.ToBytes() })
	h.use("Output.GetBytesForSigHash", func() { o.GetBytesForSigHash() })
	h.use("Output.GetLockingScriptHexString", func() { o.GetLockingScriptHexString() })
	h.useScript(o.LockingScript)
}

func (h *hostile) useTx(t *Tx) {
	c := h.c
	h.use("Transaction.ToBytes", func() { t.ToBytes() })
	h.use("Transaction.ToString", func() { _ = t.ToString() })
	h.use("Transaction.GetTxID", func() { t.GetTxID() })
	h.use("Transaction.IsCoinbase", func() { t.IsCoinbase() })
	h.use("Transaction.GetTotalOutputSatoshis", func() { t.GetTotalOutputSatoshis() })
	for k, i := range t.GetInputs() {
		if k < 3 || k == len(t.Inputs)-1 {
			h.use("Input.String", func() { _ = i.String() })
			h.useScript(i.UnlockingScript)
			if k == 0 {
				h.use("Transaction.ToBytesWithClearedInputs", func() { t.ToBytesWithClearedInputs(k, []byte{0x51}) })
			}
			f := sighash.Flag(c.R.U32())
			h.use("Transaction.GetInputSignatureHash", func() { t.GetInputSignatureHash(uint32(k), f) })
		}
	}
	for k, o := range t.GetOutputs() {
		if k < 3 || k == len(t.Outputs)-1 {
			h.useOut(o)
		}
	}
	// sign what can be signed: some inputs know what they spend, some do not
	if len(t.Inputs) < 30 {
		key := keyN(3 + c.R.N(3))
		for _, i := range t.Inputs {
			switch c.R.N(4) {
			case 0:
				i.PreviousTxScript = scr(ref.P2PKH(key.hash))
			case 1:
				i.PreviousTxScript = scr(genClass(c.R))
			}
		}
		s := &signature.InternalSigner{PrivateKey: key.priv}
		h.use("Transaction.SignAuto", func() { t.SignAuto(s) })
		n := uint32(c.R.N(len(t.Inputs) + 1))
		h.use("Transaction.Sign", func() { t.Sign(n, s) })
		h.use("Transaction.ApplyUnlockingScript", func() { t.ApplyUnlockingScript(n, scr([]byte{1})) })
		h.use("Transaction.ToString", func() { _ = t.ToString() })
	}
}

func (h *hostile) useAddr(a *Address) {
	h.call("script.NewP2PKHFromAddress", func() error { _, err := script.NewP2PKHFromAddress(a.AddressString); return err })
	h.call("script.NewP2PKHFromPubKeyHashStr", func() error { _, err := script.NewP2PKHFromPubKeyHashStr(a.PublicKeyHash); return err })
}

func (h *hostile) useRS(rs *RS) {
	h.use("RedeemScript.GetAddress", func() { rs.GetAddress() })
	h.use("RedeemScript.GetRedeemScript", func() { rs.GetRedeemScript() })
	h.use("RedeemScript.GetRedeemScriptHash", func() { rs.GetRedeemScriptHash() })
}

// text entry points

func (h *hostile) txText(s string) {
	var t *Tx
	if h.call("transaction.NewFromString", func() (err error) { t, err = transaction.NewFromString(s); return }) == nil {
		h.useTx(t)
	}
}

func (h *hostile) scriptText(s string) {
	var x *script.Script
	if h.call("script.NewFromHexString", func() (err error) { x, err = script.NewFromHexString(s); return }) == nil {
		h.useScript(x)
	}
	var l [][]byte
	if h.call("script.DecodeStringParts", func() (err error) { l, err = script.DecodeStringParts(s); return }) == nil {
		h.useParts(l)
	}
	y := &script.Script{}
	if h.call("Script.AppendPushDataHexString", func() error { return y.AppendPushDataHexString(s) }) == nil {
		h.useScript(y)
	}
}

func (h *hostile) asmText(s string) {
	var x *script.Script
	if h.call("script.NewFromASM", func() (err error) { x, err = script.NewFromASM(s); return }) == nil {
		h.useScript(x)
	}
}

func (h *hostile) keyText(s string) {
	var x *script.Script
	if h.call("script.NewP2PKHFromPubKeyStr", func() (err error) { x, err = script.NewP2PKHFromPubKeyStr(s); return }) == nil {
		h.useScript(x)
	}
	var a *Address
	if h.call("address.NewFromPublicKeyString", func() (err error) { a, err = address.NewFromPublicKeyString(s, true); return }) == nil {
		h.useAddr(a)
	}
}

func (h *hostile) hashText(s string) {
	var x *script.Script
	if h.call("script.NewP2PKHFromPubKeyHashStr", func() (err error) { x, err = script.NewP2PKHFromPubKeyHashStr(s); return }) == nil {
		h.useScript(x)
	}
	var o *output.Output
	if h.call("output.NewP2PkhFromPubKeyHash", func() (err error) { o, err = output.NewP2PkhFromPubKeyHash(s, 1); return }) == nil {
		h.useOut(o)
	}
	if h.call("output.NewHashPuzzle", func() (err error) { o, err = output.NewHashPuzzle("secret", s, 1); return }) == nil {
		h.useOut(o)
	}
	if h.call("output.NewHashPuzzle", func() (err error) {
		o, err = output.NewHashPuzzle(s, "0000000000000000000000000000000000000000", 1)
		return
	}) == nil {
		h.useOut(o)
	}
}

func (h *hostile) addrText(s string) {
	var a *Address
	if h.call("address.NewFromString", func() (err error) { a, err = address.NewFromString(s); return }) == nil {
		h.useAddr(a)
	}
	h.call("address.ValidateAddress", func() error { _, err := address.ValidateAddress(s); return err })
	var x *script.Script
	if h.call("script.NewP2PKHFromAddress", func() (err error) { x, err = script.NewP2PKHFromAddress(s); return }) == nil {
		h.useScript(x)
	}
	var o *output.Output
	if h.call("output.NewP2PKHFromAddress", func() (err error) { o, err = output.NewP2PKHFromAddress(s, 7); return }) == nil {
		h.useOut(o)
	}
	t := transaction.New()
	if h.call("Transaction.PayTo", func() error { return t.PayTo(s, 9) }) == nil {
		h.useTx(t)
	}
	h.call("block.GetCoinbaseParts", func() error { _, _, err := block.GetCoinbaseParts(5, 1, "", "t", s, nil); return err })
}

func (h *hostile) bipText(s string) {
	var p string
	var x, y int
	var d []byte
	if h.call("address.DecodeBIP276", func() (err error) { p, x, y, d, err = address.DecodeBIP276(s); return }) == nil {
		h.use("address.EncodeBIP276", func() { address.EncodeBIP276(p, y, x, d) })
		z := script.NewFromBytes(d)
		h.useScript(z)
	}
	h.call("address.ValidateAddress", func() error { _, err := address.ValidateAddress(s); return err })
}

func (h *hostile) electrumText(s string) {
	var rs *RS
	if h.call("script.NewRedeemScriptFromElectrum", func() (err error) { rs, err = script.NewRedeemScriptFromElectrum(s); return }) == nil {
		h.useRS(rs)
	}
}

func (h *hostile) xpubText(s string) {
	rs, err := script.NewRedeemScript(2)
	if err != nil {
		h.c.Fail("NewRedeemScript(2): %v", err)
	}
	n := h.c.R.N(4)
	path := make([]uint32, n)
	for i := range path {
		path[i] = genU32(h.c.R)
	}
	if h.c.R.P(60) {
		path = []uint32{genU32(h.c.R), genU32(h.c.R)}
	}
	h.call("RedeemScript.AddPublicKey", func() error { return rs.AddPublicKey(s, path) })
	if h.c.R.P(5) {
		h.call("RedeemScript.AddPublicKey", func() error { return rs.AddPublicKey(s, nil) })
	}
	h.useRS(rs)
}

func (h *hostile) bitsTextCalls(s string) {
	h.call("block.ExpandTargetFrom", func() error { _, err := block.ExpandTargetFrom(s); return err })
	h.call("block.ExpandTargetFromAsInt", func() error {
		n, err := block.ExpandTargetFromAsInt(s)
		if err == nil {
			_ = n.String()
		}
		return err
	})
	var d float64
	if h.call("block.DifficultyFromBits", func() (err error) { d, err = block.DifficultyFromBits(s); return }) == nil {
		h.use("utils.HumanHash", func() { utils.HumanHash(d) })
	}
}

func (h *hostile) utxoText(a, b string) {
	var i *input.Input
	if h.call("input.NewFromUTXO", func() (err error) { i, err = input.NewFromUTXO(a, 1, 2, b, 3); return }) == nil {
		h.useIn(i)
	}
	t := transaction.New()
	if h.call("Transaction.From", func() error { return t.From(a, 1, b, 2) }) == nil {
		h.useTx(t)
	}
}

func (h *hostile) hexHelpers(s string) {
	h.use("utils.ReverseHexString", func() { utils.ReverseHexString(s) })
	h.call("utils.Decode32Byte", func() error { _, err := utils.Decode32Byte(s); return err })
	h.use("block.DifficultyToHashrate", func() { utils.HumanHash(block.DifficultyToHashrate(s, uint64(len(s)), 600)) })
	h.use("block.BuildBlockHeader", func() { block.BuildBlockHeader(1, s, nil, nil, nil, nil) })
	h.use("block.BuildCoinbase", func() { block.BuildCoinbase(nil, []byte{1}, s, s) })
	h.use("block.GetCoinbaseParts", func() {
		block.GetCoinbaseParts(1, 2, s, s, "1BoatSLRHtKNngkdXEeobR76b53LETtpyT", []byte(s))
	})
}

func (h *hostile) merkle(id string, n int, br []string) {
	h.call("block.MerkleRootFromBranches", func() error { _, err := block.MerkleRootFromBranches(id, n, br); return err })
	h.use("block.GetMerkleBranches", func() { block.GetMerkleBranches(br) })
	h.use("block.BuildMerkleRootFromCoinbase", func() { block.BuildMerkleRootFromCoinbase([]byte(id), br) })
}

// byte entry points

func (h *hostile) txBytes(b []byte) {
	var t *Tx
	if h.call("transaction.NewFromBytes", func() (err error) { t, err = transaction.NewFromBytes(b); return }) == nil {
		h.useTx(t)
	}
	var i *input.Input
	if h.call("input.NewFromBytes", func() (err error) { i, _, err = input.NewFromBytes(b); return }) == nil {
		h.useIn(i)
	}
	var o *output.Output
	if h.call("output.NewFromBytes", func() (err error) { o, _, err = output.NewFromBytes(b); return }) == nil {
		h.useOut(o)
	}
	h.use("utils.DecodeVarInt", func() { utils.DecodeVarInt(b) })
}

func (h *hostile) scriptBytes(b []byte) {
	var l [][]byte
	if h.call("script.DecodeParts", func() (err error) { l, err = script.DecodeParts(b); return }) == nil {
		h.useParts(l)
	}
	var s *script.Script
	h.use("script.NewFromBytes", func() { s = script.NewFromBytes(append([]byte{}, b...)) })
	h.useScript(s)
	h.call("output.NewOpReturn", func() error { _, err := output.NewOpReturn(b); return err })
	h.use("script.GetPushDataPrefix", func() { script.GetPushDataPrefix(b) })
}

func (h *hostile) hashBytes(b []byte) {
	var a *Address
	if h.call("address.NewFromPublicKeyHash", func() (err error) { a, err = address.NewFromPublicKeyHash(b, h.c.R.Bool()); return }) == nil {
		h.useAddr(a)
	}
	var s *script.Script
	if h.call("script.NewP2PKHFromPubKeyBytes", func() (err error) { s, err = script.NewP2PKHFromPubKeyBytes(b); return }) == nil {
		h.useScript(s)
	}
}

func (h *hostile) cipher(b []byte) {
	key := newAES(h.c.R.Bytes(mon.Pick(h.c.R, 16, 24, 32)))
	h.call("crypto.Decrypt", func() error { _, err := crypto.Decrypt(key, b); return err })
}

// hostileText damages good text in any way, or is something else altogether.
func hostileText(r *R, good string, alphabet string) string {
	switch r.N(12) {
	case 0, 1, 2, 3:
		return mutateText(r, good, alphabet)
	case 4:
		return string(genBytes(r, r.N(120)))
	case 5:
		d := dict().strs
		return d[r.N(len(d))] + mon.Pick(r, "", ":", good)
	case 6:
		return strings.Repeat(mon.Pick(r, "1", "0", "z", "\x00", "é", "\xff", " ", "OP_", "4e", "ff", ":"), r.N(400))
	case 7:
		return mon.Pick(r, "", " ", ":", "::", "bitcoin-script:", "bitcoin-template:", "0", "00", "1", "-1", "\n", "bitcoin-script:0", "bitcoin-script:0101", "bitcoin-script:010100000000", "4c", "4d", "4e", "4d01", "4effffffff", "4effffff7f", "6a", "006a")
	case 8:
		if len(good) > 0 {
			return good[:r.N(len(good)+1)]
		}
	case 9:
		if len(good) > 0 {
			return good[r.N(len(good)):]
		}
	case 10:
		return good + good
	}
	return good
}

const hexAlphabet = "0123456789abcdefABCDEFgG xX-"

var hostileTargets = []struct {
	name string
	run  func(h *hostile, r *R)
}{
	{"transaction bytes", func(h *hostile, r *R) {
		b := hostileTxBytes(r)
		h.in(b)
		h.txBytes(h.c.Buf("bytes", b))
	}},
	{"transaction text", func(h *hostile, r *R) {
		s := hostileText(r, ref.Hex(hostileTxBytes(r)), hexAlphabet)
		h.inText(s)
		h.txText(s)
	}},
	{"parts of a transaction", func(h *hostile, r *R) {
		i, o := genIn(r, 100), genOut(r, 100)
		b := mutate(r, mon.Pick(r, i.Encode(i.Script), o.Encode(), append(i.Encode(nil)[:36], hugeVarInt(r)...), append(ref.LE64(1), hugeVarInt(r)...), hugeVarInt(r)))
		h.in(b)
		h.txBytes(h.c.Buf("bytes", b))
	}},
	{"script bytes", func(h *hostile, r *R) {
		b := hostileScript(r)
		h.in(b)
		h.scriptBytes(h.c.Buf("bytes", b))
	}},
	{"script text", func(h *hostile, r *R) {
		s := hostileText(r, ref.Hex(hostileScript(r)), hexAlphabet)
		h.inText(s)
		h.scriptText(s)
	}},
	{"assembly", func(h *hostile, r *R) {
		_, w := asmScript(r, r.N(8))
		s := hostileText(r, strings.Join(w, " "), "OP_DUP0123456789abcdefCHECKSIG \t\n<>")
		if r.P(20) {
			s += " " + badWord(r)
		}
		h.inText(s)
		h.asmText(s)
	}},
	{"public keys", func(h *hostile, r *R) {
		k := opKeyBytes(r)
		s := hostileText(r, ref.Hex(k), hexAlphabet)
		h.inText(s)
		h.keyText(s)
		b := mutate(r, k)
		h.in(b)
		h.hashBytes(h.c.Buf("bytes", b))
	}},
	{"key hashes", func(h *hostile, r *R) {
		s := hostileText(r, ref.Hex(genBytes(r, 20)), hexAlphabet)
		h.inText(s)
		h.hashText(s)
		h.hashBytes([]byte(s))
	}},
	{"addresses", func(h *hostile, r *R) {
		s := hostileText(r, mon.Pick(r, opAddr(r), nearAddress(r)), ref.B58+"0OIl ")
		h.inText(s)
		h.addrText(s)
	}},
	{"BIP276", func(h *hostile, r *R) {
		p, n, v, d := genBIP(r)
		s := bip276(p, n, v, d)
		if r.P(70) {
			if r.Bool() {
				s = damage(r, s, p, n, v, d)
			} else {
				s = hostileText(r, s, hexAlphabet+":")
			}
		}
		if r.P(15) { // any fields with a correct checksum
			q := mon.Pick(r, "bitcoin-script", "", "x", "bitcoin-template", "é", genText(r, r.N(20))) + mon.Pick(r, ":", "", "::") + mutateText(r, mon.Pick(r, "0101", "", "01", "ffff", "0", "010"), hexAlphabet)
			s = q + ref.Hex(ref.Sha256d([]byte(q))[:4])
		}
		h.inText(s)
		h.bipText(s)
	}},
	{"Electrum scripts", func(h *hostile, r *R) {
		m, ks := genElectrum(r)
		ks = ks[:min(len(ks), 2)]
		b := electrum(0x50+byte(m), ks, 0x50+byte(len(ks)))
		if r.P(60) {
			b = mutate(r, b)
		}
		if r.P(15) { // valid but for what a push holds
			p := r.Bytes(mon.Pick(r, 1, 2, 4, 5, 78, 82, 83, 84, r.N(100)))
			if len(p) > 0 {
				p[0] = 0xff
			}
			b = ref.Cat([]byte{0x52}, ref.Push(p), ref.Push(p), []byte{0x52, 0xae})
		}
		s := ref.Hex(b)
		if r.P(30) {
			s = hostileText(r, s, hexAlphabet)
		}
		h.inText(s)
		h.electrumText(s)
	}},
	{"extended keys", func(h *hostile, r *R) {
		s := badXPub(r)
		if r.P(30) {
			x := *poolXPub(r)
			r.Fill(x.Version[:])
			if r.Bool() {
				x.Depth = 0xff
			}
			if r.P(30) {
				x.Key = append([]byte{byte(r.N(6))}, genBytes(r, 32)...)
			}
			s = x.String()
		}
		s = hostileText(r, s, ref.B58+"0OIl")
		h.inText(s)
		h.xpubText(s)
	}},
	{"bits", func(h *hostile, r *R) {
		s := bitsText(r)
		if r.P(50) {
			s = hostileText(r, ref.Hex(r.Bytes(4)), hexAlphabet)
		} else if r.P(30) {
			s = fmt.Sprintf("%08x", r.U32())
		}
		h.inText(s)
		h.bitsTextCalls(s)
	}},
	{"spent outputs", func(h *hostile, r *R) {
		a := hostileText(r, ref.Hex(r.Bytes(32)), hexAlphabet)
		b := hostileText(r, ref.Hex(hostileScript(r)), hexAlphabet)
		if r.P(50) {
			a = ref.Hex(r.Bytes(32))
		}
		h.inText(a)
		h.inText(b)
		h.utxoText(a, b)
	}},
	{"hex helpers", func(h *hostile, r *R) {
		s := hostileText(r, ref.Hex(genBytes(r, r.N(60))), hexAlphabet)
		h.inText(s)
		h.hexHelpers(s)
	}},
	{"Merkle proofs", func(h *hostile, r *R) {
		l := opHashes(r)
		for i := range l {
			if r.P(15) {
				l[i] = hostileText(r, l[i], hexAlphabet)
			}
		}
		id := hostileText(r, ref.Hex(r.Bytes(32)), hexAlphabet)
		if r.P(50) {
			id = ref.Hex(r.Bytes(32))
		}
		n := int(genU64(r))
		h.inText(id)
		h.inText(strings.Join(l, " "))
		h.c.In("index", n)
		h.merkle(id, n, l)
	}},
	{"ciphertexts", func(h *hostile, r *R) {
		b := genBytes(r, mon.Pick(r, r.N(40), genLen(r, 1000)))
		h.in(b)
		h.cipher(h.c.Buf("bytes", b))
	}},
	{"rates", func(h *hostile, r *R) {
		f := math.Float64frombits(r.U64())
		if r.P(40) {
			f = mon.Pick(r, 0, math.Inf(1), math.Inf(-1), math.NaN(), -1, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.999, 999.999, 1e21, 1e300, -1e30)
		}
		h.c.In("rate", f)
		h.use("utils.HumanHash", func() { utils.HumanHash(f) })
		s := genText(r, r.N(4))
		h.use("block.DifficultyToHashrate", func() { utils.HumanHash(block.DifficultyToHashrate(s, genU64(r), f)) })
	}},
}

func (h *hostile) in(b []byte) {
	h.n = max(h.n, len(b))
	h.c.In("bytes", b)
}

func (h *hostile) inText(s string) {
	h.n = max(h.n, len(s))
	h.c.In("text", s)
}

func hostileTxBytes(r *R) []byte {
	switch r.N(8) {
	case 0:
		return opTx(r).Encode()
	case 1, 2:
		return mutate(r, opTx(r).Encode())
	case 3:
		return genBytes(r, genLen(r, 600))
	case 4: // cut short
		b := opTx(r).Encode()
		return b[:r.N(len(b)+1)]
	case 5: // valid, with scripts that are not
		m := opTx(r)
		for i := range m.Ins {
			m.Ins[i].Script = hostileScript(r)
			if r.P(20) {
				m.Ins[i].Hash = [32]byte{}
			}
		}
		for i := range m.Outs {
			m.Outs[i].Script = hostileScript(r)
		}
		return m.Encode()
	}
	return hostileTx(r)
}

func hostileScript(r *R) []byte {
	switch r.N(8) {
	case 0:
		return genClass(r)
	case 1:
		return genScript(r, 600)
	case 2:
		return genBytes(r, r.N(8))
	case 3:
		return ref.Cat(genOps(r), mon.Pick(r, []byte{0x4c}, []byte{0x4d}, []byte{0x4e}, []byte{0x4d, 0xff}, []byte{0x4e, 0xff, 0xff, 0xff}, []byte{0x4e, 0xff, 0xff, 0xff, 0xff}, []byte{0x4e, 0xff, 0xff, 0xff, 0x7f}, []byte{0x4e, 0, 0, 0, 0x80}, []byte{0x4e, 0xfb, 0xff, 0xff, 0xff}, []byte{0x4d, 0xff, 0xff}, []byte{0x4c, 0xff}, []byte{0x4b}, []byte{0x01}), genBytes(r, r.N(4)))
	case 4:
		return mutate(r, genClass(r))
	case 5: // any two or three bytes, and what an index behind the end would want
		b := r.Bytes(r.N(4))
		return append(b, mon.Pick(r, []byte{}, []byte{0xac}, []byte{0xae}, []byte{0x88, 0xac}, []byte{0x87})...)
	case 6:
		return append(genMultisig(r), genBytes(r, r.N(3))...)
	}
	return mutate(r, genScript(r, 300))
}

func g03(c *C) {
	t := hostileTargets[c.Index/8%len(hostileTargets)]
	for k := 0; k < 4; k++ {
		h := &hostile{c: c}
		c.Note("%s", t.name)
		t.run(h, c.R)
		c.ClearWatches()
	}
	c.Hit(t.name)
}

// exhaustive short scripts and texts
func g03Short(c *C) {
	n := c.Index
	var b []byte
	switch {
	case n < 256:
		b = []byte{byte(n)}
	case n < 256+65536:
		b = []byte{byte((n - 256) >> 8), byte(n - 256)}
	default:
		b = c.R.Bytes(3)
		b[c.R.N(3)] = mon.Pick(c.R, byte(0x4c), 0x4d, 0x4e, 0xac, 0xae, 0x6a, 0xfd, 0xfe, 0xff, 1, 2)
	}
	h := &hostile{c: c}
	h.in(b)
	h.scriptBytes(b)
	h.txBytes(b)
	h.cipher(b)
	s := ref.Hex(b)
	if n%16 == 0 {
		h.electrumText(s)
		h.txText(s)
		h.keyText(s)
		h.hashText(s)
		h.bitsTextCalls(s)
		h.asmText(string(b))
		h.addrText(string(b))
		h.bipText(string(b))
		h.scriptText(string(b))
	}
}

// large inputs: time and memory in proportion
var largeTargets = []struct {
	name string
	run  func(h *hostile, r *R, n int)
}{
	{"bytes of every kind of filling", func(h *hostile, r *R, n int) {
		f := mon.Pick(r, byte(0), 0x01, 0x4b, 0x4c, 0x4d, 0x4e, 0x51, 0x6a, 0x76, 0xac, 0xae, 0xfd, 0xfe, 0xff)
		b := make([]byte, n)
		for i := range b {
			b[i] = f
		}
		h.in(ref.Cat([]byte{f}, ref.LE32(uint32(n))))
		h.n = n
		h.scriptBytes(b)
		h.txBytes(b)
		h.cipher(b)
		h.hashBytes(b)
	}},
	{"random bytes", func(h *hostile, r *R, n int) {
		b := r.Bytes(n)
		h.in(b[:64])
		h.n = n
		h.scriptBytes(b)
		h.txBytes(b)
		h.cipher(b)
	}},
	{"scripts of many small pushes", func(h *hostile, r *R, n int) {
		p := mon.Pick(r, []byte{0x51, 0xae}, []byte{1, 7}, []byte{0}, []byte{0x4c, 1, 9}, []byte{0x4d, 1, 0, 9}, append([]byte{33}, r.Bytes(33)...), []byte{0x4c, 0})
		b := []byte{0x52}
		for len(b) < n {
			b = append(b, p...)
		}
		b = append(b, 0x52, 0xae)
		h.in(p)
		h.n = n
		h.scriptBytes(b)
		h.scriptText(ref.Hex(b))
		h.electrumText(ref.Hex(b))
	}},
	{"one large push", func(h *hostile, r *R, n int) {
		b := ref.Push(r.Bytes(n))
		h.in(b[:64])
		h.n = n
		h.scriptBytes(b)
		h.scriptText(ref.Hex(b))
	}},
	{"transactions of many inputs and outputs", func(h *hostile, r *R, n int) {
		m := smallTx(r, mon.Pick(r, n/41, 0, 1), mon.Pick(r, n/9, 0, 1))
		b := m.Encode()
		h.in(b[:min(len(b), 64)])
		h.n = len(b)
		var t *Tx
		if h.call("transaction.NewFromBytes", func() (err error) { t, err = transaction.NewFromBytes(b); return }) != nil {
			h.c.Fail("a transaction of %d inputs and %d outputs is rejected", len(m.Ins), len(m.Outs))
		}
		h.useTx(t)
		h.txText(ref.Hex(b))
	}},
	{"a transaction with large scripts", func(h *hostile, r *R, n int) {
		m := smallTx(r, 2, 2)
		m.Ins[0].Script = r.Bytes(n / 2)
		m.Outs[1].Script = hostileFill(r, n/2)
		h.in(m.Ins[0].Script[:32])
		h.n = n
		h.txBytes(m.Encode())
	}},
	{"assembly of many words", func(h *hostile, r *R, n int) {
		s := strings.Repeat(mon.Pick(r, "OP_DUP ", "aa ", "ab12 OP_ADD ", "OP_0 ", "  ", "\t"), n/7)
		h.in([]byte(s[:7]))
		h.n = len(s)
		h.asmText(s)
		h.asmText(s + "nonsense")
	}},
	{"one word", func(h *hostile, r *R, n int) {
		s := strings.Repeat(mon.Pick(r, "a", "ab", "O", "OP_", "z"), n/2)
		h.in([]byte(s[:7]))
		h.n = len(s)
		h.asmText(s)
		h.scriptText(s)
	}},
	{"addresses, keys and BIP276", func(h *hostile, r *R, n int) {
		ch := mon.Pick(r, "1", "z", "2", "0", "é", "a")
		s := strings.Repeat(ch, n/len(ch))
		h.in([]byte(s[:6]))
		h.n = len(s)
		h.addrText(s)
		h.keyText(s)
		h.hashText(s)
		h.xpubText(s)
		h.bipText(s)
		h.bipText("bitcoin-script:0101" + s)
		h.bipText(strings.Repeat(":", n/2) + s)
		d := r.Bytes(n / 2)
		h.bipText(bip276("bitcoin-script", 1, 1, d))
	}},
	{"hex helpers and bits", func(h *hostile, r *R, n int) {
		s := strings.Repeat(mon.Pick(r, "0", "f", "a", "g", "00000001"), n/8)
		h.in([]byte(s[:6]))
		h.n = len(s)
		h.hexHelpers(s)
		h.bitsTextCalls(s)
		h.utxoText(s, s)
		h.utxoText(ref.Hex(r.Bytes(32)), s)
		h.electrumText(s)
		h.txText(s)
		h.merkle(s, 1, []string{s, s})
	}},
	{"many Merkle branches", func(h *hostile, r *R, n int) {
		l := make([]string, n/64)
		x := ref.Hex(r.Bytes(32))
		for i := range l {
			l[i] = x
		}
		h.in([]byte(x))
		h.n = n
		h.merkle(x, int(r.U64()>>1), l)
		h.merkle(x, 0, l)
	}},
}

func hostileFill(r *R, n int) []byte {
	b := make([]byte, n)
	f := mon.Pick(r, byte(0), 0x51, 0x01, 0x4c, 0xae, 0xac)
	for i := range b {
		b[i] = f
	}
	return b
}

func g03Large(c *C) {
	t := largeTargets[c.Index%len(largeTargets)]
	n := mon.Pick(c.R, 1<<20, 1<<20, 3<<19, 1<<21)
	if c.Index < len(largeTargets) {
		n = 1 << 21
	}
	c.In("size", n)
	c.Note("%s", t.name)
	t.run(&hostile{c: c}, c.R, n)
	c.Hit("large: " + t.name)
}

func init() {
	need := map[string]int{"accepted": 50000, "rejected": 20000}
	for _, t := range hostileTargets {
		need[t.name] = 20
	}
	for _, t := range largeTargets {
		need["large: "+t.name] = 2
	}
	// what is computed once is computed before anything is measured
	warm := func(c *C) {
		_ = big.NewInt(1).String()
		keyN(3)
		h := &hostile{c: c}
		for _, t := range hostileTargets {
			t.run(h, c.R)
		}
		c.ClearWatches()
	}
	register(&mon.Prop{
		ID:   "G03",
		Rule: "each case gives four hostile inputs (valid ones damaged, announcing more than there is, cut short, other contents, random) to every entry point for that kind of bytes or text, and uses what is accepted for serialising, printing, classifying, converting and signing; all scripts of one and two bytes; inputs of 1 to 2 MB; panics, fatal errors, allocations beyond 3 MB + 400 bytes per byte of input and calls of more than 40 s of processor time are violations; distinct by the inputs",
		Stages: []mon.Stage{
			{Name: "warm up", Quick: shards, Deep: shards, Run: warm},
			{Name: "hostile", Quick: 8 * len(hostileTargets) * 40, Deep: 8 * len(hostileTargets) * 1500, Run: g03, MeasureAlloc: true},
			{Name: "short", Quick: 256 + 65536/8, Deep: 256 + 65536 + 200000, Run: func(c *C) {
				if c.Tier != "thorough" && c.Index >= 256 {
					c.Index = 256 + (c.Index-256)*8 + c.R.N(8)
				}
				g03Short(c)
			}},
			{Name: "large", Quick: 3 * len(largeTargets), Deep: 40 * len(largeTargets), Run: g03Large, MeasureAlloc: true},
		},
		Need: need,
	})
}
