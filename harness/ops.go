package main

import (
	"crypto/cipher"
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif/harness/mon"
	"verif/harness/ref"
)

// The operations of the whole library, as the interference and concurrency
// monitors use them. An operation makes its arguments from a seed, and gives a
// function that makes the call as often as wanted, from any goroutine; what the
// call returned is rendered later, by the function it returns.

// result is what a call returned: show renders it, and own are the objects that
// belong to the caller.
type result struct {
	show func() string
	own  []any
	part bool // the result is, or is part of, an argument
}

// spoil edits a result as a caller may who owns it.
func (x result) spoil() {
	for _, v := range x.own {
		mon.Spoil(v)
	}
}

func shown(f func() string, own ...any) result { return result{show: f, own: own} }

// part renders a result that shares memory with an argument.
func part(f func() string) result { return result{show: f, part: true} }

type op struct {
	name string
	mk   func(a *A) func() result
}

// A makes the arguments of one instance of an operation. With the same seed it
// makes the same ones, but for argument number tweak, which is slightly changed.
type A struct {
	c     *C // guards the arguments, if not nil
	seed  uint64
	n     int
	tweak int
	how   uint64
	mem   map[int][][]byte // where the arguments lie, if not nil
}

// place puts bytes into the memory that held the same argument before, if that
// fits.
func (a *A) place(k int, b []byte) []byte {
	if a.mem == nil {
		return b
	}
	l := a.mem[a.n]
	for len(l) <= k {
		l = append(l, nil)
	}
	a.mem[a.n] = l
	if cap(l[k]) < len(b) || l[k] == nil {
		l[k] = make([]byte, len(b), len(b)+32)
	}
	copy(l[k][:len(b)], b)
	return l[k][:len(b):len(b)]
}

func (a *A) rng() (r *R, tw *R) {
	a.n++
	r = mon.NewR(a.seed, uint64(a.n))
	if a.n == a.tweak {
		tw = mon.NewR(a.how, a.seed, uint64(a.n))
	}
	return
}

// nudge changes one bit, mostly at an end, swaps two bytes, or changes the length.
func nudge(tw *R, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	i := mon.Pick(tw, 0, len(b)-1, tw.N(len(b)), tw.N(len(b)))
	switch tw.N(7) {
	case 6: // other contents
		for k := mon.Pick(tw, 2, 8, len(b)); k > 0; k-- {
			b[(i+k)%len(b)] = byte(tw.U32())
		}
	case 4:
		return b[:i] // cut short
	case 5:
		return append(b, mon.Pick(tw, 0, b[i], byte(tw.U32())))
	case 0:
		j := tw.N(len(b))
		b[i], b[j] = b[j], b[i]
	case 1:
		j := tw.N(len(b))
		b[i]++
		b[j]--
	default:
		b[i] ^= 1 << tw.N(8)
	}
	return b
}

// fixed is bytes, always of the length that gen gives.
func (a *A) fixed(gen func(r *R) []byte) []byte {
	return a.bytesN(gen, true)
}

func (a *A) bytes(gen func(r *R) []byte) []byte { return a.bytesN(gen, false) }

func (a *A) bytesN(gen func(r *R) []byte, fixed bool) []byte {
	r, tw := a.rng()
	b := gen(r)
	if tw != nil {
		n := len(b)
		b = nudge(tw, b)
		for fixed && len(b) != n {
			b = nudge(tw, gen(mon.NewR(a.seed, uint64(a.n))))
		}
	}
	if a.c != nil {
		return a.c.Buf(fmt.Sprintf("argument %d", a.n), b)
	}
	return a.place(0, b)
}

// shift moves bytes from one element to the next, so that all together stay the
// same.
func shift(tw *R, l [][]byte) {
	if len(l) < 2 {
		return
	}
	i := tw.N(len(l) - 1)
	all := ref.Cat(l[i], l[i+1])
	k := tw.N(len(all) + 1)
	l[i], l[i+1] = all[:k:k], all[k:]
}

func (a *A) list(gen func(r *R) [][]byte) [][]byte {
	r, tw := a.rng()
	l := gen(r)
	if tw != nil && len(l) > 0 {
		i := tw.N(len(l))
		if tw.P(50) {
			l[i] = nudge(tw, l[i])
		} else if tw.P(40) {
			shift(tw, l)
		} else {
			j := tw.N(len(l))
			l[i], l[j] = l[j], l[i]
		}
	}
	if a.c != nil {
		return a.c.Bufs(fmt.Sprintf("argument %d", a.n), l)
	}
	for k := range l {
		l[k] = a.place(k, l[k])
	}
	return l
}

func nudgeText(tw *R, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return s
	}
	i := mon.Pick(tw, 0, len(b)-1, tw.N(len(b)), tw.N(len(b)))
	switch x := b[i]; {
	case tw.P(25):
		j := tw.N(len(b))
		b[i], b[j] = b[j], b[i]
	case x >= '0' && x <= '9':
		b[i] = '0' + byte(tw.N(10))
	case x >= 'a' && x <= 'f':
		b[i] = 'a' + byte(tw.N(6))
	case x >= 'A' && x <= 'Z':
		b[i] = 'A' + byte(tw.N(26))
	case x >= 'a' && x <= 'z':
		b[i] = 'a' + byte(tw.N(26))
	}
	return string(b)
}

func (a *A) str(gen func(r *R) string) string {
	r, tw := a.rng()
	s := gen(r)
	if tw != nil {
		s = nudgeText(tw, s)
	}
	if a.c != nil {
		return a.c.Str(fmt.Sprintf("argument %d", a.n), s)
	}
	return s
}

// hex is bytes as hex, and sometimes not hex.
func (a *A) hex(gen func(r *R) []byte) string {
	return a.str(func(r *R) string {
		if r.P(6) {
			return badHex(r, 5)
		}
		return mixCase(r, ref.Hex(gen(r)))
	})
}

func (a *A) strs(gen func(r *R) []string) []string {
	r, tw := a.rng()
	l := gen(r)
	if tw != nil && len(l) > 0 {
		i := tw.N(len(l))
		if tw.Bool() {
			l[i] = nudgeText(tw, l[i])
		} else {
			j := tw.N(len(l))
			l[i], l[j] = l[j], l[i]
		}
	}
	if a.c != nil {
		return a.c.Strs(fmt.Sprintf("argument %d", a.n), l)
	}
	return l
}

func (a *A) u32(gen func(r *R) uint32) uint32 {
	r, tw := a.rng()
	v := gen(r)
	if tw != nil {
		v = mon.Pick(tw, v+1, v^0x80000000, v^0x10000, v^0x100, v-1)
	}
	return v
}

func (a *A) u64(gen func(r *R) uint64) uint64 {
	r, tw := a.rng()
	v := gen(r)
	if tw != nil {
		v = mon.Pick(tw, v+1, v^1<<63, v^1<<32, v^1<<16, v^1<<8, v-1)
	}
	return v
}

func (a *A) num(lo, hi int) int {
	r, tw := a.rng()
	v := r.In(lo, hi)
	if tw != nil {
		v = tw.In(lo, hi)
	}
	return v
}

func (a *A) bool() bool { return a.num(0, 1) == 1 }

// tx makes the model of a transaction.
func (a *A) tx(gen func(r *R) *ref.Tx) *ref.Tx {
	r, tw := a.rng()
	m := gen(r)
	if tw == nil {
		return m
	}
	switch tw.N(5) {
	case 0:
		m.Version ^= 1 << tw.N(32)
	case 1:
		m.Lock ^= 1 << tw.N(32)
	case 2:
		if len(m.Ins) > 0 {
			in := &m.Ins[tw.N(len(m.Ins))]
			switch tw.N(6) {
			case 0:
				in.Hash[tw.N(32)] ^= 1 << tw.N(8)
			case 1:
				in.Vout ^= 1 << tw.N(32)
			case 2:
				in.Seq ^= 1 << tw.N(32)
			case 3:
				in.Script = nudge(tw, in.Script)
			case 4:
				in.PrevScript = nudge(tw, in.PrevScript)
			case 5:
				in.PrevSats ^= 1 << tw.N(64)
			}
		}
	case 3:
		if len(m.Outs) > 0 {
			o := &m.Outs[tw.N(len(m.Outs))]
			if tw.Bool() {
				o.Sats ^= 1 << tw.N(64)
			} else {
				o.Script = nudge(tw, o.Script)
			}
		}
	case 4:
		if n := len(m.Ins); n > 1 && tw.Bool() {
			m.Ins[0], m.Ins[n-1] = m.Ins[n-1], m.Ins[0]
		} else if n := len(m.Outs); n > 1 {
			m.Outs[0], m.Outs[n-1] = m.Outs[n-1], m.Outs[0]
		}
	}
	return m
}

// shared makes a transaction object that calls only read.
func (a *A) shared(gen func(r *R) *ref.Tx) (*Tx, *ref.Tx) {
	m := a.tx(gen)
	t := mkTx(m)
	if a.c != nil {
		a.c.Watch("the transaction", func() string { return dumpTx(t) })
	}
	return t, m
}

func opTx(r *R) *ref.Tx {
	m := &ref.Tx{Version: genU32(r), Lock: genU32(r)}
	for i := r.N(5); i > 0; i-- {
		m.Ins = append(m.Ins, genIn(r, 200))
	}
	for i := r.N(5); i > 0; i-- {
		m.Outs = append(m.Outs, genOut(r, 200))
	}
	return m
}

func (a *A) shareScript(gen func(r *R) []byte) *script.Script {
	b := a.bytes(gen)
	s := script.Script(b)
	if a.c != nil {
		a.c.Watch("the script", func() string { return string(s) })
	}
	return &s
}

func opBytes(r *R) []byte {
	if r.P(2) {
		return genBytes(r, 65000+r.N(2000))
	}
	return genBytes(r, mon.Pick(r, r.N(40), r.N(40), genLen(r, 600)))
}

func opScript(r *R) []byte { return genScript(r, 300) }

// rendering
func rBytes(b []byte) result {
	return shown(func() string { return "bytes " + string(b) }, b)
}
func rPart(b []byte) result { return part(func() string { return "bytes " + string(b) }) }
func rStr(s string) result  { return shown(func() string { return "text " + s }) }
func rVal(v any) result     { return shown(func() string { return fmt.Sprint(v) }) }
func rErr(err error) result { return shown(func() string { return "error" }) }
func rList(l [][]byte) result {
	return shown(func() string { return fmt.Sprintf("%d: %x", len(l), l) }, l)
}
func rParts(l [][]byte) result {
	return part(func() string { return fmt.Sprintf("%d: %x", len(l), l) })
}
func rScript(s *script.Script) result { return shown(func() string { return sstr(s) }, s) }
func rIn(i *input.Input) result       { return shown(func() string { return dumpIn(i) }, i) }
func rOut(o *output.Output) result    { return shown(func() string { return dumpOut(o) }, o) }
func rTx(t *Tx) result                { return shown(func() string { return dumpTx(t) }, t) }
func rAddr(x *Address) result         { return shown(func() string { return dumpAddr(x) }, x) }

func or[T any](v T, err error, f func(T) result) result {
	if err != nil {
		return rErr(err)
	}
	return f(v)
}

// signatures are the unlocking scripts of a transaction.
func signatures(t *Tx) (l []any) {
	for _, i := range t.Inputs {
		l = append(l, i.UnlockingScript)
	}
	return
}

// validSig renders a transaction whose inputs are signed: which inputs carry a
// valid script of the key, whatever the signature's nonce.
func validSigs(t *Tx, k *key, flag byte) string {
	var s strings.Builder
	for i, in := range t.Inputs {
		b := sbytes(in.UnlockingScript)
		toks, ok := ref.Tokens(b)
		if ok && len(toks) == 2 && string(toks[1].Data) == string(k.pub) && len(toks[0].Data) > 8 {
			d := toks[0].Data
			if f := d[len(d)-1]; f == flag {
				h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(f))
				sig, err2 := bsvec.ParseDERSignature(d[:len(d)-1], bsvec.S256())
				if err == nil && err2 == nil && sig.Verify(ref.Rev(h), k.priv.PubKey()) {
					fmt.Fprintf(&s, " %d: valid", i)
					continue
				}
			}
		}
		fmt.Fprintf(&s, " %d: %x", i, b)
	}
	fmt.Fprintf(&s, " v%d lock %d outs %d", t.Version, t.Locktime, len(t.Outputs))
	return s.String()
}

func genSpend(r *R) (*ref.Tx, *key) {
	k := keyN(r.N(12))
	var owners []*key
	for i := r.In(1, 3); i > 0; i-- {
		owners = append(owners, mon.Pick(r, k, k, keyN(r.N(12))))
	}
	return signTx(r, owners), k
}

func opAddr(r *R) string {
	if r.P(8) {
		return badAddr(r)
	}
	s, _ := genAddr(r)
	return s
}

func gen20(r *R) []byte {
	if r.P(5) {
		return r.Bytes(r.N(40))
	}
	return genBytes(r, 20)
}

func b1(name string, f func(b []byte) result, gen func(r *R) []byte) op {
	return op{name, func(a *A) func() result {
		b := a.bytes(gen)
		return func() result { return f(b) }
	}}
}

func s1(name string, f func(s string) result, gen func(r *R) string) op {
	return op{name, func(a *A) func() result {
		s := a.str(gen)
		return func() result { return f(s) }
	}}
}

func hexGen(gen func(r *R) []byte) func(r *R) string {
	return func(r *R) string {
		if r.P(6) {
			return badHex(r, 5)
		}
		return mixCase(r, ref.Hex(gen(r)))
	}
}

func opKeyBytes(r *R) []byte {
	if r.P(70) {
		k := keyN(r.N(12))
		if r.P(30) {
			return k.pt.Uncompressed()
		}
		return append([]byte{}, k.pub...)
	}
	return genKeyBytes(r)
}

func opParts(r *R) [][]byte {
	var p [][]byte
	for i := r.N(5); i > 0; i-- {
		p = append(p, genBytes(r, 1+genLen(r, 300)))
	}
	if len(p) > 0 && r.P(3) {
		p[r.N(len(p))] = genBytes(r, 65000+r.N(2000))
	}
	return p
}

func opHashes(r *R) []string {
	var l []string
	for i := mon.Pick(r, r.N(8), r.N(40)); i > 0; i-- {
		h := genHash(r)
		l = append(l, ref.Hex(h[:]))
	}
	return l
}

// readTx are calls that only read a transaction.
var readTx = []struct {
	name string
	f    func(t *Tx, n int) result
}{
	{"Transaction.GetTxID", func(t *Tx, _ int) result { return rStr(t.GetTxID()) }},
	{"Transaction.ToBytes", func(t *Tx, _ int) result { return rBytes(t.ToBytes()) }},
	{"Transaction.ToString", func(t *Tx, _ int) result { return rStr(t.ToString()) }},
	{"Transaction.IsCoinbase", func(t *Tx, _ int) result { return rVal(t.IsCoinbase()) }},
	{"Transaction.GetTotalOutputSatoshis", func(t *Tx, _ int) result { return rVal(t.GetTotalOutputSatoshis()) }},
	{"Transaction.InputCount", func(t *Tx, _ int) result { return rVal(t.InputCount()) }},
	{"Transaction.OutputCount", func(t *Tx, _ int) result { return rVal(t.OutputCount()) }},
	{"Transaction.GetInputs", func(t *Tx, _ int) result {
		l := t.GetInputs()
		return part(func() string {
			var s strings.Builder
			for _, i := range l {
				s.WriteString(dumpIn(i))
			}
			return s.String()
		})
	}},
	{"Transaction.GetOutputs", func(t *Tx, _ int) result {
		l := t.GetOutputs()
		return part(func() string {
			var s strings.Builder
			for _, i := range l {
				s.WriteString(dumpOut(i))
			}
			return s.String()
		})
	}},
	{"Transaction.GetInputSignatureHash", func(t *Tx, n int) result {
		flags := []sighash.Flag{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}
		h, err := t.GetInputSignatureHash(uint32(n%5), flags[n/5%6])
		return or(h, err, rBytes)
	}},
	{"Transaction.ToBytesWithClearedInputs", func(t *Tx, n int) result {
		if len(t.Inputs) == 0 {
			return rStr("")
		}
		return rBytes(t.ToBytesWithClearedInputs(n%len(t.Inputs), []byte{0x51, byte(n)}))
	}},
	{"Input.ToBytes", func(t *Tx, n int) result {
		if len(t.Inputs) == 0 {
			return rStr("")
		}
		return rBytes(t.Inputs[n%len(t.Inputs)].ToBytes(n&1 == 1))
	}},
	{"Input.String", func(t *Tx, n int) result {
		if len(t.Inputs) == 0 {
			return rStr("")
		}
		return rStr(t.Inputs[n%len(t.Inputs)].String())
	}},
	{"Output.ToBytes", func(t *Tx, n int) result {
		if len(t.Outputs) == 0 {
			return rStr("")
		}
		return rBytes(t.Outputs[n%len(t.Outputs)].ToBytes())
	}},
	{"Output.GetBytesForSigHash", func(t *Tx, n int) result {
		if len(t.Outputs) == 0 {
			return rStr("")
		}
		return rBytes(t.Outputs[n%len(t.Outputs)].GetBytesForSigHash())
	}},
	{"Output.String", func(t *Tx, n int) result {
		if len(t.Outputs) == 0 {
			return rStr("")
		}
		return rStr(t.Outputs[n%len(t.Outputs)].String())
	}},
	{"Output.GetLockingScriptHexString", func(t *Tx, n int) result {
		if len(t.Outputs) == 0 {
			return rStr("")
		}
		return rStr(t.Outputs[n%len(t.Outputs)].GetLockingScriptHexString())
	}},
}

// readScript are calls that only read a script.
var readScript = []struct {
	name string
	f    func(s *script.Script) result
}{
	{"Script.ToString", func(s *script.Script) result { return rStr(s.ToString()) }},
	{"Script.ToASM", func(s *script.Script) result { t, err := s.ToASM(); return or(t, err, rStr) }},
	{"Script.IsP2PKH", func(s *script.Script) result { return rVal(s.IsP2PKH()) }},
	{"Script.IsP2PK", func(s *script.Script) result { return rVal(s.IsP2PK()) }},
	{"Script.IsP2SH", func(s *script.Script) result { return rVal(s.IsP2SH()) }},
	{"Script.IsData", func(s *script.Script) result { return rVal(s.IsData()) }},
	{"Script.IsMultisigOut", func(s *script.Script) result { return rVal(s.IsMultisigOut()) }},
	{"Script.GetPublicKeyHash", func(s *script.Script) result { h, err := s.GetPublicKeyHash(); return or(h, err, rPart) }},
}

// readRS are calls that only read a redeem script.
var readRS = []struct {
	name string
	f    func(rs *RS) result
}{
	{"RedeemScript.GetAddress", func(rs *RS) result { return rStr(rs.GetAddress()) }},
	{"RedeemScript.GetRedeemScript", func(rs *RS) result { return rBytes(rs.GetRedeemScript()) }},
	{"RedeemScript.GetRedeemScriptHash", func(rs *RS) result { return rBytes(rs.GetRedeemScriptHash()) }},
}

func rRS(rs *RS) result { return shown(func() string { return dumpRS(rs) }, rs) }

// mkRS makes a redeem script object with any keys, not sorted.
func (a *A) mkRS() *RS {
	keys := a.list(func(r *R) [][]byte {
		var l [][]byte
		for i := r.In(2, 6); i > 0; i-- {
			l = append(l, append([]byte{}, keyN(r.N(30)).pub...))
		}
		return l
	})
	rs := &RS{SignaturesRequired: a.num(2, 3), PublicKeys: keys}
	if a.c != nil {
		a.c.Watch("the redeem script", func() string { return dumpRS(rs) })
	}
	return rs
}

var allOps = func() []op {
	ops := []op{
		// utils
		{"utils.VarInt", func(a *A) func() result {
			v := a.u64(genU64)
			return func() result { return rBytes(utils.VarInt(v)) }
		}},
		b1("utils.DecodeVarInt", func(b []byte) result {
			v, n := utils.DecodeVarInt(b)
			return rVal([2]uint64{v, uint64(n)})
		}, func(r *R) []byte { return append(ref.VarInt(genU64(r)), r.Bytes(r.N(5))...) }),
		{"utils.SortByteArrays", func(a *A) func() result {
			l := a.list(opParts)
			return func() result { return rParts(utils.SortByteArrays(append([][]byte{}, l...))) }
		}},
		b1("utils.ReverseBytes", func(b []byte) result { return rBytes(utils.ReverseBytes(b)) }, opBytes),
		s1("utils.ReverseHexString", func(s string) result { return rStr(utils.ReverseHexString(s)) }, func(r *R) string { return ref.Hex(opBytes(r))[0:] }),
		{"utils.GetLittleEndianBytes", func(a *A) func() result {
			v, l := a.u32(genU32), a.num(4, 40)
			return func() result { return rBytes(utils.GetLittleEndianBytes(v, uint32(l))) }
		}},
		{"utils.Equals", func(a *A) func() result {
			var p []byte
			x := a.bytes(func(r *R) []byte { p = opBytes(r); return p })
			y := a.bytes(func(r *R) []byte { return append([]byte{}, p...) })
			return func() result { return rVal(utils.Equals(x, y)) }
		}},
		s1("utils.Decode32Byte", func(s string) result {
			b, err := utils.Decode32Byte(s)
			return or(b[:], err, rBytes)
		}, hexGen(func(r *R) []byte { return r.Bytes(32) })),
		{"utils.HumanHash", func(a *A) func() result {
			v := a.u64(genU64)
			return func() result { return rStr(utils.HumanHash(float64(v) * 1000)) }
		}},
		// crypto
		b1("crypto.Sha256", func(b []byte) result { return rBytes(crypto.Sha256(b)) }, opBytes),
		b1("crypto.Sha256d", func(b []byte) result { return rBytes(crypto.Sha256d(b)) }, opBytes),
		b1("crypto.Ripemd160", func(b []byte) result { return rBytes(crypto.Ripemd160(b)) }, opBytes),
		b1("crypto.Hash160", func(b []byte) result { return rBytes(crypto.Hash160(b)) }, opBytes),
		{"crypto.Encrypt", func(a *A) func() result {
			key := newAES(a.fixed(func(r *R) []byte { return r.Bytes(mon.Pick(r, 16, 24, 32)) }))
			text := a.bytes(opBytes)
			return func() result {
				ct, err := crypto.Encrypt(key, text)
				return or(ct, err, func(ct []byte) result {
					return shown(func() string { return "encrypts " + string(unCFB(key, ct)) }, ct)
				})
			}
		}},
		{"crypto.Decrypt", func(a *A) func() result {
			key := newAES(a.fixed(func(r *R) []byte { return r.Bytes(mon.Pick(r, 16, 24, 32)) }))
			ct := a.bytes(func(r *R) []byte { return r.Bytes(16 + 4*r.N(30)) })
			if a.num(0, 3) > 0 {
				text := a.bytes(opBytes)
				iv := a.fixed(func(r *R) []byte { return r.Bytes(16) })
				ct = cfb(key, iv, text)
			}
			return func() result { t, err := crypto.Decrypt(key, ct); return or(t, err, rBytes) }
		}},
		// block
		s1("block.ExpandTargetFrom", func(s string) result { t, err := block.ExpandTargetFrom(s); return or(t, err, rStr) }, bitsText),
		s1("block.ExpandTargetFromAsInt", func(s string) result {
			t, err := block.ExpandTargetFromAsInt(s)
			return or(t, err, func(t *big.Int) result { return shown(func() string { return t.String() }, t) })
		}, bitsText),
		s1("block.DifficultyFromBits", func(s string) result {
			d, err := block.DifficultyFromBits(s)
			return or(d, err, func(d float64) result { return rVal(math.Float64bits(d)) })
		}, bitsText),
		{"block.DifficultyToHashrate", func(a *A) func() result {
			coin := a.str(func(r *R) string { return coins[r.N(len(coins))] })
			d, s := a.u64(genU64), a.num(1, 1000)
			return func() result { return rVal(math.Float64bits(block.DifficultyToHashrate(coin, d, float64(s)))) }
		}},
		{"block.BuildBlockHeader", func(a *A) func() result {
			v := a.u32(genU32)
			p := a.str(func(r *R) string { return ref.Hex(r.Bytes(32)) })
			g4 := func(r *R) []byte { return r.Bytes(4) }
			m, t, b, n := a.fixed(func(r *R) []byte { return r.Bytes(32) }), a.fixed(g4), a.fixed(g4), a.fixed(g4)
			return func() result { return rBytes(block.BuildBlockHeader(v, p, m, t, b, n)) }
		}},
		{"block.GetMerkleBranches", func(a *A) func() result {
			l := a.strs(opHashes)
			return func() result {
				b := block.GetMerkleBranches(l)
				return shown(func() string { return strings.Join(b, " ") }, b)
			}
		}},
		{"block.MerkleRootFromBranches", func(a *A) func() result {
			h := a.hex(func(r *R) []byte { return r.Bytes(32) })
			l := a.strs(opHashes)
			n := int(a.u32(genU32)) & (1<<min(len(l), 30) - 1)
			return func() result { s, err := block.MerkleRootFromBranches(h, n, l); return or(s, err, rStr) }
		}},
		{"block.BuildMerkleRootFromCoinbase", func(a *A) func() result {
			h := a.fixed(func(r *R) []byte { return r.Bytes(32) })
			l := a.strs(opHashes)
			return func() result {
				b := block.BuildMerkleRootFromCoinbase(h, l)
				if len(l) == 0 {
					return rPart(b)
				}
				return rBytes(b)
			}
		}},
		{"block.GetCoinbaseParts", func(a *A) func() result {
			height, value := a.u32(genU32)%(1<<24), a.u64(genU64)
			w := a.hex(func(r *R) []byte { return genBytes(r, r.N(60)) })
			t, addr := a.str(func(r *R) string { return genText(r, r.N(120)) }), a.str(opAddr)
			m := a.bytes(func(r *R) []byte { return genBytes(r, r.N(100)) })
			return func() result {
				x, y, err := block.GetCoinbaseParts(height, value, w, t, addr, m)
				return or([][]byte{x, y}, err, rList)
			}
		}},
		{"block.BuildCoinbase", func(a *A) func() result {
			x, y := a.bytes(opBytes), a.bytes(opBytes)
			e1, e2 := a.str(func(r *R) string { return ref.Hex(r.Bytes(6)) }), a.str(func(r *R) string { return ref.Hex(r.Bytes(6)) })
			return func() result { return rBytes(block.BuildCoinbase(x, y, e1, e2)) }
		}},
		// parsers
		b1("transaction.NewFromBytes", func(b []byte) result { t, err := transaction.NewFromBytes(b); return or(t, err, rTx) }, func(r *R) []byte { return opTx(r).Encode() }),
		s1("transaction.NewFromString", func(s string) result { t, err := transaction.NewFromString(s); return or(t, err, rTx) }, hexGen(func(r *R) []byte { return opTx(r).Encode() })),
		b1("input.NewFromBytes", func(b []byte) result {
			i, n, err := input.NewFromBytes(b)
			return or(i, err, func(i *input.Input) result { return shown(func() string { return fmt.Sprint(n, dumpIn(i)) }, i) })
		}, func(r *R) []byte { i := genIn(r, 200); return append(i.Encode(i.Script), r.Bytes(r.N(9))...) }),
		b1("output.NewFromBytes", func(b []byte) result {
			o, n, err := output.NewFromBytes(b)
			return or(o, err, func(o *output.Output) result { return shown(func() string { return fmt.Sprint(n, dumpOut(o)) }, o) })
		}, func(r *R) []byte { o := genOut(r, 200); return append(o.Encode(), r.Bytes(r.N(9))...) }),
		// building
		{"input.NewFromUTXO", func(a *A) func() result {
			id, s := a.hex(func(r *R) []byte { return r.Bytes(32) }), a.hex(opScript)
			n, v, q := a.u32(genU32), a.u64(genU64), a.u32(genU32)
			return func() result { i, err := input.NewFromUTXO(id, n, v, s, q); return or(i, err, rIn) }
		}},
		{"input.New", func(a *A) func() result { return func() result { return rIn(input.New()) } }},
		{"transaction.New", func(a *A) func() result { return func() result { return rTx(transaction.New()) } }},
		{"output.NewP2PkhFromPubKeyHash", func(a *A) func() result {
			h, v := a.hex(gen20), a.u64(genU64)
			return func() result { o, err := output.NewP2PkhFromPubKeyHash(h, v); return or(o, err, rOut) }
		}},
		{"output.NewP2PKHFromAddress", func(a *A) func() result {
			s, v := a.str(opAddr), a.u64(genU64)
			return func() result { o, err := output.NewP2PKHFromAddress(s, v); return or(o, err, rOut) }
		}},
		{"output.NewHashPuzzle", func(a *A) func() result {
			s, h, v := a.str(func(r *R) string { return genText(r, r.N(60)) }), a.hex(gen20), a.u64(genU64)
			return func() result { o, err := output.NewHashPuzzle(s, h, v); return or(o, err, rOut) }
		}},
		b1("output.NewOpReturn", func(b []byte) result { o, err := output.NewOpReturn(b); return or(o, err, rOut) }, opBytes),
		{"output.NewOpReturnParts", func(a *A) func() result {
			l := a.list(opParts)
			return func() result { o, err := output.NewOpReturnParts(l); return or(o, err, rOut) }
		}},
		{"Transaction.From", func(a *A) func() result {
			m := a.tx(opTx)
			id, s := a.hex(func(r *R) []byte { return r.Bytes(32) }), a.hex(opScript)
			n, v := a.u32(genU32), a.u64(genU64)
			return func() result {
				t := mkTx(m)
				err := t.From(id, n, s, v)
				return shown(func() string { return fmt.Sprint(err != nil, dumpTx(t)) }, t)
			}
		}},
		{"Transaction.PayTo", func(a *A) func() result {
			m := a.tx(opTx)
			s, v := a.str(opAddr), a.u64(genU64)
			return func() result {
				t := mkTx(m)
				err := t.PayTo(s, v)
				return shown(func() string { return fmt.Sprint(err != nil, dumpTx(t)) }, t)
			}
		}},
		{"Transaction.AddInput and AddOutput", func(a *A) func() result {
			m, m2 := a.tx(opTx), a.tx(opTx)
			return func() result {
				t := mkTx(m)
				for i := range m2.Ins {
					t.AddInput(mkIn(&m2.Ins[i]))
				}
				for i := range m2.Outs {
					t.AddOutput(mkOut(&m2.Outs[i]))
				}
				return rTx(t)
			}
		}},
		{"Transaction.ApplyUnlockingScript", func(a *A) func() result {
			m := a.tx(opTx)
			n := a.num(0, 3)
			b := a.bytes(opScript)
			return func() result {
				t := mkTx(m)
				err := t.ApplyUnlockingScript(uint32(n), scr(b))
				return shown(func() string { return fmt.Sprint(err != nil, dumpTx(t)) }, t)
			}
		}},
		{"Transaction.Sign", func(a *A) func() result { return opSign(a, false) }},
		{"Transaction.SignAuto", func(a *A) func() result { return opSign(a, true) }},
		// scripts
		{"script.EncodeParts", func(a *A) func() result {
			l := a.list(opParts)
			return func() result { b, err := script.EncodeParts(l); return or(b, err, rBytes) }
		}},
		b1("script.GetPushDataPrefix", func(b []byte) result { p, err := script.GetPushDataPrefix(b); return or(p, err, rBytes) }, opBytes),
		b1("script.DecodeParts", func(b []byte) result {
			l, err := script.DecodeParts(b)
			return result{show: func() string { return fmt.Sprintf("%v %x", err != nil, l) }, part: true, own: []any{mon.List(l)}}
		}, opScript),
		s1("script.DecodeStringParts", func(s string) result {
			l, err := script.DecodeStringParts(s)
			return shown(func() string { return fmt.Sprintf("%v %x", err != nil, l) }, l)
		}, hexGen(opScript)),
		{"script.NewP2PKHUnlockingScript", func(a *A) func() result {
			k, s, f := a.bytes(opKeyBytes), a.bytes(func(r *R) []byte { return r.Bytes(71) }), a.num(0, 255)
			return func() result {
				x, err := script.NewP2PKHUnlockingScript(k, s, sighash.Flag(f))
				return or(x, err, rScript)
			}
		}},
		s1("script.NewFromHexString", func(s string) result { x, err := script.NewFromHexString(s); return or(x, err, rScript) }, hexGen(opScript)),
		b1("script.NewFromBytes", func(b []byte) result { x := script.NewFromBytes(b); return part(func() string { return sstr(x) }) }, opScript),
		s1("script.NewFromASM", func(s string) result { x, err := script.NewFromASM(s); return or(x, err, rScript) }, func(r *R) string {
			if r.P(8) {
				return badWord(r)
			}
			_, w := asmScript(r, r.N(8))
			return strings.Join(w, " ")
		}),
		s1("script.NewP2PKHFromPubKeyStr", func(s string) result { x, err := script.NewP2PKHFromPubKeyStr(s); return or(x, err, rScript) }, hexGen(opKeyBytes)),
		b1("script.NewP2PKHFromPubKeyBytes", func(b []byte) result { x, err := script.NewP2PKHFromPubKeyBytes(b); return or(x, err, rScript) }, opKeyBytes),
		s1("script.NewP2PKHFromPubKeyHashStr", func(s string) result {
			x, err := script.NewP2PKHFromPubKeyHashStr(s)
			return or(x, err, rScript)
		}, hexGen(gen20)),
		s1("script.NewP2PKHFromAddress", func(s string) result { x, err := script.NewP2PKHFromAddress(s); return or(x, err, rScript) }, opAddr),
		{"Script appends", func(a *A) func() result {
			start := a.bytes(opScript)
			kind := a.num(0, 5)
			d := a.bytes(opBytes)
			h := a.hex(opBytes)
			l := a.list(opParts)
			ss := a.strs(func(r *R) []string {
				var s []string
				for i := r.N(4); i > 0; i-- {
					s = append(s, genText(r, r.N(100)))
				}
				return s
			})
			o := a.num(0, 255)
			return func() result {
				s := scr(start)
				var err error
				switch kind {
				case 0:
					err = s.AppendPushData(d)
				case 1:
					err = s.AppendPushDataHexString(h)
				case 2:
					err = s.AppendPushDataString(h)
				case 3:
					err = s.AppendPushDataArray(l)
				case 4:
					err = s.AppendPushDataStrings(ss)
				case 5:
					s.AppendOpCode(uint8(o))
				}
				return shown(func() string { return fmt.Sprint(err != nil, sstr(s)) }, s)
			}
		}},
		// addresses
		s1("address.NewFromString", func(s string) result { x, err := address.NewFromString(s); return or(x, err, rAddr) }, opAddr),
		s1("address.ValidateAddress", func(s string) result {
			ok, err := address.ValidateAddress(s)
			return rVal(fmt.Sprint(ok, err != nil))
		}, func(r *R) string {
			if r.P(30) {
				p, n, v, d := genBIP(r)
				return bip276(p, n, v, d)
			}
			return opAddr(r)
		}),
		{"address.NewFromPublicKeyString", func(a *A) func() result {
			s, m := a.hex(opKeyBytes), a.bool()
			return func() result { x, err := address.NewFromPublicKeyString(s, m); return or(x, err, rAddr) }
		}},
		{"address.NewFromPublicKeyHash", func(a *A) func() result {
			b, m := a.bytes(gen20), a.bool()
			return func() result { x, err := address.NewFromPublicKeyHash(b, m); return or(x, err, rAddr) }
		}},
		{"address.NewFromPublicKey", func(a *A) func() result {
			n, m := a.num(0, 11), a.bool()
			k := keyN(n).priv.PubKey()
			return func() result { x, err := address.NewFromPublicKey(k, m); return or(x, err, rAddr) }
		}},
		b1("address.Base58EncodeMissingChecksum", func(b []byte) result { return rStr(address.Base58EncodeMissingChecksum(b)) }, func(r *R) []byte { return genBytes(r, r.N(60)) }),
		{"address.EncodeBIP276", func(a *A) func() result {
			p := a.str(func(r *R) string { return mon.Pick(r, address.PrefixScript, address.PrefixTemplate) })
			n, v, d := a.num(1, 255), a.num(1, 255), a.bytes(opBytes)
			return func() result { return rStr(address.EncodeBIP276(p, n, v, d)) }
		}},
		s1("address.DecodeBIP276", func(s string) result {
			p, x, y, d, err := address.DecodeBIP276(s)
			return or(d, err, func(d []byte) result {
				return shown(func() string { return fmt.Sprintf("%s %d %d %x", p, x, y, d) }, d)
			})
		}, func(r *R) string { p, n, v, d := genBIP(r); return bip276(p, n, v, d) }),
		// multisig
		{"script.NewRedeemScript and AddPublicKey", func(a *A) func() result {
			m := a.num(2, 16)
			n := a.num(1, 2)
			var xs []string
			var ps [][]uint32
			for i := 0; i < n; i++ {
				xs = append(xs, a.str(func(r *R) string { return opXPub(r).String() }))
				p := []uint32{uint32(a.num(0, 2)), uint32(a.num(0, 2))}
				ps = append(ps, p)
				if a.c != nil {
					a.c.Watch("the derivation path", func() string { return fmt.Sprint(p) })
				}
			}
			return func() result {
				rs, err := script.NewRedeemScript(m)
				if err != nil {
					return rErr(err)
				}
				var errs []bool
				for i := range xs {
					errs = append(errs, rs.AddPublicKey(xs[i], ps[i]) != nil)
				}
				return shown(func() string { return fmt.Sprint(errs, dumpRS(rs)) }, rs)
			}
		}},
		s1("script.NewRedeemScriptFromElectrum", func(s string) result {
			rs, err := script.NewRedeemScriptFromElectrum(s)
			return or(rs, err, rRS)
		}, hexGen(func(r *R) []byte {
			var ks []electrumKey
			for i := 2; i > 0; i-- {
				ks = append(ks, electrumKey{opXPub(r), uint16(r.N(3)), uint16(r.N(3))})
			}
			return electrum(0x52, ks, 0x52)
		})),
	}
	for _, x := range readTx {
		x := x
		ops = append(ops, op{x.name, func(a *A) func() result {
			t, _ := a.shared(opTx)
			n := a.num(0, 29)
			return func() result { return x.f(t, n) }
		}})
	}
	for _, x := range readScript {
		x := x
		ops = append(ops, op{x.name, func(a *A) func() result {
			s := a.shareScript(func(r *R) []byte {
				if r.Bool() {
					return genClass(r)
				}
				return opScript(r)
			})
			return func() result { return x.f(s) }
		}})
	}
	for _, x := range readRS {
		x := x
		ops = append(ops, op{x.name, func(a *A) func() result {
			rs := a.mkRS()
			return func() result { return x.f(rs) }
		}})
	}
	return ops
}()

func opXPub(r *R) *ref.XPub { return genXPubKey(mon.NewR(uint64(r.N(10)), 99), 8) }

func bitsText(r *R) string {
	if r.P(8) {
		return badHex(r, 4)
	}
	return mixCase(r, fmt.Sprintf("%08x", genBits(r)))
}

// opSign signs a fresh transaction with a signer that calls share.
func opSign(a *A, auto bool) func() result {
	var k *key
	m := a.tx(func(r *R) *ref.Tx {
		m, kk := genSpend(r)
		k = kk
		return m
	})
	n := a.num(0, len(m.Ins)-1)
	flag := byte([]int{0, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}[a.num(0, 6)])
	sg := &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(flag)}
	if a.c != nil {
		a.c.Watch("the signer", func() string { return signerState(sg) })
	}
	eff := flag
	if eff == 0 {
		eff = 0x41
	}
	return func() result {
		t := mkTx(m)
		var err error
		if auto {
			err = t.SignAuto(sg)
		} else {
			err = t.Sign(uint32(n), sg)
		}
		return shown(func() string { return fmt.Sprint(err != nil, validSigs(t, k, eff)) }, signatures(t)...)
	}
}

// cfb and unCFB are AES-CFB of the base64 text, block by block.
func cfb(k cipher.Block, iv, text []byte) []byte {
	p := []byte(base64.StdEncoding.EncodeToString(text))
	out := append([]byte{}, iv...)
	prev := append([]byte{}, iv...)
	for i := 0; i < len(p); i += 16 {
		var ks [16]byte
		k.Encrypt(ks[:], prev)
		j := i
		for ; j < len(p) && j < i+16; j++ {
			out = append(out, p[j]^ks[j-i])
		}
		if j == i+16 {
			prev = out[len(out)-16:]
		}
	}
	return out
}

func unCFB(k cipher.Block, ct []byte) []byte {
	if len(ct) < 16 {
		return []byte("short")
	}
	var p []byte
	prev := ct[:16]
	for i := 16; i < len(ct); i += 16 {
		var ks [16]byte
		k.Encrypt(ks[:], prev)
		for j := i; j < len(ct) && j < i+16; j++ {
			p = append(p, ct[j]^ks[j-i])
		}
		if i+16 <= len(ct) {
			prev = ct[i : i+16]
		}
	}
	t, err := base64.StdEncoding.DecodeString(string(p))
	if err != nil {
		return []byte("not base64")
	}
	return t
}
