package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/bitcoinsv/bsvd/blockchain"
	"github.com/bitcoinsv/bsvd/chaincfg"
	"github.com/bitcoinsv/bsvd/chaincfg/chainhash"
	"github.com/bitcoinsv/bsvd/txscript"
	"github.com/bitcoinsv/bsvd/wire"
	"github.com/bitcoinsv/bsvutil"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/harness/mon"
	"verif/harness/ref"
)

// W01 has wallets and a miner that know nothing but libsv make transactions and
// blocks, and a node made of another implementation's parts (bsvd's wire format,
// sanity checks, script interpreter and Merkle tree) judge them.

type node struct {
	view    *blockchain.UtxoViewpoint
	params  chaincfg.Params
	height  int32
	prev    chainhash.Hash
	minted  int64
	clock   blockchain.MedianTimeSource
	waiting []*bsvutil.Tx // accepted for the next block
	fees    int64
}

func newNode(height int32) *node {
	n := &node{view: blockchain.NewUtxoViewpoint(), params: chaincfg.RegressionNetParams, height: height, clock: blockchain.NewMedianTime()}
	n.params.CoinbaseMaturity = 1
	n.params.SubsidyReductionInterval = 0
	return n
}

// scripts executes the unlocking script of an input.
func (n *node) script(tx *wire.MsgTx, i int, view *blockchain.UtxoViewpoint) error {
	e := view.LookupEntry(tx.TxIn[i].PreviousOutPoint)
	if e == nil {
		return errors.New("no such output")
	}
	vm, err := txscript.NewEngine(e.PkScript(), tx, i, txscript.StandardVerifyFlags, nil, txscript.NewTxSigHashes(tx), e.Amount())
	if err != nil {
		return err
	}
	return vm.Execute()
}

// transaction judges a transaction that is sent to the node.
func (n *node) transaction(raw []byte) (*bsvutil.Tx, error) {
	var m wire.MsgTx
	rd := bytes.NewReader(raw)
	if err := m.Deserialize(rd); err != nil {
		return nil, err
	}
	if rd.Len() > 0 {
		return nil, fmt.Errorf("%d bytes behind the transaction", rd.Len())
	}
	tx := bsvutil.NewTx(&m)
	if err := blockchain.CheckTransactionSanity(tx, txscript.StandardVerifyFlags); err != nil {
		return nil, err
	}
	fee, err := blockchain.CheckTransactionInputs(tx, n.height+1, n.view, &n.params)
	if err != nil {
		return nil, err
	}
	for i := range m.TxIn {
		if err := n.script(&m, i, n.view); err != nil {
			return nil, fmt.Errorf("input %d of %d: %v", i, len(m.TxIn), err)
		}
	}
	n.connect(tx)
	n.fees += fee
	n.waiting = append(n.waiting, tx)
	return tx, nil
}

func (n *node) connect(tx *bsvutil.Tx) {
	for _, in := range tx.MsgTx().TxIn {
		n.view.RemoveEntry(in.PreviousOutPoint)
	}
	n.view.AddTxOuts(tx, n.height+1)
}

// block judges a block, whose other transactions were sent before.
func (n *node) block(raw []byte) error {
	b, err := bsvutil.NewBlockFromBytes(raw)
	if err != nil {
		return err
	}
	if b.MsgBlock().SerializeSize() != len(raw) {
		return errors.New("bytes behind the block")
	}
	if err := blockchain.CheckBlockSanity(b, n.params.PowLimit, n.clock); err != nil {
		return err
	}
	h := b.MsgBlock().Header
	if h.PrevBlock != n.prev {
		return fmt.Errorf("the block follows %v, not %v", h.PrevBlock, n.prev)
	}
	coinbase := b.Transactions()[0]
	height, err := blockchain.ExtractCoinbaseHeight(coinbase)
	if err != nil {
		return err
	}
	if height != n.height+1 {
		return fmt.Errorf("the coinbase says height %d, not %d", height, n.height+1)
	}
	if len(b.Transactions()) != len(n.waiting)+1 {
		return errors.New("another number of transactions")
	}
	for i, tx := range n.waiting {
		if *tx.Hash() != *b.Transactions()[i+1].Hash() {
			return fmt.Errorf("transaction %d is another one", i+1)
		}
	}
	var v int64
	for _, o := range coinbase.MsgTx().TxOut {
		v += o.Value
	}
	if max := n.fees + blockchain.CalcBlockSubsidy(height, &n.params); v != max {
		return fmt.Errorf("the coinbase pays %d, not %d", v, max)
	}
	n.view.AddTxOuts(coinbase, height)
	n.minted += v - n.fees
	n.prev, n.height, n.fees, n.waiting = *b.Hash(), height, 0, nil
	return nil
}

// coin is an output that somebody in the wallets' world can spend.
type coin struct {
	id     string
	vout   uint32
	sats   uint64
	kind   string
	owner  *key
	script []byte // what the output holds
	code   []byte // what is signed for it
	secret []byte
	need   int    // of owners
	owners []*key // in the order of the script
	height int32
}

// multi is a redeem script whose keys' owners are known.
func multi(c *C) (rs *RS, need int, owners []*key) {
	r := c.R
	total := r.In(2, mon.Pick(r, 3, 4, 15))
	need = r.In(2, total)
	if total > 6 {
		need = r.In(2, 4)
	}
	rs, err := newRS(c, need)
	c.Check(err == nil, "NewRedeemScript(%d): %v", need, err)
	for _, i := range r.Perm(60)[:total] {
		// 60 extended keys, of which the children are known
		k := childOf(i)
		err := addKey(c, rs, k.xpub, []uint32{k.a, k.b})
		c.Check(err == nil, "AddPublicKey(%s, %d/%d): %v", k.xpub, k.a, k.b, err)
		owners = append(owners, k.key)
	}
	for i := range owners {
		for j := i; j > 0 && bytes.Compare(owners[j-1].pub, owners[j].pub) > 0; j-- {
			owners[j-1], owners[j] = owners[j], owners[j-1]
		}
	}
	return
}

type child struct {
	xpub string
	a, b uint32
	key  *key
}

var children = map[int]*child{}

// childOf gives a child key of an extended key, with its private key.
func childOf(n int) *child {
	if k := children[n]; k != nil {
		return k
	}
	r := mon.NewR(uint64(n), 1234)
	x := ref.NewXPrv(genXPub(r), keyN(n%nKeys).d)
	k := &child{a: mon.Pick(r, 0, uint32(r.N(100)), r.U32()>>1), b: mon.Pick(r, 0, uint32(r.N(100)), r.U32()>>1)}
	k.xpub = x.XPub.String()
	y, err := x.Child(k.a)
	if err == nil {
		y, err = y.Child(k.b)
	}
	if err != nil {
		return childOf(n + 1000)
	}
	k.key = newKey(y.D)
	children[n] = k
	return k
}

// payment makes an output and adds it to a transaction.
func payment(c *C, t *Tx, sats uint64) *coin {
	r := c.R
	k := keyN(r.N(12))
	p := &coin{sats: sats, owner: k, kind: "P2PKH", script: ref.P2PKH(k.hash)}
	addr := ref.Base58Check(ref.Cat([]byte{byte(r.N(2) * 0x6f)}, k.hash))
	var o *output.Output
	var err error
	how := r.N(13)
	c.Call("making an output", func() {
		switch how {
		case 0:
			err = t.PayTo(addr, sats)
		case 1:
			o, err = output.NewP2PKHFromAddress(addr, sats)
		case 2:
			o, err = output.NewP2PkhFromPubKeyHash(ref.Hex(k.hash), sats)
		case 3:
			p.kind, p.secret = "hash puzzle", []byte(ref.Hex(r.Bytes(mon.Pick(r, r.In(2, 40), r.In(2, 40), 37, 38, 127, 128, 259, 260, r.In(2, 260)))))
			o, err = output.NewHashPuzzle(string(p.secret), ref.Hex(k.hash), sats)
			p.script = ref.Cat([]byte{0xa9, 20}, ref.Hash160(p.secret), []byte{0x88}, p.script)
		case 4, 5:
			rs, need, owners := multi(c)
			p.need, p.owners = need, owners
			var l []byte
			for _, k := range owners {
				l = append(l, ref.Push(k.pub)...)
			}
			p.code = ref.Cat([]byte{byte(0x50 + need)}, l, []byte{byte(0x50 + len(owners)), 0xae})
			s := script.NewFromBytes(nil)
			if how == 4 {
				p.kind, p.script = "P2SH", ref.Cat([]byte{0xa9, 20}, ref.Hash160(p.code), []byte{0x87})
				s.AppendOpCode(script.OpHASH160)
				err = s.AppendPushData(rs.GetRedeemScriptHash())
				s.AppendOpCode(script.OpEQUAL)
			} else {
				p.kind, p.script = "multisig", p.code
				s = script.NewFromBytes(rs.GetRedeemScript())
			}
			o = &output.Output{Satoshis: sats, LockingScript: s}
		case 6:
			p.kind = "P2PK"
			p.script = append(ref.Push(k.pub), 0xac)
			s := script.NewFromBytes([]byte{})
			err = s.AppendPushData(k.pub)
			s.AppendOpCode(script.OpCHECKSIG)
			o = &output.Output{Satoshis: sats, LockingScript: s}
		case 7:
			var s *script.Script
			s, err = script.NewFromASM("OP_DUP OP_HASH160 " + ref.Hex(k.hash) + " OP_EQUALVERIFY OP_CHECKSIG")
			o = &output.Output{Satoshis: sats, LockingScript: s}
		case 8:
			var a *address.Address
			a, err = address.NewFromPublicKey(k.priv.PubKey(), r.Bool())
			if err == nil {
				err = t.PayTo(a.AddressString, sats)
			}
		case 9:
			var a *address.Address
			a, err = address.NewFromPublicKeyString(ref.Hex(k.pub), r.Bool())
			if err == nil {
				a, err = address.NewFromString(a.AddressString)
			}
			if err == nil {
				err = t.PayTo(a.AddressString, sats)
			}
		case 10:
			// the receiver hands over a script as BIP276 text
			var s *script.Script
			s, err = script.NewP2PKHFromPubKeyStr(ref.Hex(k.pub))
			if err == nil {
				text := address.EncodeBIP276("bitcoin-script", r.In(1, 2), 1, *s)
				var ok bool
				ok, err = address.ValidateAddress(text)
				c.Check(ok, "ValidateAddress(%s) = %v, %v", text, ok, err)
				var b []byte
				_, _, _, b, err = address.DecodeBIP276(text)
				o = &output.Output{Satoshis: sats, LockingScript: script.NewFromBytes(b)}
			}
		case 11:
			// back to where a script points to
			var s *script.Script
			var h []byte
			s, err = script.NewP2PKHFromPubKeyBytes(k.pub)
			if err == nil {
				h, err = s.GetPublicKeyHash()
			}
			if err == nil {
				o, err = output.NewP2PkhFromPubKeyHash(ref.Hex(h), sats)
			}
		case 12:
			// through ASM and back
			var s *script.Script
			var asm string
			s, err = script.NewP2PKHFromAddress(addr)
			if err == nil {
				asm, err = s.ToASM()
			}
			if err == nil {
				s, err = script.NewFromASM(asm)
			}
			if err == nil {
				s, err = script.NewFromHexString(s.ToString())
			}
			o = &output.Output{Satoshis: sats, LockingScript: s}
		}
		if o != nil && err == nil {
			t.AddOutput(o)
		}
	})
	c.Check(err == nil, "making a %s output: %v", p.kind, err)
	if p.code == nil {
		p.code = p.script
	}
	c.Hit("output " + p.kind)
	return p
}

// data adds an output without value.
func dataOutput(c *C, t *Tx) []byte {
	r := c.R
	var o *output.Output
	var err error
	size := func() int {
		return mon.Pick(r, r.In(1, 100), r.In(1, 100), 75, 76, 255, 256, 519, 520, 521, r.In(1, 5000), mon.Pick(r, 1000, 65535, 65536))
	}
	parts := [][]byte{genBytes(r, size()), genBytes(r, size())}
	want := ref.Cat([]byte{0, 0x6a}, ref.Push(parts[0]), ref.Push(parts[1]))
	c.Call("making an output", func() {
		if r.Bool() {
			o, err = output.NewOpReturnParts(parts)
		} else {
			o, err = output.NewOpReturn(parts[0])
			want = ref.Cat([]byte{0, 0x6a}, ref.Push(parts[0]))
		}
		if err == nil {
			t.AddOutput(o)
		}
	})
	c.Check(err == nil, "making a data output: %v", err)
	c.Hit("output of data")
	return want
}

// spend adds a coin as an input.
func spend(c *C, t *Tx, p *coin) {
	r := c.R
	var err error
	code := ref.Hex(p.code)
	c.Call("adding an input", func() {
		switch r.N(3) {
		case 0:
			err = t.From(p.id, p.vout, code, p.sats)
		case 1:
			var i *input.Input
			i, err = input.NewFromUTXO(p.id, p.vout, p.sats, code, r.U32())
			if err == nil {
				t.AddInput(i)
			}
		case 2:
			i := input.New()
			i.PreviousTxID, i.PreviousTxOutIndex, i.PreviousTxSatoshis, i.SequenceNumber = p.id, p.vout, p.sats, r.U32()
			i.PreviousTxScript, err = script.NewFromHexString(code)
			t.AddInput(i)
		}
	})
	c.Check(err == nil, "adding an input: %v", err)
	c.Hit("input " + p.kind)
}

// sendOn writes the transaction, reads it somewhere else and adds what is known of
// the coins spent.
func sendOn(c *C, t *Tx, from []*coin) *Tx {
	var u *Tx
	var err error
	c.Call("sending a transaction", func() {
		if c.R.Bool() {
			u, err = transaction.NewFromString(t.ToString())
		} else {
			u, err = transaction.NewFromBytes(t.ToBytes())
		}
	})
	c.Check(err == nil, "a transaction does not parse: %v", err)
	c.Check(len(u.Inputs) == len(from), "%d inputs instead of %d", len(u.Inputs), len(from))
	for i, p := range from {
		u.Inputs[i].PreviousTxSatoshis, u.Inputs[i].PreviousTxScript = p.sats, scr(p.code)
	}
	c.Hit("transaction sent on while being signed")
	return u
}

// sign signs input i, a coin, for all owners it takes.
func sign(c *C, t *Tx, i int, p *coin, flag byte) {
	s := func(k *key) *signature.InternalSigner {
		return &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(flag)}
	}
	// one signature, taken from the unlocking script
	sig := func(k *key) []byte {
		err := t.Sign(uint32(i), s(k))
		c.Check(err == nil, "Sign(%d) of %d inputs: %v", i, len(t.Inputs), err)
		l, err := script.DecodeParts(*t.Inputs[i].UnlockingScript)
		c.Check(err == nil && len(l) == 2, "the unlocking script is not two pushes: %x", sbytes(t.Inputs[i].UnlockingScript))
		return l[0]
	}
	c.Call("signing an input", func() {
		var err error
		u := script.NewFromBytes([]byte{})
		switch p.kind {
		case "P2PKH":
			if c.R.P(30) {
				err = t.SignAuto(s(p.owner))
			} else {
				err = t.Sign(uint32(i), s(p.owner))
			}
		case "hash puzzle":
			err = t.Sign(uint32(i), s(p.owner))
			if err == nil {
				err = t.Inputs[i].UnlockingScript.AppendPushData(p.secret)
			}
		case "P2PK":
			err = u.AppendPushData(sig(p.owner))
			if err == nil {
				err = t.ApplyUnlockingScript(uint32(i), u)
			}
		default:
			u.AppendOpCode(script.OpFALSE)
			// those who sign, in the order of their keys
			skip := len(p.owners) - p.need
			for n, k := range p.owners {
				if skip > 0 && (c.R.Bool() || len(p.owners)-n <= skip) {
					skip--
					continue
				}
				if e := u.AppendPushData(sig(k)); e != nil {
					err = e
				}
			}
			if p.kind == "P2SH" {
				if e := u.AppendPushData(p.code); e != nil {
					err = e
				}
			}
			if err == nil {
				err = t.ApplyUnlockingScript(uint32(i), u)
			}
		}
		c.Check(err == nil, "signing input %d: %v", i, err)
	})
}

func w01(c *C) {
	r := c.R
	n := newNode(mon.Pick(r, int32(r.N(20)), 100, 127, 255, 32767, 65535, int32(r.N(1<<24-40)), 1<<23-2, 1<<24-20))
	r.Fill(n.prev[:])
	c.In("height", n.height)
	var coins []*coin
	start := big.NewInt(0)
	// coins from before
	func() {
		t := transaction.New()
		m := wire.NewMsgTx(1)
		var h chainhash.Hash
		r.Fill(h[:])
		m.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 0), nil))
		for i := r.In(1, 4); i > 0; i-- {
			p := payment(c, t, mon.Pick(r, uint64(r.In(3000, 1000000)), 1<<32, 1<<32+uint64(r.N(1<<30)), 20999999*1e8/4, 1e8))
			m.AddTxOut(wire.NewTxOut(int64(p.sats), p.script))
			p.vout = uint32(len(m.TxOut) - 1)
			coins = append(coins, p)
			start.Add(start, new(big.Int).SetUint64(p.sats))
		}
		for _, p := range coins {
			p.id = m.TxHash().String()
		}
		n.view.AddTxOuts(bsvutil.NewTx(m), n.height-10)
	}()
	for b := r.In(2, 5); b > 0; b-- {
		var raws [][]byte
		for k := mon.Pick(r, r.N(4), r.N(7), 1); k > 0 && len(coins) > 0; k-- {
			raws = append(raws, w01Tx(c, n, &coins))
		}
		w01Block(c, n, raws, &coins)
	}
	// what there is is what was there and what was made
	total := new(big.Int)
	left := n.view.Entries()
	spendable := map[string]bool{}
	for _, p := range coins {
		spendable[fmt.Sprintf("%s:%d %d %x", p.id, p.vout, p.sats, p.script)] = true
	}
	for o, e := range left {
		if e == nil || e.IsSpent() {
			continue
		}
		total.Add(total, big.NewInt(e.Amount()))
		what := fmt.Sprintf("%s:%d %d %x", o.Hash, o.Index, e.Amount(), e.PkScript())
		c.Check(spendable[what] || e.Amount() == 0, "an output nobody knows of: %s", what)
		delete(spendable, what)
	}
	for what := range spendable {
		c.Fail("an output is missing: %s", what)
	}
	mon.Eq(c, "the sum of all outputs", total.String(), start.Add(start, big.NewInt(n.minted)).String())
	c.Hit("chain")
}

// w01Tx makes a transaction and sends it to the node.
func w01Tx(c *C, n *node, coins *[]*coin) []byte {
	r := c.R
	t := transaction.New()
	if r.P(30) {
		t.Version = r.U32()
	}
	if r.P(30) {
		t.Locktime = r.U32()
	}
	take := func() *coin {
		// coinbase outputs have to be one block old
		for try := 0; try < 8 && len(*coins) > 0; try++ {
			i := r.N(len(*coins))
			if p := (*coins)[i]; p.height < n.height+1 {
				*coins = append((*coins)[:i:i], (*coins)[i+1:]...)
				return p
			}
		}
		return nil
	}
	var from []*coin
	in := uint64(0)
	for k := mon.Pick(r, 1, r.In(1, 4), r.In(1, 8)); k > 0; k-- {
		p := take()
		if p == nil || in+p.sats > 2099999997690000 {
			if p != nil {
				*coins = append(*coins, p)
			}
			break
		}
		spend(c, t, p)
		from = append(from, p)
		in += p.sats
	}
	if len(from) == 0 {
		return nil
	}
	flag := mon.Pick(r, byte(0x41), 0x41, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3)
	c.In("inputs and flag", fmt.Sprint(len(from), flag))
	type out struct {
		sats   uint64
		script []byte
		p      *coin
	}
	var outs []out
	fee := uint64(r.N(2000))
	if fee > in/2 {
		fee = 0
	}
	left := in - fee
	pay := func(sats uint64) {
		p := payment(c, t, sats)
		outs = append(outs, out{sats, p.script, p})
	}
	for k := mon.Pick(r, 1, 2, r.In(1, 5), r.In(1, 12)); k > 1 && left > 2000; k-- {
		if r.P(15) {
			outs = append(outs, out{0, dataOutput(c, t), nil})
			continue
		}
		s := left/uint64(k+1) + uint64(r.N(500))
		left -= s
		pay(s)
	}
	pay(left)
	base := flag & 0x1f
	for base == 3 && len(outs) < len(from) { // SINGLE has an output for each input
		outs = append(outs, out{0, dataOutput(c, t), nil})
	}
	// each owner signs, in any order
	for _, i := range r.Perm(len(from)) {
		if r.P(15) {
			t = sendOn(c, t, from)
		}
		sign(c, t, i, from[i], flag)
	}
	// what the hash type leaves open may still change
	if base == 2 && r.Bool() {
		o := &outs[len(outs)-1]
		if o.p != nil && o.sats > 1000 {
			t.Outputs[len(outs)-1].Satoshis -= 7
			o.sats -= 7
			o.p.sats -= 7
			fee += 7
			c.Hit("changed after signing")
		}
	}
	if base != 1 && r.Bool() && (base != 3 || len(outs) >= len(from)) {
		outs = append(outs, out{0, dataOutput(c, t), nil})
		c.Hit("changed after signing")
	}
	if flag&0x80 != 0 && r.P(60) && (base != 3 || len(outs) > len(from)) {
		if p := take(); p != nil {
			if in+p.sats > 2099999997690000 {
				*coins = append(*coins, p)
			} else {
				spend(c, t, p)
				from = append(from, p)
				in += p.sats
				if base == 3 || base == 2 {
					pay(p.sats)
				} else {
					fee += p.sats // a gift to the miner
				}
				sign(c, t, len(from)-1, p, flag)
				c.Hit("input added after signing")
			}
		}
	}
	var raw []byte
	var id, text string
	c.Call("serialising a transaction", func() { raw, id, text = t.ToBytes(), t.GetTxID(), t.ToString() })
	mon.Eq(c, "ToString", text, ref.Hex(raw))
	mon.Eq(c, "all outputs", t.GetTotalOutputSatoshis(), in-fee)
	c.Check(!t.IsCoinbase(), "a payment is no coinbase")
	// a change of what all signatures cover is refused
	if base == 1 && r.P(30) {
		var m wire.MsgTx
		if err := m.Deserialize(bytes.NewReader(raw)); err == nil {
			o := m.TxOut[r.N(len(m.TxOut))]
			switch r.N(4) {
			case 0:
				o.Value ^= 1 << r.N(40)
			case 1:
				o.PkScript = append(o.PkScript, 0x61)
			case 2:
				m.Version ^= 1 << r.N(31)
			case 3:
				m.LockTime ^= 1 << r.N(32)
			}
			i := r.N(len(m.TxIn))
			err := n.script(&m, i, n.view)
			c.Check(err != nil, "the signature of input %d does not cover a change of outputs, version or lock time", i)
			c.Hit("changed transaction refused")
		}
	}
	tx, err := n.transaction(raw)
	c.Check(err == nil, "the node refuses the transaction (hash type %#x): %v\n%x", flag, err, raw)
	m := tx.MsgTx()
	mon.Eq(c, "transaction ID", id, tx.Hash().String())
	mon.Eq(c, "version", uint32(m.Version), t.Version)
	mon.Eq(c, "lock time", m.LockTime, t.Locktime)
	mon.Eq(c, "inputs", len(m.TxIn), len(from))
	for i, p := range from {
		mon.Eq(c, fmt.Sprintf("outpoint %d", i), m.TxIn[i].PreviousOutPoint.String(), fmt.Sprintf("%s:%d", p.id, p.vout))
	}
	mon.Eq(c, "outputs", len(m.TxOut), len(outs))
	for i, o := range outs {
		mon.Eq(c, fmt.Sprintf("satoshis of output %d", i), uint64(m.TxOut[i].Value), o.sats)
		c.EqBytes(fmt.Sprintf("script of output %d", i), m.TxOut[i].PkScript, o.script)
		classes(c, m.TxOut[i].PkScript)
		if o.p != nil {
			o.p.id, o.p.vout = id, uint32(i)
			*coins = append(*coins, o.p)
		}
	}
	c.Hit("transaction accepted")
	return raw
}

// classes compares libsv's and the node's ideas of a script.
func classes(c *C, b []byte) {
	s := scr(b)
	k := txscript.GetScriptClass(b)
	c.Call("classifying a script", func() {
		mon.Eq(c, "IsP2PKH", s.IsP2PKH(), k == txscript.PubKeyHashTy)
		mon.Eq(c, "IsP2SH", s.IsP2SH(), k == txscript.ScriptHashTy)
		mon.Eq(c, "IsMultisigOut", s.IsMultisigOut(), k == txscript.MultiSigTy)
		mon.Eq(c, "IsP2PK", s.IsP2PK(), k == txscript.PubKeyTy)
	})
}

// w01Block makes a block of the transactions the node has accepted.
func w01Block(c *C, n *node, raws [][]byte, coins *[]*coin) {
	r := c.R
	k := keyN(r.N(12))
	height := uint32(n.height + 1)
	value := uint64(n.fees + blockchain.CalcBlockSubsidy(n.height+1, &n.params))
	addr := ref.Base58Check(ref.Cat([]byte{byte(r.N(2) * 0x6f)}, k.hash))
	witness := ""
	if r.P(40) {
		witness = ref.Hex(ref.Cat([]byte{0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed}, r.Bytes(32)))
	}
	var miner []byte
	if r.P(40) {
		miner = ref.Cat([]byte{0, 0x6a}, ref.Push(r.Bytes(r.In(1, 300))))
	}
	var c1, c2, coinbase []byte
	var err error
	text := genText(r, mon.Pick(r, r.N(120), r.N(20), 84, 85))
	c.Call("making a coinbase", func() {
		c1, c2, err = block.GetCoinbaseParts(height, value, witness, text, addr, miner)
		if err == nil {
			coinbase = block.BuildCoinbase(c1, c2, ref.Hex(r.Bytes(4)), ref.Hex(r.Bytes(8)))
		}
	})
	c.Check(err == nil, "GetCoinbaseParts: %v", err)
	var t *Tx
	c.Call("reading the coinbase", func() { t, err = transaction.NewFromBytes(coinbase) })
	c.Check(err == nil && t.IsCoinbase(), "the coinbase is not one: %v", err)
	all := [][]byte{coinbase}
	for _, b := range raws {
		if b != nil {
			all = append(all, b)
		}
	}
	ids := make([]string, len(all))
	leaves := make([][]byte, len(all))
	var root, header []byte
	c.Call("making a block", func() {
		for i, b := range all {
			leaves[i] = crypto.Sha256d(b)
			ids[i] = ref.RevHex(leaves[i])
		}
		root = block.BuildMerkleRootFromCoinbase(leaves[0], block.GetMerkleBranches(ids))
	})
	mon.Eq(c, "the coinbase's ID", t.GetTxID(), ids[0])
	const bits = "207fffff"
	var target *big.Int
	c.Call("expanding bits", func() { target, err = block.ExpandTargetFromAsInt(bits) })
	c.Check(err == nil, "ExpandTargetFromAsInt: %v", err)
	mon.Eq(c, "target", target.String(), blockchain.CompactToBig(0x207fffff).String())
	version, stamp, nonce := r.U32(), ref.LE32(uint32(r.In(1230768000, 1700000000))), r.U32()
	var hash []byte
	for try := 0; ; try++ { // every second nonce or so will do
		c.Call("making a header", func() {
			header = block.BuildBlockHeader(version, n.prev.String(), root, stamp, []byte{0xff, 0xff, 0x7f, 0x20}, ref.LE32(nonce))
			hash = ref.Rev(crypto.Sha256d(header))
		})
		if new(big.Int).SetBytes(hash).Cmp(target) <= 0 {
			break
		}
		c.Check(try < 200, "no nonce of 200 is good for bits %s", bits)
		nonce++
	}
	raw := append([]byte{}, header...)
	raw = append(raw, ref.VarInt(uint64(len(all)))...)
	for _, b := range all {
		raw = append(raw, b...)
	}
	err = n.block(raw)
	c.Check(err == nil, "the node refuses the block: %v\n%x", err, raw)
	mon.Eq(c, "the block's hash", ref.Hex(hash), n.prev.String())
	mon.Eq(c, "time", binary.LittleEndian.Uint32(stamp), uint32(header4(raw, 68)))
	// the owners find their coins in what is in the chain
	wanted := map[string]*coin{}
	for _, p := range *coins {
		if p.kind == "P2PKH" && p.height == 0 {
			wanted[fmt.Sprintf("%s:%d", p.id, p.vout)] = p
		}
	}
	for i, b := range all[1:] {
		var u *Tx
		c.Call("reading a transaction of the block", func() { u, err = transaction.NewFromBytes(b) })
		c.Check(err == nil, "a transaction of the block does not parse: %v", err)
		for j, o := range u.Outputs {
			p := wanted[fmt.Sprintf("%s:%d", ids[i+1], j)]
			if p == nil {
				continue
			}
			var h []byte
			c.Call("looking at an output", func() {
				if o.LockingScript.IsP2PKH() {
					h, err = o.LockingScript.GetPublicKeyHash()
				}
			})
			c.Check(err == nil && bytes.Equal(h, p.owner.hash) && o.Satoshis == p.sats, "the owner %x does not find %d in output %d: %x, %d, %v", p.owner.hash, p.sats, j, h, o.Satoshis, err)
			c.Hit("coin found by its owner")
		}
	}
	// everybody can prove that a transaction is in the block
	lv := ref.MerkleLevels(leaves)
	for i := range ids {
		s, err := rootFromProof(c, ids[i], i, hexes(ref.MerkleBranch(lv, i), true))
		c.Check(err == nil && strings.EqualFold(s, ref.RevHex(root)), "the proof of transaction %d of %d leads to %s, not %x: %v", i, len(ids), s, ref.Rev(root), err)
	}
	*coins = append(*coins, &coin{id: ids[0], sats: value, kind: "P2PKH", owner: k, script: ref.P2PKH(k.hash), code: ref.P2PKH(k.hash), height: n.height})
	c.Hit("block accepted")
	if len(all) > 2 {
		c.Hit("block of several transactions")
	}
}

func header4(b []byte, at int) uint32 { return binary.LittleEndian.Uint32(b[at:]) }

func init() {
	need := map[string]int{"chain": 100, "block accepted": 300, "transaction accepted": 500, "changed transaction refused": 50, "input added after signing": 20, "changed after signing": 30, "block of several transactions": 50, "transaction sent on while being signed": 50, "coin found by its owner": 100}
	for _, k := range []string{"P2PKH", "hash puzzle", "P2SH", "multisig", "P2PK"} {
		need["output "+k], need["input "+k] = 30, 30
	}
	register(&mon.Prop{
		ID:   "W01",
		Rule: "each case is a history of a chain: wallets make, pass on, sign and change transactions with the library, a miner makes blocks of them, and a node made of bsvd's packages judges every transaction, block and the resulting set of outputs; distinct by the choices of each transaction",
		Stages: []mon.Stage{
			{Name: "chains", Quick: 1600, Deep: 60000, Run: w01, NoGuide: true},
		},
		Need: need,
	})
}
