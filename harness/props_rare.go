package main

import (
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/harness/mon"
	"verif/harness/ref"
)

// rare lists keys and lock times with which the hash of rareTx, or r or s of its
// signature, begins or ends with two or three zero bytes. They were searched for
// among 22 million signatures. A signature made with other nonces has other zeros,
// and must be as valid.
var rare = [][2]uint32{
	{17, 1182}, {16, 3393}, {15, 3484}, {12, 4780}, {15, 5972}, {16, 7983}, {14, 8141}, {16, 10223},
	{16, 11617}, {15, 11792}, {18, 14079}, {15, 14567}, {17, 15827}, {12, 20465}, {16, 21508},
	{15, 22740}, {13, 27374}, {15, 28702}, {12, 30209}, {13, 32366}, {13, 32544}, {13, 34415},
	{15, 35537}, {12, 36985}, {12, 37281}, {14, 38190}, {18, 45355}, {16, 42414}, {15, 48673},
	{13, 54655}, {14, 54380}, {12, 56123}, {12, 56769}, {13, 70657}, {15, 102798}, {13, 115901},
	{18, 969068}, {13, 1005205}, {18, 1100163}, {14, 1311170}, {14, 1498803}, {14, 1564219}, {17, 2302361},
	{15, 2805013}, {15, 2834915}, {15, 2841660}, {16, 3066253},
}

func rareTx(k *key, lock uint32) *ref.Tx {
	return &ref.Tx{
		Version: 1,
		Lock:    lock,
		Ins:     []ref.In{{Hash: [32]byte(ref.Sha256([]byte("rare"))), Vout: 1, Seq: 0xffffffff, PrevSats: 100000, HasPrev: true, PrevScript: ref.P2PKH(k.hash), NilScript: true}},
		Outs:    []ref.Out{{Sats: 99000, Script: ref.P2PKH(k.hash)}},
	}
}

func s03Rare(c *C) {
	x := rare[c.Index%len(rare)]
	k := keyN(int(x[0]))
	c.In("key", x[0])
	c.In("lock time", x[1])
	m := rareTx(k, x[1])
	t := buildTx(c, m)
	s := &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.AllForkID}
	var err error
	if c.R.Bool() {
		err = doSign(c, t, 0, s)
	} else {
		err = mon.DoErr(c, "Transaction.SignAuto", func() error { return t.SignAuto(s) })
	}
	c.Check(err == nil && t.Inputs[0].UnlockingScript != nil, "signing: %v", err)
	adopt(t, m, 0)
	checkTxIs(c, "after signing", t, m, true)
	checkUnlock(c, "the signature", t, m, 0, k, 0x41)
	c.Hit("signatures with rare zeros")
}
