package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/utils"

	"verif/harness/mon"
	"verif/harness/ref"
)

func merkleBranches(c *C, txids []string) []string {
	return mon.Do(c, "block.GetMerkleBranches", func() []string { return block.GetMerkleBranches(txids) })
}

func rootFromCoinbase(c *C, h []byte, br []string) []byte {
	return mon.Do(c, "block.BuildMerkleRootFromCoinbase", func() []byte { return block.BuildMerkleRootFromCoinbase(h, br) })
}

func rootFromProof(c *C, txid string, i int, br []string) (string, error) {
	return mon.Do2(c, "block.MerkleRootFromBranches", func() (string, error) { return block.MerkleRootFromBranches(txid, i, br) })
}

// genLeaves returns n transaction hashes in internal byte order.
func genLeaves(r *R, n int) [][]byte {
	l := make([][]byte, n)
	for i := range l {
		h := genHash(r)
		l[i] = append([]byte{}, h[:]...)
		if i > 0 && r.P(3) {
			copy(l[i], l[r.N(i)])
		}
	}
	return l
}

func txids(c *C, leaves [][]byte) []string {
	ids := make([]string, len(leaves))
	for i, l := range leaves {
		ids[i] = ref.RevHex(l)
		if c.R.P(3) {
			ids[i] = mixCase(c.R, ids[i])
		}
	}
	return ids
}

func lower(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = strings.ToLower(s)
	}
	return out
}

func hexes(bs [][]byte, rev bool) []string {
	out := make([]string, len(bs))
	for i, b := range bs {
		if rev {
			b = ref.Rev(b)
		}
		out[i] = ref.Hex(b)
	}
	return out
}

func sumLeaves(leaves [][]byte) []byte {
	if len(leaves) > 8 {
		return ref.Cat(ref.Sha256(ref.Cat(leaves...)), leaves[0])
	}
	return ref.Cat(leaves...)
}

// blockSizes are the sizes looked at one by one.
var blockSizes = func() (s []int) {
	for n := 0; n <= 300; n++ {
		s = append(s, n)
	}
	s = append(s, 8193, 10000, 16383, 16384, 16385, 32769, 65537, 100001)
	for n := 510; n <= 515; n++ {
		s = append(s, n)
	}
	for n := 1022; n <= 1027; n++ {
		s = append(s, n)
	}
	return append(s, 2047, 2048, 2049, 4096, 4097, 6001)
}()

func b01(c *C, n int) { b01Of(c, genLeaves(c.R, n)) }

func b01Of(c *C, leaves [][]byte) {
	r := c.R
	n := len(leaves)
	c.In("transactions", n)
	c.In("leaves", sumLeaves(leaves))
	ids := txids(c, leaves)
	if n <= 64 {
		ids = c.Strs("txids", ids)
	}
	br := merkleBranches(c, ids)
	if n < 2 {
		mon.Eq(c, "number of branches", len(br), 0)
		c.Hit("fewer than two")
		if n == 1 {
			c.EqBytes("root of one transaction", rootFromCoinbase(c, leaves[0], br), leaves[0])
		}
		return
	}
	lv := ref.MerkleLevels(leaves)
	root := lv[len(lv)-1][0]
	want := hexes(ref.MerkleBranch(lv, 0), false)
	mon.Eq(c, "number of branches", len(br), len(want))
	mon.Eq(c, "branches", strings.Join(lower(br), " "), strings.Join(want, " "))
	c.Keep("GetMerkleBranches", func() string { return strings.Join(br, " ") })
	if n&(n-1) != 0 {
		c.Hit("not a power of two")
	}
	guarded := c.Strs("branches", br)
	first := c.Buf("coinbase hash", leaves[0])
	got := rootFromCoinbase(c, first, guarded)
	c.EqBytes("root from coinbase", got, root)
	c.KeepBytes("BuildMerkleRootFromCoinbase", got)
	disp := hexes(ref.MerkleBranch(lv, 0), true)
	s, err := rootFromProof(c, ids[0], 0, c.Strs("proof", disp))
	c.Check(err == nil, "proof of the first transaction: %v", err)
	mon.Eq(c, "root from the first transaction's proof", strings.ToLower(s), ref.RevHex(root))

	// another coinbase: the same branches, the root of the changed list
	l2 := append([][]byte{}, leaves...)
	h := genHash(r)
	l2[0] = h[:]
	c.ClearWatches()
	ids2 := append([]string{}, ids...)
	ids2[0] = ref.RevHex(l2[0])
	br2 := merkleBranches(c, ids2)
	mon.Eq(c, "branches with another first transaction", strings.Join(lower(br2), " "), strings.Join(want, " "))
	lv2 := ref.MerkleLevels(l2)
	c.EqBytes("root with another coinbase", rootFromCoinbase(c, l2[0], br), lv2[len(lv2)-1][0])
	c.EqBytes("root from coinbase, again", rootFromCoinbase(c, first, br), root)

	// a list of the same size, or about it, with other transactions
	n3 := n
	if r.P(30) {
		n3 = max(2, n+r.In(-3, 3))
	}
	l3 := genLeaves(r, n3)
	lv3 := ref.MerkleLevels(l3)
	br3 := merkleBranches(c, txids(c, l3))
	mon.Eq(c, "branches of another list", strings.Join(lower(br3), " "), strings.Join(hexes(ref.MerkleBranch(lv3, 0), false), " "))
	mon.Eq(c, "branches, after those of another list", strings.Join(lower(br), " "), strings.Join(want, " "))
	mon.Eq(c, "branches with another first transaction, after those of another list", strings.Join(lower(br2), " "), strings.Join(want, " "))
	c.EqBytes("root from another list's coinbase", rootFromCoinbase(c, l3[0], br3), lv3[len(lv3)-1][0])
}

// proofRoot is the root a proof leads to.
func proofRoot(txid string, i int, br []string) (string, error) {
	if !isHex(txid) {
		return "", errors.New("not hex")
	}
	h := ref.Rev(unhex(txid))
	if i < 0 {
		return "", errors.New("negative index")
	}
	for _, b := range br {
		if !isHex(b) {
			return "", errors.New("not hex")
		}
		s := ref.Rev(unhex(b))
		if i&1 == 1 {
			h = ref.Sha256d(ref.Cat(s, h))
		} else {
			h = ref.Sha256d(ref.Cat(h, s))
		}
		i >>= 1
	}
	if i != 0 {
		return "", errors.New("index out of range")
	}
	return ref.RevHex(h), nil
}

func b02Check(c *C, what, txid string, i int, br []string, root string) {
	want, werr := proofRoot(txid, i, br)
	got, err := rootFromProof(c, txid, i, br)
	if werr != nil {
		c.Check(err != nil, "%s: index %d with %d branches: %v, but no error", what, i, len(br), werr)
		c.Hit("proof that is an error")
		return
	}
	odd := len(txid) != 64
	for _, b := range br {
		odd = odd || len(b) != 64
	}
	if odd && want != root { // not a proof at all: an error, or another root
		c.Check(err != nil || strings.ToLower(got) != root, "%s: index %d with %d branches gives the root", what, i, len(br))
		c.Hit("proof with a hash of another length")
		return
	}
	c.Check(err == nil, "%s: index %d with %d branches: %v", what, i, len(br), err)
	mon.Eq(c, what+": root", strings.ToLower(got), want)
	if want != root {
		c.Hit("proof of something else")
	} else {
		c.Hit("valid proof")
	}
}

func b02(c *C, n int) { b02Of(c, genLeaves(c.R, n)) }

func b02Of(c *C, leaves [][]byte) {
	r := c.R
	n := len(leaves)
	c.In("transactions", n)
	c.In("leaves", sumLeaves(leaves))
	lv := ref.MerkleLevels(leaves)
	root := ref.RevHex(lv[len(lv)-1][0])
	idx := []int{0, n - 1, r.N(n), r.N(n), n / 2}
	if n <= 24 {
		idx = nil
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
	}
	for _, i := range idx {
		id := ref.RevHex(leaves[i])
		br := hexes(ref.MerkleBranch(lv, i), true)
		got, err := rootFromProof(c, c.Str("txid", id), i, c.Strs("proof", br))
		c.Check(err == nil, "genuine proof of transaction %d of %d: %v", i, n, err)
		mon.Eq(c, fmt.Sprintf("root from the proof of transaction %d of %d", i, n), strings.ToLower(got), root)
		c.Hit("valid proof")
		c.ClearWatches()
	}
	i := idx[r.N(len(idx))]
	id := ref.RevHex(leaves[i])
	br := hexes(ref.MerkleBranch(lv, i), true)
	flip := func(s string) string {
		b := unhex(s)
		b[r.N(32)] ^= 1 << r.N(8)
		return ref.Hex(b)
	}
	// what changed must lead elsewhere, unless the tree itself pairs a hash with
	// its copy, which proofRoot knows
	for k := 0; k < 6; k++ {
		id2, i2, br2 := id, i, append([]string{}, br...)
		what := ""
		op := r.N(15)
		if len(br) == 0 && op >= 2 && op <= 5 || len(br) == 0 && op == 12 {
			op = 0
		}
		switch op {
		case 0:
			id2, what = flip(id), "a bit of the hash changed"
		case 1:
			id2, what = badHex(r, 32), "hash that is not hex"
			if isHex(id2) {
				id2 = "zz" + id[2:]
			}
		case 2:
			j := r.N(len(br))
			br2[j], what = flip(br[j]), "a bit of a branch changed"
		case 3:
			j := r.N(len(br))
			br2, what = append(br2[:j], br2[j+1:]...), "a branch missing"
		case 4:
			a, b := r.N(len(br)), r.N(len(br))
			br2[a], br2[b] = br2[b], br2[a]
			what = "two branches swapped"
		case 5:
			j := r.N(len(br))
			br2[j], what = badHex(r, 32), "branch that is not hex"
			if isHex(br2[j]) {
				br2[j] = br[j][:63] + "x"
			}
		case 6:
			h := genHash(r)
			j := r.N(len(br) + 1)
			br2 = append(br2[:j], append([]string{ref.Hex(h[:])}, br2[j:]...)...)
			what = "a branch added"
		case 7:
			i2, what = i^1<<r.N(len(br)+1), "another index"
		case 8:
			i2, what = r.N(1<<len(br)), "any index in range"
		case 9:
			i2 = 1<<len(br) + mon.Pick(r, 0, i, r.N(1<<len(br)))
			what = "index beyond the tree"
		case 10:
			i2 = mon.Pick(r, wide(1<<31), wide(1<<32), wide(1<<32+int64(i)), wide(1<<62), math.MaxInt, 1<<len(br))
			if i2 < 1<<len(br) {
				i2 = wide(1 << 62)
			}
			what = "large index"
		case 11:
			i2, what = mon.Pick(r, -1, -2, -i-1, math.MinInt, math.MinInt+i, wide(-(1<<32)+int64(i))), "negative index"
		case 12:
			j := r.N(len(br))
			br2[j], what = mon.Pick(r, "", "", br[j][:62], br[j]+"00", br[j][2:], "00"+br[j], br[j]+br[j], br[j][:2*r.N(32)], id), "a branch of another length, or the hash itself"
		case 13:
			id2, what = mon.Pick(r, "", id[:62], id+"00", id[2:], "00"+id, id+id, id[:2*r.N(32)]), "a hash of another length"
		case 14: // a branch of nothing, with and without a bit of the index for it
			j := r.N(len(br) + 1)
			br2 = append(br2[:j], append([]string{""}, br2[j:]...)...)
			low := i & (1<<j - 1)
			i2 = mon.Pick(r, i, i>>j<<(j+1)|low, i>>j<<(j+1)|1<<j|low)
			what = "an empty branch added"
		}
		b02Check(c, what, id2, i2, c.Strs("proof", br2), root)
		c.ClearWatches()
	}
}

func b03(c *C) {
	r := c.R
	height := genU32(r) % (1 << 24)
	if r.P(20) {
		height = mon.Pick(r, uint32(0), 1, 127, 128, 255, 256, 65535, 65536, 1<<23-1, 1<<23, 1<<24-1)
	}
	value := genU64(r)
	text := genText(r, mon.Pick(r, r.N(84), r.In(80, 92), r.N(300), 0, 84, 85, 83))
	addr, hash := genAddr(r)
	commit, commitHex := []byte{}, ""
	if r.P(60) {
		commit = genBytes(r, mon.Pick(r, 38, 38, 1+r.N(80), r.In(250, 260), 1+r.N(700), r.In(1, 3)))
		commitHex = mixCase(r, ref.Hex(commit))
	}
	var miner []byte
	if r.P(60) {
		miner = genBytes(r, mon.Pick(r, r.N(100), r.In(250, 260), r.N(900), 0))
		if r.P(3) {
			miner = genBytes(r, r.In(65530, 65540))
		}
	}
	c.In("height", height)
	c.In("value", value)
	c.In("text", text)
	c.In("address", addr)
	c.In("commitment", commit)
	c.In("miner", miner)
	var c1, c2 []byte
	var err error
	get := func() {
		t, w, a := c.Str("text", text), c.Str("commitment", commitHex), c.Str("address", addr)
		m := c.Buf("miner ID", miner)
		if miner == nil {
			m = nil
		}
		c.Call("block.GetCoinbaseParts", func() { c1, c2, err = block.GetCoinbaseParts(height, value, w, t, a, m) })
	}
	get()
	c.Check(err == nil, "GetCoinbaseParts: %v", err)
	// 12 bytes in two extra nonces, split anywhere
	nonces := r.Bytes(12)
	k := mon.Pick(r, 4, 6, 8, r.N(13), 0, 12)
	e1, e2 := mixCase(r, ref.Hex(nonces[:k])), mixCase(r, ref.Hex(nonces[k:]))
	build := func(a, b []byte) []byte {
		return mon.Do(c, "block.BuildCoinbase", func() []byte {
			return block.BuildCoinbase(a, b, c.Str("extra nonce 1", e1), c.Str("extra nonce 2", e2))
		})
	}
	raw := build(c.Buf("coinbase1", c1), c.Buf("coinbase2", c2))
	cut := text
	if len(cut) > 84 {
		cut = cut[:84]
		c.Hit("text cut")
	}
	m := &ref.Tx{Version: 1}
	m.Ins = []ref.In{{Vout: 0xffffffff, Seq: 0xffffffff, Script: ref.Cat([]byte{3}, ref.LE32(height)[:3], []byte(cut), nonces)}}
	m.Outs = []ref.Out{{Sats: value, Script: ref.P2PKH(hash)}}
	if len(commit) > 0 {
		m.Outs = append(m.Outs, ref.Out{Script: commit})
		c.Hit("witness commitment")
	}
	if len(miner) > 0 {
		m.Outs = append(m.Outs, ref.Out{Script: miner})
		c.Hit("miner ID")
	}
	if len(commit) > 252 || len(miner) > 252 {
		c.Hit("long output")
	}
	c.EqBytes("coinbase transaction", raw, m.Encode())
	t, err := parseTx(c, raw)
	c.Check(err == nil, "the coinbase transaction does not parse: %v", err)
	checkTxIs(c, "coinbase", t, m, false)
	c.Check(mon.Do(c, "Transaction.IsCoinbase", t.IsCoinbase), "the coinbase transaction is not reported as one")
	c.Check(len(*t.Inputs[0].UnlockingScript) <= 100, "coinbase script of %d bytes", len(*t.Inputs[0].UnlockingScript))
	c.KeepBytes("BuildCoinbase", raw)
	c.KeepBytes("GetCoinbaseParts (1)", c1)
	c.KeepBytes("GetCoinbaseParts (2)", c2)

	// the parts are used for many extra nonces
	for j := 0; j < 2; j++ {
		r.Fill(nonces)
		k = r.N(13)
		e1, e2 = ref.Hex(nonces[:k]), ref.Hex(nonces[k:])
		m.Ins[0].Script = ref.Cat([]byte{3}, ref.LE32(height)[:3], []byte(cut), nonces)
		c.EqBytes("coinbase transaction with other extra nonces", build(c1, c2), m.Encode())
	}
	// errors
	switch r.N(3) {
	case 0:
		addr = badAddr(r)
		if _, _, ok := ref.UnAddress(addr); ok {
			return
		}
		get()
		c.Check(err != nil, "no error for the address %q", addr)
		c.Hit("bad address")
	case 1:
		commitHex = badHex(r, r.In(1, 40))
		if isHex(commitHex) {
			return
		}
		get()
		c.Check(err != nil, "no error for the witness commitment %q", commitHex)
		c.Hit("bad commitment")
	}
}

func b04(c *C) {
	r := c.R
	v := genU32(r)
	prev := genHash(r)
	root := genBytes(r, 32)
	tm, bits, nonce := ref.LE32(genU32(r)), genBytes(r, 4), genBytes(r, 4)
	b04Of(c, v, prev[:], root, tm, bits, nonce)
}

func b04Of(c *C, v uint32, prev, root, tm, bits, nonce []byte) {
	r := c.R
	want := ref.Cat(ref.LE32(v), prev, root, tm, bits, nonce)
	c.In("header", want)
	ph := mixCase(r, ref.RevHex(prev))
	args := [][]byte{c.Buf("merkle root", root), c.Buf("time", tm), c.Buf("bits", bits), c.Buf("nonce", nonce)}
	p := c.Str("previous", ph)
	build := func() []byte {
		return mon.Do(c, "block.BuildBlockHeader", func() []byte {
			return block.BuildBlockHeader(v, p, args[0], args[1], args[2], args[3])
		})
	}
	h := build()
	c.EqBytes("block header", h, want)
	mon.Eq(c, "header length", len(h), 80)
	c.KeepBytes("BuildBlockHeader", h)
	id := mon.Do(c, "utils.ReverseBytes", func() []byte { return utils.ReverseBytes(cryptoSha256d(c, h)) })
	c.EqBytes("block hash", id, ref.Rev(ref.Sha256d(want)))
	// the next header, on top of this one
	v2 := genU32(r)
	h2 := mon.Do(c, "block.BuildBlockHeader", func() []byte {
		return block.BuildBlockHeader(v2, ref.Hex(id), args[0], args[1], args[2], args[3])
	})
	c.EqBytes("next block header", h2, ref.Cat(ref.LE32(v2), ref.Sha256d(want), root, tm, bits, nonce))
	c.EqBytes("block header, again", build(), want)
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)
var genesisTarget = ref.Target(0x1d00ffff)

// relErr is the relative difference of a float from a quotient.
func relErr(got float64, num, den *big.Int) float64 {
	w := new(big.Rat).SetFrac(num, den)
	g := new(big.Rat)
	if g.SetFloat64(got) == nil {
		return math.Inf(1)
	}
	d := g.Sub(g, w)
	d.Quo(d.Abs(d), w.Abs(w))
	f, _ := d.Float64()
	return f
}

func genBits(r *R) uint32 {
	m := r.U32() & 0x7fffff
	switch r.N(6) {
	case 0:
		m = mon.Pick(r, uint32(0), 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x7ffffe, 0x400000)
	case 1:
		m = uint32(r.N(256)) << (8 * r.N(3)) & 0x7fffff
	case 2:
		m = (1<<r.N(23) - uint32(r.N(2))) & 0x7fffff
	}
	e := uint32(r.In(0, 36))
	if r.P(10) {
		e = uint32(r.N(256))
	}
	return e<<24 | m
}

func b05Check(c *C, bits uint32) (diff float64, has bool) {
	r := c.R
	s := fmt.Sprintf("%08x", bits)
	if r.P(10) {
		s = mixCase(r, s)
	}
	c.In("bits", s)
	s = c.Str("bits", s)
	t := ref.Target(bits)
	fits := t.BitLen() <= 256
	n, err := mon.Do2(c, "block.ExpandTargetFromAsInt", func() (*big.Int, error) { return block.ExpandTargetFromAsInt(s) })
	if fits || err == nil {
		c.Check(err == nil && n != nil, "ExpandTargetFromAsInt(%q): %v", s, err)
		c.Check(n.Cmp(t) == 0, "ExpandTargetFromAsInt(%q): got %v, want %v", s, n, t)
		c.Keep("ExpandTargetFromAsInt", func() string { return n.String() })
	}
	h, err := mon.Do2(c, "block.ExpandTargetFrom", func() (string, error) { return block.ExpandTargetFrom(s) })
	if fits {
		c.Check(err == nil, "ExpandTargetFrom(%q): %v", s, err)
		mon.Eq(c, "ExpandTargetFrom("+s+")", strings.ToLower(h), fmt.Sprintf("%064x", t))
		c.Hit("target that fits")
	} else {
		c.Check(err != nil, "ExpandTargetFrom(%q): a target of %d bits as %q", s, t.BitLen(), h)
		c.Hit("target that does not fit")
	}
	d, err := mon.Do2(c, "block.DifficultyFromBits", func() (float64, error) { return block.DifficultyFromBits(s) })
	if t.Sign() == 0 {
		c.Hit("zero target")
		return 0, false
	}
	if !fits && (err != nil || math.Abs(d) < 1e-280) {
		return 0, false
	}
	c.Check(err == nil, "DifficultyFromBits(%q): %v", s, err)
	e := relErr(d, genesisTarget, t)
	c.Check(e < 1e-12, "DifficultyFromBits(%q) = %v, which is %v of the value off", s, d, e)
	return d, true
}

func b05Bad(c *C) {
	r := c.R
	s := fmt.Sprintf("%08x", genBits(r))
	switch r.N(6) {
	case 0:
		s = s[:r.N(8)]
	case 1:
		s += ref.Hex(r.Bytes(r.In(1, 6)))
	case 2:
		b := []byte(s)
		b[r.N(8)] = mon.Pick(r, byte('g'), 'G', ' ', 'x', '-', '+', 0, 0x80, '_', '.')
		s = string(b)
	case 3:
		s = badHex(r, r.N(6))
	case 4:
		s = ref.Hex(r.Bytes(mon.Pick(r, 0, 1, 2, 3, 5, 6, 7, 8, 32)))
	case 5:
		s = genText(r, r.N(12))
	}
	if isHex(s) && len(s) == 8 {
		s += "0"
	}
	c.In("text", s)
	s = c.Str("bits", s)
	_, e1 := mon.Do2(c, "block.ExpandTargetFromAsInt", func() (*big.Int, error) { return block.ExpandTargetFromAsInt(s) })
	c.Check(e1 != nil, "ExpandTargetFromAsInt(%q) gives no error", s)
	_, e2 := mon.Do2(c, "block.ExpandTargetFrom", func() (string, error) { return block.ExpandTargetFrom(s) })
	c.Check(e2 != nil, "ExpandTargetFrom(%q) gives no error", s)
	_, e3 := mon.Do2(c, "block.DifficultyFromBits", func() (float64, error) { return block.DifficultyFromBits(s) })
	c.Check(e3 != nil, "DifficultyFromBits(%q) gives no error", s)
	c.Hit("bad bits")
}

func b05Pair(c *C) {
	r := c.R
	a := genBits(r)
	b := genBits(r)
	if r.Bool() { // neighbours
		b = a + uint32(r.In(1, 3))
		if r.P(30) {
			b = a + 1<<24
		}
		b &= 0xff7fffff
	}
	ta, tb := ref.Target(a), ref.Target(b)
	da, oka := b05Check(c, a)
	db, okb := b05Check(c, b)
	if oka && okb {
		switch ta.Cmp(tb) {
		case -1:
			c.Check(da >= db, "the target of %08x is below that of %08x, but its difficulty is not above: %v, %v", a, b, da, db)
		case 0:
			c.Check(da == db, "%08x and %08x have the same target and difficulties %v and %v", a, b, da, db)
		case 1:
			c.Check(da <= db, "the target of %08x is above that of %08x, but its difficulty is not below: %v, %v", a, b, da, db)
		}
		c.Hit("ordered pair")
	}
}

var coins = []string{"BSV", "BTC", "BCH", "RSV", "RBTC", "R", "Regtest", "RTC", "rsv", "TSV", "bR", "SR", "", " RSV", "ÄR", "B", "Q", "S"}

func b06Rate(c *C) {
	r := c.R
	coin := coins[r.N(len(coins))]
	if r.P(15) {
		coin = genText(r, r.N(6))
	}
	d := genU64(r)
	secs := mon.Pick(r, 600, 600, 7, 1, 0.5, 150, 1e-3, float64(r.In(1, 100000))/7, math.Ldexp(1+float64(r.N(1000))/1000, r.In(-60, 60)))
	c.In("coin", coin)
	c.In("difficulty", d)
	c.In("seconds", secs)
	cg := c.Str("coin", coin)
	got := mon.Do(c, "block.DifficultyToHashrate", func() float64 { return block.DifficultyToHashrate(cg, d, secs) })
	target := ref.Target(0x1d00ffff)
	if strings.HasPrefix(coin, "R") {
		target = ref.Target(0x207fffff)
		c.Hit("regtest coin")
	} else {
		c.Hit("other coin")
	}
	if d == 0 {
		mon.Eq(c, "hash rate of difficulty 0", got, 0)
		return
	}
	// got * target * secs = d * 2^256
	w := new(big.Rat).SetFrac(new(big.Int).Mul(new(big.Int).SetUint64(d), two256), target)
	sr := new(big.Rat).SetFloat64(secs)
	w.Quo(w, sr)
	e := relErr(got, w.Num(), w.Denom())
	c.Check(e < 1e-12, "DifficultyToHashrate(%q, %d, %v) = %v, which is %v of the value off", coin, d, secs, got, e)
	b06Human(c, got)
}

var hashUnits = []struct {
	name  string
	value float64
}{{"H/s", 1}, {"kH/s", 1e3}, {"MH/s", 1e6}, {"GH/s", 1e9}, {"TH/s", 1e12}, {"PH/s", 1e15}, {"EH/s", 1e18}, {"ZH/s", 1e21}}

func b06Human(c *C, v float64) {
	if v < 1 {
		return
	}
	s := mon.Do(c, "utils.HumanHash", func() string { return utils.HumanHash(v) })
	u := hashUnits[0]
	for _, x := range hashUnits {
		if x.value <= v {
			u = x
		}
	}
	c.Hit(u.name)
	num, unit, ok := strings.Cut(s, " ")
	c.Check(ok && unit == u.name, "HumanHash(%v) = %q, the unit should be %s", v, s, u.name)
	dot := strings.IndexByte(num, '.')
	c.Check(dot == len(num)-3, "HumanHash(%v) = %q, not with two decimals", v, s)
	f, err := strconv.ParseFloat(num, 64)
	c.Check(err == nil, "HumanHash(%v) = %q: %v", v, s, err)
	// half a unit in the last decimal, and the rounding of the division
	c.Check(math.Abs(f-v/u.value) <= 0.0050001+v/u.value*1e-12, "HumanHash(%v) = %q", v, s)
}

func genRate(r *R) float64 {
	u := hashUnits[r.N(len(hashUnits))].value
	switch r.N(6) {
	case 0:
		return u
	case 1:
		return math.Nextafter(u, mon.Pick(r, 0, math.Inf(1)))
	case 2:
		return u * (1 + float64(r.N(1000000))/1e6)
	case 3:
		return u * mon.Pick(r, 999.99, 999.994, 999.995, 999.999, 9.995, 1.005, 1.004999, 10, 100, 99.999, 1.1)
	case 4:
		return math.Ldexp(1+float64(r.N(1<<30))/(1<<30), r.N(90))
	}
	return u * float64(r.N(1000000)) / 1000
}

func init() {
	register(&mon.Prop{
		ID:   "B01",
		Rule: "each case makes a list of transaction IDs (every size from 0 to 300, sizes around powers of two, random ones, up to 70000; some IDs repeated), compares branches and roots with a reference tree, and repeats it with another coinbase and with another list; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by the list",
		Stages: []mon.Stage{
			{Name: "sizes", Quick: len(blockSizes), Deep: 8 * len(blockSizes), Run: func(c *C) { b01(c, blockSizes[c.Index%len(blockSizes)]) }},
			{Name: "small", Quick: 24000, Deep: 1200000, Run: func(c *C) { b01(c, c.R.N(20)) }},
			{Name: "random", Quick: 400, Deep: 8000, Run: func(c *C) { b01(c, c.R.N(1000)) }},
			rareStage("B01"),
			{Name: "large", Quick: 24, Deep: 600, Run: func(c *C) { b01(c, largeCount(c.R, 70000)) }},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "not a power of two": 300, "fewer than two": 10},
	})
	register(&mon.Prop{
		ID:   "B02",
		Rule: "each case makes a tree, checks the genuine proof of every (small trees) or some positions, and six altered proofs (bits, branches, order, index, text) against a reference; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by the tree",
		Stages: []mon.Stage{
			{Name: "sizes", Quick: 300, Deep: 3000, Run: func(c *C) { b02(c, 1+c.Index%300) }},
			{Name: "small", Quick: 12000, Deep: 800000, Run: func(c *C) { b02(c, 1+c.R.N(20)) }},
			rareStage("B02"),
			{Name: "long proofs", Quick: 4000, Deep: 200000, Run: func(c *C) {
				// proofs of trees too large to build: any branches, any index
				r := c.R
				k := r.N(63)
				h := genHash(r)
				var br []string
				for i := 0; i < k; i++ {
					x := genHash(r)
					br = append(br, ref.Hex(x[:]))
				}
				i := int(r.U64() & (1<<k - 1))
				c.In("hash", h[:])
				c.In("index", i)
				c.In("branches", strings.Join(br, " "))
				b02Check(c, "long proof", ref.Hex(h[:]), i, c.Strs("branches", br), "")
				b02Check(c, "long proof, index beyond it", ref.Hex(h[:]), i|1<<k, br, "")
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "valid proof": 10000, "proof of something else": 10000, "proof that is an error": 5000},
	})
	register(&mon.Prop{
		ID:   "B03",
		Rule: "each case makes coinbase parts from random metadata (text around the cut, long commitments and miner IDs), joins them with several extra nonces split anywhere, and compares with a reference encoding and the parser; or asks for parts with a bad address or commitment; distinct by metadata",
		Stages: []mon.Stage{
			{Name: "coinbase", Quick: 96000, Deep: 4800000, Run: b03},
		},
		Need: map[string]int{"text cut": 1000, "witness commitment": 3000, "miner ID": 3000, "long output": 500, "bad address": 1000, "bad commitment": 1000},
	})
	register(&mon.Prop{
		ID:   "B04",
		Rule: "each case builds a header and one on top of it, and compares them and the block hash with the layout; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by header",
		Stages: []mon.Stage{
			rareStage("B04"),
			realStage("B04"),
			{Name: "headers", Quick: 300000, Deep: 12000000, Run: b04},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "real header": 2},
	})
	register(&mon.Prop{
		ID:   "B05",
		Rule: "each case expands bits (every exponent with special mantissas, random ones, neighbours) to a number, hex and a difficulty and compares with exact arithmetic and with each other, or gives text that is not bits; distinct by text",
		Stages: []mon.Stage{
			{Name: "exponents", Quick: 256, Deep: 2048, Run: func(c *C) {
				e := uint32(c.Index%256) << 24
				for _, m := range []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x123456, 0x7f0000, 0x7fff00, 0x7ffffe, 0x7fffff, c.R.U32() & 0x7fffff} {
					b05Check(c, e|m)
				}
			}},
			{Name: "pairs", Quick: 120000, Deep: 8000000, Run: b05Pair},
			{Name: "bad text", Quick: 100000, Deep: 4000000, Run: b05Bad},
		},
		Need: map[string]int{"target that fits": 10000, "target that does not fit": 500, "zero target": 50, "bad bits": 5000, "ordered pair": 5000},
	})
	register(&mon.Prop{
		ID:   "B06",
		Rule: "each case computes a hash rate and compares it with exact arithmetic, or prints a rate (around every unit and decimal) and reads it back; distinct by the arguments",
		Stages: []mon.Stage{
			{Name: "rate", Quick: 200000, Deep: 8000000, Run: b06Rate},
			{Name: "print", Quick: 300000, Deep: 12000000, Run: func(c *C) {
				v := genRate(c.R)
				c.In("rate", v)
				b06Human(c, v)
			}},
		},
		Need: map[string]int{"regtest coin": 1000, "other coin": 1000, "H/s": 100, "kH/s": 100, "MH/s": 100, "GH/s": 100, "TH/s": 100, "PH/s": 100, "EH/s": 100, "ZH/s": 100},
	})
}
