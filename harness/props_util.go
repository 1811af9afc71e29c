package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/utils"

	"verif/harness/mon"
	"verif/harness/ref"
)

func cryptoSha256d(c *C, b []byte) []byte {
	return mon.Do(c, "crypto.Sha256d", func() []byte { return crypto.Sha256d(b) })
}

func decodeVarInt(c *C, b []byte) (v uint64, n int) {
	c.Call("utils.DecodeVarInt", func() { v, n = utils.DecodeVarInt(b) })
	c.Note("utils.DecodeVarInt -> %d, %d", v, n)
	return
}

func u01(c *C, v uint64) {
	r := c.R
	c.In("value", v)
	want := ref.VarInt(v)
	got := mon.Do(c, "utils.VarInt", func() []byte { return utils.VarInt(v) })
	c.EqBytes(fmt.Sprintf("VarInt(%d)", v), got, want)
	c.KeepBytes("VarInt", got)
	c.Hit(fmt.Sprintf("%d bytes", len(want)))
	tails := [][]byte{nil, genBytes(r, r.In(1, 12)), genBytes(r, genLen(r, 300))}
	if r.P(50) { // plain bytes behind
		tails = append(tails, ref.Cat([]byte{mon.Pick(r, byte(0), 1, 2, 0xff, byte(r.U32()))}, genBytes(r, genLen(r, 300))))
	}
	if r.P(1) { // a long buffer
		tails = append(tails, r.Bytes(mon.Pick(r, 4096, 1<<16-r.N(12), 1<<16+r.N(12), r.N(200000))))
		c.Hit("long buffer")
	}
	for _, tail := range tails {
		b := c.Buf("encoding", ref.Cat(want, tail))
		d, n := decodeVarInt(c, b)
		mon.Eq(c, fmt.Sprintf("DecodeVarInt of %d, value", v), d, v)
		mon.Eq(c, fmt.Sprintf("DecodeVarInt of %d, size", v), n, len(want))
	}
	for k := 0; k < len(want); k++ {
		b := c.Buf("cut encoding", want[:k])
		_, n := decodeVarInt(c, b[:k:k])
		c.Check(n >= 0 && n <= k, "DecodeVarInt of %d of %d bytes reports a size of %d", k, len(want), n)
		_, n = decodeVarInt(c, b[:k])
		c.Check(n >= 0 && n <= k, "DecodeVarInt of %d of %d bytes reports a size of %d", k, len(want), n)
	}
	// the caller owns the encoding
	e := append([]byte{}, got...)
	_ = append(got, 1, 2, 3)
	c.EqBytes("VarInt, again", utils.VarInt(v), e)
}

func u01Any(c *C) {
	b := genBytes(c.R, mon.Pick(c.R, c.R.N(12), c.R.N(12), genLen(c.R, 300)))
	if len(b) > 0 && c.R.P(60) {
		b[0] = mon.Pick(c.R, byte(0xfd), 0xfe, 0xff, 0xfc)
	}
	c.In("bytes", b)
	v, n := decodeVarInt(c, c.Buf("bytes", b))
	c.Check(n >= 0 && n <= len(b), "DecodeVarInt of %d bytes reports a size of %d", len(b), n)
	want, size, canonical := ref.UnVarInt(b)
	if size == 0 {
		c.Hit("cut short")
		return
	}
	if canonical {
		mon.Eq(c, "value", v, want)
		mon.Eq(c, "size", n, size)
	}
}

func u02Bytes(c *C) {
	r := c.R
	b := genBytes(r, genLen(r, 5000))
	if r.P(20) { // palindromes
		b = ref.Cat(b, ref.Rev(b))
	}
	c.In("bytes", b)
	g := c.Buf("bytes", b)
	rev := mon.Do(c, "utils.ReverseBytes", func() []byte { return utils.ReverseBytes(g) })
	c.EqBytes("ReverseBytes", rev, ref.Rev(b))
	c.KeepBytes("ReverseBytes", rev)
	c.EqBytes("ReverseBytes twice", mon.Do(c, "utils.ReverseBytes", func() []byte { return utils.ReverseBytes(rev) }), b)
	// the result is not the argument's memory
	if len(rev) > 0 {
		tmp := mon.Do(c, "utils.ReverseBytes", func() []byte { return utils.ReverseBytes(g) })
		for i := range tmp {
			tmp[i] ^= 0xff
		}
		c.CheckGuards("overwriting the result of ReverseBytes")
	}
	h := hex.EncodeToString(b)
	s := mon.Do(c, "utils.ReverseHexString", func() string { return utils.ReverseHexString(c.Str("hex", h)) })
	mon.Eq(c, "ReverseHexString", s, ref.RevHex(b))
	if len(h) > 1 { // odd
		odd := h[1:]
		want := ref.RevHex(append([]byte{b[0] & 15}, b[1:]...))
		mon.Eq(c, "ReverseHexString of an odd length", mon.Do(c, "utils.ReverseHexString", func() string { return utils.ReverseHexString(odd) }), want)
		c.Hit("odd hex")
	}
	up := strings.ToUpper(h)
	mon.Eq(c, "ReverseHexString of upper case", strings.ToLower(utils.ReverseHexString(up)), ref.RevHex(b))

	// comparison
	o := append([]byte{}, b...)
	eq := func(what string, x, y []byte) {
		got := mon.Do(c, "utils.Equals", func() bool { return utils.Equals(x, y) })
		mon.Eq(c, "Equals "+what, got, bytes.Equal(x, y))
	}
	eq("with a copy", g, c.Buf("copy", o))
	if len(o) > 0 {
		for k := 0; k < 3; k++ {
			p := append([]byte{}, b...)
			p[mon.Pick(r, 0, len(p)-1, r.N(len(p)))] ^= 1 << r.N(8)
			eq("with one bit changed", g, p)
			eq("with one bit changed", p, g)
		}
		eq("with a prefix", g, o[:r.N(len(o))])
		eq("with the rest", o[r.N(len(o)):], g)
		eq("with nothing", g, nil)
		eq("of nothing", nil, g)
		// the same sum, xor and letters
		p := append([]byte{}, b...)
		i, j := r.N(len(p)), r.N(len(p))
		p[i], p[j] = p[j], p[i]
		eq("with two bytes swapped", g, p)
		p = append([]byte{}, b...)
		p[i] ^= 0x55
		p[j] ^= 0x55
		eq("with two bytes changed alike", g, p)
	}
	eq("with more", g, append(o, mon.Pick(r, byte(0), byte(r.U32()))))
	eq("of nil and empty", nil, []byte{})
}

func u02Sort(c *C) {
	r := c.R
	n := mon.Pick(r, r.N(5), r.N(20), r.N(20), r.N(60))
	var bs [][]byte
	for i := 0; i < n; i++ {
		b := genBytes(r, mon.Pick(r, r.N(4), r.N(40), 33))
		if len(bs) > 0 && r.P(30) { // share a prefix, or all
			p := bs[r.N(len(bs))]
			b = append(append([]byte{}, p[:r.N(len(p)+1)]...), b...)
		}
		if len(bs) > 0 && r.P(10) {
			b = append([]byte{}, bs[r.N(len(bs))]...)
		}
		if r.P(10) {
			b = []byte{byte(r.N(256))}
		}
		bs = append(bs, b)
	}
	c.In("list", fmt.Sprintf("%x", bs))
	want := make([][]byte, n)
	copy(want, bs)
	sort.SliceStable(want, func(i, j int) bool { return string(want[i]) < string(want[j]) })
	arg := make([][]byte, 0, n+3)
	for i, b := range bs {
		arg = append(arg, c.Buf(fmt.Sprintf("element %d", i), b))
	}
	spare := arg[:cap(arg)]
	mark := []byte("spare")
	for i := n; i < len(spare); i++ {
		spare[i] = mark
	}
	got := mon.Do(c, "utils.SortByteArrays", func() [][]byte { return utils.SortByteArrays(arg) })
	mon.Eq(c, "number of sorted elements", len(got), n)
	for i := range want {
		c.EqBytes(fmt.Sprintf("sorted element %d of %d", i, n), got[i], want[i])
	}
	for i := n; i < len(spare); i++ {
		c.Check(len(spare[i]) == 5 && &spare[i][0] == &mark[0], "SortByteArrays wrote behind the list")
	}
	if n > 12 {
		c.Hit("long list")
	}
	again := utils.SortByteArrays(got)
	for i := range want {
		c.EqBytes("sorted twice", again[i], want[i])
	}
}

// u02Large reverses, compares and sorts much.
func u02Large(c *C) {
	r := c.R
	n := mon.Pick(r, 1<<r.In(10, 18)+r.In(-9, 9), r.In(3000, 300000))
	b := r.Bytes(n)
	if r.P(30) {
		b = genBytes(r, n)
	}
	c.In("length", n)
	c.In("bytes", r.U64())
	x := append(make([]byte, 0, n+r.N(3)), b...)
	eq := true
	switch r.N(4) {
	case 0:
		x[mon.Pick(r, 0, n-1, n/2, r.N(n))] ^= 1 << r.N(8)
		eq = false
	case 1: // two changes that make up for each other
		i, j := r.N(n), r.N(n)
		x[i], x[j] = x[j], x[i]
		eq = string(x) == string(b)
	case 2:
		i, j := r.N(n), r.N(n)
		x[i]++
		x[j]--
		eq = i == j
	}
	mon.Eq(c, "Equals of two large slices", mon.Do(c, "utils.Equals", func() bool { return utils.Equals(b, x) }), eq)
	mon.Eq(c, "Equals of a large slice and a shorter one", mon.Do(c, "utils.Equals", func() bool { return utils.Equals(b, b[:n-1]) }), false)
	g := c.Buf("bytes", b)
	got := mon.Do(c, "utils.ReverseBytes", func() []byte { return utils.ReverseBytes(g) })
	want := make([]byte, n)
	for i := range b {
		want[n-1-i] = b[i]
	}
	c.EqBytes("ReverseBytes of a large slice", got, want)
	// a long list
	k := mon.Pick(r, r.In(200, 3000), r.In(1000, 12000), 1<<r.In(8, 13)+r.In(-1, 2))
	width := mon.Pick(r, 3, 12, 33)
	var list [][]byte
	for i := 0; i < k; i++ {
		e := r.Bytes(mon.Pick(r, width, width, r.N(width+1)))
		if i > 0 && r.P(30) {
			p := list[r.N(i)]
			e = append(append([]byte{}, p[:r.N(len(p)+1)]...), e...)
		}
		list = append(list, e)
	}
	switch r.N(6) {
	case 0:
		sort.Slice(list, func(i, j int) bool { return string(list[i]) > string(list[j]) })
	case 1: // nearly sorted
		sort.Slice(list, func(i, j int) bool { return string(list[i]) < string(list[j]) })
		i, j := r.N(k), r.N(k)
		list[i], list[j] = list[j], list[i]
	}
	ws := append([][]byte{}, list...)
	sort.SliceStable(ws, func(i, j int) bool { return string(ws[i]) < string(ws[j]) })
	out := mon.Do(c, "utils.SortByteArrays", func() [][]byte { return utils.SortByteArrays(list) })
	mon.Eq(c, "number of sorted elements", len(out), k)
	for i := range ws {
		if string(out[i]) != string(ws[i]) {
			c.Fail("sorted element %d of %d: got %x, want %x", i, k, out[i], ws[i])
		}
	}
	c.Hit("list of hundreds or more")
}

func u02Numbers(c *C) {
	r := c.R
	v := genU32(r)
	l := uint32(r.In(4, 12))
	if r.P(10) {
		l = uint32(r.In(4, 600))
	}
	c.In("value", v)
	c.In("length", l)
	got := mon.Do(c, "utils.GetLittleEndianBytes", func() []byte { return utils.GetLittleEndianBytes(v, l) })
	c.EqBytes("GetLittleEndianBytes", got, append(ref.LE32(v), make([]byte, l-4)...))
	c.KeepBytes("GetLittleEndianBytes", got)

	h := genHash(r)
	s := mixCase(r, ref.Hex(h[:]))
	a, err := mon.Do2(c, "utils.Decode32Byte", func() ([32]byte, error) { return utils.Decode32Byte(c.Str("hex", s)) })
	c.Check(err == nil, "Decode32Byte(%q): %v", s, err)
	c.EqBytes("Decode32Byte", a[:], h[:])
	bad := ""
	switch r.N(7) {
	case 0:
		bad = ref.Hex(r.Bytes(r.N(32)))
	case 1:
		bad = ref.Hex(r.Bytes(mon.Pick(r, 33, 34, 64, 31, 0)))
	case 2:
		bad = s[:63]
	case 3:
		bad = s + "0"
	case 4:
		b := []byte(s)
		b[r.N(64)] = mon.Pick(r, byte('g'), ' ', 'x', 0, 0x80, 'G', '-', '+')
		bad = string(b)
	case 5:
		bad = badHex(r, 32)
	case 6:
		bad = genText(r, 64)
	}
	if isHex(bad) && len(bad) == 64 {
		return
	}
	c.In("bad", bad)
	_, err = mon.Do2(c, "utils.Decode32Byte", func() ([32]byte, error) { return utils.Decode32Byte(c.Str("bad hex", bad)) })
	c.Check(err != nil, "Decode32Byte(%q) gives no error", bad)
	c.Hit("bad hex")
}

var hashFns = []struct {
	name string
	f    func([]byte) []byte
	want func([]byte) []byte
}{
	{"crypto.Sha256", crypto.Sha256, ref.Sha256},
	{"crypto.Sha256d", crypto.Sha256d, ref.Sha256d},
	{"crypto.Ripemd160", crypto.Ripemd160, ref.Ripemd160},
	{"crypto.Hash160", crypto.Hash160, ref.Hash160},
}

func h01(c *C, b []byte) {
	if len(b) <= 300 {
		c.In("bytes", b)
	} else {
		c.In("bytes", ref.Cat(ref.LE32(uint32(len(b))), ref.Sha256(b)))
	}
	g := c.Buf("bytes", b)
	for _, k := range c.R.Perm(4) {
		f := hashFns[k]
		got := mon.Do(c, f.name, func() []byte { return f.f(g) })
		c.EqBytes(f.name, got, f.want(b))
		c.KeepBytes(f.name, got)
		if c.R.P(20) { // the digest is the caller's
			tmp := f.f(g)
			for i := range tmp {
				tmp[i] ^= 0xff
			}
			_ = append(tmp, 0xee)
			c.EqBytes(f.name+", again", f.f(g), f.want(b))
		}
	}
	if len(b) == 0 {
		for _, f := range hashFns {
			c.EqBytes(f.name+"(nil)", f.f(nil), f.want(nil))
		}
	}
}

// h01Alike hashes inputs one after another that agree in length, in both ends, in
// the sum of their bytes, or in all but one byte.
func h01Alike(c *C) {
	r := c.R
	n := mon.Pick(r, r.In(1, 80), r.In(33, 200), genLen(r, 3000)+1, 128, 256, 1024)
	b := genBytes(r, n)
	for k := 0; k < 5; k++ {
		h01(c, b)
		x := append([]byte{}, b...)
		i, j := r.N(n), r.N(n)
		switch r.N(6) {
		case 0, 1:
			x[i] ^= 1 << r.N(8)
		case 2:
			x[i], x[j] = x[j], x[i]
		case 3:
			x[i]++
			x[j]--
		case 4:
			x = nudge(r, x)
		case 5: // another middle
			e := min(n/2, mon.Pick(r, 1, 4, 8, 16, 20, 32, 64))
			for q := e; q < n-e; q++ {
				x[q] = byte(r.U32())
			}
		}
		if len(x) > 0 {
			b, n = x, len(x)
		}
	}
	c.Hit("inputs alike")
}

// h01Many hashes thousands of inputs of one length, and all of them again.
func h01Many(c *C) {
	r := c.R
	n := []int{33, 32, 65, 20, 64, 80, r.In(3, 300), 36}[c.Index/8%8]
	seed := r.U64()
	c.In("length", n)
	c.In("seed", seed)
	f := hashFns[c.Index%4]
	mk := func(i int) []byte { return mon.NewR(seed, uint64(i)).Bytes(n) }
	l := r.In(3000, 9000)
	if r.P(10) {
		l = r.In(20000, 40000)
	}
	c.Cnt.Calls[f.name] += int64(2 * l)
	p := r.Perm(l)
	for k := 0; k < 2*l; k++ {
		i := k
		if k >= l && c.Index&4 == 0 {
			i = p[k-l]
		} else if k >= l {
			i = k - l
		}
		b := mk(i)
		if got := f.f(b); string(got) != string(f.want(b)) {
			c.Fail("%s of %x, hashed as number %d, after %d others: got %x, want %x", f.name, b, i, k, got, f.want(b))
		}
	}
	c.HitN("hashed among thousands of others", 2*l)
	c.Cnt.Checks += int64(2 * l)
}

func h01Concurrent(c *C) {
	const workers = 8
	var ins [][]byte
	for i := 0; i < 24; i++ {
		ins = append(ins, genBytes(c.R, genLen(c.R, 2000)))
		c.In("bytes", ins[i])
	}
	shared := genBytes(c.R, 200)
	var wants [4][][]byte
	for k, f := range hashFns {
		for _, b := range ins {
			wants[k] = append(wants[k], f.want(b))
		}
	}
	start := make(chan struct{})
	msgs := make(chan string, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		r := mon.NewR(c.R.U64())
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 60; n++ {
				k, i := r.N(4), r.N(len(ins))
				if got := hashFns[k].f(ins[i]); !bytes.Equal(got, wants[k][i]) {
					msgs <- fmt.Sprintf("%s of %x while other goroutines hash: %x instead of %x", hashFns[k].name, ins[i], got, wants[k][i])
					return
				}
			}
			_ = shared
		}()
	}
	c.Call("crypto hash functions from 8 goroutines", func() { close(start); wg.Wait() })
	select {
	case m := <-msgs:
		c.Fail("%s", m)
	default:
	}
	c.Cnt.Checks += workers * 60
	c.Hit("concurrent hashing")
}

func newAES(key []byte) cipher.Block {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	return b
}

func encrypt(c *C, k cipher.Block, t []byte) ([]byte, error) {
	return mon.Do2(c, "crypto.Encrypt", func() ([]byte, error) { return crypto.Encrypt(k, t) })
}

func decrypt(c *C, k cipher.Block, t []byte) ([]byte, error) {
	return mon.Do2(c, "crypto.Decrypt", func() ([]byte, error) { return crypto.Decrypt(k, t) })
}

func e01(c *C) {
	r := c.R
	ks := mon.Pick(r, 16, 24, 32)
	key := genBytes(r, ks)
	text := genBytes(r, mon.Pick(r, r.N(40), r.N(40), genLen(r, 3000)))
	if r.P(10) {
		text = []byte(genText(r, r.N(80)))
	}
	c.In("key", key)
	c.In("text", text)
	blk := newAES(key)
	t := c.Buf("text", text)
	ct, err := encrypt(c, blk, t)
	c.Check(err == nil, "Encrypt: %v", err)
	c.Check(len(ct) >= 16, "ciphertext of %d bytes", len(ct))
	c.Hit(fmt.Sprintf("AES-%d", 8*ks))
	g := c.Buf("ciphertext", ct)
	var ivs [][]byte
	for k := 0; k < 3; k++ {
		b := blk
		if k == 1 {
			b = newAES(key)
		}
		got, err := decrypt(c, b, g)
		c.Check(err == nil, "Decrypt: %v", err)
		c.EqBytes("decrypted text", got, text)
		if k == 0 {
			c.KeepBytes("Decrypt", got)
		}
	}
	c.KeepBytes("Encrypt", ct)
	// the same text again: nothing in common
	ivs = append(ivs, ct[:16])
	c.Only(hex.EncodeToString(ct[:16]), "initialisation vector")
	for k := 0; k < 2; k++ {
		ct2, err := encrypt(c, blk, t)
		c.Check(err == nil && len(ct2) >= 16, "Encrypt: %v", err)
		c.Only(hex.EncodeToString(ct2[:16]), "initialisation vector")
		for _, iv := range ivs {
			same := 0
			for i := range iv {
				if iv[i] == ct2[i] {
					same++
				}
			}
			c.Check(same < 9, "initialisation vectors %x and %x have %d bytes in common", iv, ct2[:16], same)
		}
		ivs = append(ivs, ct2[:16])
		if len(text) >= 24 {
			c.Check(!bytes.Equal(ct2[16:], ct[16:]), "equal texts have equal ciphertexts behind the vector")
			same := 0
			for i := 16; i < len(ct) && i < len(ct2) && i < 48; i++ {
				if ct[i] == ct2[i] {
					same++
				}
			}
			c.Check(same < 18, "ciphertexts of equal texts have %d of 32 bytes in common: %x and %x", same, ct, ct2)
			c.Hit("equal texts")
		}
		got, err := decrypt(c, blk, c.Buf("ciphertext", ct2))
		c.Check(err == nil, "Decrypt: %v", err)
		c.EqBytes("decrypted text", got, text)
	}
	// the text is not readable in the ciphertext
	if len(text) >= 12 {
		c.Check(!bytes.Contains(ct, text), "the ciphertext contains the text")
		c.Check(!bytes.Contains(ct, []byte(base64.StdEncoding.EncodeToString(text))), "the ciphertext contains the text in base64")
	}
	// another key
	key2 := append([]byte{}, key...)
	switch r.N(3) {
	case 0:
		key2[r.N(len(key2))] ^= 1 << r.N(8)
	case 1:
		key2 = r.Bytes(mon.Pick(r, 16, 24, 32))
	case 2:
		key2[mon.Pick(r, 0, len(key2)-1)] ^= 0x80
	}
	if len(text) >= 9 && !bytes.Equal(key, key2) {
		got, err := decrypt(c, newAES(key2), g)
		c.Check(err != nil || !bytes.Equal(got, text), "another key decrypts the text")
		c.Hit("another key")
	}
	// ciphertexts that nobody encrypted: the text they hold, if it is one, or an error
	for k := 0; k < 4; k++ {
		what := ""
		bad := append([]byte{}, ct...)
		switch r.N(6) {
		case 0:
			bad, what = bad[:len(bad)-r.N(min(len(bad), 5))], "cut at the end"
		case 1:
			bad, what = append(bad, r.Bytes(r.In(1, 5))...), "bytes added"
		case 2:
			bad[r.N(len(bad))] ^= 1 << r.N(8)
			what = "a bit changed"
		case 3:
			bad, what = r.Bytes(16+r.N(12)), "random bytes"
		case 4: // other spellings of the text
			enc := mon.Pick(r, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding)
			bad, what = cfbText(blk, ct[:16], []byte(enc.EncodeToString(text)+mon.Pick(r, "", "=", "==", "===", " ", "A", "\x00"))), "another spelling"
		case 5:
			w := []byte(base64.StdEncoding.EncodeToString(text))
			if len(w) > 0 {
				w[r.N(len(w))] = mon.Pick(r, byte('='), ' ', '-', '_', 0, 0xff, '.', ',')
			}
			bad, what = cfbText(blk, ct[:16], w), "a character changed"
		}
		c.In("ciphertext", bad)
		got, err := decrypt(c, blk, c.Buf("bad ciphertext", bad))
		if len(bad) < 16 {
			c.Check(err != nil, "a ciphertext of %d bytes decrypts", len(bad))
			continue
		}
		w := uncfb(blk, bad)
		want, werr := base64.StdEncoding.DecodeString(string(w))
		if bytes.ContainsAny(w, "\r\n") { // may be taken or not
			continue
		}
		if werr != nil {
			c.Check(err != nil, "%s: the decrypted bytes %q are not base64, but Decrypt returns %x", what, w, got)
			c.Hit("ciphertext of nothing")
		} else if _, strict := base64.StdEncoding.Strict().DecodeString(string(w)); strict == nil {
			c.Check(err == nil, "%s: Decrypt: %v", what, err)
			c.EqBytes(what+": decrypted text", got, want)
			c.Hit("ciphertext of another text")
		}
	}
	// what was encrypted first still decrypts
	got, err := decrypt(c, blk, g)
	c.Check(err == nil, "Decrypt: %v", err)
	c.EqBytes("decrypted text", got, text)
}

// cfbText is the vector and the text encrypted with it, block by block.
func cfbText(blk cipher.Block, iv, text []byte) []byte {
	out := append([]byte{}, iv...)
	for i := 0; i < len(text); i += 16 {
		var k [16]byte
		blk.Encrypt(k[:], out[i:i+16])
		for j := i; j < len(text) && j < i+16; j++ {
			out = append(out, text[j]^k[j-i])
		}
	}
	return out
}

// uncfb is the text in what cfbText gives.
func uncfb(blk cipher.Block, ct []byte) []byte {
	var out []byte
	for i := 16; i < len(ct); i += 16 {
		var k [16]byte
		blk.Encrypt(k[:], ct[i-16:i])
		for j := i; j < len(ct) && j < i+16; j++ {
			out = append(out, ct[j]^k[j-i])
		}
	}
	return out
}

// e01Vectors looks at many initialisation vectors made with one key: every bit
// is 1 about half of the time, every two bits are equal about half of the time,
// and so is every bit and the same bit of the next vector. The bounds are eight
// standard deviations away.
func e01Vectors(c *C) {
	r := c.R
	const n = 4096
	blk := newAES(r.Bytes(mon.Pick(r, 16, 24, 32)))
	text := genBytes(r, r.N(40))
	c.In("text", text)
	var ones, turns [128]int
	var equal [128][128]int
	var last []byte
	c.Call("crypto.Encrypt", func() {
		for k := 0; k < n; k++ {
			ct, err := crypto.Encrypt(blk, text)
			c.Check(err == nil && len(ct) >= 16, "Encrypt: %v", err)
			iv := ct[:16]
			c.Only(hex.EncodeToString(iv), "initialisation vector")
			for i := 0; i < 128; i++ {
				b := iv[i/8] >> (i % 8) & 1
				ones[i] += int(b)
				if last != nil && last[i/8]>>(i%8)&1 != b {
					turns[i]++
				}
				if k%4 == 0 {
					for j := i + 1; j < 128; j++ {
						if iv[j/8]>>(j%8)&1 == b {
							equal[i][j]++
						}
					}
				}
			}
			last = iv
		}
	})
	for i := 0; i < 128; i++ {
		c.Check(ones[i] > n/2-256 && ones[i] < n/2+256, "bit %d of the initialisation vector is 1 in %d of %d calls", i, ones[i], n)
		c.Check(turns[i] > n/2-256 && turns[i] < n/2+256, "bit %d of the initialisation vector changes from one call to the next in %d of %d cases", i, turns[i], n)
		for j := i + 1; j < 128; j++ {
			c.Check(equal[i][j] > n/8-128 && equal[i][j] < n/8+128, "bits %d and %d of the initialisation vector are equal in %d of %d calls", i, j, equal[i][j], n/4)
		}
	}
	c.Hit("vectors counted")
}

// faultyRand stands in for the system's source of random bytes: it gives at most
// step bytes per read, and fails (with what it has) once left bytes were given.
type faultyRand struct {
	src        io.Reader
	step, left int
	withErr    bool // the error comes with the last bytes, not after them
}

func (f *faultyRand) Read(b []byte) (int, error) {
	if f.left == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := len(b)
	if f.step >= 0 && n > f.step {
		n = f.step
	}
	if f.step == 0 { // nothing now and then, as io.Reader allows
		n = len(b)
		if n > 2 {
			n = 2
		}
		if f.left%3 == 0 {
			n = 0
			if f.left > 0 {
				f.left--
			}
			return 0, nil
		}
	}
	if f.left > 0 && n > f.left {
		n = f.left
	}
	n, err := f.src.Read(b[:n])
	if f.left > 0 {
		f.left -= n
		if f.left == 0 && f.withErr && err == nil {
			err = io.ErrUnexpectedEOF
		}
	}
	return n, err
}

const randFaultCalls = 64

// randFault is what the process started by e01Fault does: it encrypts with a
// source of random bytes that is short of them, and prints the ciphertexts. It may
// also end (crypto/rand.Read ends the program if it fails).
func randFault(a []string) {
	step, _ := strconv.Atoi(a[0])
	left, _ := strconv.Atoi(a[1])
	key, _ := hex.DecodeString(a[3])
	text, _ := hex.DecodeString(a[4])
	f := &faultyRand{src: rand.Reader, step: step, withErr: a[2] == "true"}
	rand.Reader = f
	blk := newAES(key)
	for i := 0; i < randFaultCalls; i++ {
		f.left = left
		ct, err := crypto.Encrypt(blk, text)
		if err != nil {
			fmt.Println("error")
			continue
		}
		fmt.Printf("%x\n", ct)
	}
}

// e01Fault: with a source of random bytes that gives them in pieces, or too few,
// encryption fails or has a vector that is random in all its bytes.
func e01Fault(c *C) {
	r := c.R
	key := r.Bytes(mon.Pick(r, 16, 24, 32))
	text := r.Bytes(r.N(40))
	step := mon.Pick(r, -1, 0, 1, 3, 7, 8, 12, 15)
	left := mon.Pick(r, -1, -1, 0, 1, 4, 8, 12, 15, 16, 31)
	with := r.Bool()
	c.In("bytes per read", step)
	c.In("bytes until it fails", left)
	c.In("error with the bytes", with)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "randfault", strconv.Itoa(step), strconv.Itoa(left), strconv.FormatBool(with), hex.EncodeToString(key), hex.EncodeToString(text))
	var out []byte
	c.Call("crypto.Encrypt with a faulty source of random bytes", func() { out, err = cmd.Output() })
	var cts [][]byte
	failed := 0
	for _, l := range strings.Fields(string(out)) {
		if l == "error" {
			failed++
			continue
		}
		ct, e := hex.DecodeString(l)
		if e != nil {
			continue
		}
		cts = append(cts, ct)
	}
	c.Cnt.Calls["crypto.Encrypt"] += int64(len(cts) + failed)
	if len(cts) < 16 {
		c.Hit("no vector without random bytes")
		return
	}
	if left < 0 {
		c.Hit("vectors read in pieces")
	}
	blk := newAES(key)
	for i := 0; i < 16; i++ {
		same := true
		for _, ct := range cts {
			c.Check(len(ct) >= 16, "Encrypt gave %d bytes", len(ct))
			same = same && ct[i] == cts[0][i]
		}
		c.Check(!same, "byte %d of the initialisation vector is %02x in all of %d encryptions with a source of random bytes that gives %d per read and fails after %d (-1: no limit)", i, cts[0][i], len(cts), step, left)
	}
	for _, ct := range cts {
		got, err := crypto.Decrypt(blk, ct)
		c.Check(err == nil && bytes.Equal(got, text), "Decrypt of a text encrypted with such a source = %s, %v", mon.Show(got), err)
	}
}

// e01Long encrypts texts of up to 4 MiB.
func e01Long(c *C) {
	r := c.R
	key := r.Bytes(mon.Pick(r, 16, 24, 32))
	n := mon.Pick(r, 1<<r.In(12, 20)+r.In(-70, 70), r.In(3000, 100000), r.In(1<<20, 1<<22))
	text := r.Bytes(n)
	c.In("text", ref.Sha256(text))
	blk := newAES(key)
	ct, err := encrypt(c, blk, c.Buf("text", text))
	c.Check(err == nil && len(ct) >= 16, "Encrypt of %d bytes: %v", n, err)
	got, err := decrypt(c, newAES(key), c.Buf("ciphertext", ct))
	c.Check(err == nil, "Decrypt: %v", err)
	c.EqBytes("decrypted text", got, text)
}

func e01Any(c *C) {
	r := c.R
	key := r.Bytes(mon.Pick(r, 16, 24, 32))
	blk := newAES(key)
	b := genBytes(r, mon.Pick(r, r.N(16), r.N(20), 15, 16, 17, genLen(r, 300)))
	if r.P(40) { // a damaged ciphertext
		ct, err := encrypt(c, blk, genBytes(r, r.N(60)))
		c.Check(err == nil, "Encrypt: %v", err)
		b = mutate(r, ct)
	}
	c.In("ciphertext", b)
	_, err := decrypt(c, blk, c.Buf("ciphertext", b))
	if len(b) < 16 {
		c.Check(err != nil, "a ciphertext of %d bytes is decrypted", len(b))
		c.Hit("short ciphertext")
	}
}

func init() {
	register(&mon.Prop{
		ID:   "U01",
		Rule: "each case encodes a value (all small ones, around every power of two, random ones), compares with the protocol, decodes it with and without bytes after it and cut short everywhere, or decodes any bytes; distinct by value",
		Stages: []mon.Stage{
			{Name: "small", Quick: 66000 / 8, Deep: 66000, Run: func(c *C) {
				if c.Tier == "thorough" {
					u01(c, uint64(c.Index))
					return
				}
				u01(c, uint64(c.Index*8+c.R.N(8)))
			}},
			{Name: "edges", Quick: 65 * 9, Deep: 65 * 17, Run: func(c *C) {
				v := uint64(0)
				if b := c.Index % 65; b < 64 {
					v = 1 << b
				}
				d := c.Index / 65
				u01(c, v+uint64(d/2+d%2)*uint64(1-2*int64(d%2)))
			}},
			{Name: "one, three and five bytes", Quick: 1200, Deep: 1200, Run: func(c *C) {
				switch c.Index / 400 {
				case 0:
					u01(c, uint64(c.Index))
				case 1:
					u01(c, 0xffff-200+uint64(c.Index-400))
				case 2:
					u01(c, 0xffffffff-200+uint64(c.Index-800))
				}
			}},
			{Name: "random", Quick: 200000, Deep: 10000000, Run: func(c *C) { u01(c, genU64(c.R)) }},
			{Name: "bytes", Quick: 200000, Deep: 10000000, Run: u01Any},
		},
		Need: map[string]int{"1 bytes": 200, "3 bytes": 2000, "5 bytes": 500, "9 bytes": 2000, "cut short": 1000},
	})
	register(&mon.Prop{
		ID:   "U02",
		Rule: "each case reverses, compares, sorts or converts random contents (palindromes, shared prefixes, near equals; slices up to 300,000 bytes, lists up to 12,000 slices) and compares with a reference; distinct by contents",
		Stages: []mon.Stage{
			{Name: "bytes", Quick: 96000, Deep: 4800000, Run: u02Bytes},
			{Name: "sort", Quick: 96000, Deep: 4800000, Run: u02Sort},
			{Name: "numbers", Quick: 96000, Deep: 4800000, Run: u02Numbers},
			{Name: "large", Quick: 160, Deep: 8000, Run: u02Large},
		},
		Need: map[string]int{"odd hex": 5000, "long list": 1000, "list of hundreds or more": 100, "bad hex": 5000},
	})
	register(&mon.Prop{
		ID:   "H01",
		Rule: "each case hashes bytes (every length from 0 to 1100, lengths around multiples of 64 and powers of two up to 1 MiB, lengths up to 18 MiB, thorough 128 MiB, several contents, and runs of inputs that differ in one byte or agree in length and ends, thousands of inputs of one length one after another and all once more) with all four functions in random order and compares with reference implementations, or hashes from eight goroutines at the same time; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by input",
		Stages: []mon.Stage{
			{Name: "lengths", Quick: 1101, Deep: 8 * 1101, Run: func(c *C) { h01(c, genBytes(c.R, c.Index%1101)) }},
			{Name: "random", Quick: 60000, Deep: 2000000, Run: func(c *C) { h01(c, genBytes(c.R, genLen(c.R, 70000))) }},
			{Name: "alike", Quick: 12000, Deep: 400000, Run: h01Alike},
			{Name: "many", Quick: 192, Deep: 2000, Run: h01Many},
			{Name: "long", Quick: 40, Deep: 400, Run: func(c *C) {
				n := 1<<c.R.In(12, 20) + c.R.In(-70, 70)
				h01(c, c.R.Bytes(n))
			}},
			{Name: "huge", Quick: 16, Deep: 160, Run: func(c *C) {
				n := c.R.In(1<<20, 3<<20)
				switch c.Index % 8 {
				case 0:
					n = 1<<c.R.In(21, 24) + c.R.In(-70, 70)
				case 1:
					n = c.R.In(3<<20, 9<<20)
				case 2:
					if n = 1<<24 + c.R.In(0, 1<<21); c.Tier == "thorough" {
						n = c.R.In(1<<24, 1<<27)
					}
				}
				h01(c, c.R.Bytes(n))
			}},
			rareStage("H01"),
			realStage("H01"),
			{Name: "concurrent", Quick: 64, Deep: 2000, Run: h01Concurrent},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "real header": 2, "concurrent hashing": 16},
	})
	register(&mon.Prop{
		ID:   "E01",
		Rule: "each case encrypts a text three times with a key of one of the three sizes, decrypts repeatedly, with a wrong key and after other calls, and records every initialisation vector (unique over the run, in all processes), or counts the bits of 4096 vectors (each, each two, each and its successor), or encrypts with a source of random bytes that gives them in pieces or fails, or decrypts damaged and short ciphertexts; distinct by key and text",
		Stages: []mon.Stage{
			{Name: "round trip", Quick: 96000, Deep: 3200000, Run: e01},
			{Name: "any ciphertext", Quick: 96000, Deep: 3200000, Run: e01Any},
			{Name: "vectors", Quick: 24, Deep: 800, Run: e01Vectors},
			{Name: "long texts", Quick: 24, Deep: 400, Run: e01Long},
			{Name: "faulty random source", Quick: 96, Deep: 1600, Run: e01Fault, NoGuide: true},
		},
		Need: map[string]int{"AES-128": 100, "AES-192": 100, "AES-256": 100, "another key": 1000, "equal texts": 1000, "short ciphertext": 1000, "vectors counted": 8, "vectors read in pieces": 4, "no vector without random bytes": 4},
	})
}
