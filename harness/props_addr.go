package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/mon"
	"verif/harness/ref"
)

type Address = address.Address

func dumpAddr(a *Address) string {
	if a == nil {
		return "nil"
	}
	return a.AddressString + " " + a.PublicKeyHash
}

func validate(c *C, s string) (bool, error) {
	return mon.Do2(c, "address.ValidateAddress", func() (bool, error) { return address.ValidateAddress(s) })
}

func parseAddr(c *C, s string) (*Address, error) {
	return mon.Do2(c, "address.NewFromString", func() (*Address, error) { return address.NewFromString(s) })
}

// genPKH is a hash with more or fewer leading zeros.
func genPKH(r *R) []byte {
	h := genBytes(r, 20)
	if r.P(25) {
		for i := r.N(21); i > 0; i-- {
			h[i-1] = 0
		}
	}
	return h
}

func checkAddr(c *C, what string, a *Address, err error, ver byte, h []byte) {
	c.Check(err == nil && a != nil, "%s: %v", what, err)
	mon.Eq(c, what+": AddressString", a.AddressString, ref.Base58Check(append([]byte{ver}, h...)))
	mon.Eq(c, what+": PublicKeyHash", strings.ToLower(a.PublicKeyHash), ref.Hex(h))
	c.Keep(what, func() string { return dumpAddr(a) })
}

func a01(c *C) {
	r := c.R
	h := genPKH(r)
	pub := genKeyBytes(r)
	if r.P(20) {
		pub = genBytes(r, genLen(r, 100))
	}
	a01Of(c, h, pub, r.Bool())
}

func a01Of(c *C, h, pub []byte, main bool) {
	r := c.R
	ver := byte(0x6f)
	if main {
		ver = 0
		c.Hit("mainnet")
	} else {
		c.Hit("testnet")
	}
	c.In("hash", h)
	c.In("mainnet", main)
	if h[0] == 0 {
		c.Hit("leading zero")
	}
	g := c.Buf("hash", h)
	a, err := mon.Do2(c, "address.NewFromPublicKeyHash", func() (*Address, error) { return address.NewFromPublicKeyHash(g, main) })
	checkAddr(c, "NewFromPublicKeyHash", a, err, ver, h)
	b, err := parseAddr(c, c.Str("address", a.AddressString))
	checkAddr(c, "NewFromString", b, err, ver, h)
	ok, err := validate(c, a.AddressString)
	c.Check(ok && err == nil, "ValidateAddress rejects %s: %v", a.AddressString, err)

	if r.P(20) { // a hash of another length
		bad := r.Bytes(mon.Pick(r, 0, 1, 19, 21, 32, r.N(64)))
		if len(bad) != 20 {
			c.In("a hash of another length", bad)
			_, err := mon.Do2(c, "address.NewFromPublicKeyHash", func() (*Address, error) { return address.NewFromPublicKeyHash(c.Buf("hash", bad), main) })
			c.Check(err != nil, "NewFromPublicKeyHash accepts a hash of %d bytes", len(bad))
			c.Hit("hash of another length")
		}
	}

	// from keys
	c.In("public key", pub)
	a, err = mon.Do2(c, "address.NewFromPublicKeyString", func() (*Address, error) {
		return address.NewFromPublicKeyString(c.Str("key", mixCase(r, ref.Hex(pub))), main)
	})
	checkAddr(c, "NewFromPublicKeyString", a, err, ver, ref.Hash160(pub))
	k := genKey(r)
	c.In("key", k.pub)
	pk := (*bsvec.PublicKey)(&k.priv.PublicKey)
	a, err = mon.Do2(c, "address.NewFromPublicKey", func() (*Address, error) { return address.NewFromPublicKey(pk, main) })
	checkAddr(c, "NewFromPublicKey", a, err, ver, k.hash)
	// the same key written in full: other bytes, another hash
	xy := make([]byte, 64)
	k.pt.X.FillBytes(xy[:32])
	k.pt.Y.FillBytes(xy[32:])
	for _, b0 := range []byte{4, 6 + byte(k.pt.Y.Bit(0))} {
		if r.P(30) {
			c.Hit("key in full")
			full := ref.Cat([]byte{b0}, xy)
			a, err = mon.Do2(c, "address.NewFromPublicKeyString", func() (*Address, error) {
				return address.NewFromPublicKeyString(c.Str("key", ref.Hex(full)), main)
			})
			checkAddr(c, "NewFromPublicKeyString", a, err, ver, ref.Hash160(full))
		}
	}
	bad := badHex(r, r.In(1, 40))
	if !isHex(bad) {
		_, err = mon.Do2(c, "address.NewFromPublicKeyString", func() (*Address, error) { return address.NewFromPublicKeyString(bad, main) })
		c.Check(err != nil, "NewFromPublicKeyString accepts %q", bad)
	}
}

func a01Base58(c *C, b []byte) {
	c.In("bytes", b)
	g := c.Buf("bytes", b)
	s := mon.Do(c, "address.Base58EncodeMissingChecksum", func() string { return address.Base58EncodeMissingChecksum(g) })
	mon.Eq(c, "Base58EncodeMissingChecksum of "+mon.Show(b), s, ref.Base58Check(b))
}

// a02Check asks every entry point about a text.
func a02Check(c *C, s string, all bool) {
	ver, h, want := ref.UnAddress(s)
	g := c.Str("address", s)
	a, err := parseAddr(c, g)
	c.Check((err == nil) == want, "NewFromString of %q: accepted %v, an address %v", s, err == nil, want)
	if want {
		c.Hit("genuine")
		checkAddr(c, "NewFromString", a, err, ver, h)
	} else {
		c.Hit("not genuine")
	}
	if !strings.HasPrefix(s, "bitcoin-script:") {
		ok, err := validate(c, g)
		c.Check(ok == want && (err == nil) == want, "ValidateAddress of %q: %v %v, an address %v", s, ok, err, want)
	}
	if !all {
		return
	}
	sc, err := mon.Do2(c, "script.NewP2PKHFromAddress", func() (*Script, error) { return script.NewP2PKHFromAddress(g) })
	c.Check((err == nil) == want, "script.NewP2PKHFromAddress of %q: accepted %v, an address %v", s, err == nil, want)
	if want {
		c.EqBytes("script.NewP2PKHFromAddress of "+s, *sc, ref.P2PKH(h))
	}
	o, err := mon.Do2(c, "output.NewP2PKHFromAddress", func() (*output.Output, error) { return output.NewP2PKHFromAddress(g, 7) })
	c.Check((err == nil) == want, "output.NewP2PKHFromAddress of %q: accepted %v, an address %v", s, err == nil, want)
	if want {
		c.EqBytes("output.NewP2PKHFromAddress of "+s, *o.LockingScript, ref.P2PKH(h))
	}
	t := transaction.New()
	err = mon.DoErr(c, "Transaction.PayTo", func() error { return t.PayTo(g, 7) })
	c.Check((err == nil) == want, "PayTo %q: accepted %v, an address %v", s, err == nil, want)
	if want {
		mon.Eq(c, "outputs after PayTo", len(t.Outputs), 1)
		c.EqBytes("PayTo "+s, *t.Outputs[0].LockingScript, ref.P2PKH(h))
	} else {
		mon.Eq(c, "outputs after failed PayTo", len(t.Outputs), 0)
	}
	c.Call("block.GetCoinbaseParts", func() { _, _, err = block.GetCoinbaseParts(5, 6, "", "x", g, nil) })
	c.Check((err == nil) == want, "GetCoinbaseParts with %q: accepted %v, an address %v", s, err == nil, want)
}

// a02Twins asks about a genuine address and then about others that have most of
// it: what is remembered of the first must not decide about them.
func a02Twins(c *C) {
	r := c.R
	h := genPKH(r)
	v := mon.Pick(r, byte(0), 0x6f)
	p := append([]byte{v}, h...)
	sum := ref.Sha256d(p)[:4]
	s := ref.Base58(ref.Cat(p, sum))
	c.In("address", s)
	a02Check(c, s, r.P(30))
	for i := 0; i < 5; i++ {
		c.ClearWatches()
		q, w := append([]byte{}, p...), append([]byte{}, sum...)
		var x string
		switch k := r.N(9); k {
		case 0, 1: // the other network, with the first one's checksum
			q[0] ^= 0x6f
			x = ref.Base58(ref.Cat(q, w))
		case 2: // the other network, genuine
			q[0] ^= 0x6f
			x = ref.Base58Check(q)
		case 3: // another version, genuine otherwise
			q[0] = byte(r.U32())
			x = ref.Base58Check(q)
		case 4: // another hash, with the first one's checksum
			q[r.In(1, 20)] ^= 1 << r.N(8)
			x = ref.Base58(ref.Cat(q, w))
		case 5: // another checksum
			w[r.N(4)] ^= 1 << r.N(8)
			if r.P(20) {
				w = mon.Pick(r, make([]byte, 4), []byte{0xff, 0xff, 0xff, 0xff}, ref.Rev(sum), p[:4], p[17:])
			}
			x = ref.Base58(ref.Cat(q, w))
		case 6: // in other letters
			b := []byte(s)
			for i := range b {
				if r.P(mon.Pick(r, 10, 100)) && b[i] != 'L' && b[i] != 'i' && b[i] != 'o' {
					if b[i] >= 'a' && b[i] <= 'z' {
						b[i] -= 32
					} else if b[i] >= 'A' && b[i] <= 'Z' {
						b[i] += 32
					}
				}
			}
			x = string(b)
		case 7: // white space around it, or part of it
			x = mon.Pick(r, " "+s, s+" ", s+"\n", s[:len(s)-1], s[1:], s+s[:1], s+"\x00", "1"+s)
		default: // the first one again
			x = s
		}
		c.In("text", x)
		a02Check(c, x, r.P(30))
	}
}

// nearAddress is text that someone may take for an address.
func nearAddress(r *R) string {
	if r.P(70) {
		return badAddr(r)
	}
	h := genPKH(r)
	v := mon.Pick(r, byte(0), 0x6f)
	p := append([]byte{v}, h...)
	sum := ref.Sha256d(p)
	switch r.N(8) {
	case 0: // part of the checksum wrong
		sum[r.N(4)] ^= 1 << r.N(8)
		return ref.Base58(ref.Cat(p, sum[:4]))
	case 1: // checksum of something else
		return ref.Base58(ref.Cat(p, ref.Sha256(p)[:4]))
	case 2: // checksum of the hash alone
		return ref.Base58(ref.Cat(p, ref.Sha256d(h)[:4]))
	case 3: // other end of the checksum
		return ref.Base58(ref.Cat(p, sum[28:]))
	case 4: // longer payload with a correct checksum
		return ref.Base58Check(append(p, r.Bytes(r.In(1, 3))...))
	case 5: // 25 bytes, with leading zeros taken away or added
		s := ref.Base58Check(p)
		if r.Bool() {
			return strings.TrimLeft(s, "1")
		}
		return strings.Repeat("1", r.In(1, 3)) + s
	case 6: // value of 25 bytes plus a multiple of 2^200
		b := append([]byte{byte(r.In(1, 255))}, ref.Cat(p, sum[:4])...)
		return ref.Base58(b)
	}
	s := []byte(ref.Base58Check(p))
	i := r.N(len(s))
	s[i] = mon.Pick(r, byte(0), ' ', 'l', 'I', 'O', '0', 0x80, 0xff, s[i]|0x80)
	return string(s)
}

func bip276(prefix string, net, ver int, data []byte) string {
	p := fmt.Sprintf("%s:%02x%02x%x", prefix, net, ver, data)
	return p + ref.Hex(ref.Sha256d([]byte(p))[:4])
}

// unBIP276 is 1 if the text is an encoding with one of the two prefixes, 0 if it
// is none with any prefix, -1 otherwise.
func unBIP276(s string) (class int, prefix string, net, ver int, data []byte) {
	best := 0
	for i := 0; i < len(s); i++ {
		if s[i] != ':' {
			continue
		}
		p, rest := s[:i], s[i+1:]
		if len(rest) < 12 || len(rest)%2 != 0 || !isHex(rest) || strings.ToLower(rest) != rest {
			continue
		}
		b := unhex(rest)
		if b[0] == 0 || b[1] == 0 {
			continue
		}
		if bip276(p, int(b[0]), int(b[1]), b[2:len(b)-4]) != s {
			continue
		}
		if p == address.PrefixScript || p == address.PrefixTemplate {
			return 1, p, int(b[0]), int(b[1]), b[2 : len(b)-4]
		}
		best = -1
	}
	return best, "", 0, 0, nil
}

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &b[i])
	}
	return b
}

type bipParts struct {
	prefix   string
	ver, net int
	data     []byte
}

func decodeBIP(c *C, s string) (bipParts, error) {
	return mon.Do2(c, "address.DecodeBIP276", func() (p bipParts, err error) {
		p.prefix, p.ver, p.net, p.data, err = address.DecodeBIP276(s)
		return
	})
}

func a03Decode(c *C, s string) {
	k, p, n, v, d := unBIP276(s)
	g := c.Str("text", s)
	got, err := decodeBIP(c, g)
	switch k {
	case 1:
		c.Check(err == nil, "DecodeBIP276 rejects %s: %v", mon.Show(s), err)
		mon.Eq(c, "prefix", got.prefix, p)
		mon.Eq(c, "version", got.ver, v)
		mon.Eq(c, "network", got.net, n)
		c.EqBytes("data", got.data, d)
		c.KeepBytes("address.DecodeBIP276", got.data)
	case 0:
		c.Hit("damaged text")
		c.Check(err != nil, "DecodeBIP276 accepts %s as %v", mon.Show(s), got)
	}
	if strings.HasPrefix(s, "bitcoin-script:") && k >= 0 {
		ok, err := validate(c, g)
		c.Check(ok == (k == 1) && (err == nil) == (k == 1), "ValidateAddress of %s: %v %v, genuine %v", mon.Show(s), ok, err, k == 1)
	}
}

func genBIP(r *R) (prefix string, net, ver int, data []byte) {
	prefix = mon.Pick(r, address.PrefixScript, address.PrefixTemplate)
	net, ver = mon.Pick(r, 1, 2, 255, r.In(1, 255)), mon.Pick(r, 1, 1, 255, r.In(1, 255))
	if r.Bool() {
		data = genScript(r, 2000)
	} else {
		data = genBytes(r, genLen(r, 1500))
	}
	return
}

func encodeBIP(c *C, p string, n, v int, d []byte) string {
	return mon.Do(c, "address.EncodeBIP276", func() string { return address.EncodeBIP276(p, n, v, d) })
}

func a03(c *C) {
	r := c.R
	p, n, v, d := genBIP(r)
	c.In("prefix", p)
	c.In("network", n)
	c.In("version", v)
	c.In("data", d)
	s := encodeBIP(c, c.Str("prefix", p), n, v, c.Buf("data", d))
	mon.Eq(c, "EncodeBIP276", s, bip276(p, n, v, d))
	a03Decode(c, s)
	for k := 0; k < 6; k++ {
		a03Decode(c, damage(r, s, p, n, v, d))
	}
	// out of range
	bn, bv := n, v
	for bn >= 1 && bn <= 255 && bv >= 1 && bv <= 255 {
		x := mon.Pick(r, 0, -1, 256, 257, 511, 512, 65536, 65537, wide(1<<31), -255, -1<<31, wide(1<<32+1), r.In(256, 100000))
		switch r.N(3) {
		case 0:
			bn = x
		case 1:
			bv = x
		case 2:
			bn, bv = x, mon.Pick(r, 0, 256, -1)
		}
	}
	c.Hit("out of range")
	s = encodeBIP(c, p, bn, bv, d)
	_, err := decodeBIP(c, s)
	c.Check(err != nil, "EncodeBIP276 with network %d and version %d gives %s, which decodes", bn, bv, mon.Show(s))
	c.Check(!strings.HasPrefix(s, p+":"), "EncodeBIP276 with network %d and version %d gives %s", bn, bv, mon.Show(s))
}

func damage(r *R, s, p string, n, v int, d []byte) string {
	i := len(p) + 1
	switch r.N(14) {
	case 0:
		return s[:r.N(len(s))]
	case 1:
		return s + mon.Pick(r, "0", "00", " ", "\n", "g")
	case 2:
		return mon.Pick(r, " ", "a", ":", "\n", "bitcoin-script:") + s
	case 3: // case of one letter, or all
		b := []byte(s)
		if r.P(30) {
			return s[:i] + strings.ToUpper(s[i:])
		}
		for k := 0; k < 20; k++ {
			j := r.N(len(b))
			if b[j] >= 'a' && b[j] <= 'z' {
				b[j] -= 32
				return string(b)
			}
		}
		return strings.ToUpper(s)
	case 4: // a valid checksum over something of another form
		t := s[:len(s)-8]
		t = mutateText(r, t, "0123456789abcdefABCDEF:g")
		return t + ref.Hex(ref.Sha256d([]byte(t))[:4])
	case 5: // network or version zero with a correct checksum
		if r.Bool() {
			n = 0
		} else {
			v = 0
		}
		return bip276(p, n, v, d)
	case 6: // swapped network and version with the old checksum
		return s[:i] + s[i+2:i+4] + s[i:i+2] + s[i+4:]
	case 7: // checksum of the data only
		t := s[:len(s)-8]
		return t + ref.Hex(ref.Sha256d(d)[:4])
	case 8: // a single hash, or the other end of it
		t := s[:len(s)-8]
		if r.Bool() {
			return t + ref.Hex(ref.Sha256([]byte(t))[:4])
		}
		return t + ref.Hex(ref.Sha256d([]byte(t))[28:])
	case 9: // without separator, other prefix
		return strings.Replace(s, ":", mon.Pick(r, "", ";", " ", "::"), 1)
	case 10:
		return mon.Pick(r, address.PrefixTemplate, address.PrefixScript, "bitcoin-scripT", "script", "") + s[len(p):]
	case 11: // half a byte of data less or more, checksum over that text
		t := s[:len(s)-8]
		if r.Bool() && len(t) > i {
			t = t[:len(t)-1]
		} else {
			t += "0"
		}
		return t + ref.Hex(ref.Sha256d([]byte(t))[:4])
	case 12:
		b := []byte(s)
		j := r.N(len(b))
		b[j] = "0123456789abcdef"[r.N(16)]
		return string(b)
	}
	return mutateText(r, s, "0123456789abcdef:g")
}

// --- multisig

// genXPub returns an extended public key.
func genXPub(r *R) *ref.XPub { return genXPubKey(r, nKeys) }

func genXPubKey(r *R, keys int) *ref.XPub {
	x := &ref.XPub{Version: [4]byte{4, 0x88, 0xb2, 0x1e}, Depth: byte(r.N(4)), Num: genU32(r)}
	if r.P(25) {
		x.Depth = mon.Pick(r, byte(4), 5, 6, 15, 16, 127, 128, 252, 253, byte(r.N(254)))
	}
	if r.P(30) {
		x.Version = [4]byte{4, 0x35, 0x87, 0xcf}
	}
	if x.Depth == 0 {
		x.Num = 0
	} else {
		r.Fill(x.Parent[:])
	}
	r.Fill(x.Chain[:])
	x.Key = keyN(r.N(keys)).pub
	return x
}

// xpubN is one of a fixed list of extended public keys with memoised children.
var childMemo = map[string][]byte{}

func childKey(x *ref.XPub, a, b uint32) []byte {
	id := fmt.Sprintf("%x/%d/%d", x.Bytes(), a, b)
	if k, ok := childMemo[id]; ok {
		return k
	}
	y, err := x.Path(a, b)
	if err != nil {
		return nil
	}
	if len(childMemo) > 20000 {
		childMemo = map[string][]byte{}
	}
	childMemo[id] = y.Key
	return y.Key
}

func poolXPub(r *R) *ref.XPub { return genXPub(mon.NewR(uint64(r.N(60)), 99)) }

type RS = script.RedeemScript

func dumpRS(rs *RS) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d of", rs.SignaturesRequired)
	for _, k := range rs.PublicKeys {
		fmt.Fprintf(&s, " %x", k)
	}
	for _, k := range rs.Signatures {
		fmt.Fprintf(&s, " sig %x", k)
	}
	return s.String()
}

func redeemBytes(m int, keys [][]byte) []byte {
	s := append([][]byte{}, keys...)
	for i := range s {
		for j := i; j > 0 && bytes.Compare(s[j], s[j-1]) < 0; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	b := []byte{0x50 + byte(m)}
	for _, k := range s {
		b = append(b, ref.Push(k)...)
	}
	return append(b, 0x50+byte(len(keys)), 0xae)
}

// checkRS compares everything that can be read from a redeem script, in random
// order, and checks that reading keeps the keys.
func checkRS(c *C, what string, rs *RS, m int, keys [][]byte) {
	want := redeemBytes(m, keys)
	mon.Eq(c, what+": threshold", rs.SignaturesRequired, m)
	mon.Eq(c, what+": number of keys", len(rs.PublicKeys), len(keys))
	for i := range keys {
		c.EqBytes(fmt.Sprintf("%s: key %d", what, i), rs.PublicKeys[i], keys[i])
	}
	c.Watch("the redeem script", func() string { return dumpRS(rs) })
	for _, k := range c.R.Perm(4) {
		switch k {
		case 0, 3:
			s := mon.Do(c, "RedeemScript.GetRedeemScript", rs.GetRedeemScript)
			c.EqBytes(what+": GetRedeemScript", s, want)
			c.KeepBytes("GetRedeemScript", s)
		case 1:
			c.EqBytes(what+": GetRedeemScriptHash", mon.Do(c, "RedeemScript.GetRedeemScriptHash", rs.GetRedeemScriptHash), ref.Hash160(want))
		case 2:
			a := mon.Do(c, "RedeemScript.GetAddress", rs.GetAddress)
			mon.Eq(c, what+": GetAddress", a, ref.Base58Check(append([]byte{5}, ref.Hash160(want)...)))
		}
	}
}

func addKey(c *C, rs *RS, x string, path []uint32) error {
	return mon.DoErr(c, "RedeemScript.AddPublicKey", func() error { return rs.AddPublicKey(x, path) })
}

func newRS(c *C, m int) (*RS, error) {
	return mon.Do2(c, "script.NewRedeemScript", func() (*RS, error) { return script.NewRedeemScript(m) })
}

func genPath(r *R) (uint32, uint32) {
	g := func() uint32 {
		return mon.Pick(r, uint32(r.N(3)), uint32(r.N(3)), 0x7fffffff, 0xffff, 0x10000, 0x8000, 0xff, r.U32()>>1)
	}
	return g(), g()
}

// badXPub is text that is not an extended public key.
func badXPub(r *R) string {
	for {
		var s string
		x := poolXPub(r)
		good := x.String()
		switch r.N(8) {
		case 0:
			s = mutateText(r, good, ref.B58+"0OIl")
		case 1:
			s = good[:r.N(len(good))]
		case 2:
			s = good + mon.Pick(r, "1", " ", "z", good)
		case 3:
			s = ""
		case 4: // not on the curve
			k := append([]byte{2}, r.Bytes(32)...)
			if _, err := ref.ParsePub(k); err == nil {
				continue
			}
			y := *x
			y.Key = k
			s = y.String()
		case 5: // wrong length with a correct checksum
			b := x.Bytes()
			if r.Bool() {
				b = b[:len(b)-r.In(1, 40)]
			} else {
				b = append(b, r.Bytes(r.In(1, 5))...)
			}
			s = ref.Base58Check(b)
		case 6:
			b := x.Bytes()
			s = ref.Base58(ref.Cat(b, ref.Sha256(b)[:4]))
		case 7:
			s = ref.Hex(x.Bytes())
		}
		if b, err := ref.UnBase58(s); err == nil && len(b) == 82 && bytes.Equal(ref.Sha256d(b[:78])[:4], b[78:]) {
			if _, err := ref.ParsePub(b[45:78]); err == nil || b[45] == 0 {
				continue
			}
		}
		return s
	}
}

func m01(c *C) {
	r := c.R
	n := mon.Pick(r, 2, 2, 3, 3, 4, r.In(2, 6), r.In(2, 16))
	if c.Index%23 == 0 {
		n = 16
	}
	m := r.In(2, n)
	c.In("m", m)
	rs, err := newRS(c, m)
	c.Check(err == nil, "NewRedeemScript(%d): %v", m, err)
	var keys [][]byte
	type add struct {
		x    string
		a, b uint32
	}
	var adds []add
	private := false
	for i := 0; i < n; i++ {
		x := poolXPub(r)
		a, b := genPath(r)
		if len(childMemo) > 500 && r.P(70) { // most derivations from the memo
			a, b = uint32(r.N(3)), uint32(r.N(3))
		}
		if i > 0 && r.P(10) { // the same key again
			p := adds[r.N(len(adds))]
			adds = append(adds, p)
			keys = append(keys, keys[len(adds)-2])
			for j := range adds[:len(adds)-1] {
				if adds[j] == p {
					keys[len(adds)-1] = keys[j]
				}
			}
		} else {
			k := childKey(x, a, b)
			if k == nil {
				continue
			}
			adds = append(adds, add{x.String(), a, b})
			keys = append(keys, k)
		}
		p := adds[len(adds)-1]
		c.In("key", p.x)
		c.In("path", fmt.Sprint(p.a, p.b))
		path := []uint32{p.a, p.b}
		err := addKey(c, rs, c.Str("extended key", p.x), path)
		c.Check(err == nil, "AddPublicKey(%s, %v): %v", p.x, path, err)
		mon.Eq(c, "path after AddPublicKey", fmt.Sprint(path), fmt.Sprint([]uint32{p.a, p.b}))
		if r.P(30) {
			checkRS(c, fmt.Sprintf("after %d keys", len(keys)), rs, m, keys)
			c.ClearWatches()
		}
		if r.P(15) { // a failing addition in between
			m01Bad(c, rs)
		}
	}
	if len(keys) < 16 && r.P(6) { // from a private key, which has hardened children too
		x := ref.NewXPrv(poolXPub(r), genKey(r).d)
		h := func() uint32 { return uint32(r.N(3)) | mon.Pick(r, uint32(0), 1<<31) }
		a, b := h(), h()
		y, err := x.Child(a)
		// (hdkeychain derives from keys with leading zeros in its own way)
		if err == nil && x.D.BitLen() > 248 && y.D.BitLen() > 248 {
			if z, err := y.Child(b); err == nil && z.D.BitLen() > 248 {
				c.In("key", x.String())
				c.In("path", fmt.Sprint(a, b))
				err := addKey(c, rs, c.Str("extended key", x.String()), []uint32{a, b})
				c.Check(err == nil, "AddPublicKey(%s, %v %v): %v", x, a, b, err)
				keys = append(keys, z.Key)
				private = true
				c.Hit("extended private key")
			}
		}
	}
	checkRS(c, "redeem script", rs, m, keys)
	if len(keys) == 16 {
		c.Hit("16 keys")
		x := poolXPub(r)
		err := addKey(c, rs, x.String(), []uint32{0, 1})
		c.Check(err != nil, "a 17th key is accepted")
		checkRS(c, "after a 17th key", rs, m, keys)
	}
	c.ClearWatches()
	if r.P(20) { // the fields are the caller's too
		c.Hit("fields changed")
		edited := append([][]byte{}, keys...)
		m2 := m
		for k := r.In(1, 3); k > 0 && len(edited) > 0; k-- {
			switch r.N(4) {
			case 0:
				m2 = r.In(2, 16)
				rs.SignaturesRequired = m2
			case 1:
				i := r.N(len(edited))
				edited[i] = genKey(r).pub
				rs.PublicKeys[i] = append([]byte{}, edited[i]...)
			case 2:
				i, j := r.N(len(edited)), r.N(len(edited))
				edited[i], edited[j] = edited[j], edited[i]
				rs.PublicKeys[i], rs.PublicKeys[j] = rs.PublicKeys[j], rs.PublicKeys[i]
			case 3:
				edited = edited[:len(edited)-1]
				rs.PublicKeys = rs.PublicKeys[:len(edited)]
			}
			checkRS(c, "after its fields were changed", rs, m2, edited)
			c.ClearWatches()
		}
		return
	}
	if private {
		return
	}
	// the same keys in another order
	rs2, err := newRS(c, m)
	c.Check(err == nil, "NewRedeemScript: %v", err)
	for _, i := range r.Perm(len(adds)) {
		err := addKey(c, rs2, adds[i].x, []uint32{adds[i].a, adds[i].b})
		c.Check(err == nil, "AddPublicKey: %v", err)
	}
	s1 := mon.Do(c, "RedeemScript.GetRedeemScript", rs.GetRedeemScript)
	s2 := mon.Do(c, "RedeemScript.GetRedeemScript", rs2.GetRedeemScript)
	c.EqBytes("script of the keys in another order", s2, s1)
	mon.Eq(c, "address of the keys in another order", mon.Do(c, "RedeemScript.GetAddress", rs2.GetAddress), mon.Do(c, "RedeemScript.GetAddress", rs.GetAddress))
}

// m01Bad makes an addition that has to fail.
func m01Bad(c *C, rs *RS) {
	r := c.R
	before := dumpRS(rs)
	var err error
	var what string
	switch r.N(3) {
	case 0:
		what = badXPub(r)
		err = addKey(c, rs, what, []uint32{0, 1})
	case 1:
		p := mon.Pick(r, nil, []uint32{}, []uint32{1}, []uint32{1, 2, 3}, []uint32{0, 0, 0, 0})
		what = fmt.Sprintf("path %v", p)
		err = addKey(c, rs, poolXPub(r).String(), p)
	case 2: // hardened children need the private key
		p := mon.Pick(r, []uint32{0x80000000, 0}, []uint32{0, 0x80000000}, []uint32{0xffffffff, 1}, []uint32{1, 0x80000001})
		what = fmt.Sprintf("path %v", p)
		err = addKey(c, rs, poolXPub(r).String(), p)
	}
	c.Hit("bad key or path")
	c.Check(err != nil, "AddPublicKey accepts %s", what)
	mon.Eq(c, "keys after a failed AddPublicKey ("+what+")", dumpRS(rs), before)
}

// likePair gives two different paths that a careless key of a lookup table, or a
// conversion, takes for the same.
func likePair(r *R) (p, q [2]uint32) {
	for {
		x, y := uint32(r.N(130)), uint32(r.N(130))
		p = [2]uint32{x, y}
		switch r.N(9) {
		case 0: // the same digits
			d := fmt.Sprint(r.In(1, 9), r.N(10), r.N(10), r.N(10))
			d = strings.ReplaceAll(d, " ", "")
			i, j := r.In(1, len(d)-1), r.In(1, len(d)-1)
			cut := func(i int) (v [2]uint32) {
				fmt.Sscan(d[:i], &v[0])
				fmt.Sscan(d[i:], &v[1])
				return
			}
			p, q = cut(i), cut(j)
		case 1: // the other way round
			q = [2]uint32{y, x}
		case 2: // the same sum
			k := uint32(r.In(1, 9))
			p = [2]uint32{x + k, y}
			q = [2]uint32{x, y + k}
		case 3: // the same xor
			k := uint32(r.In(1, 127))
			q = [2]uint32{x ^ k, y ^ k}
		case 4: // the same low bits
			q = p
			q[r.N(2)] += mon.Pick(r, uint32(1)<<7, 1<<8, 1<<15, 1<<16, 1<<24, 1<<30)
		case 5: // one index
			q = p
			q[r.N(2)]++
		case 6: // the same product, or both zero
			p = [2]uint32{x, 0}
			q = [2]uint32{0, x}
		case 7: // the same bits, packed
			k := mon.Pick(r, uint(8), 16, 24)
			p = [2]uint32{x, y}
			q = [2]uint32{x - 1, y + 1<<k}
			if x == 0 {
				q = [2]uint32{0, y | 1<<k}
			}
		case 8: // weighted sums
			k := mon.Pick(r, uint32(31), 10, 100, 256, 33, 37)
			p = [2]uint32{x + 1, y}
			q = [2]uint32{x, y + k}
		}
		if p != q && p[0]|p[1]|q[0]|q[1] < 1<<31 {
			return
		}
	}
}

// likeKey gives a key that differs from x in one field only.
func likeKey(r *R, x *ref.XPub) *ref.XPub {
	y := *x
	switch r.N(5) {
	case 0:
		y.Chain[mon.Pick(r, 0, 31, r.N(32))] ^= 1 << r.N(8)
	case 1: // the other point with that coordinate
		y.Key = append([]byte{x.Key[0] ^ 1}, x.Key[1:]...)
	case 2:
		y.Key = keyN(r.N(60)).pub
	case 3: // the same keys, described otherwise
		y.Depth ^= byte(1 + r.N(3))
		y.Parent[r.N(4)] ^= 1 << r.N(8)
		y.Num = genU32(r)
	case 4:
		if y.Version[1] == 0x88 {
			y.Version = [4]byte{4, 0x35, 0x87, 0xcf}
		} else {
			y.Version = [4]byte{4, 0x88, 0xb2, 0x1e}
		}
	}
	return &y
}

// m01Like adds keys and paths that are easily taken for one another.
func m01Like(c *C) {
	r := c.R
	x := genXPub(mon.NewR(uint64(r.N(4)), 98))
	y := likeKey(r, x)
	rs, err := newRS(c, 2)
	c.Check(err == nil, "NewRedeemScript: %v", err)
	var keys [][]byte
	for k := 0; k < 2; k++ {
		p, q := likePair(r)
		for _, t := range []struct {
			x *ref.XPub
			p [2]uint32
		}{{x, p}, {x, q}, {y, p}} {
			want := childKey(t.x, t.p[0], t.p[1])
			if want == nil {
				continue
			}
			c.In("key", t.x.String())
			c.In("path", fmt.Sprint(t.p))
			err := addKey(c, rs, c.Str("extended key", t.x.String()), []uint32{t.p[0], t.p[1]})
			c.Check(err == nil, "AddPublicKey(%s, %v): %v", t.x, t.p, err)
			keys = append(keys, want)
		}
		c.Hit("look-alike paths")
	}
	checkRS(c, "after look-alike keys and paths", rs, 2, keys)
	if len(keys) < 4 {
		return
	}
	var ks []electrumKey
	var eks [][]byte
	for k := 0; k < 2; k++ {
		p, q := likePair(r)
		for _, z := range [][2]uint32{p, q} {
			want := childKey(x, z[0]&0xffff, z[1]&0xffff)
			if want == nil {
				return
			}
			ks = append(ks, electrumKey{x, uint16(z[0]), uint16(z[1])})
			eks = append(eks, want)
		}
	}
	e, err := importElectrum(c, ref.Hex(electrum(0x52, ks, 0x50+byte(len(ks)))))
	c.Check(err == nil, "NewRedeemScriptFromElectrum: %v", err)
	checkRS(c, "imported with look-alike paths", e, 2, eks)
}

func m01Threshold(c *C) {
	m := c.Index - 40
	if c.Index > 100 {
		m = mon.Pick(c.R, 256, 257, 258, 259, 272, 512, 514, 65536, 65538, wide(1<<31), wide(1<<32+2), -254, -255, -1<<31, wide(-1<<62), wide(1<<62), int(int32(c.R.U32())))
	}
	c.In("m", m)
	rs, err := newRS(c, m)
	if m < 2 || m > 16 {
		c.Check(err != nil, "NewRedeemScript accepts the threshold %d", m)
		c.Hit("bad threshold")
		return
	}
	c.Check(err == nil, "NewRedeemScript(%d): %v", m, err)
	mon.Eq(c, "threshold", rs.SignaturesRequired, m)
	mon.Eq(c, "keys", len(rs.PublicKeys), 0)
}

// m01Sort sets keys with long common prefixes.
func m01Sort(c *C) {
	r := c.R
	n := r.In(2, 16)
	m := r.In(2, n)
	base := genKeyBytes(r)
	for len(base) != 33 {
		base = genKeyBytes(r)
	}
	var keys [][]byte
	for i := 0; i < n; i++ {
		k := append([]byte{}, base...)
		for d := r.N(3); d > 0; d-- {
			p := mon.Pick(r, 0, 1, 2, 31, 32, 32, r.N(33))
			if p == 0 {
				k[0] ^= 1
			} else {
				k[p] = mon.Pick(r, 0, 1, 0x7f, 0x80, 0xff, byte(r.U32()))
			}
		}
		if r.P(8) {
			k = append(append([]byte{4}, k[1:]...), r.Bytes(32)...)
			c.Hit("uncompressed key in a redeem script")
		}
		c.In("key", k)
		keys = append(keys, k)
	}
	rs, err := newRS(c, m)
	c.Check(err == nil, "NewRedeemScript(%d): %v", m, err)
	for _, k := range keys {
		rs.PublicKeys = append(rs.PublicKeys, append([]byte{}, k...))
	}
	checkRS(c, "keys with common prefixes", rs, m, keys)
	c.ClearWatches()
	for e := r.N(5); e > 0; e-- { // a byte of a key changed in place
		i := r.N(n)
		j := r.In(1, len(keys[i])-1)
		x := byte(r.In(1, 255))
		keys[i][j] ^= x
		rs.PublicKeys[i][j] ^= x
		c.In("edit", fmt.Sprint(i, j, x))
		checkRS(c, "after a key was changed in place", rs, m, keys)
		c.ClearWatches()
		c.Hit("key changed in place")
	}
	p := r.Perm(n)
	rs2, _ := newRS(c, m)
	for _, i := range p {
		rs2.PublicKeys = append(rs2.PublicKeys, keys[i])
	}
	c.EqBytes("script of the keys in another order", mon.Do(c, "RedeemScript.GetRedeemScript", rs2.GetRedeemScript), redeemBytes(m, keys))
}

type electrumKey struct {
	x    *ref.XPub
	a, b uint16
}

func electrum(m byte, keys []electrumKey, n byte) []byte {
	s := []byte{m}
	for _, k := range keys {
		s = append(s, ref.Push(ref.Cat([]byte{0xff}, k.x.Bytes(), ref.LE16(k.a), ref.LE16(k.b)))...)
	}
	return append(s, n, 0xae)
}

func importElectrum(c *C, s string) (*RS, error) {
	return mon.Do2(c, "script.NewRedeemScriptFromElectrum", func() (*RS, error) { return script.NewRedeemScriptFromElectrum(s) })
}

func genElectrum(r *R) (int, []electrumKey) {
	n := mon.Pick(r, 2, 2, 3, r.In(2, 5), r.In(2, 15))
	var ks []electrumKey
	for i := 0; i < n; i++ {
		k := electrumKey{x: poolXPub(r), a: uint16(r.N(3)), b: uint16(r.N(3))}
		if r.P(20) {
			k.a, k.b = mon.Pick(r, uint16(0xff), 0x100, 0xffff, uint16(r.U32())), mon.Pick(r, uint16(0xff), 0x100, 0xffff, uint16(r.U32()))
		}
		ks = append(ks, k)
	}
	return r.In(2, n), ks
}

func m02(c *C) {
	r := c.R
	m, ks := genElectrum(r)
	b := electrum(0x50+byte(m), ks, 0x50+byte(len(ks)))
	c.In("script", b)
	h := c.Str("text", mixCase(r, ref.Hex(b)))
	rs, err := importElectrum(c, h)
	c.Check(err == nil, "NewRedeemScriptFromElectrum rejects %d of %d: %v (%s)", m, len(ks), err, ref.Hex(b))
	var keys [][]byte
	for _, k := range ks {
		keys = append(keys, childKey(k.x, uint32(k.a), uint32(k.b)))
	}
	checkRS(c, "imported", rs, m, keys)
	c.Keep("script.NewRedeemScriptFromElectrum", func() string { return dumpRS(rs) })
	if c.Index%5 == 0 {
		rs2, err := newRS(c, m)
		c.Check(err == nil, "NewRedeemScript(%d): %v", m, err)
		for _, k := range ks {
			err := addKey(c, rs2, k.x.String(), []uint32{uint32(k.a), uint32(k.b)})
			c.Check(err == nil, "AddPublicKey: %v", err)
		}
		checkRS(c, "added by hand", rs2, m, keys)
	}
}

// electrumOK tells whether a script is of the Electrum form: 1 yes, 0 no, -1 if
// nothing is said about it.
func electrumOK(b []byte) int {
	toks, ok := ref.Tokens(b)
	if !ok || len(toks) < 3 {
		return 0
	}
	f, n, l := toks[0], toks[len(toks)-2], toks[len(toks)-1]
	if f.Push || n.Push || l.Push || l.Op != 0xae || f.Op < 0x52 || f.Op > 0x60 || n.Op < 0x51 || n.Op > 0x60 {
		if !f.Push && !n.Push && n.Op == 0x50 && len(toks) == 3 {
			return -1
		}
		return 0
	}
	gray := f.Op == 0x60 || f.Op > n.Op
	keys := toks[1 : len(toks)-2]
	if int(n.Op)-0x50 != len(keys) {
		return 0
	}
	for _, k := range keys {
		if !k.Push || len(k.Data) != 83 || k.Data[0] != 0xff || !bytes.Equal(ref.Push(k.Data), b[k.Start:k.Start+k.Size]) {
			return 0
		}
		if _, err := ref.ParsePub(k.Data[46:79]); err != nil {
			if k.Data[46] == 0 {
				return -1 // an extended private key
			}
			return 0
		}
		if binary.BigEndian.Uint32(k.Data[1:5]) != 0x0488b21e && binary.BigEndian.Uint32(k.Data[1:5]) != 0x043587cf {
			gray = true
		}
		if k.Data[5] >= 254 {
			gray = true
		}
	}
	if gray {
		return -1
	}
	return 1
}

func m02Text(c *C, s string, what string) {
	want := 0
	if isHex(s) {
		want = electrumOK(unhex(s))
	}
	rs, err := importElectrum(c, c.Str("text", s))
	switch want {
	case 0:
		c.Hit("malformed")
		c.Check(err != nil, "NewRedeemScriptFromElectrum accepts a script %s: %s", what, mon.Show(s))
	case 1:
		c.Check(err == nil, "NewRedeemScriptFromElectrum rejects %s: %v", mon.Show(s), err)
	}
	if err == nil { // it can be used
		c.Check(rs != nil, "neither error nor redeem script")
		mon.Do(c, "RedeemScript.GetRedeemScript", rs.GetRedeemScript)
		mon.Do(c, "RedeemScript.GetAddress", rs.GetAddress)
	}
}

func m02Bad(c *C) {
	r := c.R
	m, ks := genElectrum(r)
	if len(ks) > 3 {
		ks = ks[:3]
		m = min(m, 3)
	}
	n := byte(0x50 + len(ks))
	good := electrum(0x50+byte(m), ks, n)
	pushOf := func(k electrumKey) []byte {
		return ref.Cat([]byte{0xff}, k.x.Bytes(), ref.LE16(k.a), ref.LE16(k.b))
	}
	with := func(i int, d []byte) []byte { // replaces a key
		b := good[:1:1]
		for j, k := range ks {
			if i == j {
				b = append(b, ref.Push(d)...)
			} else {
				b = append(b, ref.Push(pushOf(k))...)
			}
		}
		return append(b, n, 0xae)
	}
	i := r.N(len(ks))
	k := pushOf(ks[i])
	var b []byte
	var what string
	switch r.N(14) {
	case 0:
		what = "cut short"
		b = good[:r.N(len(good))]
	case 1:
		what = "with another marker"
		k[0] = mon.Pick(r, byte(0xfe), 0, 2, 3, 4, 0x7f, byte(r.N(255)))
		b = with(i, k)
	case 2:
		what = "with a shorter or longer extended key"
		d := mon.Pick(r, 1, 2, 3, 4, 5, 6, r.In(1, 83))
		if r.Bool() {
			k = k[:len(k)-d]
		} else {
			k = append(k, r.Bytes(d)...)
		}
		b = with(i, k)
	case 3:
		what = "with another number of keys"
		n = mon.Pick(r, n+1, n-1, 0x60, 0x50, 0, n+0x10, n-0x50, byte(r.U32()))
		b = append(good[:len(good)-2:len(good)-2], n, 0xae)
	case 4:
		what = "with another final opcode"
		b = append([]byte{}, good...)
		b[len(b)-1] = mon.Pick(r, byte(0xac), 0xad, 0xaf, 0x00, 0xa9, byte(r.U32()))
	case 5:
		what = "with another threshold"
		b = append([]byte{}, good...)
		b[0] = mon.Pick(r, byte(0x51), 0x50, 0x4f, 0x00, 0x61, 0xff, byte(r.U32()))
	case 6:
		what = "with something behind"
		b = append(good[:len(good):len(good)], mon.Pick(r, []byte{0xae}, []byte{0x61}, []byte{0}, []byte{1, 1}, good)...)
	case 7:
		what = "with something in front"
		b = append(mon.Pick(r, []byte{0x61}, []byte{0}, []byte{1, 2}), good...)
	case 8:
		what = "with an opcode or data among the keys"
		b = ref.Cat(good[:1], mon.Pick(r, []byte{0x61}, []byte{0xff}, []byte{0}, []byte{0x4c, 0}, []byte{1, 0xff}), good[1:])
		if r.Bool() {
			b[len(b)-2]++
		}
	case 9:
		what = "with data in place of opcodes"
		switch r.N(4) {
		case 0:
			b = append([]byte{1}, good...)
		case 1:
			b = append(append(good[:len(good)-2:len(good)-2], 1, n), 0xae)
		case 2:
			b = append(good[:len(good)-1:len(good)-1], 1, 0xae)
		case 3:
			b = append(good[:len(good)-1:len(good)-1], 3, 0xae, 7, 7)
		}
	case 10:
		what = "with a longer push form"
		d := pushOf(ks[0])
		b = ref.Cat(good[:1], []byte{0x4d, byte(len(d)), 0}, d, good[1+2+len(d):])
	case 11:
		what = "with a key that is not on the curve"
		for {
			p := append([]byte{mon.Pick(r, byte(2), 3)}, r.Bytes(32)...)
			if _, err := ref.ParsePub(p); err != nil {
				copy(k[46:], p)
				break
			}
		}
		b = with(i, k)
	case 12:
		what = "mutated"
		b = mutate(r, good)
	case 13:
		what = "that is not hex"
		s := ref.Hex(good)
		s = mon.Pick(r, s[1:], s+"0", " "+s, s+"\n", "0x"+s, mutateText(r, s, "ghxyz -"), "", badHex(r, 10))
		c.In("text", s)
		m02Text(c, s, what)
		return
	}
	c.In("script", b)
	m02Text(c, mixCase(r, ref.Hex(b)), what)
}

func init() {
	register(&mon.Prop{
		ID:   "A01",
		Rule: "each case encodes a hash (many with leading zeros) and a key for one of the networks in every way, compares with a reference Base58Check and reads the address back; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by hash, key and network",
		Stages: []mon.Stage{
			rareStage("A01"),
			{Name: "addresses", Quick: 36000, Deep: 1800000, Run: a01},
			{Name: "base58", Quick: 48000, Deep: 1800000, Run: func(c *C) {
				b := genBytes(c.R, genLen(c.R, 130))
				if c.R.P(30) {
					b = append(make([]byte, c.R.N(30)), b...)
				}
				a01Base58(c, b)
			}},
			{Name: "leading zeros", Quick: 300, Deep: 300, Run: func(c *C) {
				a01Base58(c, append(make([]byte, c.Index%60), c.R.Bytes(c.Index/60*7)...))
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "leading zero": 300, "mainnet": 1000, "testnet": 1000},
	})
	register(&mon.Prop{
		ID:   "A02",
		Rule: "each case asks every entry point that takes an address about a text (genuine addresses; with characters changed, dropped, added, swapped; other versions, lengths and checksums; look-alikes of one asked about just before) and compares with a reference decoder; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by text",
		Stages: []mon.Stage{
			{Name: "near", Quick: 60000, Deep: 3000000, Run: func(c *C) {
				s := nearAddress(c.R)
				c.In("text", s)
				a02Check(c, s, true)
			}},
			{Name: "genuine", Quick: 15000, Deep: 600000, Run: func(c *C) {
				h := genPKH(c.R)
				s := ref.Base58Check(append([]byte{mon.Pick(c.R, byte(0), 0x6f)}, h...))
				c.In("text", s)
				a02Check(c, s, true)
			}},
			{Name: "look-alikes of one seen before", Quick: 6000, Deep: 300000, Run: a02Twins},
			{Name: "one edit", Quick: 64, Deep: 2000, Run: func(c *C) {
				h := genPKH(c.R)
				s := ref.Base58Check(append([]byte{mon.Pick(c.R, byte(0), 0x6f)}, h...))
				c.In("text", s)
				for i := 0; i <= len(s); i++ {
					for _, ch := range []byte(ref.B58 + "0OIl \x00\xff") {
						if c.R.P(15) {
							c.ClearWatches()
							a02Check(c, s[:i]+string([]byte{ch})+s[i:], false)
						}
						if i < len(s) {
							c.ClearWatches()
							a02Check(c, s[:i]+string([]byte{ch})+s[i+1:], false)
						}
					}
					if i < len(s) {
						a02Check(c, s[:i]+s[i+1:], true)
						for j := i + 1; j < len(s); j++ {
							c.ClearWatches()
							b := []byte(s)
							b[i], b[j] = b[j], b[i]
							a02Check(c, string(b), false)
						}
					}
				}
			}},
			rareStage("A02"),
			{Name: "versions", Quick: 256, Deep: 2560, Run: func(c *C) {
				for _, n := range []int{19, 20, 21} {
					s := ref.Base58Check(append([]byte{byte(c.Index)}, genBytes(c.R, n)...))
					c.In("text", s)
					a02Check(c, s, true)
				}
			}},
			{Name: "any text", Quick: 20000, Deep: 1000000, Run: func(c *C) {
				b := make([]byte, c.R.N(60))
				al := mon.Pick(c.R, ref.B58, "1", "z", "12", "mn123abc", ref.B58+" é0OIl")
				for i := range b {
					b[i] = al[c.R.N(len(al))]
				}
				c.In("text", string(b))
				a02Check(c, string(b), true)
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "genuine": 2000, "not genuine": 10000},
	})
	register(&mon.Prop{
		ID:   "A03",
		Rule: "each case encodes data with a prefix, network and version, decodes the text, and damages it in six ways (cut, extended, characters and case changed, fields swapped, other checksums, forms the encoder never writes, with a correct checksum); some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by the parts",
		Stages: []mon.Stage{
			{Name: "codec", Quick: 12000, Deep: 600000, Run: a03},
			rareStage("A03"),
			{Name: "constants", Quick: 1, Deep: 1, NoGuide: true, Run: bip276Constants},
			{Name: "networks and versions", Quick: 255, Deep: 255, Run: func(c *C) {
				for v := 1; v <= 255; v++ {
					s := encodeBIP(c, address.PrefixScript, c.Index+1, v, []byte{byte(v)})
					mon.Eq(c, "EncodeBIP276", s, bip276(address.PrefixScript, c.Index+1, v, []byte{byte(v)}))
					if v%16 == c.Index%16 {
						a03Decode(c, s)
						c.ClearWatches()
					}
				}
				c.In("network", c.Index+1)
			}},
			{Name: "one edit", Quick: 48, Deep: 1000, Run: func(c *C) {
				p, n, v, d := genBIP(c.R)
				if len(d) > 20 {
					d = d[:20]
				}
				s := bip276(p, n, v, d)
				c.In("text", s)
				for i := 0; i <= len(s); i++ {
					for _, ch := range []byte("0123456789abcdefABCDEF: \ng") {
						c.ClearWatches()
						if i < len(s) {
							a03Decode(c, s[:i]+string([]byte{ch})+s[i+1:])
						}
						if ch%5 == 0 {
							a03Decode(c, s[:i]+string([]byte{ch})+s[i:])
						}
					}
					a03Decode(c, s[:i])
					if i < len(s) {
						a03Decode(c, s[:i]+s[i+1:])
						if s[i] >= 'a' && s[i] <= 'z' {
							a03Decode(c, s[:i]+string([]byte{s[i] - 32})+s[i+1:])
						}
					}
					if i+1 < len(s) {
						a03Decode(c, s[:i]+string([]byte{s[i+1], s[i]})+s[i+2:])
					}
				}
			}},
			{Name: "sizes", Quick: nSizes, Run: func(c *C) {
				d := genBytes(c.R, sizeAt(c.Index%nSizes))
				c.In("data", d)
				s := encodeBIP(c, address.PrefixTemplate, 2, 1, d)
				mon.Eq(c, "EncodeBIP276", s, bip276(address.PrefixTemplate, 2, 1, d))
				a03Decode(c, s)
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "damaged text": 10000, "out of range": 1000},
	})
	register(&mon.Prop{
		ID:   "M01",
		Rule: "each case builds an m-of-n redeem script from extended keys and paths, with failing additions in between, compares keys, script, hash and address with a reference BIP32 derivation after some and all additions, and builds it again in another order; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by threshold, keys and paths",
		Stages: []mon.Stage{
			rareStage("M01"),
			{Name: "build", Quick: 600, Deep: 80000, Run: m01},
			{Name: "thresholds", Quick: 200, Deep: 1000, Run: m01Threshold},
			{Name: "order", Quick: 3200, Deep: 400000, Run: m01Sort},
			{Name: "look-alikes", Quick: 320, Deep: 40000, Run: m01Like},
			{Name: "bad keys", Quick: 1000, Deep: 120000, Run: func(c *C) {
				rs, err := newRS(c, 2)
				c.Check(err == nil, "NewRedeemScript: %v", err)
				for k := 0; k < 3; k++ {
					m01Bad(c, rs)
				}
				c.In("attempt", c.Index)
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "16 keys": 20, "bad key or path": 1000, "bad threshold": 50, "look-alike paths": 500, "key changed in place": 1000, "uncompressed key in a redeem script": 300},
	})
	register(&mon.Prop{
		ID:   "M02",
		Rule: "each case imports an Electrum redeem script and compares keys, script and address with a reference derivation, or damages one (cut short, other marker, lengths, counts, opcodes, data in place of opcodes, key off the curve, not hex) and requires an error; distinct by script",
		Stages: []mon.Stage{
			{Name: "import", Quick: 750, Deep: 80000, Run: m02},
			{Name: "malformed", Quick: 6000, Deep: 600000, Run: m02Bad},
			{Name: "truncations", Quick: 24, Deep: 400, Run: func(c *C) {
				m, ks := genElectrum(c.R)
				if len(ks) > 2 {
					ks, m = ks[:2], 2
				}
				s := ref.Hex(electrum(0x50+byte(m), ks, 0x50+byte(len(ks))))
				c.In("text", s)
				for i := 0; i < len(s); i++ {
					m02Text(c, s[:i], "cut short")
					c.ClearWatches()
				}
			}},
		},
		Need: map[string]int{"malformed": 5000},
	})
}
