// Package ref holds the reference models the monitors compare libsv with.
// Nothing in it calls libsv or the libraries libsv uses for the same purpose.
package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"math/big"
	"math/bits"
)

func Sha256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func Sha256d(b []byte) []byte { return Sha256(Sha256(b)) }

func Rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return r
}

// RevHex is the hex of the reversed bytes.
func RevHex(b []byte) string { return hex.EncodeToString(Rev(b)) }

func Cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	r := make([]byte, 0, n)
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

var (
	rmdR  = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdRp = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS  = [80]int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdSp = [80]int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK  = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdKp = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

// Ripemd160 follows the pseudo-code of the RIPEMD-160 paper.
func Ripemd160(b []byte) []byte {
	m := append([]byte{}, b...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(b))*8)
	m = append(m, l[:]...)
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, bb, c, d, e := h[0], h[1], h[2], h[3], h[4]
		ap, bp, cp, dp, ep := h[0], h[1], h[2], h[3], h[4]
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmdF(j, bb, c, d)+x[rmdR[j]]+rmdK[j/16], rmdS[j]) + e
			a, e, d, c, bb = e, d, bits.RotateLeft32(c, 10), bb, t
			t = bits.RotateLeft32(ap+rmdF(79-j, bp, cp, dp)+x[rmdRp[j]]+rmdKp[j/16], rmdSp[j]) + ep
			ap, ep, dp, cp, bp = ep, dp, bits.RotateLeft32(cp, 10), bp, t
		}
		t := h[1] + c + dp
		h[1] = h[2] + d + ep
		h[2] = h[3] + e + ap
		h[3] = h[4] + a + bp
		h[4] = h[0] + bb + cp
		h[0] = t
	}
	out := make([]byte, 20)
	for i, v := range h {
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	return out
}

func Hash160(b []byte) []byte { return Ripemd160(Sha256(b)) }

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var b58rev [256]int

func init() {
	for i := range b58rev {
		b58rev[i] = -1
	}
	for i := 0; i < len(B58); i++ {
		b58rev[B58[i]] = i
	}
}

// Base58 encodes digit by digit.
func Base58(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	var dig []int // little endian base 58
	for _, x := range b[z:] {
		carry := int(x)
		for i := range dig {
			carry += dig[i] << 8
			dig[i] = carry % 58
			carry /= 58
		}
		for carry > 0 {
			dig = append(dig, carry%58)
			carry /= 58
		}
	}
	out := make([]byte, 0, z+len(dig))
	for i := 0; i < z; i++ {
		out = append(out, '1')
	}
	for i := len(dig) - 1; i >= 0; i-- {
		out = append(out, B58[dig[i]])
	}
	return string(out)
}

// UnBase58 decodes; the error tells of a character outside the alphabet.
func UnBase58(s string) ([]byte, error) {
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	n := new(big.Int)
	k := big.NewInt(58)
	for i := z; i < len(s); i++ {
		d := b58rev[s[i]]
		if d < 0 {
			return nil, errors.New("not base58")
		}
		n.Mul(n, k)
		n.Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, z), n.Bytes()...), nil
}

func Base58Check(payload []byte) string {
	return Base58(Cat(payload, Sha256d(payload)[:4]))
}

// UnAddress tells whether s is a P2PKH address, and its version and hash.
func UnAddress(s string) (ver byte, hash []byte, ok bool) {
	if len(s) > 64 {
		return 0, nil, false
	}
	b, err := UnBase58(s)
	if err != nil || len(b) != 25 || (b[0] != 0 && b[0] != 0x6f) {
		return 0, nil, false
	}
	c := Sha256d(b[:21])
	for i := 0; i < 4; i++ {
		if b[21+i] != c[i] {
			return 0, nil, false
		}
	}
	return b[0], b[1:21], true
}
