package ref

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"
)

var (
	P, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	N, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	gx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	gy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	G     = &Point{gx, gy}
	halfN = new(big.Int).Rsh(N, 1)
)

// Point is an affine point of secp256k1; nil is the point at infinity.
type Point struct{ X, Y *big.Int }

type jac struct{ x, y, z *big.Int }

func mod(x *big.Int) *big.Int    { return x.Mod(x, P) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }

func (p *Point) j() *jac {
	if p == nil {
		return nil
	}
	return &jac{p.X, p.Y, big.NewInt(1)}
}

func (a *jac) dbl() *jac {
	if a == nil || a.y.Sign() == 0 {
		return nil
	}
	yy := mul(a.y, a.y)
	s := mod(new(big.Int).Lsh(mul(a.x, yy), 2))
	m := mul(a.x, a.x)
	m = mod(m.Mul(m, big.NewInt(3)))
	x := sub(mul(m, m), new(big.Int).Lsh(s, 1))
	y := sub(mul(m, sub(s, x)), new(big.Int).Lsh(mul(yy, yy), 3))
	z := mod(new(big.Int).Lsh(mul(a.y, a.z), 1))
	return &jac{x, y, z}
}

func (a *jac) add(b *jac) *jac {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	z1, z2 := mul(a.z, a.z), mul(b.z, b.z)
	u1, u2 := mul(a.x, z2), mul(b.x, z1)
	s1, s2 := mul(mul(a.y, b.z), z2), mul(mul(b.y, a.z), z1)
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) != 0 {
			return nil
		}
		return a.dbl()
	}
	h, r := sub(u2, u1), sub(s2, s1)
	hh := mul(h, h)
	hhh := mul(h, hh)
	v := mul(u1, hh)
	x := sub(sub(mul(r, r), hhh), new(big.Int).Lsh(v, 1))
	y := sub(mul(r, sub(v, x)), mul(s1, hhh))
	return &jac{x, y, mul(mul(a.z, b.z), h)}
}

func (a *jac) affine() *Point {
	if a == nil || a.z.Sign() == 0 {
		return nil
	}
	zi := new(big.Int).ModInverse(a.z, P)
	zz := mul(zi, zi)
	return &Point{mul(a.x, zz), mul(a.y, mul(zz, zi))}
}

// MulAdd returns k1*p1 + k2*p2.
func MulAdd(k1 *big.Int, p1 *Point, k2 *big.Int, p2 *Point) *Point {
	j1, j2 := p1.j(), p2.j()
	j12 := j1.add(j2)
	var acc *jac
	n := k1.BitLen()
	if k2.BitLen() > n {
		n = k2.BitLen()
	}
	for i := n - 1; i >= 0; i-- {
		acc = acc.dbl()
		switch k1.Bit(i) + 2*k2.Bit(i) {
		case 1:
			acc = acc.add(j1)
		case 2:
			acc = acc.add(j2)
		case 3:
			acc = acc.add(j12)
		}
	}
	return acc.affine()
}

func MulG(k *big.Int) *Point { return MulAdd(k, G, new(big.Int), nil) }

// ParsePub parses a compressed public key.
func ParsePub(b []byte) (*Point, error) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return nil, errors.New("not a compressed key")
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(P) >= 0 {
		return nil, errors.New("x too large")
	}
	y2 := mul(mul(x, x), x)
	y2 = mod(y2.Add(y2, big.NewInt(7)))
	y := new(big.Int).ModSqrt(y2, P)
	if y == nil {
		return nil, errors.New("not on the curve")
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y = sub(P, y)
	}
	return &Point{x, y}, nil
}

func (p *Point) Compressed() []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(b[1:])
	return b
}

func (p *Point) Uncompressed() []byte {
	b := make([]byte, 65)
	b[0] = 4
	p.X.FillBytes(b[1:33])
	p.Y.FillBytes(b[33:])
	return b
}

// ParseDER parses a strict DER signature (as BIP66 demands it).
func ParseDER(b []byte) (r, s *big.Int, err error) {
	bad := errors.New("not strict DER")
	if len(b) < 8 || len(b) > 72 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return nil, nil, bad
	}
	num := func(b []byte) (*big.Int, []byte, bool) {
		if len(b) < 3 || b[0] != 2 {
			return nil, nil, false
		}
		l := int(b[1])
		if l == 0 || len(b) < 2+l {
			return nil, nil, false
		}
		v := b[2 : 2+l]
		if v[0]&0x80 != 0 || (l > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil, nil, false
		}
		return new(big.Int).SetBytes(v), b[2+l:], true
	}
	r, rest, ok := num(b[2:])
	if !ok {
		return nil, nil, bad
	}
	s, rest, ok = num(rest)
	if !ok || len(rest) != 0 {
		return nil, nil, bad
	}
	return r, s, nil
}

func LowS(s *big.Int) bool { return s.Cmp(halfN) <= 0 }

// Verify checks an ECDSA signature of the (big-endian) digest.
func Verify(pub *Point, digest []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	e := new(big.Int).SetBytes(digest)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, N)
	p := MulAdd(u1, G, u2, pub)
	if p == nil {
		return false
	}
	return new(big.Int).Mod(p.X, N).Cmp(r) == 0
}

// XPub is an extended public key.
type XPub struct {
	Version [4]byte
	Depth   byte
	Parent  [4]byte
	Num     uint32
	Chain   [32]byte
	Key     []byte // 33 bytes
}

func (x *XPub) Bytes() []byte {
	b := Cat(x.Version[:], []byte{x.Depth}, x.Parent[:])
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], x.Num)
	return Cat(b, n[:], x.Chain[:], x.Key)
}

func (x *XPub) String() string { return Base58Check(x.Bytes()) }

// Child is BIP32 CKDpub.
func (x *XPub) Child(i uint32) (*XPub, error) {
	if i >= 1<<31 {
		return nil, errors.New("hardened")
	}
	p, err := ParsePub(x.Key)
	if err != nil {
		return nil, err
	}
	m := hmac.New(sha512.New, x.Chain[:])
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], i)
	m.Write(x.Key)
	m.Write(n[:])
	I := m.Sum(nil)
	il := new(big.Int).SetBytes(I[:32])
	if il.Cmp(N) >= 0 {
		return nil, errors.New("invalid child")
	}
	c := MulAdd(il, G, big.NewInt(1), p)
	if c == nil {
		return nil, errors.New("invalid child")
	}
	ch := &XPub{Version: x.Version, Depth: x.Depth + 1, Num: i, Key: c.Compressed()}
	copy(ch.Parent[:], Hash160(x.Key)[:4])
	copy(ch.Chain[:], I[32:])
	return ch, nil
}

// XPrv is an extended private key.
type XPrv struct {
	XPub
	D *big.Int
}

// NewXPrv is the private counterpart of x, whose key is replaced.
func NewXPrv(x *XPub, d *big.Int) *XPrv {
	p := &XPrv{XPub: *x, D: d}
	p.Key = MulG(d).Compressed()
	return p
}

func (x *XPrv) String() string {
	b := x.Bytes()[:45]
	if b[1] == 0x35 {
		copy(b, []byte{4, 0x35, 0x83, 0x94})
	} else {
		copy(b, []byte{4, 0x88, 0xad, 0xe4})
	}
	d := make([]byte, 33)
	x.D.FillBytes(d)
	return Base58Check(Cat(b, d))
}

// Child is BIP32 CKDpriv.
func (x *XPrv) Child(i uint32) (*XPrv, error) {
	m := hmac.New(sha512.New, x.Chain[:])
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], i)
	if i >= 1<<31 {
		d := make([]byte, 33)
		x.D.FillBytes(d)
		m.Write(d)
	} else {
		m.Write(x.Key)
	}
	m.Write(n[:])
	I := m.Sum(nil)
	d := new(big.Int).SetBytes(I[:32])
	if d.Cmp(N) >= 0 {
		return nil, errors.New("invalid child")
	}
	d.Add(d, x.D).Mod(d, N)
	if d.Sign() == 0 {
		return nil, errors.New("invalid child")
	}
	ch := &XPrv{XPub{Version: x.Version, Depth: x.Depth + 1, Num: i, Key: MulG(d).Compressed()}, d}
	copy(ch.Parent[:], Hash160(x.Key)[:4])
	copy(ch.Chain[:], I[32:])
	return ch, nil
}

// Path derives a chain of children.
func (x *XPub) Path(p ...uint32) (*XPub, error) {
	var err error
	for _, i := range p {
		if x, err = x.Child(i); err != nil {
			return nil, err
		}
	}
	return x, nil
}

// Target is mantissa * 256^(exponent-3) rounded down, for compact bits.
func Target(bits uint32) *big.Int {
	t := big.NewInt(int64(bits & 0x7fffff))
	e := int(bits>>24) - 3
	if e >= 0 {
		return t.Lsh(t, uint(8*e))
	}
	return t.Rsh(t, uint(-8*e))
}
