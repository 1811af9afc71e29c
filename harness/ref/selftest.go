package ref

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
)

func un(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// SelfTest checks the reference models against published vectors.
func SelfTest() error {
	eq := func(name, got, want string) error {
		if got != want {
			return fmt.Errorf("reference self test %s: got %s, want %s", name, got, want)
		}
		return nil
	}
	var errs []error
	chk := func(name, got, want string) { errs = append(errs, eq(name, got, want)) }
	chk("rmd empty", Hex(Ripemd160(nil)), "9c1185a5c5e9fc54612808977ee8f548b2258d31")
	chk("rmd abc", Hex(Ripemd160([]byte("abc"))), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")
	chk("rmd a-z", Hex(Ripemd160([]byte("abcdefghijklmnopqrstuvwxyz"))), "f71c27109c692c1b56bbdceb5b9d2865b3708dbc")
	chk("base58", Base58Check(append([]byte{0}, un("00ac6144c4db7b5790f343cf0477a65fb8a02eb7")...)), "114ZWApV4EEU8frr7zygqQcB1V2BodGZuS")
	_, h, ok := UnAddress("mtdruWYVEV1wz5yL7GvpBj4MgifCB7yhPd")
	chk("unaddress", Hex(h)+fmt.Sprint(" ", ok), "8fe80c75c9560e8b56ed64ea3c26e18d2c52211b true")
	p := MulG(big.NewInt(2))
	chk("2G", Hex(p.Compressed()), "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5")
	x := MulG(new(big.Int).Sub(N, big.NewInt(1)))
	chk("-G", Hex(x.Compressed()), "0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	// BIP32 test vector 2: m and m/0
	xb, err := UnBase58("xpub661MyMwAqRbcFW31YEwpkMuc5THy2PSt5bDMsktWQcFF8syAmRUapSCGu8ED9W6oDMSgv6Zz8idoc4a6mr8BDzTJY47LJhkJ8UB7WEGuduB")
	if err != nil {
		return err
	}
	xp, err := UnXPub(xb[:78])
	if err != nil {
		return err
	}
	c, err := xp.Child(0)
	if err != nil {
		return err
	}
	chk("bip32", c.String(), "xpub69H7F5d8KSRgmmdJg2KhpAK8SR3DjMwAdkxj3ZuxV27CprR9LgpeyGmXUbC6wb7ERfvrnKZjXoUmmDznezpbZb7ap6r1D3tgFxHmwMkQTPH")
	// genesis block: coinbase txid, Merkle root, header hash, bits
	cb := un("01000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000")
	t, canon, ok := UnTx(cb)
	if !ok || !canon {
		return errors.New("reference self test: genesis coinbase does not parse")
	}
	chk("txid", t.ID(), "4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b")
	chk("reencode", Hex(t.Encode()), Hex(cb))
	chk("target", fmt.Sprintf("%x", Target(0x1d00ffff)), "ffff0000000000000000000000000000000000000000000000000000")
	// BIP143 native P2WPKH example: the digest algorithm is the same but for FORKID.
	w := &Tx{Version: 1, Lock: 0x11}
	i0 := In{Vout: 0, Seq: 0xffffffee}
	copy(i0.Hash[:], un("fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f"))
	i1 := In{Vout: 1, Seq: 0xffffffff, PrevScript: un("76a9141d0f172a0ecb48aee1be1f2687d2963ae33f71a188ac"), PrevSats: 600000000}
	copy(i1.Hash[:], un("ef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a"))
	w.Ins = []In{i0, i1}
	w.Outs = []Out{{112340000, un("76a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac")}, {223450000, un("76a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac")}}
	chk("bip143", Hex(Sha256d(w.SigPreimage(1, 1))), "c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670")
	// and its signature
	pub, err := ParsePub(un("025476c2e83188368da1ff3e292e7acafcdb3566bb0ad253f62fc70f07aeee6357"))
	if err != nil {
		return err
	}
	r, s, err := ParseDER(un("304402203609e17b84f6a7d30c80bfa610b5b4542f32a8a0d5447a12fb1366d7f01cc44a0220573a954c4518331561406f90300e8f3358f51928d43c212a8caed02de67eebee"))
	if err != nil {
		return err
	}
	d := Sha256d(w.SigPreimage(1, 1))
	chk("verify", fmt.Sprint(Verify(pub, d, r, s), LowS(s)), "true true")
	d[5] ^= 1
	chk("verify wrong", fmt.Sprint(Verify(pub, d, r, s)), "false")
	return errors.Join(errs...)
}

// UnXPub parses the 78 bytes of an extended public key.
func UnXPub(b []byte) (*XPub, error) {
	if len(b) != 78 {
		return nil, errors.New("length")
	}
	x := &XPub{Depth: b[4], Key: append([]byte{}, b[45:78]...)}
	copy(x.Version[:], b[:4])
	copy(x.Parent[:], b[5:9])
	x.Num = uint32(b[9])<<24 | uint32(b[10])<<16 | uint32(b[11])<<8 | uint32(b[12])
	copy(x.Chain[:], b[13:45])
	if _, err := ParsePub(x.Key); err != nil {
		return nil, err
	}
	return x, nil
}
