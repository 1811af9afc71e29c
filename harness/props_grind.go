package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/libsv/libsv/script/address"

	"verif/harness/mon"
	"verif/harness/ref"
)

// Hashes that begin or end with several zero bytes, or with several 0xff, do not
// come by themselves. A quest looks for arguments that have one: by trying, with
// the reference implementation, or in the table of those that took longer.

// quest is a family of arguments, one for every number.
type quest struct {
	digest func(n uint64) []byte // not to be called by two goroutines
	check  func(c *C, n uint64)
}

const nPats = 5

// rareEnds says whether a digest has z bytes of a pattern at an end.
func rareEnds(d []byte, pat, z int) bool {
	for i := 0; i < z; i++ {
		f, b := d[i], d[len(d)-1-i]
		ok := false
		switch pat {
		case 0:
			ok = f == 0
		case 1:
			ok = b == 0
		case 2:
			ok = f == 0xff
		case 3:
			ok = b == 0xff
		case 4: // half of them at each end
			ok = i%2 == 0 && d[i/2] == 0 || i%2 == 1 && d[len(d)-1-i/2] == 0
		}
		if !ok {
			return false
		}
	}
	return true
}

func questTx(r *R) (m *ref.Tx, e []byte) {
	m = smallTx(r, r.In(1, 3), r.In(1, 3))
	boundTotals(m)
	e = m.Encode()
	return
}

// put writes the number into a transaction's version and lock time, which are the
// first four bytes and four others.
func put(b []byte, n uint64, lock int) {
	binary.LittleEndian.PutUint32(b, uint32(n>>32))
	binary.LittleEndian.PutUint32(b[lock:], uint32(n))
}

func questTree(r *R) (leaves [][]byte, digest func(n uint64) []byte, set func(n uint64)) {
	for {
		leaves = nil
		for i := r.In(2, 9); i > 0; i-- {
			leaves = append(leaves, r.Bytes(32))
		}
		k := r.N(len(leaves))
		lv := ref.MerkleLevels(leaves)
		to := r.In(1, len(lv)-1)
		var sib [][]byte
		ok := true
		for j := 0; j < to; j++ {
			i := k >> j
			if ok = ok && i^1 < len(lv[j]); ok {
				sib = append(sib, lv[j][i^1])
			}
		}
		if !ok {
			continue
		}
		set = func(n uint64) { binary.LittleEndian.PutUint64(leaves[k][24:], n) }
		var two [64]byte
		digest = func(n uint64) []byte {
			set(n)
			h := leaves[k]
			for j, s := range sib {
				if k>>j&1 == 0 {
					copy(two[:], h)
					copy(two[32:], s)
				} else {
					copy(two[:], s)
					copy(two[32:], h)
				}
				h = ref.Sha256d(two[:])
			}
			return h
		}
		return
	}
}

// withNumber is bytes the last eight of which are the number.
func withNumber(b []byte, n uint64) []byte {
	binary.BigEndian.PutUint64(b[len(b)-8:], n)
	return b
}

var quests = map[string]func(r *R) quest{
	"H01": func(r *R) quest {
		f := hashFns[r.N(4)]
		b := withNumber(r.Bytes(mon.Pick(r, 8, 20, 32, 33, 64, 80, r.In(8, 200))), 0)
		return quest{
			func(n uint64) []byte { return f.want(withNumber(b, n)) },
			func(c *C, n uint64) { h01(c, withNumber(b, n)) },
		}
	},
	"T02": func(r *R) quest {
		m, e := questTx(r)
		return quest{
			func(n uint64) []byte { put(e, n, len(e)-4); return ref.Sha256d(e) },
			func(c *C, n uint64) {
				m.Version, m.Lock = uint32(n>>32), uint32(n)
				inTx(c, m)
				t02Observe(c, buildTx(c, m), m, "rare ID")
				t, err := parseTx(c, m.Encode())
				c.Check(err == nil, "parsing: %v", err)
				mon.Eq(c, "rare ID of the parsed transaction", txID(c, t), m.ID())
				mon.Eq(c, "rare ID, again", txID(c, t), m.ID())
			},
		}
	},
	"S01": func(r *R) quest {
		m, _ := questTx(r)
		i := r.N(len(m.Ins))
		f := mon.Pick(r, byte(0x41), 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3)
		e := m.SigPreimage(i, f)
		set := func(n uint64) {
			put(e, n, len(e)-8)
			m.Version, m.Lock = uint32(n>>32), uint32(n)
		}
		switch r.N(6) { // one of the hashes in it
		case 0:
			f = mon.Pick(r, byte(0x41), 0x42, 0x43)
			e = nil
			for k := range m.Ins {
				e = ref.Cat(e, m.Ins[k].Hash[:], ref.LE32(m.Ins[k].Vout))
			}
			k := r.N(len(m.Ins))
			set = func(n uint64) {
				withNumber(e[:36*k+32], n)
				withNumber(m.Ins[k].Hash[:], n)
			}
		case 1:
			f = 0x41
			e = nil
			for k := range m.Ins {
				e = ref.Cat(e, ref.LE32(m.Ins[k].Seq))
			}
			k := r.N(len(m.Ins))
			set = func(n uint64) {
				m.Ins[k].Seq = uint32(n)
				binary.LittleEndian.PutUint32(e[4*k:], uint32(n))
			}
		case 2:
			f = mon.Pick(r, byte(0x41), 0xc1)
			e = nil
			for k := range m.Outs {
				e = ref.Cat(e, m.Outs[k].Encode())
			}
			set = func(n uint64) {
				m.Outs[0].Sats = n
				binary.LittleEndian.PutUint64(e, n)
			}
		case 3:
			f = mon.Pick(r, byte(0x43), 0xc3)
			i = r.N(min(len(m.Ins), len(m.Outs)))
			e = m.Outs[i].Encode()
			set = func(n uint64) {
				m.Outs[i].Sats = n
				binary.LittleEndian.PutUint64(e, n)
			}
		}
		return quest{
			func(n uint64) []byte { set(n); return ref.Sha256d(e) },
			func(c *C, n uint64) {
				set(n)
				inTx(c, m)
				t := buildTx(c, m)
				s01Compare(c, t, m, i, f, "rare hash")
				for k := range m.Ins {
					s01Compare(c, t, m, k, mon.Pick(r, f, 0x41), "rare hash, again")
				}
			},
		}
	},
	"A01": func(r *R) quest {
		main, key := r.Bool(), r.Bool()
		p := append([]byte{0x6f}, r.Bytes(20)...)
		if main {
			p[0] = 0
		}
		pub := append([]byte{2}, r.Bytes(32)...)
		return quest{
			func(n uint64) []byte {
				if key {
					return ref.Hash160(withNumber(pub, n))
				}
				return ref.Sha256d(withNumber(p, n))[:4]
			},
			func(c *C, n uint64) {
				if key {
					withNumber(pub, n)
				} else {
					withNumber(p, n)
				}
				a01Of(c, p[1:], pub, main)
				a01Base58(c, p)
			},
		}
	},
	"A02": func(r *R) quest {
		p := append([]byte{mon.Pick(r, byte(0), 0x6f)}, r.Bytes(20)...)
		return quest{
			func(n uint64) []byte { return ref.Sha256d(withNumber(p, n))[:4] },
			func(c *C, n uint64) {
				withNumber(p, n)
				sum := ref.Sha256d(p)[:4]
				c.In("payload", p)
				try := func(sum []byte) {
					s := ref.Base58(ref.Cat(p, sum))
					a02Check(c, s, true)
					c.ClearWatches()
				}
				try(sum)
				for i := 0; i < 4; i++ {
					w := append([]byte{}, sum...)
					w[i] ^= 1 << r.N(8)
					try(w)
					w[i] = 0
					try(w)
					try(sum[:i])
					try(sum[i:])
					try(append(sum[i:], make([]byte, i)...))
				}
				try(ref.Rev(sum))
				try([]byte{0, 0, 0, 0})
				try([]byte{0xff, 0xff, 0xff, 0xff})
				try(sum)
			},
		}
	},
	"A03": func(r *R) quest {
		p := mon.Pick(r, address.PrefixScript, address.PrefixTemplate)
		d := withNumber(r.Bytes(r.In(8, 40)), 0)
		text := []byte(fmt.Sprintf("%s:0101%x", p, d))
		return quest{
			func(n uint64) []byte {
				hex.Encode(text[len(text)-16:], withNumber(d, n)[len(d)-8:])
				return ref.Sha256d(text)[:4]
			},
			func(c *C, n uint64) {
				withNumber(d, n)
				c.In("prefix", p)
				c.In("data", d)
				s := encodeBIP(c, p, 1, 1, d)
				mon.Eq(c, "EncodeBIP276", s, bip276(p, 1, 1, d))
				a03Decode(c, s)
				for i := 0; i < 8; i++ {
					t := []byte(s)
					t[len(t)-1-i] = "0f1"[r.N(3)]
					a03Decode(c, string(t))
					a03Decode(c, s[:len(s)-1-i])
					a03Decode(c, damage(r, s, p, 1, 1, d))
				}
			},
		}
	},
	"B01": func(r *R) quest {
		leaves, digest, set := questTree(r)
		return quest{digest, func(c *C, n uint64) { set(n); b01Of(c, leaves) }}
	},
	"B02": func(r *R) quest {
		leaves, digest, set := questTree(r)
		return quest{digest, func(c *C, n uint64) { set(n); b02Of(c, leaves) }}
	},
	"B04": func(r *R) quest {
		h := r.Bytes(80)
		return quest{
			func(n uint64) []byte { return ref.Sha256d(withNumber(h, n)) },
			func(c *C, n uint64) {
				withNumber(h, n)
				b04Of(c, binary.LittleEndian.Uint32(h), h[4:36], h[36:68], h[68:72], h[72:76], h[76:])
			},
		}
	},
	"C05": func(r *R) quest {
		pub := append([]byte{3}, r.Bytes(32)...)
		pkh := r.Bytes(20)
		secret := r.Bytes(r.In(8, 40))
		key := r.Bool()
		x := secret
		if key {
			x = pub
		}
		return quest{
			func(n uint64) []byte { return ref.Hash160(withNumber(x, n)) },
			func(c *C, n uint64) {
				withNumber(x, n)
				c05Of(c, pub, pkh, string(secret))
			},
		}
	},
	"M01": func(r *R) quest {
		x := genXPub(mon.NewR(uint64(r.N(2)), 99))
		var pool [24][]byte
		of := func(n uint64) (m int, l []uint32, keys [][]byte) {
			n *= 0x9e3779b97f4a7c15
			n ^= n >> 31
			m = 2 + int(n%6)
			for j := 0; j < 7; j++ {
				n /= 24
				k := pool[n%24]
				if k == nil {
					k = childKey(x, 7, uint32(n%24))
					pool[n%24] = k
				}
				if k != nil {
					keys = append(keys, k)
					l = append(l, uint32(n%24))
				}
			}
			return
		}
		return quest{
			func(n uint64) []byte {
				m, _, keys := of(n)
				return ref.Hash160(redeemBytes(m, keys))
			},
			func(c *C, n uint64) {
				m, l, keys := of(n)
				c.In("extended key", x.String())
				c.In("m", m)
				c.In("paths", fmt.Sprint(l))
				rs, err := newRS(c, m)
				c.Check(err == nil, "NewRedeemScript: %v", err)
				for _, a := range l {
					err := addKey(c, rs, x.String(), []uint32{7, a})
					c.Check(err == nil, "AddPublicKey: %v", err)
				}
				checkRS(c, "rare hash", rs, m, keys)
			},
		}
	},
}

// realHeaders are the first block and number 125552.
var realHeaders = []string{
	"0100000000000000000000000000000000000000000000000000000000000000000000003ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a29ab5f49ffff001d1dac2b7c",
	"0100000081cd02ab7e569e8bcd9317e2fe99f2de44d49ab2b8851ba4a308000000000000e320b6c2fffc8d750423db8b1eb942ae710e951ed797f7affc8892b0f1fc122bc7f5d74df2b9441a42a14695",
}

// realStage hashes real block headers: their hashes end with as many zeros as it
// took the world to find.
func realStage(id string) mon.Stage {
	return mon.Stage{Name: "real headers", Quick: len(realHeaders), Deep: len(realHeaders), NoGuide: true, Run: func(c *C) {
		h := unhex(realHeaders[c.Index])
		if d := ref.Sha256d(h); d[31]|d[30]|d[29]|d[28] == 0 {
			c.Hit("real header")
		}
		if id == "H01" {
			h01(c, h)
			return
		}
		b04Of(c, binary.LittleEndian.Uint32(h), h[4:36], h[36:68], h[68:72], h[72:76], h[76:])
	}}
}

// rareStage is the stage that checks arguments with rare hashes: those of the
// table, and those found with two bytes.
func rareStage(id string) mon.Stage {
	l := found[id]
	quick := 48
	if id == "M01" { // which takes longer
		quick = 24
	}
	return mon.Stage{Name: "rare hashes", Quick: quick + len(l), Deep: 4000, NoGuide: true, Run: func(c *C) {
		if c.Index < len(l) {
			f := l[c.Index]
			q := quests[id](tableR(id, f.seed))
			if rareEnds(q.digest(f.n), f.pat, f.z) { // or the table is out of date
				c.Hit("hash with three or more rare bytes")
			}
			q.check(c, f.n)
			return
		}
		q := quests[id](c.R)
		pat := c.R.N(nPats)
		n0 := c.R.U64() >> 20
		for n := n0; n < n0+1<<20; n++ {
			if rareEnds(q.digest(n), pat, 2) {
				q.check(c, n)
				c.Hit("hash with two rare bytes")
				return
			}
		}
	}}
}

// rareFound is an entry of the table.
type rareFound struct {
	seed uint64
	n    uint64
	pat  int
	z    int
}

// tableR is the generator of a quest with an entry in the table, which is to be
// the same quest when libsv's source has changed.
func tableR(id string, seed uint64) *R {
	r := mon.NewR(seed, mon.HashStr(id))
	r.Fixed = true
	return r
}

// grindMain looks for entries of the table: of a property, with z bytes.
func grindMain(a []string) {
	id := a[0]
	z, _ := strconv.Atoi(a[1])
	seeds, _ := strconv.Atoi(a[2])
	for seed := uint64(1); seed <= uint64(seeds); seed++ {
		for pat := 0; pat < 2; pat++ {
			var next, best atomic.Uint64
			best.Store(1 << 63)
			var wg sync.WaitGroup
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					q := quests[id](tableR(id, seed))
					for {
						n := next.Add(1<<16) - 1<<16
						if n >= best.Load() || n > 1<<35 {
							return
						}
						for k := n; k < n+1<<16; k++ {
							if rareEnds(q.digest(k), pat, z) {
								for b := best.Load(); k < b && !best.CompareAndSwap(b, k); b = best.Load() {
								}
								break
							}
						}
					}
				}()
			}
			wg.Wait()
			if n := best.Load(); n < 1<<63 {
				fmt.Printf("\t%q: {%d, %d, %d, %d},\n", id, seed, n, pat, z)
			} else {
				fmt.Fprintln(os.Stderr, "none", id, seed, pat)
			}
		}
	}
}
