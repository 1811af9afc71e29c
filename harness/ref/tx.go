package ref

import (
	"encoding/binary"
	"encoding/hex"
)

func LE16(v uint16) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, v); return b }
func LE32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func LE64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }

func VarInt(v uint64) []byte {
	switch {
	case v <= 252:
		return []byte{byte(v)}
	case v <= 65535:
		return append([]byte{0xfd}, LE16(uint16(v))...)
	case v <= 4294967295:
		return append([]byte{0xfe}, LE32(uint32(v))...)
	}
	return append([]byte{0xff}, LE64(v)...)
}

// UnVarInt returns size 0 if b does not hold a complete VarInt.
func UnVarInt(b []byte) (v uint64, size int, canonical bool) {
	if len(b) == 0 {
		return
	}
	size = 1
	switch b[0] {
	case 0xfd:
		size = 3
	case 0xfe:
		size = 5
	case 0xff:
		size = 9
	}
	if len(b) < size {
		return 0, 0, false
	}
	if size == 1 {
		v = uint64(b[0])
	} else {
		for i := size - 1; i >= 1; i-- {
			v = v<<8 | uint64(b[i])
		}
	}
	return v, size, len(VarInt(v)) == size
}

// In is a transaction input; Hash is in internal byte order.
type In struct {
	Hash       [32]byte
	Vout       uint32
	Script     []byte
	NilScript  bool // the object under test has no unlocking script
	Seq        uint32
	PrevScript []byte
	HasPrev    bool
	PrevSats   uint64
}

func (i *In) TxID() string { return RevHex(i.Hash[:]) }

func (i *In) Encode(script []byte) []byte {
	return Cat(i.Hash[:], LE32(i.Vout), VarInt(uint64(len(script))), script, LE32(i.Seq))
}

type Out struct {
	Sats   uint64
	Script []byte
}

func (o *Out) Encode() []byte {
	return Cat(LE64(o.Sats), VarInt(uint64(len(o.Script))), o.Script)
}

type Tx struct {
	Version uint32
	Ins     []In
	Outs    []Out
	Lock    uint32
}

func (t *Tx) encode(script func(i int) []byte) []byte {
	b := LE32(t.Version)
	b = append(b, VarInt(uint64(len(t.Ins)))...)
	for i := range t.Ins {
		b = append(b, t.Ins[i].Encode(script(i))...)
	}
	b = append(b, VarInt(uint64(len(t.Outs)))...)
	for i := range t.Outs {
		b = append(b, t.Outs[i].Encode()...)
	}
	return append(b, LE32(t.Lock)...)
}

// Encode is the wire encoding.
func (t *Tx) Encode() []byte { return t.encode(func(i int) []byte { return t.Ins[i].Script }) }

// EncodeCleared is the encoding with script at index and empty scripts elsewhere.
func (t *Tx) EncodeCleared(index int, script []byte) []byte {
	return t.encode(func(i int) []byte {
		if i == index {
			return script
		}
		return nil
	})
}

// Size is about the number of bytes of all scripts.
func (t *Tx) Size() int {
	n := 0
	for i := range t.Ins {
		n += len(t.Ins[i].Script) + len(t.Ins[i].PrevScript)
	}
	for i := range t.Outs {
		n += len(t.Outs[i].Script)
	}
	return n
}

func (t *Tx) ID() string { return RevHex(Sha256d(t.Encode())) }

func (t *Tx) Clone() *Tx {
	c := &Tx{Version: t.Version, Lock: t.Lock}
	for _, i := range t.Ins {
		i.Script = append([]byte{}, i.Script...)
		i.PrevScript = append([]byte{}, i.PrevScript...)
		c.Ins = append(c.Ins, i)
	}
	for _, o := range t.Outs {
		o.Script = append([]byte{}, o.Script...)
		c.Outs = append(c.Outs, o)
	}
	return c
}

type rd struct {
	b         []byte
	canonical bool
	bad       bool
}

func (r *rd) take(n uint64) []byte {
	if r.bad || n > uint64(len(r.b)) {
		r.bad = true
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) u32() uint32 {
	if x := r.take(4); x != nil {
		return binary.LittleEndian.Uint32(x)
	}
	return 0
}

func (r *rd) u64() uint64 {
	if x := r.take(8); x != nil {
		return binary.LittleEndian.Uint64(x)
	}
	return 0
}

func (r *rd) vi() uint64 {
	if r.bad {
		return 0
	}
	v, n, c := UnVarInt(r.b)
	if n == 0 {
		r.bad = true
		return 0
	}
	r.b = r.b[n:]
	if !c {
		r.canonical = false
	}
	return v
}

func (r *rd) in() (i In) {
	copy(i.Hash[:], r.take(32))
	i.Vout = r.u32()
	i.Script = append([]byte{}, r.take(r.vi())...)
	i.Seq = r.u32()
	return
}

func (r *rd) out() (o Out) {
	o.Sats = r.u64()
	o.Script = append([]byte{}, r.take(r.vi())...)
	return
}

// UnIn parses one input at the start of b.
func UnIn(b []byte) (i In, size int, canonical, ok bool) {
	r := &rd{b: b, canonical: true}
	i = r.in()
	return i, len(b) - len(r.b), r.canonical, !r.bad
}

// UnOut parses one output at the start of b.
func UnOut(b []byte) (o Out, size int, canonical, ok bool) {
	r := &rd{b: b, canonical: true}
	o = r.out()
	return o, len(b) - len(r.b), r.canonical, !r.bad
}

// UnTx parses a complete transaction encoding.
func UnTx(b []byte) (t *Tx, canonical, ok bool) {
	r := &rd{b: b, canonical: true}
	t = &Tx{Version: r.u32()}
	for n := r.vi(); n > 0 && !r.bad; n-- {
		t.Ins = append(t.Ins, r.in())
	}
	for n := r.vi(); n > 0 && !r.bad; n-- {
		t.Outs = append(t.Outs, r.out())
	}
	t.Lock = r.u32()
	if r.bad || len(r.b) != 0 {
		return nil, false, false
	}
	return t, r.canonical, true
}

// SigPreimage is the preimage of the replay-protected digest of the input.
func (t *Tx) SigPreimage(n int, flag byte) []byte {
	zero := make([]byte, 32)
	base := flag & 0x1f
	acp := flag&0x80 != 0
	prevouts, seqs, outs := zero, zero, zero
	if !acp {
		var b []byte
		for i := range t.Ins {
			b = append(b, t.Ins[i].Hash[:]...)
			b = append(b, LE32(t.Ins[i].Vout)...)
		}
		prevouts = Sha256d(b)
	}
	if !acp && base != 2 && base != 3 {
		var b []byte
		for i := range t.Ins {
			b = append(b, LE32(t.Ins[i].Seq)...)
		}
		seqs = Sha256d(b)
	}
	switch {
	case base != 2 && base != 3:
		var b []byte
		for i := range t.Outs {
			b = append(b, t.Outs[i].Encode()...)
		}
		outs = Sha256d(b)
	case base == 3 && n < len(t.Outs):
		outs = Sha256d(t.Outs[n].Encode())
	}
	in := t.Ins[n]
	return Cat(LE32(t.Version), prevouts, seqs, in.Hash[:], LE32(in.Vout),
		VarInt(uint64(len(in.PrevScript))), in.PrevScript, LE64(in.PrevSats), LE32(in.Seq),
		outs, LE32(t.Lock), LE32(uint32(flag)))
}

// SigHash is in the (reversed) byte order libsv returns.
func (t *Tx) SigHash(n int, flag byte) []byte { return Rev(Sha256d(t.SigPreimage(n, flag))) }

// PushPrefix is the shortest length push for n bytes.
func PushPrefix(n int) []byte {
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 255:
		return []byte{0x4c, byte(n)}
	case n <= 65535:
		return append([]byte{0x4d}, LE16(uint16(n))...)
	}
	return append([]byte{0x4e}, LE32(uint32(n))...)
}

func Push(d []byte) []byte { return Cat(PushPrefix(len(d)), d) }

// Token is one element of a script; Push tells data pushes from opcodes.
type Token struct {
	Op    byte
	Push  bool
	Data  []byte
	Start int
	Size  int
}

// Tokens splits a script; ok is false if the last push is cut short, and the
// tokens are then those before it.
func Tokens(b []byte) (toks []Token, ok bool) {
	for i := 0; i < len(b); {
		op := b[i]
		var n int64 // whatever the size of int
		var hdr int
		switch {
		case op == 0 || op > 0x4e:
			toks = append(toks, Token{Op: op, Start: i, Size: 1})
			i++
			continue
		case op < 0x4c:
			n, hdr = int64(op), 1
		default:
			w := 1 << (op - 0x4c)
			hdr = 1 + w
			if len(b)-i < hdr {
				return toks, false
			}
			for k := w; k >= 1; k-- {
				n = n<<8 | int64(b[i+k])
			}
		}
		if int64(len(b)-i-hdr) < n {
			return toks, false
		}
		toks = append(toks, Token{Op: op, Push: true, Data: b[i+hdr : i+hdr+int(n)], Start: i, Size: hdr + int(n)})
		i += hdr + int(n)
	}
	return toks, true
}

// P2PKH is the standard locking script.
func P2PKH(hash []byte) []byte { return Cat([]byte{0x76, 0xa9, 0x14}, hash, []byte{0x88, 0xac}) }

func Hex(b []byte) string { return hex.EncodeToString(b) }

// MerkleLevels returns the levels of the tree from the leaves (internal byte
// order) to the root.
func MerkleLevels(leaves [][]byte) [][][]byte {
	lv := [][][]byte{leaves}
	for len(lv[len(lv)-1]) > 1 {
		cur := lv[len(lv)-1]
		var next [][]byte
		for i := 0; i < len(cur); i += 2 {
			r := cur[i]
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			next = append(next, Sha256d(Cat(cur[i], r)))
		}
		lv = append(lv, next)
	}
	return lv
}

// MerkleBranch returns the siblings on the way from leaf i to the root.
func MerkleBranch(lv [][][]byte, i int) (br [][]byte) {
	for l := 0; l < len(lv)-1; l++ {
		s := i ^ 1
		if s >= len(lv[l]) {
			s = i
		}
		br = append(br, lv[l][s])
		i >>= 1
	}
	return
}
