package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/harness/mon"
	"verif/harness/ref"
)

type C = mon.C
type R = mon.R

// dict holds the literals of libsv's own source: values at which its code may
// decide something. They steer the workload and never the verdict.
type dictionary struct {
	ints []uint64
	strs []string
}

var dictOnce sync.Once
var dictVal dictionary

func dictOf(r *R) *dictionary {
	if r.Fixed {
		return &fixedDict
	}
	return dict()
}

func dict() *dictionary {
	dictOnce.Do(func() {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		ints := map[uint64]bool{}
		strs := map[string]bool{}
		filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			if d.IsDir() {
				if n := d.Name(); n == ".git" || n == "vendor" || n == "testdata" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Base(p) == "Opcodes.go" {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok {
					switch l.Kind {
					case token.INT:
						if v, err := strconv.ParseUint(strings.ReplaceAll(l.Value, "_", ""), 0, 64); err == nil {
							for _, w := range []uint64{v - 1, v, v + 1} {
								ints[w] = true
							}
						}
					case token.STRING:
						if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) <= 80 {
							strs[s] = true
						}
					case token.CHAR:
						if v, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
							ints[uint64(v)] = true
						}
					}
				}
				return true
			})
			return nil
		})
		for v := range ints {
			dictVal.ints = append(dictVal.ints, v)
		}
		sort.Slice(dictVal.ints, func(i, j int) bool { return dictVal.ints[i] < dictVal.ints[j] })
		for s := range strs {
			dictVal.strs = append(dictVal.strs, s)
		}
		sort.Strings(dictVal.strs)
		if len(dictVal.ints) == 0 {
			dictVal.ints = []uint64{0}
		}
		if len(dictVal.strs) == 0 {
			dictVal.strs = []string{"1"}
		}
	})
	return &dictVal
}

var edgeLens = []int{0, 0, 1, 1, 2, 3, 4, 19, 20, 21, 22, 23, 24, 25, 31, 32, 33, 34, 35, 63, 64, 65, 66, 67, 71, 72, 73, 74, 75, 76, 77, 78, 79, 99, 100, 101, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 260}

// genLen returns a length up to max, with a preference for those at which
// encodings change.
func genLen(r *R, max int) int {
	n := 0
	switch k := r.N(100); {
	case k < 40:
		n = r.N(81)
	case k < 70:
		n = edgeLens[r.N(len(edgeLens))]
	case k < 80:
		ints := dictOf(r).ints
		v := ints[r.N(len(ints))]
		if v > 1200 {
			v %= 600
		}
		n = int(v)
	case k < 92:
		n = r.N(601)
	case k < 98:
		n = 1<<r.N(13) + r.N(3) - 1
	default:
		n = r.N(3000)
	}
	if max >= 65540 && r.P(1) {
		n = r.In(65530, 65540)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

func genU32(r *R) uint32 {
	switch r.N(8) {
	case 0:
		return mon.Pick(r, uint32(0), 1, 2, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe, 0xffffffff)
	case 1:
		return 0xffffffff
	case 2:
		return uint32(r.N(300))
	case 3:
		ints := dictOf(r).ints
		return uint32(ints[r.N(len(ints))])
	case 4:
		return 1 << r.N(32)
	case 5:
		return uint32(r.N(256)) << (8 * r.N(4))
	}
	return r.U32()
}

func genU64(r *R) uint64 {
	switch r.N(8) {
	case 0:
		return mon.Pick(r, uint64(0), 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 2100000000000000)
	case 1:
		return uint64(r.N(100000))
	case 2:
		return uint64(r.U32())
	case 3:
		ints := dictOf(r).ints
		return ints[r.N(len(ints))]
	case 4:
		return 1<<r.N(64) + uint64(r.N(3)) - 1
	case 5:
		return uint64(r.N(256)) << (8 * r.N(8))
	}
	return r.U64()
}

// genBytes returns bytes of a given length, with a preference for contents that
// code may take for something else.
func genBytes(r *R, n int) []byte {
	b := r.Bytes(n)
	if n == 0 {
		return b
	}
	switch r.N(10) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // leading zeros
		for i := 0; i < n && i <= r.N(4); i++ {
			b[i] = 0
		}
	case 3: // trailing zeros
		for i := n - 1 - r.N(3); i < n; i++ {
			if i >= 0 {
				b[i] = 0
			}
		}
	case 4:
		b[0] = mon.Pick(r, byte(0x00), 0x6a, 0x4c, 0x4d, 0x4e, 0x76, 0xa9, 0xac, 0xae, 0x51, 0x60, 0x02, 0x03, 0x04, 0xfd, 0xfe, 0xff)
	case 5:
		b[n-1] = mon.Pick(r, byte(0x00), 0x87, 0xac, 0xae, 0x88, 0x52, 0x4c)
	case 6:
		for i := range b {
			b[i] = byte(i)
		}
	}
	return b
}

// genText returns text of about the given length.
func genText(r *R, n int) string {
	if r.P(15) {
		return textLike(r)
	}
	switch r.N(6) {
	case 0:
		return string(genBytes(r, n))
	case 1:
		d := dictOf(r).strs
		return d[r.N(len(d))]
	case 2:
		return strings.Repeat("é", n/2)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.In(32, 126))
	}
	return string(b)
}

// textLike is a text that reads as something else.
func textLike(r *R) string {
	switch r.N(12) {
	case 0, 1, 2:
		return mixCase(r, ref.Hex(r.Bytes(mon.Pick(r, 20, 32, 20, 33, 1, 4, 8, 65, 25, r.N(60)))))
	case 3:
		s, _ := genAddr(r)
		return s
	case 4:
		return fmt.Sprint(genU64(r))
	case 5:
		return "0x" + ref.Hex(r.Bytes(mon.Pick(r, 1, 4, 20, 32)))
	case 6:
		return base64.StdEncoding.EncodeToString(r.Bytes(mon.Pick(r, 1, 20, 32, r.N(60))))
	case 7:
		_, w := asmScript(r, r.In(1, 4))
		return strings.Join(w, " ")
	case 8:
		p, n, v, d := genBIP(r)
		return bip276(p, n, v, d)
	case 9:
		return mon.Pick(r, "%s%d%n", "%00", "\\x00", "&amp;", "\"quoted\"", "'", "{}", "[1]", "null", "true", "-1", "1e9", "", " ", "\n", "\t x \r\n", "\x00", "\ufeffx", "\u200b", "A\u0301", "\xff\xfe", "/x/", "..", "$HOME", "a,b;c|d")
	case 10:
		return " " + ref.Hex(r.Bytes(20)) + mon.Pick(r, " ", "\n", "")
	}
	return ref.Hex(genKeyBytes(r))
}

// genKeyBytes returns bytes that look like a public key.
func genKeyBytes(r *R) []byte {
	if r.P(25) { // a key that there is
		pt := genKey(r).pt
		switch r.N(4) {
		case 0:
			return pt.Uncompressed()
		case 1:
			b := pt.Uncompressed()
			b[0] = 6 + byte(pt.Y.Bit(0))
			return b
		}
		return pt.Compressed()
	}
	if r.P(70) {
		b := r.Bytes(33)
		b[0] = 2 + byte(r.N(2))
		return b
	}
	b := r.Bytes(65)
	b[0] = mon.Pick(r, byte(4), 6, 7)
	return b
}

// nonPushOps are the opcodes that are not pushes with data.
var nonPushOps = func() []byte {
	b := []byte{0}
	for i := 0x4f; i <= 0xff; i++ {
		b = append(b, byte(i))
	}
	return b
}()

func genMultisig(r *R) []byte {
	n := r.In(1, mon.Pick(r, 3, 3, 5, 16))
	m := r.In(1, n)
	s := []byte{0x50 + byte(m)}
	for i := 0; i < n; i++ {
		s = append(s, ref.Push(genKeyBytes(r))...)
	}
	return append(s, 0x50+byte(n), 0xae)
}

// genScript returns a script: a standard one, a sequence of opcodes and pushes,
// a near miss of a standard one, or any bytes.
func genScript(r *R, max int) []byte {
	var s []byte
	switch k := r.N(100); {
	case k < 6:
		return []byte{}
	case k < 30:
		s = ref.P2PKH(genBytes(r, 20))
	case k < 35:
		s = ref.Cat([]byte{0xa9, 0x14}, genBytes(r, 20), []byte{0x87})
	case k < 40:
		s = append(ref.Push(genKeyBytes(r)), 0xac)
	case k < 46:
		s = genMultisig(r)
	case k < 54:
		if r.Bool() {
			s = []byte{0x00}
		}
		s = append(s, 0x6a)
		for i := r.N(4); i > 0; i-- {
			s = append(s, ref.Push(genBytes(r, genLen(r, 300)))...)
		}
	case k < 74:
		for i := r.N(8); i > 0; i-- {
			if r.Bool() {
				s = append(s, nonPushOps[r.N(len(nonPushOps))])
			} else {
				s = append(s, ref.Push(genBytes(r, genLen(r, 300)))...)
			}
		}
	case k < 80: // signature scripts
		s = ref.Cat(ref.Push(r.Bytes(r.In(70, 73))), ref.Push(genKeyBytes(r)))
	default:
		s = genBytes(r, genLen(r, max))
	}
	if r.P(8) && len(s) > 0 { // a near miss
		switch r.N(4) {
		case 0:
			s = s[:len(s)-1]
		case 1:
			s = append(s, byte(r.U32()))
		case 2:
			s[r.N(len(s))] ^= 1 << r.N(8)
		case 3:
			s = s[1:]
		}
	}
	if len(s) > max {
		s = s[:max]
	}
	return s
}

func genHash(r *R) (h [32]byte) {
	switch r.N(12) {
	case 0: // zero
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	case 2:
		h[r.N(32)] = byte(r.U32())
	case 3: // as that of a block, or of a transaction one looked for
		r.Fill(h[:])
		n := r.In(1, 12)
		if r.Bool() {
			clear(h[:n])
		} else {
			clear(h[32-n:])
		}
	default:
		r.Fill(h[:])
	}
	return
}

func genIn(r *R, maxScript int) ref.In {
	in := ref.In{Hash: genHash(r), Vout: genU32(r), Seq: genU32(r), Script: genScript(r, maxScript)}
	if r.P(20) {
		in.Script = []byte{}
		in.NilScript = r.Bool()
	}
	in.HasPrev = true
	in.PrevScript = genScript(r, maxScript)
	in.PrevSats = genU64(r)
	return in
}

func genOut(r *R, maxScript int) ref.Out {
	return ref.Out{Sats: genU64(r), Script: genScript(r, maxScript)}
}

func genCount(r *R) int {
	switch r.N(10) {
	case 0:
		return 0
	case 1, 2, 3:
		return 1
	case 4, 5:
		return 2
	case 6:
		return r.In(3, 20)
	}
	return r.In(2, 6)
}

// genTx returns a transaction of moderate size.
func genTx(r *R) *ref.Tx {
	t := &ref.Tx{Version: genU32(r), Lock: genU32(r)}
	if r.P(40) {
		t.Version = uint32(r.In(1, 2))
	}
	if r.P(30) {
		t.Lock = 0
	}
	ni, no := genCount(r), genCount(r)
	ms := 400
	if r.P(3) {
		ms = 70000
	}
	if r.P(4) { // VarInt count boundaries
		ms = 8
		if r.Bool() {
			ni = r.In(250, 260)
		} else {
			no = r.In(250, 260)
		}
	}
	for i := 0; i < ni; i++ {
		in := genIn(r, ms)
		if i > 0 && r.P(15) { // share parts with an earlier input
			p := t.Ins[r.N(i)]
			switch r.N(7) {
			case 4:
				in.Hash, in.Vout = p.Hash, p.Vout
			case 5:
				in.PrevScript, in.PrevSats = append([]byte{}, p.PrevScript...), p.PrevSats
			case 6:
				in.Hash, in.Vout = p.Hash, p.Vout+1
			case 0:
				in = p
				in.Script = append([]byte{}, p.Script...)
				in.PrevScript = append([]byte{}, p.PrevScript...)
			case 1:
				in.Hash = p.Hash
			case 2:
				in.Seq = p.Seq
			case 3:
				in.Script, in.NilScript = append([]byte{}, p.Script...), p.NilScript
			}
		}
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < no; i++ {
		o := genOut(r, ms)
		if i > 0 && r.P(12) {
			p := t.Outs[r.N(i)]
			q := ref.Out{Sats: p.Sats, Script: append([]byte{}, p.Script...)}
			switch r.N(4) {
			case 0:
				q.Sats = o.Sats
			case 1:
				q.Script = o.Script
			}
			o = q
		}
		t.Outs = append(t.Outs, o)
	}
	return t
}

// mixCase changes the case of some letters of a hex string.
func mixCase(r *R, s string) string {
	switch r.N(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'f' && r.Bool() {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

// badHex returns text that is not hex (or not whole bytes).
func badHex(r *R, n int) string {
	if r.P(4) {
		n = r.N(mon.Pick(r, 300, 1000, 2100, 5000))
	}
	s := hex.EncodeToString(r.Bytes(n))
	switch r.N(8) {
	case 6: // something behind or in front
		if r.Bool() {
			return s + mon.Pick(r, tails...)
		}
		return mon.Pick(r, tails...) + s
	case 7: // near the end
		if len(s) > 1 {
			b := []byte(s)
			b[len(b)-1-r.N(min(len(b), 4))] = mon.Pick(r, byte('g'), 'G', ' ', '/', ':', '@', '`', '\n', 0, 0xff)
			return string(b)
		}
		return "/"
	case 0:
		return s + "0"
	case 1:
		return s + "g0"
	case 2:
		return " " + s + " "
	case 3:
		return "0x" + s
	case 4:
		if len(s) > 1 {
			b := []byte(s)
			b[r.N(len(b))] = mon.Pick(r, byte('g'), 'z', ' ', '-', '\n', 0, 0xff)
			return string(b)
		}
		return "z"
	}
	return s + "é"
}

// isHex tells whether s is hex of whole bytes.
func isHex(s string) bool {
	if len(s)%2 != 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// mutate damages bytes.
func mutate(r *R, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.In(1, 3); k > 0; k-- {
		switch op := r.N(9); {
		case len(b) == 0 || op == 0: // insert
			i := r.N(len(b) + 1)
			b = append(b[:i], append(r.Bytes(r.In(1, 4)), b[i:]...)...)
		case op == 1: // truncate
			b = b[:r.N(len(b))]
		case op == 2: // bit flip
			b[r.N(len(b))] ^= 1 << r.N(8)
		case op == 3: // byte
			b[r.N(len(b))] = mon.Pick(r, byte(0), 0xff, 0xfd, 0xfe, 0x7f, 0x80, 0x4c, 0x4d, 0x4e, 0x4b, byte(r.U32()))
		case op == 4: // delete
			i := r.N(len(b))
			j := i + r.In(1, 4)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i], b[j:]...)
		case op == 5: // duplicate a piece
			i := r.N(len(b))
			j := i + r.N(len(b)-i) + 1
			b = append(b[:j], b[i:]...)
		case op == 6: // large length
			i := r.N(len(b))
			v := mon.Pick(r, []byte{0xfe, 0xff, 0xff, 0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, []byte{0xfd, 0xff, 0xff}, []byte{0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, []byte{0x4e, 0xff, 0xff, 0xff, 0xff}, []byte{0x4d, 0xff, 0xff}, []byte{0xff, 0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})
			b = append(append(append([]byte{}, b[:i]...), v...), b[i+1:]...)
		case op == 7: // append
			b = append(b, r.Bytes(r.In(1, 9))...)
		case op == 8: // add to a byte
			b[r.N(len(b))] += byte(r.In(-3, 3))
		}
	}
	return b
}

// mutateText damages text.
func mutateText(r *R, s string, alphabet string) string {
	b := []byte(s)
	for k := r.In(1, 2); k > 0; k-- {
		ch := alphabet[r.N(len(alphabet))]
		if r.P(10) {
			ch = byte(r.U32())
		}
		i := 0
		if len(b) > 0 {
			i = r.N(len(b))
		}
		switch op := r.N(6); {
		case len(b) == 0 || op == 0:
			b = append(b[:i], append([]byte{ch}, b[i:]...)...)
		case op == 1:
			b = append(b[:i], b[i+1:]...)
		case op == 2 && len(b) > 1:
			j := r.N(len(b))
			b[i], b[j] = b[j], b[i]
		case op == 3:
			b = b[:i]
		case op == 4:
			b = append(b, ch)
		default:
			b[i] = ch
		}
	}
	return string(b)
}

// wide is x where an int holds it, else a number as near as can be.
func wide(x int64) int {
	return int(max(math.MinInt, min(math.MaxInt, x)))
}
