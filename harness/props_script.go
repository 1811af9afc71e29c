package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/harness/mon"
	"verif/harness/ref"
)

type Script = script.Script

func encodeParts(c *C, p [][]byte) ([]byte, error) {
	return mon.Do2(c, "script.EncodeParts", func() ([]byte, error) { return script.EncodeParts(p) })
}

func decodeParts(c *C, b []byte) ([][]byte, error) {
	return mon.Do2(c, "script.DecodeParts", func() ([][]byte, error) { return script.DecodeParts(b) })
}

func decodeHexParts(c *C, s string) ([][]byte, error) {
	return mon.Do2(c, "script.DecodeStringParts", func() ([][]byte, error) { return script.DecodeStringParts(s) })
}

func pushAll(parts [][]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, ref.Push(p)...)
	}
	return b
}

func partsStr(ps [][]byte) string {
	var s strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&s, "%x,", p)
	}
	return s.String()
}

func checkParts(c *C, what string, got, want [][]byte) {
	c.Cnt.Checks++
	if len(got) != len(want) {
		c.Fail("%s: %d parts instead of %d: got %s, want %s", what, len(got), len(want), mon.Show(got), mon.Show(want))
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			c.Fail("%s: part %d is %s instead of %s", what, i, mon.Show(got[i]), mon.Show(want[i]))
		}
	}
}

func c01(c *C, parts [][]byte) {
	for i, p := range parts {
		if i < 6 {
			c.In(fmt.Sprintf("part %d", i), p)
		}
	}
	c.In("number of parts", len(parts))
	g := nilParts(c, "parts", parts)
	want := pushAll(parts)
	got, err := encodeParts(c, g)
	c.Check(err == nil, "EncodeParts: %v", err)
	c.EqBytes("EncodeParts", got, want)
	if len(got) < 5000 {
		c.KeepBytes("script.EncodeParts", got)
	}
	for i, p := range g {
		if i >= 4 {
			break
		}
		pre, err := mon.Do2(c, "script.GetPushDataPrefix", func() ([]byte, error) { return script.GetPushDataPrefix(p) })
		c.Check(err == nil, "GetPushDataPrefix of %d bytes: %v", len(p), err)
		c.EqBytes(fmt.Sprintf("GetPushDataPrefix of %d bytes", len(p)), pre, ref.PushPrefix(len(p)))
		c.KeepBytes("script.GetPushDataPrefix", pre)
	}
	s := &Script{}
	err = mon.DoErr(c, "Script.AppendPushDataArray", func() error { return s.AppendPushDataArray(g) })
	c.Check(err == nil, "AppendPushDataArray: %v", err)
	c.EqBytes("AppendPushDataArray", *s, want)
	var nonEmpty [][]byte
	for _, p := range parts {
		if len(p) > 0 {
			nonEmpty = append(nonEmpty, p)
		}
	}
	if len(nonEmpty) != len(parts) {
		c.Hit("list with empty parts")
		got, err = encodeParts(c, nonEmpty)
		c.Check(err == nil, "EncodeParts: %v", err)
	}
	gb := c.Buf("encoded parts", got)
	dec, err := decodeParts(c, gb)
	c.Check(err == nil, "DecodeParts of encoded parts: %v", err)
	checkParts(c, "DecodeParts of encoded parts", dec, nonEmpty)
	hs := c.Str("encoded parts in hex", mixCase(c.R, ref.Hex(got)))
	dec, err = decodeHexParts(c, hs)
	c.Check(err == nil, "DecodeStringParts of encoded parts: %v", err)
	checkParts(c, "DecodeStringParts of encoded parts", dec, nonEmpty)
	if len(got) < 5000 {
		c.Keep("script.DecodeStringParts", func() string { return partsStr(dec) })
	}
	// script and its append of one part
	if len(parts) > 0 {
		c.ClearWatches()
		s := &Script{}
		err := mon.DoErr(c, "Script.AppendPushData", func() error { return s.AppendPushData(parts[0]) })
		c.Check(err == nil, "AppendPushData: %v", err)
		c.EqBytes("AppendPushData", *s, ref.Push(parts[0]))
	}
}

// c01Overlap encodes parts that lie in one piece of memory: beginning or ending at
// the same place, next to each other, overlapping, or the same slice again.
func c01Overlap(c *C) {
	r := c.R
	d := c.Buf("memory", r.Bytes(mon.Pick(r, 3, 20, 100, 300, 600)))
	var ps, cp [][]byte
	i, j := 0, len(d)
	for k := r.In(2, 7); k > 0; k-- {
		switch r.N(6) {
		case 0: // the same beginning
			j = r.In(i, len(d))
		case 1: // the same end
			i = r.N(j + 1)
		case 2: // behind the last
			i, j = j, r.In(j, len(d))
		case 3:
			i = r.N(len(d))
			j = r.In(i, len(d))
		case 4: // around the limits of the prefixes
			i = mon.Pick(r, 0, 0, i)
			j = min(len(d), i+mon.Pick(r, 1, 75, 76, 77, 254, 255, 256, 257))
		}
		c.In("part", fmt.Sprint(i, j))
		ps = append(ps, d[i:j])
		cp = append(cp, append([]byte{}, d[i:j]...))
	}
	c.In("memory", append([]byte{}, d...))
	want := pushAll(cp)
	got, err := encodeParts(c, ps)
	c.Check(err == nil, "EncodeParts: %v", err)
	c.EqBytes("EncodeParts of parts in one piece of memory", got, want)
	s := &Script{}
	err = mon.DoErr(c, "Script.AppendPushDataArray", func() error { return s.AppendPushDataArray(ps) })
	c.Check(err == nil, "AppendPushDataArray: %v", err)
	c.EqBytes("AppendPushDataArray of parts in one piece of memory", *s, want)
	o, err := mon.Do2(c, "output.NewOpReturnParts", func() (*output.Output, error) { return output.NewOpReturnParts(ps) })
	c.Check(err == nil, "NewOpReturnParts: %v", err)
	c.EqBytes("NewOpReturnParts of parts in one piece of memory", *o.LockingScript, ref.Cat([]byte{0, 0x6a}, want))
	s = &Script{}
	for _, p := range ps {
		err = mon.DoErr(c, "Script.AppendPushData", func() error { return s.AppendPushData(p) })
		c.Check(err == nil, "AppendPushData: %v", err)
	}
	c.EqBytes("AppendPushData of parts in one piece of memory", *s, want)
	c.Hit("parts in one piece of memory")
}

// tokensOf lists what a decoder has to return.
func tokensOf(b []byte) ([][]byte, bool) {
	toks, ok := ref.Tokens(b)
	var ps [][]byte
	for _, t := range toks {
		if t.Push {
			ps = append(ps, t.Data)
		} else {
			ps = append(ps, []byte{t.Op})
		}
	}
	return ps, ok
}

func c02One(c *C, b []byte, guarded bool) {
	g := b
	if guarded {
		g = c.Buf("script", b)
	}
	want, ok := tokensOf(b)
	got, err := decodeParts(c, g)
	if ok {
		c.Check(err == nil, "DecodeParts rejects a complete script: %v", err)
	} else {
		c.Hit("truncated script")
		c.Check(err != nil, "DecodeParts accepts the truncated script %s", mon.Show(b))
	}
	checkParts(c, "DecodeParts of "+mon.Show(b), got, want)
}

// largeScript has thousands of opcodes and pushes, of all kinds or of one.
func largeScript(c *C) []byte {
	r := c.R
	n := largeCount(r, 100000)
	c.In("elements", n)
	c.In("seed", r.U64())
	var b []byte
	switch r.N(4) {
	case 0: // opcodes only
		for ; n > 0; n-- {
			b = append(b, nonPushOps[r.N(len(nonPushOps))])
		}
	case 1: // pushes only
		for ; n > 0; n-- {
			b = append(b, ref.Push(r.Bytes(r.In(1, 4)))...)
		}
	case 2:
		for len(b) < n {
			b = append(b, genOps(r)...)
		}
	default:
		b = r.Bytes(n)
	}
	if r.P(20) {
		b = append(b, mon.Pick(r, []byte{0x4e, 0, 0, 1, 0}, []byte{0x4d, 0xff}, []byte{0x20, 1, 2}, []byte{0x4c})...)
	}
	return b
}

func c02(c *C, b []byte) {
	c.In("script", b)
	c02One(c, b, true)
	h := c.Str("script in hex", mixCase(c.R, ref.Hex(b)))
	want, ok := tokensOf(b)
	got, err := decodeHexParts(c, h)
	c.Check(ok == (err == nil), "DecodeStringParts: complete %v, error %v", ok, err)
	checkParts(c, "DecodeStringParts", got, want)
	if len(b) < 4000 {
		c.Keep("script.DecodeStringParts", func() string { return partsStr(got) })
	}
	if c.R.P(30) {
		bad := badHex(c.R, c.R.N(30))
		if c.R.P(50) && len(h) > 0 {
			bad = mutateText(c.R, h, "ghxyz -\n")
		}
		if !isHex(bad) {
			c.Hit("text that is not hex")
			bs := c.Str("bad hex", bad)
			_, err := decodeHexParts(c, bs)
			c.Check(err != nil, "DecodeStringParts accepts %q", bad)
		}
	}
}

// genOps is a script with all kinds of pushes, minimal or not, cut short or not.
func genOps(r *R) []byte {
	var b []byte
	for k := r.N(8); k > 0; k-- {
		switch r.N(6) {
		case 0:
			b = append(b, nonPushOps[r.N(len(nonPushOps))])
		case 1, 2:
			b = append(b, ref.Push(genBytes(r, genLen(r, 400)))...)
		case 3:
			d := genBytes(r, genLen(r, 255))
			b = append(append(b, 0x4c, byte(len(d))), d...)
		case 4:
			d := genBytes(r, genLen(r, 700))
			b = append(append(append(b, 0x4d), ref.LE16(uint16(len(d)))...), d...)
		case 5:
			d := genBytes(r, genLen(r, 700))
			b = append(append(append(b, 0x4e), ref.LE32(uint32(len(d)))...), d...)
		}
	}
	switch r.N(4) {
	case 0:
		if len(b) > 0 {
			b = b[:r.N(len(b))]
		}
	case 1:
		b = append(b, mon.Pick(r, []byte{0x4c}, []byte{0x4d}, []byte{0x4d, 5}, []byte{0x4e}, []byte{0x4e, 1, 0, 0}, []byte{0x4c, 0}, []byte{0x4d, 0, 0}, []byte{0x4e, 0, 0, 0, 0}, []byte{0x4e, 0xff, 0xff, 0xff, 0xff}, []byte{0x4e, 0xff, 0xff, 0xff, 0x7f}, []byte{0x4e, 0, 0, 0, 0x80}, []byte{0x4d, 0xff, 0xff}, []byte{0x4c, 0xff}, []byte{0x4e, 0xfa, 0xff, 0xff, 0xff, 1, 2, 3}, []byte{0x4b}, []byte{1})...)
	}
	return b
}

// asmScript returns a script of non-push opcodes and minimal pushes of non-empty
// data, and its parts.
func asmScript(r *R, n int) (s []byte, asm []string) {
	for ; n > 0; n-- {
		if r.P(45) {
			op := nonPushOps[r.N(len(nonPushOps))]
			s = append(s, op)
			names := ref.OpNamesOf[op]
			asm = append(asm, names[r.N(len(names))])
		} else {
			d := genBytes(r, max(1, mon.Pick(r, 1, 1, 2, 20, 32, 33, genLen(r, 300))))
			s = append(s, ref.Push(d)...)
			asm = append(asm, mixCase(r, ref.Hex(d)))
		}
	}
	return
}

func toASM(c *C, s *Script) (string, error) { return mon.Do2(c, "Script.ToASM", s.ToASM) }
func fromASM(c *C, s string) (*Script, error) {
	return mon.Do2(c, "script.NewFromASM", func() (*Script, error) { return script.NewFromASM(s) })
}

func c03Round(c *C, b []byte) {
	s := scr(b)
	c.Watch("the script", func() string { return sstr(s) })
	asm, err := toASM(c, s)
	c.Check(err == nil, "ToASM: %v", err)
	back, err := fromASM(c, c.Str("assembly", asm))
	c.Check(err == nil, "NewFromASM rejects the text of a script: %v (%s)", err, mon.Show(asm))
	c.EqBytes("script, through assembly text "+mon.Show(asm), *back, b)
	// every word stands for its own part
	words := strings.Fields(asm)
	toks, _ := ref.Tokens(b)
	mon.Eq(c, "number of words in "+mon.Show(asm), len(words), len(toks))
	for i, t := range toks {
		if t.Push {
			mon.Eq(c, "word for data", strings.ToLower(words[i]), ref.Hex(t.Data))
			if len(t.Data) == 1 {
				c.Hit("data of one byte")
			}
		} else {
			v, ok := ref.OpNames[words[i]]
			c.Check(ok && v == t.Op, "ToASM writes opcode %02x as %q", t.Op, words[i])
		}
	}
}

func c03(c *C) {
	r := c.R
	b, asm := asmScript(r, mon.Pick(r, 0, 1, 1, 2, 3, r.In(2, 12), 40))
	c.In("script", b)
	c03Round(c, b)
	// hand-written text, with aliases and in either case
	text := strings.Join(asm, " ")
	c.In("text", text)
	s, err := fromASM(c, c.Str("text", text))
	c.Check(err == nil, "NewFromASM rejects %s: %v", mon.Show(text), err)
	c.EqBytes("NewFromASM of "+mon.Show(text), *s, b)
	c.KeepBytes("script.NewFromASM", *s)
	// a script that ends inside a push
	if r.P(30) {
		d := r.Bytes(r.In(1, 300))
		p := ref.Push(d)
		bad := ref.Cat(b, p[:r.In(1, len(p)-1)])
		if _, ok := ref.Tokens(bad); !ok {
			c.In("cut off", bad)
			_, err := toASM(c, scr(bad))
			c.Check(err != nil, "ToASM has a text for a script that ends inside a push")
			c.Hit("cut off")
		}
	}
	// a word that is neither name nor hex
	k := 0
	for k < 3 {
		k++
		w := badWord(r)
		ws := append(append([]string{}, asm...), "")
		i := r.N(len(ws))
		copy(ws[i+1:], ws[i:])
		ws[i] = w
		bad := strings.Join(ws, " ")
		c.Hit("bad word")
		_, err := fromASM(c, c.Str("bad text", bad))
		c.Check(err != nil, "NewFromASM accepts the word %q in %s", w, mon.Show(bad))
	}
}

// badWord is a word that is neither an opcode name nor hex of whole bytes.
func badWord(r *R) string {
	for {
		var w string
		names := ref.OpNamesOf[r.N(256)]
		n := names[r.N(len(names))]
		switch r.N(9) {
		case 0:
			w = ref.Hex(r.Bytes(r.In(1, 20)))[1:]
		case 1:
			w = strings.ToLower(n)
		case 2:
			w = strings.TrimPrefix(n, "OP_")
		case 3:
			w = n + mon.Pick(r, "X", "_", "1", "0", ",", ";")
		case 4:
			w = n[:len(n)-1]
		case 5:
			w = mutateText(r, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
		case 6:
			w = mon.Pick(r, "0", "1", "-1", "0x00", "OP", "OP_", "<01>", "'a'", "OP_DATA_76", "OP_DATA_0", "OP_17", "OP_NOP0", "OP_NOP11", "OP_PUSHDATA3", "OP_UNKNOWN185", "OP_UNKNOWN250", "é")
		case 7:
			w = "0x" + ref.Hex(r.Bytes(r.In(1, 20)))
		case 8:
			w = mutateText(r, ref.Hex(r.Bytes(r.In(1, 20))), "ghijklmnopqrstuvwxyzOIl_-")
		}
		if _, ok := ref.OpNames[w]; ok || w == "" || isHex(w) || len(strings.Fields(w)) != 1 || strings.Fields(w)[0] != w {
			continue
		}
		return w
	}
}

func c03Hex(c *C) {
	r := c.R
	b := genScript(r, 3000)
	c.In("bytes", b)
	h := mixCase(r, ref.Hex(b))
	s, err := mon.Do2(c, "script.NewFromHexString", func() (*Script, error) { return script.NewFromHexString(c.Str("hex", h)) })
	c.Check(err == nil, "NewFromHexString rejects %s: %v", mon.Show(h), err)
	c.EqBytes("NewFromHexString", *s, b)
	mon.Eq(c, "ToString", mon.Do(c, "Script.ToString", s.ToString), ref.Hex(b))
	c.Keep("script.NewFromHexString", func() string { return sstr(s) })
	g := c.Buf("bytes", b)
	s2 := mon.Do(c, "script.NewFromBytes", func() *Script { return script.NewFromBytes(g) })
	c.EqBytes("NewFromBytes", *s2, b)
	mon.Eq(c, "ToString", mon.Do(c, "Script.ToString", s2.ToString), ref.Hex(b))
	bad := badHex(r, r.N(40))
	if !isHex(bad) {
		_, err = mon.Do2(c, "script.NewFromHexString", func() (*Script, error) { return script.NewFromHexString(bad) })
		c.Check(err != nil, "NewFromHexString accepts %q", bad)
	}
}

// class is what the property says about a script: 1 yes, 0 no, -1 neither.
type class struct{ p2pkh, p2pk, p2sh, data, multisig int }

func isKeyData(d []byte) bool {
	return len(d) == 33 && (d[0] == 2 || d[0] == 3) || len(d) == 65 && (d[0] == 4 || d[0] == 6 || d[0] == 7)
}

func smallInt(op byte) bool { return op == 0 || op >= 0x51 && op <= 0x60 }

func classify(b []byte) (k class) {
	toks, ok := ref.Tokens(b)
	n := len(b)
	if n == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 0x14 && b[23] == 0x88 && b[24] == 0xac {
		k.p2pkh = 1
	}
	if n == 23 && b[0] == 0xa9 && b[1] == 0x14 && b[22] == 0x87 {
		k.p2sh = 1
	}
	if n > 0 && b[0] == 0x6a || n > 1 && b[0] == 0 && b[1] == 0x6a {
		k.data = 1
	}
	if ok && len(toks) == 2 && toks[0].Push && isKeyData(toks[0].Data) && toks[1].Op == 0xac && !toks[1].Push {
		k.p2pk = -1
		if toks[0].Op < 0x4c {
			k.p2pk = 1
		}
	}
	if ok && len(toks) >= 3 {
		first, last, num := toks[0], toks[len(toks)-1], toks[len(toks)-2]
		if !first.Push && smallInt(first.Op) && !last.Push && last.Op == 0xae && !num.Push && smallInt(num.Op) {
			keys := toks[1 : len(toks)-2]
			pushes, pubs := true, len(keys) > 0
			for _, t := range keys {
				if !t.Push || len(t.Data) == 0 {
					pushes = false
				}
				if !t.Push || t.Op >= 0x4c || !isKeyData(t.Data) {
					pubs = false
				}
			}
			if pushes {
				k.multisig = -1
				m, n := max(int(first.Op)-0x50, 0), int(num.Op)-0x50
				if pubs && m <= n && n == len(keys) {
					k.multisig = 1
				}
			}
		}
	}
	return
}

func c04Check(c *C, b []byte, s *Script) {
	k := classify(b)
	for _, q := range []struct {
		name string
		want int
		f    func() bool
	}{
		{"IsP2PKH", k.p2pkh, s.IsP2PKH}, {"IsP2SH", k.p2sh, s.IsP2SH}, {"IsData", k.data, s.IsData}, {"IsP2PK", k.p2pk, s.IsP2PK}, {"IsMultisigOut", k.multisig, s.IsMultisigOut},
	} {
		got := mon.Do(c, "Script."+q.name, q.f)
		if q.want >= 0 {
			c.Check(got == (q.want == 1), "%s is %v for %s", q.name, got, mon.Show(b))
		}
		if got {
			c.Hit(q.name + " is true")
		}
	}
}

// genClass makes scripts at and near the borders of the classes.
func genClass(r *R) []byte {
	var b []byte
	h := genBytes(r, 20)
	key := genKeyBytes(r)
	switch r.N(12) {
	case 0:
		b = ref.P2PKH(h)
	case 1:
		b = ref.Cat([]byte{0xa9, 0x14}, h, []byte{0x87})
	case 2:
		b = append(ref.Push(key), 0xac)
	case 3:
		b = genMultisig(r)
		if r.P(10) {
			b[0] = 0
		}
	case 4:
		b = ref.Cat(mon.Pick(r, []byte{}, []byte{0}, []byte{0, 0}, []byte{0x51}, []byte{1, 0}, []byte{0x4c, 0}), []byte{0x6a}, genBytes(r, r.N(40)))
	case 5: // keys with wrong prefixes and lengths, data around them
		key[0] = byte(r.N(9))
		b = append(ref.Push(key), 0xac)
		if r.Bool() {
			b = append(ref.Push(r.Bytes(r.In(30, 67))), 0xac)
			b[1] = mon.Pick(r, byte(2), 3, 4, 6, 7)
		}
	case 6: // pushes that end in what looks like the opcode
		d := genBytes(r, mon.Pick(r, 34, 66, r.In(1, 80)))
		d[len(d)-1] = mon.Pick(r, byte(0xac), 0xae)
		b = ref.Push(d)
		if r.Bool() {
			b = append([]byte{0x51 + byte(r.N(3))}, b...)
		}
		if r.Bool() && len(d) > 1 {
			d[len(d)-2] = 0x51 + byte(r.N(3))
			b = append([]byte{0x51}, ref.Push(d)...)
		}
	case 7: // multisig with other numbers, opcodes among the keys, empty pushes
		b = []byte{mon.Pick(r, byte(0), 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 1)}
		for i := r.N(4); i > 0; i-- {
			b = append(b, mon.Pick(r, ref.Push(key), ref.Push(genBytes(r, r.In(1, 90))), []byte{0x4c, 0}, []byte{nonPushOps[r.N(len(nonPushOps))]}, []byte{0x4d, 0, 0}, []byte{0x4c, 1, 7})...)
		}
		b = append(b, mon.Pick(r, byte(0), 0x4f, 0x50, 0x51, 0x52, 0x60, 0x61, 1), mon.Pick(r, byte(0xae), 0xae, 0xae, 0xac, 0xaf))
	case 8: // pushes in other forms
		b = ref.Cat([]byte{0x4c, byte(len(key))}, key, []byte{0xac})
		if r.Bool() {
			b = ref.Cat([]byte{0x76, 0xa9, 0x4c, 0x14}, h, []byte{0x88, 0xac})
		}
		if r.P(25) {
			b = ref.Cat([]byte{0xa9, 0x4c, 0x14}, h, []byte{0x87})
		}
	case 9: // near in length
		b = ref.Cat([]byte{0x76, 0xa9, 0x13}, h[:19], []byte{0x88, 0xac})
		if r.Bool() {
			b = ref.Cat([]byte{0x76, 0xa9, 0x15}, h, []byte{1, 0x88, 0xac})
		}
	case 10:
		b = genBytes(r, r.N(6))
	case 11:
		return genScript(r, 600)
	}
	if r.P(45) && len(b) > 0 {
		switch r.N(5) {
		case 0:
			b = b[:r.N(len(b))]
		case 1:
			b[r.N(len(b))] ^= 1 << r.N(8)
		case 2:
			i := mon.Pick(r, 0, 1, 2, len(b)-1, len(b)-2, len(b)-3)
			if i >= 0 && i < len(b) {
				b[i] = mon.Pick(r, byte(0), 0x13, 0x14, 0x15, 0x51, 0x60, 0x61, 0x6a, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xae, 0xaf, b[i]+1, b[i]-1)
			}
		case 3:
			b = append(b, mon.Pick(r, byte(0), 0x61, 0xac, 0xae, 0x87, byte(r.U32())))
		case 4:
			b = append([]byte{mon.Pick(r, byte(0), 0x61, 0x51, 0x76, 0x6a, byte(r.U32()))}, b...)
		}
	}
	return b
}

// c04Lengths puts a push of a length that follows from the case's number into each
// place of a standard script.
func c04Lengths(c *C) {
	r := c.R
	var base [][]byte
	switch k := genKeyBytes(r); c.Index % 4 {
	case 0:
		base = [][]byte{ref.Push(k), {0xac}}
	case 1:
		base = [][]byte{{0x76}, {0xa9}, ref.Push(r.Bytes(20)), {0x88}, {0xac}}
	case 2:
		base = [][]byte{{0xa9}, ref.Push(r.Bytes(20)), {0x87}}
	case 3:
		base = [][]byte{{0x51}, ref.Push(k), {0x51}, {0xae}}
	}
	n := c.Index / 4 % 150
	extra := ref.Push(r.Bytes(n))
	if n == 0 {
		extra = []byte{0}
	}
	for i := range base {
		for _, ts := range [][][]byte{
			append(append(append([][]byte{}, base[:i]...), extra), base[i:]...),
			append(append(append([][]byte{}, base[:i]...), extra), base[i+1:]...),
			append(append(append([][]byte{}, base[:i+1]...), []byte{0x51}, extra), base[i+1:]...),
		} {
			b := ref.Cat(ts...)
			c.In("script", b)
			s := Script(b)
			c04Check(c, b, &s)
		}
	}
	c.Hit("push put in")
}

// c04Tokens takes a standard script and puts in, takes away or replaces one or two
// of its opcodes and pushes.
func c04Tokens(c *C) {
	r := c.R
	var base [][]byte
	op := func(ops ...byte) {
		for _, o := range ops {
			base = append(base, []byte{o})
		}
	}
	push := func(b []byte) { base = append(base, ref.Push(b)) }
	switch c.Index % 6 {
	case 0:
		op(0x76, 0xa9)
		push(r.Bytes(20))
		op(0x88, 0xac)
	case 1:
		op(0xa9)
		push(r.Bytes(20))
		op(0x87)
	case 2, 3:
		push(genKeyBytes(r))
		op(0xac)
	case 4:
		n := r.In(1, 4)
		op(byte(0x50 + r.In(1, n)))
		for i := 0; i < n; i++ {
			push(genKeyBytes(r))
		}
		op(byte(0x50+n), 0xae)
	case 5:
		op(0, 0x6a)
		push(r.Bytes(r.In(1, 30)))
	}
	token := func() []byte {
		switch r.N(8) {
		case 0:
			return []byte{nonPushOps[r.N(len(nonPushOps))]}
		case 1:
			return base[r.N(len(base))]
		case 2:
			return ref.Push(genKeyBytes(r))
		case 3:
			return mon.Pick(r, []byte{0x4c, 0}, []byte{0x4d, 0, 0}, []byte{0x4e, 0, 0, 0, 0}, []byte{0}, []byte{0x51}, []byte{0x61})
		}
		return ref.Push(r.Bytes(r.In(1, 80)))
	}
	for v := 0; v < 80; v++ {
		ts := append([][]byte{}, base...)
		for k := r.In(1, 2); k > 0; k-- {
			i, t := r.N(len(ts)+1), token()
			switch {
			case r.P(60) || i == len(ts):
				ts = append(ts[:i:i], append([][]byte{t}, ts[i:]...)...)
			case r.Bool():
				ts[i] = t
			default:
				ts = append(ts[:i:i], ts[i+1:]...)
			}
		}
		b := ref.Cat(ts...)
		c.In("script", b)
		s := Script(b)
		c04Check(c, b, &s)
	}
	c.Hit("token changed")
}

// spoil overwrites a script that was returned, and the capacity behind it, as a
// caller who goes on to use the memory would.
func spoil(r *R, s *Script) {
	b := []byte(*s)
	b = b[:cap(b)]
	x := byte(r.In(1, 255))
	for i := range b {
		b[i] ^= x
	}
	switch r.N(3) {
	case 0:
		*s = nil
	case 1:
		*s = append((*s)[:len(*s)/2], b...)
	}
}

func c05(c *C) {
	r := c.R
	pub := genKeyBytes(r)
	if r.Bool() {
		pub = genKey(r).pub
	}
	c05Of(c, pub, genBytes(r, 20), genText(r, genLen(r, 400)))
}

// c05Of makes locking scripts for a public key, a hash, and the hash and a secret.
func c05Of(c *C, pub, pkh []byte, secret string) {
	r := c.R
	c.In("public key", pub)
	h := ref.Hash160(pub)
	want := ref.P2PKH(h)
	same := func(what string, f func() (*Script, error)) {
		for pass := 0; pass < 2; pass++ {
			s, err := mon.Do2(c, "script."+what, f)
			c.Check(err == nil && s != nil, "%s: %v", what, err)
			c.EqBytes(what, *s, want)
			gh, err := mon.Do2(c, "Script.GetPublicKeyHash", s.GetPublicKeyHash)
			c.Check(err == nil, "GetPublicKeyHash: %v", err)
			c.EqBytes("GetPublicKeyHash", gh, want[3:23])
			if pass == 1 || r.P(60) {
				c.KeepBytes(what, *s)
				return
			}
			// the script is the caller's, who changes it and asks again
			spoil(r, s)
			for i := range gh {
				gh[i] ^= 0x5a
			}
			c.Hit("asked again after changing the result")
		}
	}
	same("NewP2PKHFromPubKeyBytes", func() (*Script, error) { return script.NewP2PKHFromPubKeyBytes(c.Buf("key", pub)) })
	same("NewP2PKHFromPubKeyStr", func() (*Script, error) {
		return script.NewP2PKHFromPubKeyStr(c.Str("key", mixCase(r, ref.Hex(pub))))
	})
	main := r.Bool()
	a, err := mon.Do2(c, "address.NewFromPublicKeyString", func() (*address.Address, error) { return address.NewFromPublicKeyString(ref.Hex(pub), main) })
	c.Check(err == nil, "NewFromPublicKeyString: %v", err)
	same("NewP2PKHFromAddress", func() (*Script, error) { return script.NewP2PKHFromAddress(a.AddressString) })
	same("NewP2PKHFromPubKeyHashStr", func() (*Script, error) {
		return script.NewP2PKHFromPubKeyHashStr(c.Str("hash", mixCase(r, ref.Hex(h))))
	})

	// any hash
	h = pkh
	c.In("hash", h)
	want = ref.P2PKH(h)
	addr := ref.Base58Check(append([]byte{mon.Pick(r, byte(0), 0x6f)}, h...))
	same("NewP2PKHFromPubKeyHashStr", func() (*Script, error) { return script.NewP2PKHFromPubKeyHashStr(ref.Hex(h)) })
	same("NewP2PKHFromAddress", func() (*Script, error) { return script.NewP2PKHFromAddress(c.Str("address", addr)) })
	sats := genU64(r)
	c.In("satoshis", sats)
	out := func(what string, sats uint64, want []byte, f func() (*output.Output, error)) {
		for pass := 0; pass < 2; pass++ {
			o, err := mon.Do2(c, "output."+what, f)
			c.Check(err == nil && o != nil && o.LockingScript != nil, "%s: %v", what, err)
			mon.Eq(c, what+": satoshis", o.Satoshis, sats)
			c.EqBytes(what, *o.LockingScript, want)
			mon.Eq(c, what+": GetLockingScriptHexString", mon.Do(c, "Output.GetLockingScriptHexString", o.GetLockingScriptHexString), ref.Hex(want))
			if pass == 1 || r.P(60) {
				c.Keep(what, func() string { return dumpOut(o) })
				return
			}
			spoil(r, o.LockingScript)
			o.Satoshis = ^o.Satoshis
		}
	}
	out("NewP2PkhFromPubKeyHash", sats, want, func() (*output.Output, error) {
		return output.NewP2PkhFromPubKeyHash(c.Str("hash", mixCase(r, ref.Hex(h))), sats)
	})
	out("NewP2PKHFromAddress", sats, want, func() (*output.Output, error) { return output.NewP2PKHFromAddress(addr, sats) })
	c.In("secret", secret)
	out("NewHashPuzzle", sats, ref.Cat([]byte{0xa9, 0x14}, ref.Hash160([]byte(secret)), []byte{0x88}, want), func() (*output.Output, error) {
		return output.NewHashPuzzle(c.Str("secret", secret), mixCase(r, ref.Hex(h)), sats)
	})
	c05Data(c, genParts(r, 5))
}

func genParts(r *R, n int) [][]byte {
	var parts [][]byte
	for k := r.N(n + 1); k > 0; k-- {
		parts = append(parts, genBytes(r, genLen(r, 500)))
	}
	return parts
}

// nilParts guards the parts, some of those without bytes as nil.
func nilParts(c *C, name string, parts [][]byte) [][]byte {
	l := append([][]byte{}, parts...)
	for i := range l {
		if len(l[i]) == 0 && c.R.Bool() {
			l[i] = nil
			c.Hit("nil part")
		}
	}
	return c.Bufs(name, l)
}

func c05Data(c *C, parts [][]byte) {
	for i, p := range parts {
		if i < 6 {
			c.In("data", p)
		}
	}
	g := nilParts(c, "data parts", parts)
	o, err := mon.Do2(c, "output.NewOpReturnParts", func() (*output.Output, error) { return output.NewOpReturnParts(g) })
	c.Check(err == nil, "NewOpReturnParts: %v", err)
	mon.Eq(c, "NewOpReturnParts: satoshis", o.Satoshis, uint64(0))
	c.EqBytes("NewOpReturnParts", sbytes(o.LockingScript), ref.Cat([]byte{0, 0x6a}, pushAll(parts)))
	if len(parts) > 0 {
		o, err := mon.Do2(c, "output.NewOpReturn", func() (*output.Output, error) { return output.NewOpReturn(g[0]) })
		c.Check(err == nil, "NewOpReturn: %v", err)
		mon.Eq(c, "NewOpReturn: satoshis", o.Satoshis, uint64(0))
		c.EqBytes("NewOpReturn", sbytes(o.LockingScript), ref.Cat([]byte{0, 0x6a}, ref.Push(parts[0])))
		if len(parts[0]) < 4000 {
			c.Keep("output.NewOpReturn", func() string { return dumpOut(o) })
		}
	}
}

// badHash is text that is not the hex of 20 bytes.
func badHash(r *R) string {
	for {
		var s string
		h := ref.Hex(r.Bytes(20))
		switch r.N(6) {
		case 0:
			s = ref.Hex(r.Bytes(mon.Pick(r, 0, 1, 19, 21, 32, 33, 40, r.N(80))))
		case 1:
			s = h[:r.N(40)]
		case 2:
			s = mutateText(r, h, "ghijxyz \n-")
		case 3:
			s = "0x" + h
		case 4:
			s = h + "0"
		case 5:
			s = ""
		}
		if len(s) != 40 || !isHex(s) {
			return s
		}
	}
}

func c05Bad(c *C) {
	r := c.R
	bh, ba := badHash(r), badAddr(r)
	c.In("bad hash", bh)
	c.In("bad address", ba)
	bk := badHex(r, r.In(1, 40))
	if isHex(bk) {
		bk = "zz"
	}
	sh, sa, sk := c.Str("bad hash", bh), c.Str("bad address", ba), c.Str("bad hex", bk)
	_, err := mon.Do2(c, "script.NewP2PKHFromPubKeyHashStr", func() (*Script, error) { return script.NewP2PKHFromPubKeyHashStr(sh) })
	c.Check(err != nil, "NewP2PKHFromPubKeyHashStr accepts %q", bh)
	_, err = mon.Do2(c, "output.NewP2PkhFromPubKeyHash", func() (*output.Output, error) { return output.NewP2PkhFromPubKeyHash(sh, 1) })
	c.Check(err != nil, "NewP2PkhFromPubKeyHash accepts %q", bh)
	_, err = mon.Do2(c, "output.NewHashPuzzle", func() (*output.Output, error) { return output.NewHashPuzzle("secret", sh, 1) })
	c.Check(err != nil, "NewHashPuzzle accepts %q", bh)
	_, err = mon.Do2(c, "script.NewP2PKHFromAddress", func() (*Script, error) { return script.NewP2PKHFromAddress(sa) })
	c.Check(err != nil, "script.NewP2PKHFromAddress accepts %q", ba)
	_, err = mon.Do2(c, "output.NewP2PKHFromAddress", func() (*output.Output, error) { return output.NewP2PKHFromAddress(sa, 1) })
	c.Check(err != nil, "output.NewP2PKHFromAddress accepts %q", ba)
	_, err = mon.Do2(c, "script.NewP2PKHFromPubKeyStr", func() (*Script, error) { return script.NewP2PKHFromPubKeyStr(sk) })
	c.Check(err != nil, "NewP2PKHFromPubKeyStr accepts %q", bk)
	c.Hit("bad arguments")
}

// someScripts makes scripts in all the ways there are, each with the bytes it
// must have.
func someScripts(c *C) (ss []*Script, want [][]byte) {
	r := c.R
	add := func(s *Script, w []byte) {
		ss = append(ss, s)
		want = append(want, append([]byte{}, w...))
	}
	for k := r.In(2, 5); k > 0; k-- {
		switch r.N(10) {
		case 0:
			add(&Script{}, nil)
		case 1:
			b := genScript(r, 300)
			s, err := mon.Do2(c, "script.NewFromHexString", func() (*Script, error) { return script.NewFromHexString(ref.Hex(b)) })
			c.Check(err == nil, "NewFromHexString: %v", err)
			add(s, b)
		case 2:
			b, asm := asmScript(r, r.In(0, 6))
			s, err := fromASM(c, strings.Join(asm, " "))
			c.Check(err == nil, "NewFromASM: %v", err)
			add(s, b)
		case 3:
			b := genScript(r, 300)
			s := mon.Do(c, "script.NewFromBytes", func() *Script { return script.NewFromBytes(append([]byte{}, b...)) })
			add(s, b)
		case 4:
			a, h := genAddr(r)
			s, err := mon.Do2(c, "script.NewP2PKHFromAddress", func() (*Script, error) { return script.NewP2PKHFromAddress(a) })
			c.Check(err == nil, "NewP2PKHFromAddress: %v", err)
			add(s, ref.P2PKH(h))
		case 5:
			pub := genKeyBytes(r)
			s, err := mon.Do2(c, "script.NewP2PKHFromPubKeyBytes", func() (*Script, error) { return script.NewP2PKHFromPubKeyBytes(pub) })
			c.Check(err == nil, "NewP2PKHFromPubKeyBytes: %v", err)
			add(s, ref.P2PKH(ref.Hash160(pub)))
		case 6: // all scripts of a parsed transaction
			m := smallTx(r, r.In(0, 2), r.In(0, 3))
			t, err := parseTx(c, m.Encode())
			c.Check(err == nil, "NewFromBytes: %v", err)
			for i := range m.Ins {
				add(t.Inputs[i].UnlockingScript, m.Ins[i].Script)
			}
			for i := range m.Outs {
				add(t.Outputs[i].LockingScript, m.Outs[i].Script)
			}
		case 7:
			parts := genParts(r, 3)
			o, err := mon.Do2(c, "output.NewOpReturnParts", func() (*output.Output, error) { return output.NewOpReturnParts(parts) })
			c.Check(err == nil, "NewOpReturnParts: %v", err)
			add(o.LockingScript, ref.Cat([]byte{0, 0x6a}, pushAll(parts)))
		case 8:
			in := genIn(r, 200)
			i, err := mon.Do2(c, "input.NewFromUTXO", func() (*input.Input, error) {
				return input.NewFromUTXO(in.TxID(), in.Vout, in.PrevSats, ref.Hex(in.PrevScript), in.Seq)
			})
			c.Check(err == nil, "NewFromUTXO: %v", err)
			add(i.PreviousTxScript, in.PrevScript)
		case 9:
			t := mon.Do(c, "transaction.New", transaction.New)
			a, h := genAddr(r)
			for n := r.In(1, 2); n > 0; n-- {
				err := mon.DoErr(c, "Transaction.PayTo", func() error { return t.PayTo(a, 5) })
				c.Check(err == nil, "PayTo: %v", err)
			}
			for _, o := range t.Outputs {
				add(o.LockingScript, ref.P2PKH(h))
			}
		}
	}
	return
}

// c06Large appends lists of thousands of parts, and thousands of parts.
func c06Large(c *C) {
	r := c.R
	s, other := &Script{}, &Script{}
	var want, owant []byte
	c.In("seed", r.U64())
	for k := r.In(1, 3); k > 0; k-- {
		n := largeCount(r, 40000)
		c.In("parts", n)
		parts := make([][]byte, n)
		strs := make([]string, n)
		for i := range parts {
			parts[i] = r.Bytes(r.N(4))
			strs[i] = string(parts[i])
		}
		switch r.N(4) {
		case 0:
			err := mon.DoErr(c, "Script.AppendPushDataArray", func() error { return s.AppendPushDataArray(parts) })
			c.Check(err == nil, "AppendPushDataArray: %v", err)
			want = append(want, pushAll(parts)...)
		case 1:
			err := mon.DoErr(c, "Script.AppendPushDataStrings", func() error { return s.AppendPushDataStrings(strs) })
			c.Check(err == nil, "AppendPushDataStrings: %v", err)
			want = append(want, pushAll(parts)...)
		default: // one by one, to two scripts in turn
			c.Call("Script appends", func() {
				for i, p := range parts {
					x, w := s, &want
					if r.P(30) {
						x, w = other, &owant
					}
					var err error
					switch r.N(4) {
					case 0:
						err = x.AppendPushData(p)
						*w = append(*w, ref.Push(p)...)
					case 1:
						err = x.AppendPushDataString(strs[i])
						*w = append(*w, ref.Push(p)...)
					case 2:
						err = x.AppendPushDataHexString(ref.Hex(p))
						*w = append(*w, ref.Push(p)...)
					case 3:
						op := nonPushOps[r.N(len(nonPushOps))]
						x.AppendOpCode(op)
						*w = append(*w, op)
					}
					c.Check(err == nil && len(*x) == len(*w), "append number %d: %v, the script has %d bytes, want %d", i, err, len(*x), len(*w))
				}
			})
		}
		c.EqBytes("the script after thousands of appends", *s, want)
		c.EqBytes("the other script", *other, owant)
	}
	c.Hit("thousands of parts appended")
}

func c06(c *C) {
	r := c.R
	ss, want := someScripts(c)
	if len(ss) == 0 {
		return
	}
	verify := func(what string) {
		for i := range ss {
			c.EqBytes(fmt.Sprintf("script %d of %d after %s", i, len(ss), what), *ss[i], want[i])
		}
	}
	verify("construction")
	for step := r.In(3, 15); step > 0; step-- {
		i := r.N(len(ss))
		s := ss[i]
		op := r.N(8)
		var what string
		ok := true
		switch op {
		case 0:
			o := byte(r.U32())
			what = fmt.Sprintf("AppendOpCode(%02x)", o)
			c.Call("Script.AppendOpCode", func() { s.AppendOpCode(o) })
			want[i] = append(want[i], o)
		case 1:
			d := genBytes(r, genLen(r, 400))
			what = fmt.Sprintf("AppendPushData(%d bytes)", len(d))
			g := c.Buf("data", d)
			err := mon.DoErr(c, "Script.AppendPushData", func() error { return s.AppendPushData(g) })
			c.Check(err == nil, "AppendPushData: %v", err)
			want[i] = append(want[i], ref.Push(d)...)
			c.In("append", d)
		case 2:
			d := genBytes(r, genLen(r, 300))
			what = fmt.Sprintf("AppendPushDataHexString(%d bytes)", len(d))
			h := mixCase(r, ref.Hex(d))
			err := mon.DoErr(c, "Script.AppendPushDataHexString", func() error { return s.AppendPushDataHexString(h) })
			c.Check(err == nil, "AppendPushDataHexString: %v", err)
			want[i] = append(want[i], ref.Push(d)...)
			c.In("append", d)
		case 3:
			d := genText(r, genLen(r, 300))
			what = fmt.Sprintf("AppendPushDataString(%d bytes)", len(d))
			err := mon.DoErr(c, "Script.AppendPushDataString", func() error { return s.AppendPushDataString(c.Str("text", d)) })
			c.Check(err == nil, "AppendPushDataString: %v", err)
			want[i] = append(want[i], ref.Push([]byte(d))...)
			c.In("append", d)
		case 4:
			ps := genParts(r, 5)
			what = fmt.Sprintf("AppendPushDataArray(%d parts)", len(ps))
			err := mon.DoErr(c, "Script.AppendPushDataArray", func() error { return s.AppendPushDataArray(nilParts(c, "parts", ps)) })
			c.Check(err == nil, "AppendPushDataArray: %v", err)
			want[i] = append(want[i], pushAll(ps)...)
			c.In("append", pushAll(ps))
		case 5:
			var ts []string
			var ps [][]byte
			for k := r.N(4); k > 0; k-- {
				t := genText(r, genLen(r, 200))
				ts = append(ts, t)
				ps = append(ps, []byte(t))
			}
			what = fmt.Sprintf("AppendPushDataStrings(%d texts)", len(ts))
			err := mon.DoErr(c, "Script.AppendPushDataStrings", func() error { return s.AppendPushDataStrings(c.Strs("texts", ts)) })
			c.Check(err == nil, "AppendPushDataStrings: %v", err)
			want[i] = append(want[i], pushAll(ps)...)
			c.In("append", pushAll(ps))
		case 6:
			bad := badHex(r, r.N(40))
			if isHex(bad) {
				bad = "0"
			}
			ok = false
			what = fmt.Sprintf("failing AppendPushDataHexString(%q)", bad)
			err := mon.DoErr(c, "Script.AppendPushDataHexString", func() error { return s.AppendPushDataHexString(bad) })
			c.Check(err != nil, "AppendPushDataHexString accepts %q", bad)
			c.In("append", bad)
		case 7: // push a piece of another of the scripts
			j := r.N(len(ss))
			d := *ss[j]
			if len(d) > 0 {
				k := r.N(len(d))
				d = d[k : k+r.N(len(d)-k)+1]
			}
			w := append([]byte{}, d...)
			what = fmt.Sprintf("AppendPushData(piece of script %d)", j)
			err := mon.DoErr(c, "Script.AppendPushData", func() error { return s.AppendPushData(d) })
			c.Check(err == nil, "AppendPushData: %v", err)
			want[i] = append(want[i], ref.Push(w)...)
		}
		if ok {
			c.Hit("appended")
		} else {
			c.Hit("not appended")
		}
		c.In("on", i)
		verify(what)
		if r.P(30) {
			c.ClearWatches()
		}
	}
}

func init() {
	register(&mon.Prop{
		ID:   "C01",
		Rule: "each case encodes a list of data parts (sizes systematic up to 600 and around every length boundary, and random; up to 70000 parts; slices of one piece of memory), compares with the reference encoding and decodes it from bytes and hex; distinct by the parts",
		Stages: []mon.Stage{
			{Name: "lists", Quick: 120000, Deep: 6400000, Run: func(c *C) { c01(c, genParts(c.R, 8)) }},
			{Name: "one piece of memory", Quick: 12000, Deep: 600000, Run: c01Overlap},
			{Name: "sizes", Quick: nSizes, Deep: 4 * nSizes, Run: func(c *C) {
				c01(c, [][]byte{genBytes(c.R, sizeAt(c.Index%nSizes)), {1}})
			}},
			{Name: "many parts", Quick: nCounts, Deep: 4 * nCounts, Run: func(c *C) {
				var ps [][]byte
				for k := countAt(c.Index % nCounts); k > 0; k-- {
					ps = append(ps, genBytes(c.R, c.R.N(4)))
				}
				c01(c, ps)
			}},
			{Name: "4 GiB", Quick: 1, Deep: 1, NoGuide: true, Run: func(c *C) { cHuge(c, "push") }},
			{Name: "thousands of parts", Quick: 40, Deep: 1000, Run: func(c *C) {
				r := c.R
				var ps [][]byte
				for k := largeCount(r, 70000); k > 0; k-- {
					ps = append(ps, r.Bytes(r.In(1, 4)))
				}
				c.In("parts", len(ps))
				c.In("seed", r.U64())
				b, err := encodeParts(c, ps)
				c.Check(err == nil, "EncodeParts: %v", err)
				c.EqBytes("thousands of parts encoded", b, pushAll(ps))
				got, err := decodeParts(c, b)
				c.Check(err == nil, "DecodeParts: %v", err)
				checkParts(c, "thousands of parts decoded", got, ps)
				got, err = decodeHexParts(c, ref.Hex(b))
				c.Check(err == nil, "DecodeStringParts: %v", err)
				checkParts(c, "thousands of parts decoded from hex", got, ps)
				c.Hit("thousands of parts")
			}},
			{Name: "big", Quick: 4, Deep: 24, Run: func(c *C) {
				n := []int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 77, 1 << 20, 3 << 20}[c.Index%6]
				d := make([]byte, n)
				copy(d, c.R.Bytes(1000))
				c.In("big part", n)
				g := [][]byte{d, {7, 7}}
				b, err := encodeParts(c, g)
				c.Check(err == nil, "EncodeParts of %d bytes: %v", n, err)
				c.EqBytes("EncodeParts", b, pushAll(g))
				dec, err := decodeParts(c, b)
				c.Check(err == nil, "DecodeParts: %v", err)
				checkParts(c, "DecodeParts", dec, g)
			}},
		},
		Need: map[string]int{"list with empty parts": 500},
	})
	register(&mon.Prop{
		ID:   "C02",
		Rule: "each case decodes a script of opcodes and pushes of every form, complete or cut short, from bytes and hex, and compares parts and error with a reference tokeniser; scripts of one and two bytes are enumerated, others have up to 100000 elements; distinct by script",
		Stages: []mon.Stage{
			{Name: "scripts", Quick: 120000, Deep: 7200000, Run: func(c *C) { c02(c, genOps(c.R)) }},
			{Name: "any bytes", Quick: 60000, Deep: 3600000, Run: func(c *C) { c02(c, genScript(c.R, 1500)) }},
			{Name: "mutated", Quick: 60000, Deep: 3600000, Run: func(c *C) { c02(c, mutate(c.R, genOps(c.R))) }},
			{Name: "large", Quick: 120, Deep: 6000, Run: func(c *C) {
				b := largeScript(c)
				c02One(c, b, false)
				want, ok := tokensOf(b)
				got, err := decodeHexParts(c, ref.Hex(b))
				c.Check(ok == (err == nil), "DecodeStringParts: complete %v, error %v", ok, err)
				checkParts(c, "DecodeStringParts", got, want)
				c.Hit("script of thousands of parts")
			}},
			{Name: "two bytes", Quick: 256, Deep: 256, Run: func(c *C) {
				a := byte(c.Index)
				c.In("first byte", a)
				if c.Index == 0 {
					c02One(c, nil, false)
				}
				c02One(c, []byte{a}, false)
				for b := 0; b < 256; b++ {
					c02One(c, []byte{a, byte(b)}, false)
				}
			}},
			{Name: "truncations", Quick: 600, Deep: 6000, Run: func(c *C) {
				b := genOps(c.R)
				if len(b) > 400 {
					b = b[:400]
				}
				c.In("script", b)
				for i := range b {
					c02One(c, b[:i:i], false)
				}
			}},
			{Name: "sizes", Quick: nSizes, Deep: 4 * nSizes, Run: func(c *C) {
				n := sizeAt(c.Index % nSizes)
				d := genBytes(c.R, n)
				var forms [][]byte
				if n <= 75 && n > 0 {
					forms = append(forms, append([]byte{byte(n)}, d...))
				}
				if n <= 255 {
					forms = append(forms, append([]byte{0x4c, byte(n)}, d...))
				}
				if n <= 65535 {
					forms = append(forms, ref.Cat([]byte{0x4d}, ref.LE16(uint16(n)), d))
				}
				forms = append(forms, ref.Cat([]byte{0x4e}, ref.LE32(uint32(n)), d))
				for _, f := range forms {
					c02One(c, f, false)
					c02One(c, append(f, 0x76, 1, 9), false)
					c02One(c, f[:len(f)-1], false)
				}
				c.In("data", d)
			}},
			{Name: "up to 4 GiB", Quick: 1, Deep: 1, NoGuide: true, Run: func(c *C) { cHuge(c, "decode") }},
			{Name: "big", Quick: 6, Deep: 36, Run: func(c *C) {
				n := []int{1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 77, 3 << 20, 1<<25 + 3}[c.Index%6]
				d := make([]byte, n)
				copy(d, c.R.Bytes(1000))
				copy(d[n-100:], c.R.Bytes(100))
				c.In("big part", n)
				b := ref.Cat([]byte{0x4e}, ref.LE32(uint32(n)), d, []byte{0x76, 1, 9})
				c02One(c, b, false)
				c02One(c, b[:n+4], false)
				dec, err := decodeHexParts(c, ref.Hex(b))
				c.Check(err == nil, "DecodeStringParts of %d bytes: %v", len(b), err)
				checkParts(c, "DecodeStringParts", dec, [][]byte{d, {0x76}, {9}})
			}},
		},
		Need: map[string]int{"truncated script": 3000, "text that is not hex": 500},
	})
	register(&mon.Prop{
		ID:   "C03",
		Rule: "each case makes a script of non-push opcodes and minimal pushes, translates it to text and back, assembles hand-written text with every alias, and text with a word that is neither name nor hex; distinct by script and text. Texts have up to 70000 words. All opcode names, constants and one-opcode scripts are enumerated",
		Stages: []mon.Stage{
			{Name: "scripts", Quick: 96000, Deep: 4800000, Run: c03},
			{Name: "large", Quick: 40, Deep: 1500, Run: func(c *C) {
				r := c.R
				n := largeCount(r, 70000)
				if c.Index == 0 {
					n = 1<<16 + r.In(1, 3000)
				}
				b, words := asmScript(r, n)
				c.In("words", n)
				c.In("script hash", ref.Sha256(b))
				c03Round(c, b)
				s, err := fromASM(c, strings.Join(words, " "))
				c.Check(err == nil, "NewFromASM rejects %d words: %v", n, err)
				c.EqBytes("NewFromASM of thousands of words", *s, b)
				words[mon.Pick(r, 0, n-1, r.N(n))] = badWord(r)
				_, err = fromASM(c, strings.Join(words, " "))
				c.Check(err != nil, "NewFromASM accepts a bad word among %d", n)
				c.Hit("thousands of words")
			}},
			{Name: "constants", Quick: 1, Deep: 1, NoGuide: true, Run: opcodeConstants},
			{Name: "names", Quick: 256, Deep: 256, Run: func(c *C) {
				op := byte(c.Index)
				c.In("opcode", op)
				for _, n := range ref.OpNamesOf[op] {
					s, err := fromASM(c, n)
					c.Check(err == nil, "NewFromASM rejects %s: %v", n, err)
					c.EqBytes("NewFromASM of "+n, *s, []byte{op})
					c.Hit("opcode name")
				}
				if op == 0 || op > 0x4e {
					c03Round(c, []byte{op})
				}
				c.ClearWatches()
				// one byte of data of every value, in either case
				h := fmt.Sprintf("%02x", op)
				if c.R.Bool() {
					h = strings.ToUpper(h)
				}
				s, err := fromASM(c, h)
				c.Check(err == nil, "NewFromASM rejects %s: %v", h, err)
				c.EqBytes("NewFromASM of "+h, *s, []byte{1, op})
				c03Round(c, []byte{1, op})
			}},
			{Name: "sizes", Quick: nSizes, Run: func(c *C) {
				n := sizeAt(c.Index % nSizes)
				if n == 0 {
					s, err := fromASM(c, "")
					c.Check(err == nil, "NewFromASM rejects the empty text: %v", err)
					c.EqBytes("NewFromASM of the empty text", *s, nil)
					c03Round(c, nil)
					return
				}
				c.In("size", n)
				c03Round(c, ref.Cat(ref.Push(genBytes(c.R, n)), []byte{0x75}))
			}},
			{Name: "hex", Quick: 48000, Deep: 1600000, Run: c03Hex},
		},
		Need: map[string]int{"data of one byte": 500, "bad word": 3000, "cut off": 300, "opcode name": 240, "constant": len(opConsts)},
	})
	register(&mon.Prop{
		ID:   "C04",
		Rule: "each case asks all five classifiers about a script at or near the border of a class (templates, with one thing changed, cut or added, pushes in other forms, data that looks like opcodes; opcodes and pushes put in, taken away or replaced, among them a push of each length to 149 in each place) and compares with a reference; distinct by script. Scripts of up to two bytes are enumerated",
		Stages: []mon.Stage{
			{Name: "near", Quick: 480000, Deep: 32000000, Run: func(c *C) {
				b := genClass(c.R)
				c.In("script", b)
				s := Script(c.Buf("script", b))
				c04Check(c, b, &s)
			}},
			{Name: "one token changed", Quick: 600, Deep: 12000, Run: c04Tokens},
			{Name: "extra push, each length", Quick: 600, Deep: 6000, Run: c04Lengths},
			{Name: "one byte changed", Quick: 400, Deep: 8000, Run: func(c *C) {
				b := mon.Pick(c.R, ref.P2PKH(c.R.Bytes(20)), ref.Cat([]byte{0xa9, 0x14}, c.R.Bytes(20), []byte{0x87}), append(ref.Push(genKeyBytes(c.R)), 0xac), genMultisig(c.R))
				if len(b) > 110 {
					b = append(ref.Push(genKeyBytes(c.R)), 0xac)
				}
				c.In("script", b)
				for i := range b {
					m := append([]byte{}, b...)
					for k := 0; k < 12; k++ {
						m[i] = byte(c.R.U32())
						if k < 8 {
							m[i] = b[i] ^ 1<<k
						}
						s := Script(m)
						c04Check(c, m, &s)
					}
					s := Script(b[:i:i])
					c04Check(c, b[:i], &s)
				}
			}},
			{Name: "two bytes", Quick: 256, Deep: 256, Run: func(c *C) {
				a := byte(c.Index)
				c.In("first byte", a)
				for _, b := range [][]byte{{}, {a}} {
					s := Script(b)
					c04Check(c, b, &s)
				}
				for x := 0; x < 256; x++ {
					b := []byte{a, byte(x)}
					s := Script(b)
					c04Check(c, b, &s)
					b = []byte{a, mon.Pick(c.R, byte(0x51), 0x52, 0, byte(c.R.U32())), byte(x)}
					s = Script(b)
					c04Check(c, b, &s)
				}
			}},
		},
		Need: map[string]int{"IsP2PKH is true": 1000, "IsP2SH is true": 1000, "IsP2PK is true": 1000, "IsData is true": 1000, "IsMultisigOut is true": 1000, "token changed": 300, "push put in": 600},
	})
	register(&mon.Prop{
		ID:   "C05",
		Rule: "each case makes the P2PKH script of a key in all four ways, and outputs of all templates for a hash, amount, secret and data, and compares with the template; or gives each constructor malformed arguments; some look for arguments with a hash that begins or ends with several zero or 0xff bytes, or take them from a table; distinct by the arguments",
		Stages: []mon.Stage{
			rareStage("C05"),
			{Name: "templates", Quick: 48000, Deep: 2400000, Run: c05},
			{Name: "bad arguments", Quick: 48000, Deep: 2400000, Run: c05Bad},
			{Name: "sizes", Quick: nSizes, Run: func(c *C) {
				c05Data(c, [][]byte{genBytes(c.R, sizeAt(c.Index%nSizes)), {0x6a}})
			}},
			{Name: "many parts", Quick: nCounts, Run: func(c *C) {
				var ps [][]byte
				for k := countAt(c.Index % nCounts); k > 0; k-- {
					ps = append(ps, genBytes(c.R, c.R.N(4)))
				}
				c05Data(c, ps)
			}},
			{Name: "thousands of parts", Quick: 16, Deep: 400, Run: func(c *C) {
				var ps [][]byte
				for k := largeCount(c.R, 70000); k > 0; k-- {
					ps = append(ps, c.R.Bytes(c.R.N(4)))
				}
				c05Data(c, ps)
			}},
		},
		Need: map[string]int{"hash with two rare bytes": 20, "hash with three or more rare bytes": 8, "bad arguments": 1000},
	})
	register(&mon.Prop{
		ID:     "C06",
		Rule:   "each case makes several scripts in different ways (constructors, parsed transactions, templates) and appends to them in random order with every append operation, checking all of them after every step, or makes tens of thousands of appends and appends such lists; distinct by scripts and operations",
		Stages: []mon.Stage{{Name: "history", Quick: 150000, Deep: 9000000, Run: c06}, {Name: "large", Quick: 64, Deep: 3000, Run: c06Large}},
		Need:   map[string]int{"appended": 5000, "not appended": 500},
	})
}
