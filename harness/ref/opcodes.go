package ref

import "fmt"

// OpNames are the names of the opcodes, with their aliases.
var OpNames = func() map[string]byte {
	m := map[string]byte{"OP_0": 0, "OP_ZERO": 0, "OP_FALSE": 0, "OP_PUSHDATA1": 0x4c, "OP_PUSHDATA2": 0x4d, "OP_PUSHDATA4": 0x4e,
		"OP_1NEGATE": 0x4f, "OP_RESERVED": 0x50, "OP_BASE": 0x50, "OP_ONE": 0x51, "OP_TRUE": 0x51,
		"OP_SMALLINTEGER": 0xfa, "OP_PUBKEYS": 0xfb, "OP_UNKNOWN252": 0xfc, "OP_PUBKEYHASH": 0xfd, "OP_PUBKEY": 0xfe, "OP_INVALIDOPCODE": 0xff}
	for i := 1; i <= 75; i++ {
		m[fmt.Sprintf("OP_DATA_%d", i)] = byte(i)
	}
	for i := 1; i <= 16; i++ {
		m[fmt.Sprintf("OP_%d", i)] = byte(0x50 + i)
	}
	for i := 1; i <= 10; i++ {
		m[fmt.Sprintf("OP_NOP%d", i)] = byte(0xb0 + i - 1)
	}
	for i := 186; i <= 249; i++ {
		m[fmt.Sprintf("OP_UNKNOWN%d", i)] = byte(i)
	}
	for i, n := range []string{"NOP", "VER", "IF", "NOTIF", "VERIF", "VERNOTIF", "ELSE", "ENDIF", "VERIFY", "RETURN",
		"TOALTSTACK", "FROMALTSTACK", "2DROP", "2DUP", "3DUP", "2OVER", "2ROT", "2SWAP", "IFDUP", "DEPTH", "DROP", "DUP", "NIP", "OVER", "PICK", "ROLL", "ROT", "SWAP", "TUCK",
		"CAT", "SPLIT", "NUM2BIN", "BIN2NUM", "SIZE", "INVERT", "AND", "OR", "XOR", "EQUAL", "EQUALVERIFY", "RESERVED1", "RESERVED2",
		"1ADD", "1SUB", "2MUL", "2DIV", "NEGATE", "ABS", "NOT", "0NOTEQUAL", "ADD", "SUB", "MUL", "DIV", "MOD", "LSHIFT", "RSHIFT", "BOOLAND", "BOOLOR",
		"NUMEQUAL", "NUMEQUALVERIFY", "NUMNOTEQUAL", "LESSTHAN", "GREATERTHAN", "LESSTHANOREQUAL", "GREATERTHANOREQUAL", "MIN", "MAX", "WITHIN",
		"RIPEMD160", "SHA1", "SHA256", "HASH160", "HASH256", "CODESEPARATOR", "CHECKSIG", "CHECKSIGVERIFY", "CHECKMULTISIG", "CHECKMULTISIGVERIFY"} {
		m["OP_"+n] = byte(0x61 + i)
	}
	return m
}()

// OpNamesOf has the names of each opcode, sorted.
var OpNamesOf = func() (r [256][]string) {
	for n, b := range OpNames {
		r[b] = append(r[b], n)
	}
	for _, l := range r {
		for i := range l {
			for j := i; j > 0 && l[j] < l[j-1]; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
	}
	return
}()
