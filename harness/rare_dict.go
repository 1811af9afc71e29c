package main

// fixedDict stands in for the dictionary where values may not depend on libsv's source.
var fixedDict = dictionary{
	ints: []uint64{
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31, 32, 33, 34, 35,
		36, 37, 57, 58, 59, 63, 64, 65, 66, 74, 75, 76, 77, 78, 79, 80,
		82, 99, 100, 101, 105, 106, 107, 110, 111, 112, 113, 127, 128, 129, 195, 196,
		197, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 8388606, 8388607, 8388608, 8388609, 16777215,
		16777216, 16777217, 4294967294, 4294967295, 4294967296, 4294967297, 18446744073709551615,
	},
	strs: []string{
		" ",
		"%.2f %s",
		"%s:%.2x%.2x%x",
		"'PreviousTxID' not supplied",
		"'PreviousTxScript' not supplied",
		"0",
		"0000000000000000000000000000000000000000000000000000000000000000",
		"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
		"1d00ffff",
		"207fffff",
		"Address %s is not supported",
		"All Electrum pubkeys should start with 0xff",
		"Derivation path should have exactly 2 items",
		"EH/s",
		"ERROR",
		"Electrum pubkey has the wrong length",
		"Empty parts are not supported",
		"Error decoding witness commitment: %+v",
		"Error: %+v",
		"Extended public key is too long",
		"GH/s",
		"H/s",
		"Invalid BIP276 format",
		"Invalid checksum",
		"MH/s",
		"More than 15 signatures is not supported",
		"More than 16 public keys is not supported",
		"More than 16 signatures is not supported",
		"Must have 2 or more required signatures for multisig",
		"Not a P2PKH",
		"Not a multisig script",
		"Not enough data",
		"Number of public keys must equal the required",
		"PH/s",
		"Script is empty",
		"Script must end with OP_CHECKMULTISIG",
		"TH/s",
		"There should be 5 parts in this redeemScript",
		"We only support derivation paths with exactly 2 levels",
		"ZH/s",
		"^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$",
		"bad char",
		"bitcoin-script",
		"bitcoin-script invalid [%+v]",
		"bitcoin-script:",
		"bitcoin-template",
		"bits must be 4 bytes long, got %d",
		"bytes",
		"checksum failed",
		"ciphertext too short",
		"crypto/aes",
		"crypto/cipher",
		"crypto/rand",
		"crypto/sha256",
		"data too big",
		"encoding/base64",
		"encoding/binary",
		"encoding/hex",
		"errors",
		"expected 32 bytes, got %d",
		"fmt",
		"github.com/bitcoinsv/bsvd/bsvec",
		"github.com/bitcoinsv/bsvutil/base58",
		"github.com/bitcoinsv/bsvutil/hdkeychain",
		"github.com/libsv/libsv/crypto",
		"github.com/libsv/libsv/script",
		"github.com/libsv/libsv/script/address",
		"github.com/libsv/libsv/transaction",
		"github.com/libsv/libsv/transaction/input",
		"github.com/libsv/libsv/transaction/output",
		"github.com/libsv/libsv/transaction/signature/sighash",
		"github.com/libsv/libsv/utils",
		"golang.org/x/crypto/ripemd160",
		"index %d out of range for proof of length %d",
		"input length too short < 36",
		"input length too short < 36 + script + 4",
		"invalid address length for '%s'",
		"invalid checksum for address '%s'",
		"invalid opcode data",
		"io",
		"kH/s",
		"log",
		"math",
		"math/big",
		"nLockTime length must be 4 bytes long",
		"no input at index %d",
		"not fail-able with `bytes.Comparable` bounded [-1, 1].",
		"not version 0 or 6f",
		"output length too short < 8",
		"output length too short < 8 + script",
		"part %d is too big",
		"public key hash must be 20 bytes long, got %d",
		"regexp",
		"sort",
		"strconv",
		"strings",
		"target of bits %s does not fit in %d bytes",
		"too long",
		"too short to be a tx - even an empty tx has 10 bytes",
		"too short to hold the number of inputs",
		"too short to hold the number of outputs",
		"value:     %d\nscriptLen: %d\nscript:    %x\n",
		"wrong number of leading ones",
	},
}
