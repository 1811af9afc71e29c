From e7e3473ed26fc492e04ca2f6e64a8dd8da88d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 01/36] fix: parse truncated or oversized tx, input and output
 bytes without panicking

DecodeVarInt indexed past a short buffer and the script length was
converted to int before the bounds check, so NewFromBytes panicked.
---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   |  7 +++++++
 transaction/output/Output.go |  7 +++++++
 utils/VarInt.go              | 18 ++++++++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..0453c67 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of inputs")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of outputs")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..54727bc 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -56,8 +56,15 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
 	offset += size
 
+	if l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
+
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
 
 	if len(bytes) < totalLength {
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..f7e2835 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -39,8 +39,15 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
 	offset += size
 
+	if l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
+
 	totalLength := offset + int(l)
 
 	if len(bytes) < totalLength {
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..a8c1560 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -27,8 +27,13 @@ func VarInt(i uint64) []byte {
 
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
+// The size is 0 if the byte array is too short to hold a complete VarInt.
 // See http://learnmeabitcoin.com/glossary/varint
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 || len(b) < varIntSize(b[0]) {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
 		result = binary.LittleEndian.Uint64(b[1:9])
@@ -49,3 +54,16 @@ func DecodeVarInt(b []byte) (result uint64, size int) {
 
 	return
 }
+
+// varIntSize returns the size in bytes of the VarInt starting with the byte provided.
+func varIntSize(first byte) int {
+	switch first {
+	case 0xff:
+		return 9
+	case 0xfe:
+		return 5
+	case 0xfd:
+		return 3
+	}
+	return 1
+}
-- 
2.43.0


From 152bdf47b50a8c7c0ef22ee5d9048b170b353987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 02/36] fix: give parsed inputs and outputs their own copy of
 the script bytes

The scripts aliased the parsed buffer with its spare capacity, so appending
to one script overwrote the following fields of the same transaction.
---
 transaction/input/Input.go   | 2 +-
 transaction/output/Output.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 54727bc..5effb2e 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -71,7 +71,7 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	i.UnlockingScript = script.NewFromBytes(append([]byte{}, bytes[offset:offset+int(l)]...))
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index f7e2835..8246d93 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -54,7 +54,7 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
-	s := script.Script(bytes[offset:totalLength])
+	s := script.Script(append([]byte{}, bytes[offset:totalLength]...))
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From 3ca6563f0dd04562cea3834f47e992d18fb9bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 03/36] fix: decode OP_PUSHDATA2 and OP_PUSHDATA4 lengths
 without integer overflow

---
 script/OpPushdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..e40d6cd 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,7 +102,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
+			l := uint64(binary.LittleEndian.Uint16(b[1:]))
 			if len(b) < int(3+l) {
 				return r, errors.New("Not enough data")
 			}
@@ -114,7 +114,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
 			if len(b) < int(5+l) {
 				return r, errors.New("Not enough data")
 			}
-- 
2.43.0


From 54a949d8c1997b525e25ccff3215534cdfa47f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 04/36] fix: do not panic in GetPublicKeyHash on short scripts

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..009dc61 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -290,7 +290,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if len(*s) < 3 || (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 67a492d76646de651bb1a3ca90c7ef73718e6536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 05/36] fix: do not panic in IsData on empty and one byte
 scripts

---
 script/Script.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 009dc61..ca19d69 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -251,8 +251,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
-- 
2.43.0


From 1524848ca329763edecbf75288a5ee4c98369e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 06/36] fix: do not take data pushes for opcodes in IsP2PK and
 IsMultisigOut

A data push starting with the byte of OP_CHECKSIG or of a small integer was
accepted in place of the opcode, opcodes were accepted in place of public
keys, and an empty push made both functions panic.
---
 script/OpPushdata.go | 21 +++++++++++++++++++++
 script/Script.go     | 33 +++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index e40d6cd..a9d6e05 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -140,3 +140,24 @@ func DecodeParts(b []byte) ([][]byte, error) {
 
 	return r, nil
 }
+
+// isPushOp returns true if the opcode is followed by data to push to the stack.
+func isPushOp(opcode byte) bool {
+	return opcode >= OpDATA1 && opcode <= OpPUSHDATA4
+}
+
+// encodedPartSize returns the number of script bytes from which a part was
+// decoded, given the opcode it starts with.
+func encodedPartSize(opcode byte, part []byte) int {
+	switch {
+	case opcode == OpPUSHDATA1:
+		return 2 + len(part)
+	case opcode == OpPUSHDATA2:
+		return 3 + len(part)
+	case opcode == OpPUSHDATA4:
+		return 5 + len(part)
+	case isPushOp(opcode):
+		return 1 + len(part)
+	}
+	return 1
+}
diff --git a/script/Script.go b/script/Script.go
index ca19d69..3241dcc 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -215,14 +215,19 @@ func (s *Script) IsP2PKH() bool {
 
 // IsP2PK returns true if this is a public key output script.
 func (s *Script) IsP2PK() bool {
-	parts, err := DecodeParts(*s)
+	b := []byte(*s)
+	if len(b) == 0 || b[len(b)-1] != OpCHECKSIG {
+		return false
+	}
+
+	// OP_CHECKSIG has to follow a complete push, and not to be a part of it.
+	parts, err := DecodeParts(b[:len(b)-1])
 	if err != nil {
 		return false
 	}
 
-	if len(parts) == 2 &&
-		len(parts[0]) > 0 &&
-		parts[1][0] == OpCHECKSIG {
+	if len(parts) == 1 &&
+		len(parts[0]) > 0 {
 
 		pubkey := parts[0]
 		version := pubkey[0]
@@ -257,27 +262,31 @@ func (s *Script) IsData() bool {
 
 // IsMultisigOut returns true if this is a multisig output script.
 func (s *Script) IsMultisigOut() bool {
-	parts, err := DecodeParts(*s)
-	if err != nil {
+	b := []byte(*s)
+	if len(b) < 3 {
 		return false
 	}
 
-	if len(parts) < 3 {
+	if isSmallIntOp(b[0]) == false {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
+	// Everything between the two small integers has to be a complete data push.
+	keys := b[1 : len(b)-2]
+	parts, err := DecodeParts(keys)
+	if err != nil {
 		return false
 	}
 
-	for i := 1; i < len(parts)-2; i++ {
-		if len(parts[i]) < 1 {
+	for _, part := range parts {
+		if len(part) < 1 || isPushOp(keys[0]) == false {
 			return false
 		}
+		keys = keys[encodedPartSize(keys[0], part):]
 	}
 
-	return isSmallIntOp(parts[len(parts)-2][0]) &&
-		parts[len(parts)-1][0] == OpCHECKMULTISIG
+	return isSmallIntOp(b[len(b)-2]) &&
+		b[len(b)-1] == OpCHECKMULTISIG
 }
 
 func isSmallIntOp(opcode byte) bool {
-- 
2.43.0


From 79135e4a58dddd426ac057d15cc32c09e4fc81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 07/36] fix: write one byte data pushes as data in ToASM

A push of one byte was written as the opcode with that value, so that the
ASM string stood for a different script.
---
 script/Script.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 3241dcc..5496840 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -191,8 +191,11 @@ func (s *Script) ToASM() (string, error) {
 	}
 
 	var asmScript string
+	b := []byte(*s)
 	for _, p := range parts {
-		if len(p) == 1 {
+		isOpCode := isPushOp(b[0]) == false
+		b = b[encodedPartSize(b[0], p):]
+		if isOpCode {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
-- 
2.43.0


From 337aff86b24e74416d906f742dfc129690dea145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 08/36] fix: do not read spaces as empty data pushes in
 NewFromASM

The empty script, which ToASM writes as an empty string, was read back as
OP_0, and so was every extra space.
---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 5496840..afc9378 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -30,7 +30,7 @@ func NewFromBytes(b []byte) *Script {
 
 // NewFromASM creates a new script from a BitCoin ASM formatted string.
 func NewFromASM(str string) (*Script, error) {
-	sections := strings.Split(str, " ")
+	sections := strings.Fields(str)
 
 	s := &Script{}
 
-- 
2.43.0


From 2a2194ab8fbe2f2165d48073fe667781ab6d16b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 09/36] fix: reject public key hashes that are not 20 bytes
 long

The P2PKH script built from them was malformed and could not be spent.
---
 script/Script.go             | 3 +++
 script/address/Address.go    | 3 +++
 transaction/output/Output.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index afc9378..adef12f 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -84,6 +84,9 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, got %d", len(hash))
+	}
 
 	b := []byte{
 		OpDUP,
diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..9bc5a22 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -70,6 +70,9 @@ func NewFromPublicKeyString(pubKey string, mainnet bool) (*Address, error) {
 // If mainnet parameter is true it will return a mainnet address (starting with a 1).
 // Otherwise (mainnet is false) it will return a testnet address (starting with an m or n).
 func NewFromPublicKeyHash(hash []byte, mainnet bool) (*Address, error) {
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, got %d", len(hash))
+	}
 
 	// regtest := 111
 	// mainnet: 0
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 8246d93..91e84d0 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -95,6 +95,9 @@ func NewHashPuzzle(secret string, publicKeyHash string, satoshis uint64) (*Outpu
 	if err != nil {
 		return nil, err
 	}
+	if len(publicKeyHashBytes) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes long, got %d", len(publicKeyHashBytes))
+	}
 
 	s := &script.Script{}
 
-- 
2.43.0


From 6b40439b4214cdb4df4e2c6b5f85f00cd2bb5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/36] fix: verify the checksum in address.NewFromString

An address with a typo was accepted and paid to a different public key hash.
---
 script/address/Address.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/address/Address.go b/script/address/Address.go
index 9bc5a22..3e74e74 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -40,9 +41,12 @@ func addressToPubKeyHashStr(address string) (string, error) {
 
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-
+		fallthrough
 	case 0x6f: // Testnet pubkey hash (P2PKH address)
+		cksum := checksum(decoded[:len(decoded)-4])
+		if !bytes.Equal(cksum[:], decoded[len(decoded)-4:]) {
+			return "", fmt.Errorf("invalid checksum for address '%s'", address)
+		}
 		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
 
 	case 0x05: // Script hash (P2SH address)
-- 
2.43.0


From 9bce97ee1e15926f065855a4bd4099f160cc51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 11/36] fix: reject addresses with missing or extra leading
 ones in ValidateAddress

Such a string is not the base58 encoding of a 25 byte address.
---
 script/address/AddressValidation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..35d221e 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/bitcoinsv/bsvutil/base58"
 	"github.com/libsv/libsv/crypto"
 )
 
@@ -79,5 +80,9 @@ func validA58(a58 []byte) (bool, error) {
 		return false, errors.New("checksum failed")
 	}
 
+	if base58.Encode(a[:]) != string(a58) {
+		return false, errors.New("wrong number of leading ones")
+	}
+
 	return true, nil
 }
-- 
2.43.0


From 8f1d71c67b1f8b8502638d2c2a4a11b047c236d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 12/36] fix: decode every string encoded by EncodeBIP276 and
 none other

DecodeBIP276 panicked on text that is not in BIP276 format, took the network
and the version for one another, read them as decimal although they are
encoded as hexadecimal, and did not accept empty data. EncodeBIP276 encoded
negative networks and versions, which do not fit the format.
---
 script/address/BIP276.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..5f320d9 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version < 1 || version > 255 || network < 1 || network > 255 {
 		return "ERROR"
 	}
 
@@ -53,19 +53,28 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid BIP276 format")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	n, err := strconv.ParseUint(res[2], 16, 8)
+	if err != nil {
 		return
 	}
+	network = int(n)
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	v, err := strconv.ParseUint(res[3], 16, 8)
+	if err != nil {
 		return
 	}
+	version = int(v)
 
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
-- 
2.43.0


From f1b8ccafece1be9bad505936fe4f59b527f5ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 13/36] fix: return an error from Decode32Byte unless the
 string holds 32 bytes

It panicked on shorter strings and dropped the end of longer ones.
---
 utils/ByteManipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..d2a96ba 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) != 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From 75faed0373c1584343d8510681bdbdc6a44e66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 14/36] fix: return an error for an input index out of range

GetInputSignatureHash, ApplyUnlockingScript and so Sign panicked.
---
 transaction/SignatureHash.go | 5 +++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..08dab83 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,10 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
+
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 0453c67..1264dbb 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,7 +294,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 21ce0a9bf0e49ace6a97f53a9d8a82d82e25ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 15/36] fix: keep the outpoint and sequence of the input in
 ToBytesWithClearedInputs

The input at the index was written as its script alone, which is no
transaction and not what a signature commits to.
---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 1264dbb..e9d3cb6 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// the cleared input is an outpoint, an empty script and a sequence
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From 17888ba0d434b3dafe815e44eef19f931b8c4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 16/36] fix: do not write the default sighash flag to a signer
 that may be shared

Signing two transactions with one InternalSigner was a data race.
---
 transaction/signature/InternalSigner.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..2618dd6 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -22,11 +22,12 @@ type InternalSigner struct {
 // Sign a transaction at a given input index using the PrivateKey passed in through the
 // InternalSigner struct.
 func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
+	sigHashFlag := is.SigHashFlag
+	if sigHashFlag == 0 {
+		sigHashFlag = sighash.AllForkID
 	}
 
-	sh, err := unsignedTx.GetInputSignatureHash(index, is.SigHashFlag)
+	sh, err := unsignedTx.GetInputSignatureHash(index, sigHashFlag)
 	if err != nil {
 		return nil, err
 	}
@@ -36,7 +37,7 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 		return nil, err
 	}
 
-	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), sigHashFlag)
 
 	err = unsignedTx.ApplyUnlockingScript(index, s)
 	if err != nil {
@@ -50,10 +51,6 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
-	}
-
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
-- 
2.43.0


From 02f2d1a2dbcadbacf425a59810cead0b07c79c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 17/36] fix: report the error when SignAuto cannot sign an
 input of its key

---
 transaction/signature/InternalSigner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index 2618dd6..c7d2d11 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -60,7 +60,9 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			is.Sign(uint32(i), unsignedTx)
+			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 78f62b5313ae0abad5007fa6d793d749c15ddb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 18/36] fix: do not reorder the public keys when reading a
 redeem script

GetRedeemScript, GetAddress and GetRedeemScriptHash sorted the keys of the
RedeemScript in place, which is a data race between two readers.
---
 script/RedeemScript.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..b2fea73 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -165,8 +165,8 @@ func (rs *RedeemScript) GetRedeemScript() []byte {
 	var b []byte
 
 	b = append(b, OpBASE+byte(rs.SignaturesRequired))
-	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
-	for _, pk := range rs.PublicKeys {
+	publicKeys := utils.SortByteArrays(append([][]byte{}, rs.PublicKeys...))
+	for _, pk := range publicKeys {
 		b = append(b, byte(len(pk)))
 		b = append(b, pk...)
 	}
-- 
2.43.0


From 770277603fe85f6a9f0d2ebb0d6f6b49197cea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 19/36] fix: return an error for malformed Electrum redeem
 scripts instead of panicking

---
 script/RedeemScript.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index b2fea73..031cf10 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -43,9 +43,14 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
+	for _, part := range parts {
+		if len(part) == 0 {
+			return nil, errors.New("Empty parts are not supported")
+		}
+	}
 
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
@@ -71,6 +76,11 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
 
+		// 0xff, a 78 byte extended public key, and a derivation path of 2 byte indexes
+		if len(pubkey) < 79 || (len(pubkey)-79)%2 != 0 {
+			return nil, errors.New("Electrum pubkey has the wrong length")
+		}
+
 		pubkey = pubkey[1:]
 		xpub := address.Base58EncodeMissingChecksum(pubkey[0:78])
 
-- 
2.43.0


From 206d77425a6c949db225fd030972f2b44108f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 20/36] fix: reject more public keys than a redeem script can
 count

The number of public keys is written as OP_1 to OP_16, and came out as another
opcode above 16.
---
 script/RedeemScript.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 031cf10..f434f1d 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -62,6 +62,9 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
+	if signatureCount > 16 {
+		return nil, errors.New("More than 16 public keys is not supported")
+	}
 
 	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
 		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
@@ -133,6 +136,10 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
 	}
 
+	if len(rs.PublicKeys) >= 16 {
+		return errors.New("More than 16 public keys is not supported")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
-- 
2.43.0


From 2c880ad78a1bae1383142d4f3abd4d82cc95f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 21/36] fix: reject negative indexes in MerkleRootFromBranches

---
 block/GetMerkleBranches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8892d2a 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -85,7 +85,7 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		txIndex >>= 1
 	}
 
-	if txIndex > 0 {
+	if txIndex != 0 {
 		return "", fmt.Errorf("index %d out of range for proof of length %d", txIndex, len(branches))
 	}
 
-- 
2.43.0


From b574f1f784a0a0991db75fe763759a21f11b3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 22/36] fix: do not write past the coinbase hash in
 BuildMerkleRootFromCoinbase

The branch was appended in the spare capacity of the slice of the caller.
---
 block/BuildMerkleRootFromCoinbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..bda4f23 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -9,7 +9,7 @@ import (
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
-	acc := coinbaseHash
+	acc := coinbaseHash[:len(coinbaseHash):len(coinbaseHash)]
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-- 
2.43.0


From 3acd25047061f33706e53d2617ac7925b4ab4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 23/36] fix: return an error for bits that are not 4 bytes or
 overflow the target

ExpandTargetFrom and DifficultyFromBits panicked, the latter also on bits that
are not hexadecimal.
---
 block/Difficulty.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..28d7531 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if len(b) > len(dst) {
+		return "", fmt.Errorf("target of bits %s does not fit in %d bytes", bits, len(dst))
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, fmt.Errorf("bits must be 4 bytes long, got %d", len(binaryBits))
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
@@ -97,7 +104,13 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
+	b, err := hex.DecodeString(bits)
+	if err != nil {
+		return 0, err
+	}
+	if len(b) != 4 {
+		return 0, fmt.Errorf("bits must be 4 bytes long, got %d", len(b))
+	}
 	ib := binary.BigEndian.Uint32(b)
 	return targetToDifficulty(toCompactSize(ib))
 }
-- 
2.43.0


From bdb1984dcd90d74ca95e60d25d137ba342769fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 24/36] fix: shift the mantissa right for exponents below 3 in
 DifficultyFromBits

---
 block/Difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 28d7531..7886c23 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -117,6 +117,9 @@ func DifficultyFromBits(bits string) (float64, error) {
 
 func toCompactSize(bits uint32) *big.Int {
 	t := big.NewInt(int64(bits % 0x01000000))
+	if exponent := uint(bits / 0x01000000); exponent < 3 {
+		return t.Rsh(t, 8*(3-exponent))
+	}
 	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
 
 	return t
-- 
2.43.0


From 066503bb1942419a699fa32bb6d89efa7f32d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 25/36] fix: do not panic in DifficultyToHashrate on an empty
 coin ticker

---
 block/Difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 7886c23..19bdf9f 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -95,7 +95,7 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 // and computes the estimated hashrate on that specific coin (or chain).
 func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float64 {
 	genesis := genesisDiff
-	if coin[0] == 'R' {
+	if len(coin) > 0 && coin[0] == 'R' {
 		genesis = regDiff
 	}
 
-- 
2.43.0


From 4795c732e9c968a73f9f01e4f734082bc6c6da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 26/36] fix: leave the ciphertext as it was in Decrypt

It was decrypted in place, so that it could not be decrypted again.
---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9fccfae67a4064a9dbc97b4286af1409c58a2cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 27/36] fix: print inputs without an unlocking script

String panicked on the inputs added by From, which have none until signed.
---
 transaction/input/Input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 5effb2e..9e1226f 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -97,12 +97,17 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
+	unlockingScript := i.UnlockingScript
+	if unlockingScript == nil {
+		unlockingScript = &script.Script{}
+	}
+
 	return fmt.Sprintf(`prevTxHash:   %x
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(*unlockingScript), unlockingScript, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
-- 
2.43.0


From 9c82ca4c34aef278c1ace700076cdfbeb6abd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 28/36] fix: reject previous transaction IDs that are not 32
 bytes in hexadecimal

The transaction built from them was serialised without a part of the outpoint.
---
 transaction/Transaction.go | 4 ++++
 transaction/input/Input.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index e9d3cb6..4ee50ab 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -127,6 +127,10 @@ func (bt *Transaction) AddInput(input *input.Input) {
 
 // From adds a new input to the transaction from the specified UTXO fields.
 func (bt *Transaction) From(txID string, vout uint32, scriptSig string, satoshis uint64) error {
+	if _, err := utils.Decode32Byte(txID); err != nil {
+		return err
+	}
+
 	pts, err := script.NewFromHexString(scriptSig)
 	if err != nil {
 		return err
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 9e1226f..76ce30a 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -80,6 +80,10 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 // NewFromUTXO returns a transaction input from the UTXO fields provided.
 func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxScript string, nSeq uint32) (*Input, error) {
+	if _, err := utils.Decode32Byte(prevTxID); err != nil {
+		return nil, err
+	}
+
 	pts, err := script.NewFromHexString(prevTxScript)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6d890ed8240953f6e870ee69118ea4bb6b8b8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 29/36] fix: only take a public key hash from complete P2PKH
 scripts

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index adef12f..5fa2049 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -305,7 +305,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if len(*s) < 3 || (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if s.IsP2PKH() == false {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 6a3a5badd8adc52742db1c4c2fdf177e62f2f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 30/36] fix: leave the transaction unsigned if SignAuto fails
 on one of its inputs

---
 transaction/signature/InternalSigner.go | 38 +++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index c7d2d11..e28fc49 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -22,6 +22,22 @@ type InternalSigner struct {
 // Sign a transaction at a given input index using the PrivateKey passed in through the
 // InternalSigner struct.
 func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
+	s, err := is.unlockingScript(index, unsignedTx)
+	if err != nil {
+		return nil, err
+	}
+
+	err = unsignedTx.ApplyUnlockingScript(index, s)
+	if err != nil {
+		return nil, err
+	}
+
+	return unsignedTx, nil
+}
+
+// unlockingScript returns the script which unlocks the input of the transaction
+// at the given index, and leaves the transaction as it is.
+func (is *InternalSigner) unlockingScript(index uint32, unsignedTx *transaction.Transaction) (*script.Script, error) {
 	sigHashFlag := is.SigHashFlag
 	if sigHashFlag == 0 {
 		sigHashFlag = sighash.AllForkID
@@ -37,20 +53,15 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 		return nil, err
 	}
 
-	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), sigHashFlag)
-
-	err = unsignedTx.ApplyUnlockingScript(index, s)
-	if err != nil {
-		return nil, err
-	}
-
-	return unsignedTx, nil
+	return script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), sigHashFlag)
 }
 
 // SignAuto goes through each input of the transaction and automatically
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
+	scripts := make(map[uint32]*script.Script)
+
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
@@ -60,9 +71,18 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+			s, err := is.unlockingScript(uint32(i), unsignedTx)
+			if err != nil {
 				return nil, err
 			}
+			scripts[uint32(i)] = s
+		}
+	}
+
+	// apply the scripts only after all inputs could be signed
+	for i, s := range scripts {
+		if err := unsignedTx.ApplyUnlockingScript(i, s); err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 0614dce453032e457fffb607e25c23cbdcaa72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 31/36] fix: write the assembly text of a script in linear time
 and space

---
 script/Script.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 5fa2049..b33fed9 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -193,19 +193,19 @@ func (s *Script) ToASM() (string, error) {
 		return "", err
 	}
 
-	var asmScript string
+	var asmScript strings.Builder
 	b := []byte(*s)
 	for _, p := range parts {
 		isOpCode := isPushOp(b[0]) == false
 		b = b[encodedPartSize(b[0], p):]
 		if isOpCode {
-			asmScript = asmScript + " " + opCodeValues[p[0]]
+			asmScript.WriteString(" " + opCodeValues[p[0]])
 		} else {
-			asmScript = asmScript + " " + hex.EncodeToString(p)
+			asmScript.WriteString(" " + hex.EncodeToString(p))
 		}
 	}
 
-	return strings.TrimSpace(asmScript), nil
+	return strings.TrimSpace(asmScript.String()), nil
 }
 
 // IsP2PKH returns true if this is a pay to pubkey hash output script.
-- 
2.43.0


From 8d47896d603b08908772551538ac9d47ed1560ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 32/36] fix: reverse hex strings in linear time and space

---
 utils/ByteManipulation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index d2a96ba..22bbd64 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -55,16 +55,16 @@ func ReverseBytes(a []byte) []byte {
 // ReverseHexString reverses the hex string (little endian/big endian).
 // This is used when computing merkle trees in Bitcoin, for example.
 func ReverseHexString(hex string) string {
-	res := ""
+	res := make([]byte, 0, len(hex)+1)
 	if len(hex)%2 != 0 {
 		hex = "0" + hex
 	}
 
 	for i := len(hex); i >= 2; i -= 2 {
 
-		res += hex[i-2 : i]
+		res = append(res, hex[i-2:i]...)
 	}
-	return res
+	return string(res)
 }
 
 // GetLittleEndianBytes returns a byte array in little endian from an unsigned integer of 32 bytes.
-- 
2.43.0


From 597e6a7b8483e06d16ebf41de7f3f89642258e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 33/36] fix: do not spend quadratic time on decoding overlong
 addresses and keys

---
 script/RedeemScript.go    | 5 +++++
 script/address/Address.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index f434f1d..abdbe60 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -140,6 +140,11 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("More than 16 public keys is not supported")
 	}
 
+	// an extended key has 111 or 112 characters, and decoding takes quadratic time
+	if len(pkey) > 112 {
+		return errors.New("Extended public key is too long")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
diff --git a/script/address/Address.go b/script/address/Address.go
index 3e74e74..c3bb68b 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -33,6 +33,11 @@ func NewFromString(addr string) (*Address, error) {
 }
 
 func addressToPubKeyHashStr(address string) (string, error) {
+	// 25 bytes take at most 35 characters, and decoding takes quadratic time
+	if len(address) > 35 {
+		return "", fmt.Errorf("invalid address length for '%s'", address)
+	}
+
 	decoded := base58.Decode(address)
 
 	if len(decoded) != 25 {
-- 
2.43.0


From f6f0d063d0b09479201184f747d8fcd028f6b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 34/36] fix: reject BIP276 text that is not exactly what its
 parts encode to

---
 script/address/BIP276.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 5f320d9..20b801c 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -80,8 +80,8 @@ func DecodeBIP276(text string) (prefix string, version int, network int, data []
 		return
 	}
 
-	_, checksum := createBIP276(prefix, network, version, data)
-	if res[5] != checksum {
+	// the whole text has to be what these parts are encoded as
+	if text != EncodeBIP276(prefix, network, version, data) {
 		err = errors.New("Invalid checksum")
 		return
 	}
-- 
2.43.0


From 772522654aa64f445f1662ff92922adfa1187aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 35/36] fix: reject Electrum redeem scripts with data in place
 of opcodes

---
 script/RedeemScript.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index abdbe60..33a88cf 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,7 +2,9 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
+	"strings"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/script/address"
@@ -70,6 +72,18 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
 	}
 
+	// The parts do not tell opcodes from data: the numbers and the last opcode
+	// have to be opcodes, and everything between them the shortest data pushes.
+	keys, err := EncodeParts(parts[1 : len(parts)-2])
+	if err != nil {
+		return nil, err
+	}
+	expected := append([]byte{parts[0][0]}, keys...)
+	expected = append(expected, parts[len(parts)-2][0], OpCHECKMULTISIG)
+	if strings.EqualFold(script, hex.EncodeToString(expected)) == false {
+		return nil, errors.New("Not a multisig script")
+	}
+
 	rs := &RedeemScript{
 		SignaturesRequired: signaturesRequired,
 	}
-- 
2.43.0


From acc8032b3bf9d425b8dcb9ba7964b12655640564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:42 +0000
Subject: [PATCH 36/36] fix: DecodeParts rejects OP_PUSHDATA4 lengths of 2^31
 and more where int has 32 bits

The announced length was converted to int before it was compared, so that it
became negative on 32-bit platforms and the slice expression panicked.
---
 script/OpPushdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index a9d6e05..a2c234a 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -115,7 +115,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 				return r, errors.New("Not enough data")
 			}
 			l := uint64(binary.LittleEndian.Uint32(b[1:]))
-			if len(b) < int(5+l) {
+			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
-- 
2.43.0

