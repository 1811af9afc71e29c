#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the statements are edited in one readable place."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

TX = "transaction/Transaction.go"; IN = "transaction/input/Input.go"; OUT = "transaction/output/Output.go"
SH = "transaction/SignatureHash.go"; SG = "transaction/signature/InternalSigner.go"; US = "script/UnlockingScript.go"
SC = "script/Script.go"; PD = "script/OpPushdata.go"; OPC = "script/Opcodes.go"; RS = "script/RedeemScript.go"
AD = "script/address/Address.go"; AV = "script/address/AddressValidation.go"; B276 = "script/address/BIP276.go"
VI = "utils/VarInt.go"; BM = "utils/ByteManipulation.go"; HH = "utils/HumanHash.go"
HA = "crypto/Hash.go"; EN = "crypto/Encryption.go"
MB = "block/GetMerkleBranches.go"; MR = "block/BuildMerkleRootFromCoinbase.go"; BH = "block/BuildBlockHeader.go"
CP = "block/GetCoinbaseParts.go"; DI = "block/Difficulty.go"

p("T01", "Transactions survive serialising and parsing unchanged",
  "Serialising any transaction (to bytes or to a hex string) and parsing the result gives back a transaction with the same version, lock time, and, in the same order, the same inputs (previous transaction ID, output index, unlocking script, sequence) and outputs (satoshis, locking script). Parsing the canonical bytes of any transaction and serialising it again gives the same bytes. The same holds for single inputs and single outputs, whose parsers also report exactly how many bytes they consumed.",
  ["inputs", "histories"], "All transactions with any number of inputs and outputs, any script lengths (all VarInt widths), any field values; also transactions that were parsed, edited and serialised repeatedly.",
  "The tests parse a few fixed transactions with one or two inputs, check some fields and only log the serialisation; no multi-byte counts, no script longer than 252 bytes, no edit histories.",
  [TX, IN, OUT, VI, BM],
  [("parsers", "transaction.NewFromBytes/NewFromString, input.NewFromBytes, output.NewFromBytes"), ("serialisers", "Transaction.ToBytes/ToString, Input.ToBytes, Output.ToBytes"), ("counts and lengths", "utils.VarInt / DecodeVarInt")],
  ["return values of NewFromBytes, NewFromString, ToBytes, ToString"])

p("T02", "Transaction bytes and IDs are those of the Bitcoin protocol",
  "The bytes of a transaction are exactly its Bitcoin wire encoding: little-endian version, VarInt counts, each input's previous hash in internal byte order with its index, script and sequence, each output's value and script, and the lock time, with an absent unlocking script encoded as empty. The transaction ID is always the byte-reversed double SHA-256 of the current wire encoding, in hex, whatever was computed or changed before; the totals and counts reported match the transaction's current content.",
  ["inputs", "histories"], "All transactions, and all sequences of edits to a transaction with IDs, bytes and totals read in between.",
  "One ID and one total of a fixed transaction are tested; nothing reads an ID, edits the transaction and reads it again.",
  [TX, IN, OUT, VI, BM, HA],
  [("encoding", "Transaction.toBytesHelper, Input.ToBytes, Output.ToBytes"), ("ID", "Transaction.GetTxID"), ("totals", "GetTotalOutputSatoshis, InputCount, OutputCount")],
  ["ToBytes, ToString, GetTxID, GetTotalOutputSatoshis, InputCount, OutputCount, GetInputs, GetOutputs"])

p("T03", "Transaction parsers accept only complete encodings and fail cleanly",
  "For every byte string, parsing it as a transaction, an input or an output terminates without crashing, uses memory in proportion to its length, and either succeeds or returns an error. A byte string that is not a complete transaction encoding (truncated anywhere, with bytes left over, or with counts or lengths beyond what follows) is rejected with an error; an input or output is rejected exactly when its encoding is not complete at the start of the bytes. When parsing succeeds, the fields are those the bytes encode.",
  ["inputs"], "All byte strings: random, every truncation and extension of valid encodings, single-byte corruptions, and hostile counts and lengths up to 2^64-1.",
  "The tests parse valid transactions only; there is no malformed, truncated or hostile input among them (each truncation class panicked at the pinned commit).",
  [TX, IN, OUT, VI],
  [("bounds checks", "transaction.NewFromBytes, input.NewFromBytes, output.NewFromBytes"), ("short VarInt", "utils.DecodeVarInt returns size 0")],
  ["result and error of the parsers, panics, heap allocated per call"])

p("T04", "A transaction shares no memory with its source or between its parts",
  "After a transaction, input or output has been parsed, overwriting or reusing the parsed byte buffer does not change it, and appending to or overwriting one of its scripts changes nothing else: not the other scripts or fields and not the buffer. Bytes returned by serialisation are the caller's: overwriting them does not change the transaction, and editing the transaction later does not change them.",
  ["inputs", "histories"], "All parsed transactions, and all sequences of script edits, buffer reuse and serialisation on them.",
  "No test edits a parsed transaction; at the pinned commit appending to one output's script silently overwrote the script of the next.",
  [IN, OUT, TX, SC],
  [("copy on parse", "input.NewFromBytes, output.NewFromBytes"), ("fresh buffer on serialise", "toBytesHelper")],
  ["fields of the transaction before and after each edit, canary bytes around the parsed buffer"])

p("T05", "Building a transaction appends exactly what was asked, or nothing",
  "Each successful call that adds an input or output (given as an object, from UTXO fields, or as a payment to an address) appends exactly one, with exactly the given values, behind all earlier ones, and touches no earlier one. A call that fails (malformed previous transaction ID, script hex or address) returns an error and leaves the transaction as it was. A new transaction is empty, has version 1 and lock time 0.",
  ["histories", "inputs"], "All sequences of AddInput, AddOutput, From, PayTo with valid and invalid arguments on new or parsed transactions.",
  "The tests never build a transaction from more than one call and never make a call fail.",
  [TX, IN, OUT],
  [("builders", "Transaction.AddInput/AddOutput/From/PayTo, input.NewFromUTXO"), ("validation before append", "Transaction.From, Transaction.PayTo")],
  ["inputs, outputs, counts and bytes after every call"])

p("T06", "Coinbase transactions are told from ordinary ones",
  "A transaction is reported as coinbase if it has exactly one input, with an all-zero previous transaction ID and output index 0xffffffff. It is not reported as coinbase if it has no input, more than one input, an input with a previous transaction ID that is not all zero, or a single input with all-zero ID in which neither output index nor sequence is 0xffffffff.",
  ["inputs"], "All transactions, built or parsed, with any values in the rest of their fields.",
  "Two coinbase and one ordinary transaction are tested; near misses (one field differing) are not.",
  [TX], [("test", "Transaction.IsCoinbase")], ["IsCoinbase on built and parsed transactions"])

p("T07", "Serialising with cleared inputs gives the transaction to be signed",
  "Serialising a transaction with cleared inputs, given an input index and a script, gives the wire encoding of the same transaction in which the input at that index carries the given script and every other input an empty script, all outpoints, sequences, outputs and other fields being kept; an index at which there is no input leaves every input with an empty script. The transaction itself is not changed.",
  ["inputs"], "All transactions, all valid input indexes, all scripts of any length.",
  "ToBytesWithClearedInputs is not called by any test (at the pinned commit its result was not a transaction).",
  [TX, IN], [("cleared serialisation", "Transaction.ToBytesWithClearedInputs, Input.ToBytes(clear)")], ["returned bytes, transaction before and after"])

p("S01", "Signature hashes follow the replay-protected digest algorithm",
  "For every transaction, input index and hash type with the FORKID bit, the signature hash is the byte-reversed double SHA-256 of the preimage of the replay-protected (BIP143-style) digest algorithm: version, hash of outpoints, hash of sequences, own outpoint, script code, amount, own sequence, hash of outputs, lock time and hash type, with the three hashes zeroed or narrowed as the ANYONECANPAY, NONE and SINGLE flags prescribe, including SINGLE with no output at the index. The result reflects the transaction as it is at the time of the call, however often it was computed or the transaction edited before. The exported hash type constants have the standard values (ALL 1, NONE 2, SINGLE 3, FORKID 0x40, ANYONECANPAY 0x80 and their combinations).",
  ["inputs", "histories"], "All transactions, input indexes, all 128 hash types with FORKID, all edit histories.",
  "Three vectors, all with ALL|FORKID; NONE, SINGLE, ANYONECANPAY and recomputation after edits are never exercised.",
  [SH, OUT, "transaction/signature/sighash/SigHashFlag.go"],
  [("digest", "Transaction.GetInputSignatureHash, getPrevoutHash, getSequenceHash, getOutputsHash"), ("output form", "Output.GetBytesForSigHash")],
  ["return value of GetInputSignatureHash"])

p("S02", "A signature commits to exactly the parts its hash type selects",
  "Changing any part of a transaction that the hash type covers (version, lock time, own outpoint, amount, script and sequence; other outpoints unless ANYONECANPAY; other sequences only for ALL without ANYONECANPAY; all outputs for ALL, the one at the same index for SINGLE, none for NONE; the hash type itself) changes the signature hash, and changing any part it does not cover, unlocking scripts included, does not. Computing it changes nothing in the transaction; if the index is out of range or the input lacks its previous transaction ID or script, an error is returned.",
  ["inputs", "histories"], "All transactions, inputs, hash types with FORKID, and all single-field edits, insertions and removals.",
  "The vectors fix whole transactions; none states what may and what may not influence the hash, and the error cases are not tested.",
  [SH], [("coverage by flag", "Transaction.GetInputSignatureHash"), ("validation", "Transaction.GetInputSignatureHash index, PreviousTxID and PreviousTxScript checks")],
  ["GetInputSignatureHash before and after each edit"])

p("S03", "Signing an input yields a valid P2PKH unlocking script there and only there",
  "Signing an input with a private key sets its unlocking script to exactly two minimal pushes: a strict-DER, low-S ECDSA signature of that input's signature hash followed by the hash type byte (ALL|FORKID if the signer names none), and the compressed public key; the signature verifies under that key. Its nonce serves no other hash or key and is not a small number, so that signatures do not give the key away. Nothing else in the transaction changes, so signatures already present for other inputs stay valid whatever the order of signing.",
  ["inputs", "histories"], "All private keys, transactions, input indexes, hash types with FORKID, and orders of signing.",
  "One fixed transaction with one input is signed with one key and the default hash type; validity of a signature is not checked.",
  [SG, US, SH, TX, PD],
  [("signer", "InternalSigner.Sign"), ("unlocking script", "script.NewP2PKHUnlockingScript"), ("application", "Transaction.Sign, ApplyUnlockingScript")],
  ["unlocking scripts and transaction bytes after signing"])

p("S04", "Automatic signing signs all inputs of its key and no others",
  "After automatic signing with a private key succeeds, every input whose previous script is the P2PKH script of that key's compressed public key carries a valid unlocking script for it, whatever its position. Inputs paying to other keys, inputs with other script types or no previous script, and all other fields are unchanged; signing with several keys one after another, in any order, completes a transaction spending from all of them.",
  ["inputs", "histories"], "All mixes of inputs (own key, other keys, other scripts, missing scripts), all sets and orders of keys.",
  "The one test has a single input that belongs to the key.",
  [SG, TX, SC], [("selection", "InternalSigner.SignAuto, Script.GetPublicKeyHash"), ("application", "Transaction.SignAuto")],
  ["all unlocking scripts and bytes after SignAuto"])

p("S05", "Failed signing changes nothing and external signers are obeyed",
  "If a signer reports an error, or the input index is out of range, or the input lacks the previous transaction ID or script needed, signing returns an error and the transaction is unchanged. If an external signer succeeds, the transaction becomes exactly what the signer returned, and the signer is called once, with the requested index and the current transaction. Applying an unlocking script sets it at an existing input only and reports an error otherwise; a signer is not changed by signing.",
  ["fault_sequences", "histories", "inputs"], "All sequences of signing calls with failing, succeeding, replacing and in-place signers, and all indexes.",
  "No test lets a signer fail, passes an index out of range, or implements the Signer interface.",
  [TX, SG, "transaction/Signer.go"], [("error path", "Transaction.Sign/SignAuto"), ("bounds", "ApplyUnlockingScript, GetInputSignatureHash")],
  ["transaction bytes and fields before and after each call, calls received by the signer"])

p("C01", "Push-data encoding is minimal and decodes to the same data",
  "Encoding any data parts prefixes each with the shortest length push for its size (a length byte up to 75, OP_PUSHDATA1 up to 255, OP_PUSHDATA2 up to 65535, OP_PUSHDATA4 above) and nothing else, in order; data of 2^32 bytes and more, which no push can hold, is an error. Decoding the encoding of any list of non-empty parts, from bytes or hex, returns the same list.",
  ["inputs"], "All lists of parts of all lengths, in particular around each push boundary.",
  "The round trip is tested for three parts of 1 to 5 bytes; no OP_PUSHDATA2 or 4 encoding is decoded (65533 to 65535 bytes panicked).",
  [PD, SC], [("encode", "EncodeParts, GetPushDataPrefix"), ("decode", "DecodeParts, DecodeStringParts")],
  ["EncodeParts, GetPushDataPrefix, DecodeParts, DecodeStringParts, Script.AppendPushData*"])

p("C02", "Script decoding splits every script exactly or reports truncation",
  "Decoding any byte string as a script terminates without crashing: each opcode that is not a push yields a one-byte part with its value, each push yields exactly its data, and nothing is skipped, repeated or invented. If the last push announces more data than there is, an error is returned together with the parts before it. Text that is not hex is rejected.",
  ["inputs"], "All byte strings, including truncated pushes of each kind and lengths up to 2^32-1.",
  "Five fixed scripts and two truncations are tested; the announced lengths of OP_PUSHDATA2 and 4 never reach their limits.",
  [PD], [("tokeniser", "DecodeParts"), ("hex entry", "DecodeStringParts")], ["parts and error of DecodeParts/DecodeStringParts"])

p("C03", "Script assembly text and script bytes translate into each other",
  "For every script of non-push opcodes and minimal length pushes of non-empty data, its assembly text parsed again gives the same script: every opcode is written as a name that stands for that opcode, and data, of one byte too, as hex. Every known opcode name assembles to its opcode's byte, which is also the value of the exported constant of that name, hex assembles to a minimal push of that data, the empty text to the empty script, and text with anything else is rejected. A script that ends inside a push has no assembly text: an error. Hex and raw construction of a script return the same bytes they were given.",
  ["inputs"], "All scripts over all 256 byte values and all push lengths, all opcode names, arbitrary text.",
  "One P2PKH script is converted in each direction; the name tables hold some 250 entries each way.",
  [SC, OPC, PD], [("tables", "opCodeStrings, opCodeValues"), ("translation", "NewFromASM, ToASM"), ("hex", "NewFromHexString, ToString, NewFromBytes")],
  ["NewFromASM, ToASM, NewFromHexString, ToString"])

p("C04", "Scripts are classified as what they are, and only that",
  "For every script: it is P2PKH exactly if it is DUP HASH160 <20 bytes> EQUALVERIFY CHECKSIG in direct pushes, P2SH exactly if it is HASH160 <20 bytes> EQUAL, and data exactly if it starts with RETURN or with FALSE RETURN; a direct push of a public key (33 bytes starting 02/03, or 65 bytes starting 04/06/07) and CHECKSIG is P2PK, and m, one or more public key pushes, n, CHECKMULTISIG (m from 0 to n) is multisig. A script is not P2PK unless it is one such key push followed by the CHECKSIG opcode, and not multisig unless it is a small-integer opcode, complete non-empty data pushes, a small-integer opcode and CHECKMULTISIG. No script, however short or malformed, makes a classifier crash.",
  ["inputs"], "All byte strings: every template, every single-byte deviation from it, all short scripts, random scripts.",
  "Each classifier is tested on one positive example and none on a negative one.",
  [SC, PD], [("classifiers", "IsP2PKH, IsP2PK, IsP2SH, IsData, IsMultisigOut")], ["the five classifiers on the same script"])

p("C05", "Standard scripts and outputs pay exactly to what was given",
  "The P2PKH script made from a public key, from its hash, or from its address is the same, and is DUP HASH160 <hash> EQUALVERIFY CHECKSIG; the hash extracted from it is the hash given. P2PKH, hash-puzzle and data outputs carry the given satoshis (data outputs none) and exactly the template's script with the given hash, secret hash or data parts in minimal pushes. A hash that is not 20 bytes, text that is not hex, or an invalid address is rejected with an error.",
  ["inputs"], "All 20-byte hashes, public keys, addresses of both networks, secrets, data parts of all lengths, amounts.",
  "One fixed hash, address, secret and a few short data parts are tested, and no invalid argument.",
  [SC, OUT, US, AD], [("script constructors", "NewP2PKHFromPubKeyStr/Bytes/HashStr/Address, GetPublicKeyHash"), ("output constructors", "NewP2PkhFromPubKeyHash, NewP2PKHFromAddress, NewHashPuzzle, NewOpReturn, NewOpReturnParts")],
  ["resulting scripts, satoshis and errors"])

p("C06", "Appending to a script only ever adds the bytes asked for",
  "After any sequence of append operations (opcodes, data, hex, strings, lists) the script is its former content followed by each operation's encoding in order, as if all parts had been encoded at once. An append that fails returns an error and leaves the script unchanged. Appending to one script never changes another script.",
  ["histories", "inputs"], "All sequences of append operations with valid and invalid arguments over several scripts.",
  "Appending is only exercised inside constructors, never as a history and never with failing operations.",
  [SC, PD], [("append", "Script.AppendPushData, AppendPushDataHexString, AppendPushDataString, AppendPushDataArray, AppendPushDataStrings, AppendOpCode")],
  ["script bytes after every operation"])

p("A01", "Addresses encode and decode public key hashes without loss",
  "The address of a public key hash is the Base58Check encoding of the network's version byte (0x00 mainnet, 0x6f testnet) and the hash, for every hash, leading zero bytes included. Addresses made from a public key (object or hex) are those of the hash of its compressed form or given bytes, and reading an address back gives the same string and the same hash. A hash that is not 20 bytes long has no address: an error. Base58 encoding with an appended checksum is correct for every byte string.",
  ["inputs"], "All 20-byte hashes, both networks, all public keys, all byte strings for the checksum encoding.",
  "One key is tested on both networks; hashes with leading zeros and other lengths of encoded data are not.",
  [AD], [("encode", "NewFromPublicKeyHash, NewFromPublicKey, NewFromPublicKeyString, Base58EncodeMissingChecksum"), ("decode", "NewFromString")],
  ["AddressString and PublicKeyHash"])

p("A02", "Only genuine addresses are accepted, by parser and validator alike",
  "A string is accepted as an address exactly if it is the Base58Check encoding of a 25-byte payload with version 0x00 or 0x6f and a correct checksum; address parsing and address validation agree on this, and every entry point that takes an address rejects all others with an error. In particular no address stays valid after a character is changed, dropped, inserted or two are swapped, unless the result is itself a correct encoding.",
  ["inputs"], "All strings: valid addresses of both networks, all kinds of single-character damage, other versions, lengths and characters.",
  "Three valid addresses and two rejected ones are tested; no test damages an address (a wrong checksum was accepted by the parser).",
  [AD, AV, SC, TX], [("parser", "NewFromString"), ("validator", "ValidateAddress"), ("users", "NewP2PKHFromAddress, Transaction.PayTo, GetCoinbaseParts")],
  ["error or success of each entry point"])

p("A03", "BIP276 text round-trips and damaged text is rejected",
  "For every prefix (bitcoin-script or bitcoin-template), network and version from 1 to 255 and data, decoding the encoded text returns the same prefix, network, version and data, and the text is prefix, colon, network, version and data in hex and the first four bytes of the double SHA-256 of all that. Networks and versions out of range are not encoded, and the exported constants are these prefixes, mainnet 1, testnet 2 and current version 1. Decoding any other text returns an error, never crashes, and so does validating it as an address: changed, missing or extra characters are detected.",
  ["inputs"], "All prefixes, networks, versions and data of any length; all single-character damage; arbitrary text.",
  "One text is encoded and one decoded, both with network and version 1; no damaged text is tried (a mismatch of format panicked).",
  [B276, AV], [("codec", "EncodeBIP276, DecodeBIP276, createBIP276"), ("validation", "ValidateAddress")],
  ["EncodeBIP276, DecodeBIP276, ValidateAddress"])

p("M01", "Multisig redeem scripts and addresses follow from the keys alone",
  "For an m-of-n redeem script (2 <= m <= n <= 16), the script is m, the public keys as direct pushes in ascending byte order, n, CHECKMULTISIG, and its hash and P2SH address are those of that script, whatever the order in which the keys were added or read, and whatever was read before the threshold or the keys were last changed. Each added key is the compressed child key at the given two-level derivation path of the extended public key. Thresholds below 2 or above 16, malformed keys, paths without exactly two levels and a 17th key are rejected, and reading never changes the keys.",
  ["inputs", "histories"], "All m, n, sets and orders of keys, derivation paths, interleavings of adding and reading.",
  "One 2-of-2 address in two orders is tested, always with path 0/0.",
  [RS, BM], [("construction", "NewRedeemScript, AddPublicKey"), ("script", "GetRedeemScript, GetRedeemScriptHash, GetAddress"), ("key order", "utils.SortByteArrays")],
  ["GetRedeemScript, GetRedeemScriptHash, GetAddress, PublicKeys"])

p("M02", "Electrum redeem scripts import to the keys they describe, or fail",
  "Importing an Electrum redeem script (m, pushes of 0xff, an extended public key and a two-level 16-bit derivation path, n, CHECKMULTISIG) gives the same threshold, keys, script and address as adding those extended keys with those paths by hand. Any other text, malformed in any way or truncated anywhere, is rejected with an error and never crashes: a wrong marker, key length, path length, key count or final opcode, a threshold below 2, text that is not hex.",
  ["inputs"], "All m-of-n Electrum scripts, all truncations and structural damage, arbitrary scripts.",
  "One valid script is imported; no invalid one (several panicked).",
  [RS, PD], [("import", "NewRedeemScriptFromElectrum")], ["resulting RedeemScript or error"])

p("B01", "Merkle branches and roots agree with the Merkle tree for any block size",
  "For every list of transaction IDs, the branches computed for the first position, combined with the first transaction's hash, give the Merkle root of the whole list (last hash of an odd level duplicated), both from raw hashes and as a proof for index 0; there is one branch per level, and they do not depend on the first transaction, so that a changed coinbase gives the root of the changed list. A list with fewer than two IDs has no branches.",
  ["inputs"], "All numbers of transactions from 0 up to several thousand, all hashes.",
  "One proof of one transaction is tested; GetMerkleBranches and BuildMerkleRootFromCoinbase are not called by any test.",
  [MB, MR], [("branches", "GetMerkleBranches"), ("root", "BuildMerkleRootFromCoinbase, MerkleRootFromBranches")],
  ["branches and roots against a full tree computation"])

p("B02", "Merkle proofs verify for their position only",
  "For every transaction in every Merkle tree, its hash, its index and its branch give the tree's root. A proof with any bit of the hash or a branch changed, a branch missing, added or swapped with a different one, or another index (unless an odd level pairs a hash with its own copy) gives another root or an error; an index beyond what the number of branches allows, a negative index and hashes that are not hex are errors.",
  ["inputs"], "All trees, all positions, all single changes to a proof.",
  "One valid proof is tested and no invalid one.",
  [MB], [("proof", "MerkleRootFromBranches")], ["root or error for valid and damaged proofs"])

p("B03", "Coinbase parts assemble to a valid coinbase transaction",
  "For every height below 2^24, value, text, address, witness commitment and miner ID, the two coinbase parts joined with extra nonces of 12 bytes in total form a complete transaction: version 1, one coinbase input whose script is 0x03, the height in 3 little-endian bytes, the text and the extra nonces, the text cut so that the script never exceeds 100 bytes, final sequence, lock time 0. The outputs are the P2PKH payment of the value to the address, then, if given, zero-value outputs with the witness commitment and the miner ID as their scripts. An invalid address or commitment hex gives an error.",
  ["inputs"], "All heights, values, texts of any length, addresses of both networks, commitments and miner IDs of any length, splits of the extra nonce.",
  "No test calls GetCoinbaseParts or BuildCoinbase.",
  [CP, OUT], [("parts", "GetCoinbaseParts, makeCoinbase1, makeCoinbase2, makeCoinbaseOutputTransactions"), ("join", "BuildCoinbase")],
  ["joined bytes, parsed by an independent parser"])

p("B04", "Block headers are laid out as the protocol prescribes",
  "The header built from a version, the previous block hash (as displayed), Merkle root, time, bits and nonce bytes is 80 bytes long and holds the little-endian version at offset 0, the previous hash in internal byte order at 4, and Merkle root, time, bits and nonce exactly as given at 36, 68, 72 and 76. Its byte-reversed double SHA-256 is the block hash.",
  ["inputs"], "All versions, 32-byte hashes and roots, 4-byte times, bits and nonces.",
  "No test calls BuildBlockHeader.",
  [BH, BM], [("layout", "BuildBlockHeader")], ["returned bytes"])

p("B05", "Compact bits expand to the target and difficulty they stand for",
  "For every compact bits value without the sign bit, the expanded target is mantissa * 256^(exponent-3), rounded down, as a number and as 32 bytes of hex if it fits in 256 bits, and the difficulty of a non-zero target is the genesis target divided by it; both are monotonic in the target. Text that is not exactly 4 bytes of hex, or bits whose target does not fit the 32 bytes, give an error, never a crash.",
  ["inputs"], "All 2^32 compact values, arbitrary text.",
  "Two expansions, one invalid text and three difficulties are tested; no exponent below 23 or above 32.",
  [DI], [("expand", "ExpandTargetFrom, ExpandTargetFromAsInt"), ("difficulty", "DifficultyFromBits, toCompactSize, targetToDifficulty")],
  ["results against exact integer and rational arithmetic"])

p("B06", "Hash-rate figures match the difficulty and read as the number they mean",
  "The hash rate for a difficulty and block time is difficulty times the expected number of hashes per unit of difficulty (2^256 over the regtest target for coins starting with R, over the genesis target otherwise), divided by the time, for every difficulty. The human-readable form of a rate of at least 1 H/s uses the largest unit from H/s to ZH/s that does not exceed it, and its number times its unit is the rate, to within the two decimals printed.",
  ["inputs"], "All difficulties, times, tickers, and rates over 24 orders of magnitude including each unit boundary.",
  "Two hash rates are tested; HumanHash is not called by any test.",
  [DI, HH], [("rate", "DifficultyToHashrate"), ("format", "HumanHash")], ["returned numbers and text"])

p("U01", "VarInts are canonical, self-delimiting and reversible",
  "Every 64-bit value encodes to the shortest of the 1, 3, 5 and 9 byte forms with the protocol's marker and little-endian digits, and decodes, with any bytes after it, to the same value and the encoded size. Decoding the first bytes of an encoding that is cut short, or no bytes, does not crash and does not report more bytes than there are.",
  ["inputs"], "All 64-bit values, dense around each width boundary, all truncations, all trailing bytes.",
  "VarInt and DecodeVarInt have no test of their own; other tests reach the one byte form only.",
  [VI], [("codec", "VarInt, DecodeVarInt")], ["encoded bytes, decoded value and size"])

p("U02", "Byte helpers reverse, compare, sort and convert exactly",
  "Reversing bytes reverses their order, twice gives the original, and never alters the argument; reversing a hex string equals hex of the reversed bytes, an odd length being padded with a leading zero. Comparison is true exactly for equal contents; sorting byte strings gives the same byte strings in ascending lexicographic order; the little-endian form of a number of 4 or more bytes holds its value and zeros. Decoding a 32-byte hex string gives its bytes, and any text that is not exactly 32 bytes of hex is an error.",
  ["inputs"], "All byte strings and lists of them of any length, all numbers, arbitrary text.",
  "Reversing is tested on three short hex strings, the other helpers not at all.",
  [BM], [("helpers", "ReverseBytes, ReverseHexString, Equals, SortByteArrays, GetLittleEndianBytes, Decode32Byte")],
  ["results and arguments after the call"])

p("H01", "Hash functions compute the standard digests for every input",
  "SHA-256, double SHA-256, RIPEMD-160 and HASH160 (RIPEMD-160 of SHA-256) return the standard digest of the whole input, for every input of every length, independently of calls before or at the same time, and without altering the input.",
  ["inputs", "histories", "schedules"], "All byte strings, every length across several hash blocks, any sequence or overlap of calls.",
  "Each function is tested on one short and the empty string.",
  [HA], [("hashes", "Sha256, Sha256d, Ripemd160, Hash160")], ["digests against independent implementations"])

p("E01", "Decryption returns what was encrypted and needs the right key",
  "For every AES key and text, decrypting the encryption with the same key returns the text, as often as it is repeated and from the same ciphertext, and neither call alters its arguments. Each encryption uses a fresh random initialisation vector, so that equal texts have different ciphertexts whose difference does not reveal that they are equal; decrypting with another key does not return the text. A ciphertext shorter than the vector, or one that holds no complete text, is an error, and no ciphertext causes a crash.",
  ["inputs", "histories"], "All AES-128/192/256 keys, texts of all lengths, truncated, damaged and repeated ciphertexts.",
  "Encryption has no test (its comment says so); decrypting twice failed at the pinned commit.",
  [EN], [("codec", "Encrypt, Decrypt")], ["plaintexts, ciphertexts, arguments after the call"])

p("G01", "Calls do not interfere: arguments are kept and results stay valid",
  "No library function modifies the bytes, slices or strings passed to it, nor memory beyond the end of a slice passed to it (sorting a list and appending to a script reorder or extend just that). The result of a call depends only on its arguments: repeating it after any other calls, or in a process with another environment, directory or number of processors, gives the same result. A result once returned is never changed by later calls. Results belong to the caller: editing one changes no other result, no argument and no later answer, and editing an argument after the call does not change the result, but for calls that by their nature wrap or select from what they are given (script.NewFromBytes, DecodeParts, GetPublicKeyHash, SortByteArrays, GetInputs, GetOutputs, a Merkle root of no branches).",
  ["histories", "inputs"], "All public functions, all arguments with spare capacity behind them, all sequences of calls.",
  "The tests call each function once with exactly sized literals and never look at the arguments, spare capacity or earlier results again.",
  [BM, HA, EN, MB, MR, BH, CP, PD, SC, AD, RS, TX, SH],
  [("fresh result buffers", "all functions returning bytes"), ("no package state", "all packages; only the opcode tables and difficulty constants are global")],
  ["canary bytes around every argument, digests of retained results, repeated calls"])

p("G02", "Concurrent use is free of data races and gives sequential results",
  "Any number of goroutines may call the library at the same time on their own data, read the same transaction, input, output, script, address or redeem script (serialise, identify, hash for signing, classify, convert), and sign different transactions with one shared signer: there is no data race, and every result is the one a sequential call gives.",
  ["schedules", "histories"], "All interleavings of all public functions over distinct data, shared read-only data and shared signers.",
  "No test starts a goroutine and the suite is not run with the race detector (sharing a signer or reading a redeem script raced).",
  [SG, RS, TX, SH, HA, OPC, DI], [("no shared mutable state", "all packages"), ("signer reads only", "InternalSigner"), ("reads do not sort in place", "RedeemScript.GetRedeemScript")],
  ["race detector reports, results against sequential ones"])

p("G03", "No untrusted text or bytes can crash or hang the library",
  "Every function that parses, decodes, validates, expands or inspects external bytes or text (transactions, inputs, outputs, VarInts, scripts in bytes, hex and assembly, classifiers, addresses, BIP276, Electrum scripts, extended keys, bits, Merkle proofs, block header fields, ciphertexts, hex helpers) returns for every input, with a result or an error: it never panics, overflows the stack, loops forever or allocates memory out of proportion to its input. What it returns without error can be used further, for serialising, printing, converting or signing, without a crash either.",
  ["inputs"], "All byte strings and texts, hostile and random, at every decoding entry point, and the follow-up calls on what they return.",
  "The tests feed well-formed input, with five exceptions; none of them is a short, oversized or hostile one.",
  [TX, IN, OUT, VI, PD, SC, AV, AD, B276, RS, DI, MB, EN, BM],
  [("length checks", "all decoding functions"), ("error returns", "all decoding functions")],
  ["panics, fatal errors, allocation and CPU time of every call"])

p("G04", "Calls leave nothing behind and touch nothing outside the process",
  "However many calls are made, with whatever arguments, once the arguments and results are dropped nothing of them stays behind: the memory held by the process does not grow with the number of calls, no call leaves a goroutine running or a file open, and no call writes to the standard output. No call opens, reads, makes or removes a file, uses the network or starts a process. No call changes a setting of the process: its environment, working directory and limits, the processors and memory it may use, signal handling, the time zone, the standard logger, the standard files or the source of random bytes. No private key, extended private key, AES key, plaintext or puzzle secret handed to the library appears in what it writes to the standard error or in the text of an error it returns.",
  ["histories", "inputs"], "All sequences of calls of all public functions, of any length, with repeated, different and large arguments.",
  "The tests make each call once or twice and end; nothing measures the memory, goroutines or files held, or looks at what is printed, written or asked for elsewhere.",
  [TX, IN, OUT, SH, SG, SC, PD, RS, AD, AV, B276, HA, EN, MB, CP, DI, BM],
  [("no package state", "all packages"), ("no goroutines", "all packages"), ("error texts", "all functions returning errors")],
  ["heap in use, goroutines and open files of the process after garbage collection; its standard output and error; error texts; system calls that reach for files, network and processes"])

p("G05", "Platforms with 32-bit words give the same results",
  "Built for a platform on which int has 32 bits, every function returns the same results and errors as it does where int has 64 bits, for everything that fits into memory there: lengths, counts, amounts, heights, bits and indexes of 2^31 and more that occur in data or arguments are neither cut, nor taken for negative, nor lead to a crash.",
  ["inputs", "histories"], "All inputs and call histories of the other properties, on a platform with 32-bit words.",
  "The tests run on one platform with 64-bit words (DecodeParts panicked on a platform with 32-bit words), and no test input announces 2^31 or more of anything.",
  [PD, IN, OUT, TX, SH, VI, SC, MB, DI, HH, CP, B276, BM],
  [("lengths compared without conversion to int", "DecodeParts, input.NewFromBytes, output.NewFromBytes"), ("amounts and counts as uint64", "transaction, VarInt, Difficulty.go"), ("index arithmetic", "MerkleRootFromBranches")],
  ["all monitors of the other properties, in a process built for GOARCH=386"])

p("W01", "What is built with the library is accepted and understood by other nodes",
  "Wallets that use nothing but the library to make outputs of every kind it supports (public key hash, public key, hash puzzle, script hash, bare multisignature, data), to spend them, to sign with any FORKID hash type, to pass half-signed transactions on to other signers and to change what a hash type leaves open, and a miner that uses it for the coinbase, the Merkle root and the header, produce transactions and blocks that another implementation of Bitcoin parses to the same content, finds valid under its standard rules (structure, amounts, scripts, signatures, proof of work, Merkle root, coinbase height) and gives the same IDs, over any history of transactions and blocks; the owners find their coins in the chain, the sum of all coins is kept, and a transaction that is changed where its signatures cover it is refused.",
  ["inputs", "histories"], "All histories of transactions and blocks that build on each other, with any kinds and numbers of inputs and outputs, hash types, orders of signing and block heights.",
  "No test has the result of one function judged by a node: signatures are not verified, scripts are not executed, blocks are not assembled, and the functions are tested alone and not on each other's results.",
  [TX, IN, OUT, SH, SG, US, SC, PD, RS, AD, AV, B276, CP, MB, MR, BH, DI, HA, VI, BM],
  [("making and signing transactions", "Transaction.From/PayTo/AddInput/AddOutput/Sign/SignAuto/ApplyUnlockingScript"), ("digest", "Transaction.GetInputSignatureHash"), ("outputs", "output.New*, script.New*, RedeemScript"), ("blocks", "GetCoinbaseParts, BuildCoinbase, GetMerkleBranches, BuildMerkleRootFromCoinbase, BuildBlockHeader, ExpandTargetFromAsInt, MerkleRootFromBranches")],
  ["bytes of transactions and blocks, judged by bsvd's wire, blockchain and txscript packages; IDs, hashes, totals"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
