#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
T = {
 "T01": "online monitor of serialise/parse/edit histories against an independent wire-format model",
 "T02": "online monitor of wire bytes, IDs and totals against an independent encoder, over edit histories (stale-cache detection)",
 "T03": "online accept/reject monitor against a reference parser on mutated, truncated and announced-length inputs, with allocation metering, address-space limit and hang watchdog",
 "T04": "aliasing monitor: guarded buffers overwritten after parsing, scripts appended to and overwritten, all other state compared",
 "T05": "online monitor of builder call histories against a model list, failed calls included",
 "T06": "online classification monitor with a three-valued oracle",
 "T07": "online monitor against a reference encoder; transaction state compared before and after",
 "S01": "online monitor of digests against an independent BIP143 implementation, over edit histories",
 "S02": "metamorphic monitor: one part changed at a time, digest must change exactly if covered",
 "S03": "online monitor with an independent strict-DER/low-S/ECDSA verifier",
 "S04": "online monitor with an independent ECDSA verifier over multi-key signing histories",
 "S05": "recording stand-in signers with fault injection; state compared before and after",
 "C01": "online monitor against a reference push encoder, all length boundaries",
 "C02": "online monitor against a reference script splitter; guarded buffers detect overreads",
 "C03": "online monitor against reference assembly semantics (both directions)",
 "C04": "online classification monitor with a three-valued oracle on near-miss scripts",
 "C05": "online monitor against reference templates, all argument forms and faults",
 "C06": "online monitor of append histories against a model; aliasing monitor",
 "A01": "online monitor against an independent Base58Check implementation",
 "A02": "online accept/reject monitor against an independent decoder; all single edits of genuine addresses",
 "A03": "online codec monitor against a reference encoder; all single edits",
 "M01": "online monitor against independent BIP32 derivation and secp256k1 arithmetic",
 "M02": "online accept/reject monitor against a reference Electrum parser and by-hand construction",
 "B01": "online monitor against a reference Merkle tree",
 "B02": "online monitor: every proof position verified, perturbed proofs rejected",
 "B03": "online monitor against a reference coinbase builder, result parsed by a reference parser",
 "B04": "online monitor against a reference header encoder; genuine block headers",
 "B05": "online monitor against big-integer reference; pairwise monotonicity",
 "B06": "online monitor against exact big-integer/rational reference",
 "U01": "online monitor against a reference VarInt codec, exhaustive to 65535 in the thorough tier",
 "U02": "online monitor against reference conversions; guarded arguments",
 "H01": "online monitor against an independent implementation of the digests",
 "E01": "online monitor of encrypt/decrypt histories; uniqueness of vectors checked across processes",
 "G01": "purity monitor: guard margins and spare capacity around arguments, retained results re-read, repeated calls and differing call orders compared across processes",
 "G02": "Go race detector on concurrent workloads, plus result monitor against sequential runs and recorded interleavings",
 "G03": "crash, hang and allocation monitor (address-space limit, watchdog, allocation metering) under hostile inputs",
 "W01": "recorded chains of transactions and blocks made with the library, judged online by a node put together from bsvd's parser, sanity rules, coin set, script interpreter and proof-of-work checks; conservation and ownership checked at the end",
 "G05": "the monitors of the other properties in processes built for GOARCH=386 (32-bit int), on a spread share of their workloads",
 "G04": "leak monitor: heap, goroutines and descriptors measured over thousands of calls of each operation; captured output and errors searched for secrets; a kernel filter (seccomp) traps calls that reach for files, network or processes",
}
NOTE = "Holds for everything observed in the run (counts in the evidence file); nothing is said about inputs, histories or schedules not produced. Trusts the reference models in harness/ref, which are checked against published vectors at the start of each run, the Go toolchain and its race detector."
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
assert {p["id"] for p in props} == set(T)
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
  "property": p["id"],
  "quick_cmd": "bash run.sh " + p["id"],
  "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
  "evidence_file": "evidence/%s.json" % p["id"],
  "technique": MON + T[p["id"]],
  "level": "exploration",
  "level_note": NOTE,
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed at the public API of the real code. Findings and repairs are listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
