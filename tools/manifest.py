#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks listed here."""
import json, os
SHARED = " Exploration: shows the property on the executions observed (counts in the evidence file), for the seed given; trusts the independent reference in harness/src/rv.rs and, where state is encrypted, the decryption routines."
C = [
 ("E01", "runtime monitor on decrypted state, lock-step with an RV32I reference", "Random programs, operands and sizes; most cycles use a shorter LWE key (same code), a share the production parameters."),
 ("E02", "runtime monitor on decrypted results of encrypted operations, reference oracle", "Boundary-biased operands for all register-writing operations, several thread counts."),
 ("E03", "runtime monitor on decrypted RAM and registers per access, reference oracle", "All (operation, byte offset) pairs over several RAM sizes."),
 ("E04", "online history checker (memory against an array) on decrypted state", "Random histories over many sizes and thread counts."),
 ("E05", "runtime monitor on executed decision diagrams with edge-steered workload, reference oracle", "Every decision edge is driven; homomorphic evaluation is sampled."),
 ("E06", "runtime monitor on executed decision diagrams with edge-steered workload, reference oracle", "Every decision edge is driven; homomorphic evaluation is sampled."),
 ("E07", "schedule stress with bitwise comparison of recorded ciphertext states", "Every thread count from 1 to 66 and some larger ones under oversubscription; interleavings are those the OS produced."),
 ("E08", "online noise monitor on hooked ciphertext state", "Production parameters; limits are the observed level plus about one and a half bits, with square-root growth for carried state; bootstrapping inputs need seven sigma."),
 ("E09", "differential monitor (debug against plain VM), fault injection into encrypted state", "Twin runs, injected divergences, mirror against the reference."),
 ("E10", "monitor over recorded ciphertexts: repeated blocks and errors, noise level, key distribution, wrong-key decryption", "Detects reuse and missing randomness, not cryptanalytic weakness; one known finding (constant seeds in the public entry point)."),
 ("E11", "differential monitor over recorded ciphertexts with poisoned working memory", "Five scratch contents and several sizes on whole VMs, single units and memories; bitwise comparison."),
 ("C01", "monitor of standard output, worker threads and wall-clock time of runs under every kind of setting", "Lines with durations count as timings, other lines as debug output; a breakdown of another form than numbered phases with dashed steps is only counted, not added up."),
 ("M01", "AddressSanitizer and ThreadSanitizer on the real code under a size, thread-count and malformed-input workload", "Reports of the sanitizers, failed unsafe preconditions and fatal signals; accesses inside one large buffer that belongs to the same worker are not distinguished."),
 ("D01", "runtime oracle over every instruction word of the supported opcodes", "All words of the supported major opcodes are executed through the decoder in both tiers."),
 ("D02", "runtime monitor on decrypted ROM and fetched fields, reference decoder", "Random programs and sizes, slots at boundaries."),
 ("D03", "runtime oracle over offered programs, data and spoiled executables, read-back of what was accepted", "Lengths around every capacity, one unimplemented instruction at a random place, executables spoiled in one respect."),
 ("T01", "lock-step runtime monitor of the plaintext VM against an RV32IM reference", "Millions of single steps over all operations plus whole programs."),
 ("T02", "runtime oracle on loaded images of generated executables", "Random layouts of the family the linker script produces."),
 ("T03", "runtime monitor on RAM and tapes of generated executables", "Plaintext VM in bulk, encrypted VM on a few per run."),
 ("G01", "runtime monitor on heap events of an instrumented guest, offline checker of block invariants", "Random request sequences run in a guest on the reference machine and on the plaintext VM; observes addresses and contents."),
 ("G02", "differential runtime monitor: guests against native execution", "Eight guests, random inputs; one short guest end to end under encryption."),
 ("B01", "fault injection with a stand-in compiler, oracle over returned bytes and received arguments", "Eight outcomes of the compiler run, random earlier contents of the output directory."),
 ("T04", "end-to-end differential monitor through the public interface", "Few programs per quick run (production parameters cost seconds per cycle)."),
]
checks = [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
           "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n + SHARED} for i, t, n in C]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"... --cfg verif_hooks\" (env.sh), used by every check",
               "source_commits": ["c266f0b", "7a3b515", "880d8cb"]},
     "checks": checks,
     "not_applicable": [
      {"property": "S02", "reason": "Computational indistinguishability of ciphertexts is a statement about all adversaries; no observation of executions can decide it. E10 monitors the observable prerequisites (fresh randomness, noise level, key separation)."}],
     "notes": "Known and fixed findings are in KNOWN_FINDINGS.txt. Exit codes other than 0 and 1 mean no verdict (for example, the tree does not build)."}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1); open(p, "a").write("\n")
