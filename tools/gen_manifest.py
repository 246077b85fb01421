#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("round-trip monitor against an independent phrase codec over structured seeds/offsets", "exploration", "Every case runs the real encoder, decoder and recovery; judged by an oracle sharing no code. Argon2id is a recorded stand-in here (opaque to the property)."),
 "C02": ("round-trip and wrong-password monitor against an independent decryptor; real Argon2id sample", "exploration", "Large sample with an Argon2id stand-in that is a PRF of all parameters, small sample with the real one; salts and ciphertexts steered to edge values."),
 "C03": ("differential monitor: produced phrases vs an independent encoder of the README layout", "exploration", "Word-for-word comparison, including recorded Argon2id parameters and steered salts and ciphertexts; a few cases with the real Argon2id."),
 "C04": ("differential monitor: decoder verdicts vs an independent decoder, incl. exhaustive single-word mutations", "exploration", "All single-word substitutions and all first words are enumerated for sampled phrases; the rest is sampled."),
 "C05": ("differential monitor: exported secrets vs an independent derivation; all indices enumerated", "exploration", "All 3 x 65536 indices for one seed; other inputs and process environments sampled; real Argon2id on a sample."),
 "C06": ("collision and non-interference monitor over index sweeps", "exploration", "All 196608 (type, index) keys of one seed are collected and compared; option independence sampled."),
 "C07": ("repeat/cross-process output monitor and recorded-release digests", "exploration", "Byte equality over calls, long-lived and otherwise used objects, processes, environments, selections and against digests recorded from the original release."),
 "C08": ("trace checker: independent OpenPGP parser/verifier over every export, plus gpg import/sign/decrypt", "exploration", "All packet-length boundaries of the user ID are covered; other inputs sampled."),
 "C09": ("expiry monitor over library durations and TTL texts", "exploration", "Expiry subpackets parsed independently; unrepresentable values must be refused."),
 "C10": ("S2K monitor: independent decryption with right and wrong passwords, secret-byte scans, salt/IV freshness", "exploration", "Judges every encrypted secret with an independent S2K/CFB implementation, over histories of exports and processes started at the same instant."),
 "C11": ("selection monitor over all subsets and export modes, secret-byte scans, library and CLI", "exploration", "All subset shapes; secrets searched for in several encodings."),
 "C12": ("fault injection in the random source at every byte, bit-influence and distribution monitors", "fault_enumeration", "Failure at every byte position and chunking of the source; every seed and salt bit must follow the stream; transient failures; runs at the same instant."),
 "C13": ("creation-time monitor over instants, zones and sub-seconds", "exploration", "Second read back from accessors, phrase, packets and signatures."),
 "C14": ("differential monitor: armor and accessors vs independently parsed packets", "exploration", "Includes armor length classes and own CRC-24."),
 "C15": ("Go race detector over concurrent API histories, linearity of results and ownership monitors", "exploration", "Race detector sees executed accesses only; results of concurrent calls compared with sequential ones."),
 "C16": ("end-to-end monitor of the real binary: generate/recover by all channels vs oracle", "exploration", "Flag combinations, channels, clocks and file names sampled; stdout/stderr/files all captured; written buffers traced for secrets."),
 "C17": ("history monitor: conversion chains, every phrase re-opened by the oracle", "exploration", "Chains in the library and through the command, by file and terminal."),
 "C18": ("model-based pty monitor of phrase entry: key-stroke model vs observed phrase, termios checks", "exploration", "Random users with detours; every word by every prefix length; aborts at random key strokes."),
 "C19": ("file-system state monitor: snapshots, process contests with injected system-call delays", "exploration", "All kinds of existing targets, contests of 2-8 processes and an outside rival, strace-delayed; every file size limit."),
 "C20": ("pty monitor of password prompts: echo sampling, injected terminal-call delays, race-detector build", "exploration", "Prompt histories with refused answers and aborts; termios compared after exit."),
 "C21": ("fault injection: invalid command lines, write failure at every byte/call, failing reads; delivery oracle", "fault_enumeration", "Size limit at every byte of stdout, stderr and word file; n-th write and read and the closing of the word file failing."),
 "C22": ("pty monitor over every terminal width 0-300 and extremes, memory- and time-limited", "exploration", "All help screens, usage errors and phrase displays at each width."),
 "C23": ("argument-range monitor of the exported functions, codecs judged as inverses", "exploration", "All word indices and words enumerated; wide values sampled around every boundary."),
 "C26": ("trace checker: independent OpenPGP parser/verifier over packets, signatures, key sets and S2K encryptions made with the pgp package", "exploration", "Packet and subpacket lengths and integer sizes enumerated through every encoding boundary; requests and key sets sampled."),
 "C27": ("non-interference monitor: texts of refusals and failing commands compared over pairs of secrets with the same defect", "exploration", "Pairs sampled per defect and channel; an independent decoder decides whether two secrets fail alike."),
 "C28": ("screen monitor: emulated terminal compared with a key-stroke model after every portion of key strokes", "exploration", "Random users with detours on terminals of different sizes and cursor positions; the screen is searched for entered words at every step and after the end."),
 "C29": ("history monitor: real GnuPG keyring compared after every import with a model of the exports made so far", "exploration", "Random histories of exports (library and command) imported into scratch keyrings; fingerprints, times and capabilities come from the oracle's own derivation."),
 "C30": ("system call monitor (strace) over commands and library programs, resource monitor over repeated library use", "exploration", "Random commands with files, pipes and terminals, also failing ones, and a tour through the whole library; leaks are judged by growth over six equal periods of calls."),
}
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
             "technique": "runtime monitoring: " + t, "level": l, "level_note": n} for k, (t, l, n) in T.items()],
 "not_applicable": [
  {"property": "C24", "reason": "About build artifacts over all machines: there is no execution of mnemonikey whose observation could decide it."},
  {"property": "C25", "reason": "A computational-hardness claim over all attackers: no observed execution can refute or support it."}],
 "notes": "Library streams are repeated in child processes with other environments (processors, memory, locale, user). Inputs also come from the constants of the current tree. No hooks in /repo: monitors observe the exported API and the real binary; Argon2id and x/term are instrumented in scratch copies of the dependencies."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
