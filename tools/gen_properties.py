#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "A plaintext recovery phrase restores exactly the same key",
  "For every 128-bit seed and every supported creation second, the plaintext recovery phrase is 14 lower-case wordlist words, and recovering from those words (in any letter case) yields exactly that seed and creation time. "
  "Recovering with the same options re-creates a key with the same fingerprints, the same secret key material and the same unencrypted export as the original.",
  ["inputs"], "all 2^128 seeds x 2^31 creation offsets x key options x letter casings of the phrase",
  "The suite round-trips one seed at one creation time and compares two fingerprints; values with leading zeros, field-boundary bits or extreme offsets are never sampled.",
  ["encoding.go", "recovery.go", "bit_buffer.go", "mnemonic/encode.go", "mnemonic/decode.go", "mnemonikey.go", "seed.go"],
  [("payload packing", "encoding.go:EncodeMnemonicPlaintext/encodeMnemonic"), ("payload unpacking", "recovery.go:DecodeMnemonic"), ("re-derivation", "recovery.go:RecoverPlaintext -> mnemonikey.go:New")],
  ["words returned by EncodeMnemonicPlaintext", "Seed/CreationOffset of the decoded phrase", "packets exported by the original and the recovered key"])

p("C02", "An encrypted recovery phrase opens with its password, and only then",
  "For every seed, creation time and non-empty password, the encrypted recovery phrase is 16 wordlist words and the same password always recovers exactly that seed, creation time and key. "
  "Encrypting with an empty password is refused, and an encrypted phrase hands out no seed without going through decryption. "
  "A wrong password gives a decryption error, except when its five verification bits collide (about 1 in 32), and then it never yields the true seed.",
  ["inputs"], "all seeds x offsets x passwords (any bytes, any length) x 19-bit salts, and all wrong passwords",
  "One seed, one password and one wrong password are tested, with a random salt (so that very test is flaky by design at 1/32).",
  ["encoding.go", "recovery.go", "version.go"],
  [("seed encryption", "encoding.go:EncodeMnemonicEncrypted"), ("seed decryption and verification bits", "recovery.go:DecryptSeed"), ("refusal", "recovery.go:Seed, RecoverPlaintext")],
  ["words", "seed returned by DecryptSeed/RecoverEncrypted", "errors"])

p("C03", "Phrases follow the published bit layout exactly",
  "Every phrase produced, plaintext or encrypted, equals word for word what the README specification prescribes for its version, seed (AES-128 encrypted for encrypted phrases), salt, verification bits, creation offset and CRC-32 checksum. "
  "The phrase-encryption key is Argon2id of the password salted with salt and creation offset, at the published cost. "
  "So a phrase can be read by any conforming implementation, now or later.",
  ["inputs", "configurations"], "all (version, seed, salt, password, offset) combinations",
  "Encoder and decoder are only tested against each other on one value; a symmetric change in both passes every test while orphaning existing paper backups.",
  ["encoding.go", "bit_buffer.go", "parameters.go", "version.go", "mnemonic/encode.go"],
  [("bit layout", "encoding.go, parameters.go"), ("checksum", "encoding.go:encodeMnemonic"), ("Argon2id/AES", "encoding.go:EncodeMnemonicEncrypted")],
  ["words compared with an independent reference encoder"])

p("C04", "The decoder accepts exactly the valid phrases",
  "A word sequence is accepted if and only if every word is in the wordlist (in any letter case), the first word carries a supported version, the word count is the one that version requires and the checksum matches; an accepted phrase reports exactly the version, encryption flag, creation time and seed it encodes. "
  "Anything else is refused with an error naming one of the defects present, and never crashes. "
  "The version pre-check on the first word agrees with this for every word.",
  ["inputs"], "all word sequences of any length over arbitrary strings; in particular all single-word substitutions, transpositions, insertions and deletions of valid phrases",
  "The suite corrupts one word of one phrase.",
  ["recovery.go", "mnemonic/decode.go", "version.go", "bit_buffer.go"],
  [("word membership", "mnemonic/decode.go:DecodeWords"), ("version gate", "recovery.go:ParseMnemonicVersion, version.go:check"), ("count and checksum gates", "recovery.go:DecodeMnemonic")],
  ["result or error of DecodeMnemonic, RecoverPlaintext, ParseMnemonicVersion"])

p("C05", "Secret keys follow the published derivation and nothing else",
  "For every seed, creation second and subkey index from 0 to 65535, the master, encryption, authentication and signing secret keys equal the published derivation: Argon2id of seed and creation time at the published cost, then HKDF-Expand with the published info strings. "
  "They do not depend on anything else: not the name, email, TTL, export password, selection or indices of other subkeys, time zone or sub-second part of the creation time, or earlier calls.",
  ["inputs", "histories"], "all seeds x creation seconds x types x 65536 indices x unrelated options",
  "Tests pin two fingerprints and one subkey at index 1; a derivation that differs for other indices, seeds or times passes and makes existing backups useless.",
  ["derive.go", "mnemonikey.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "pgp/master_key.go", "key_options.go"],
  [("root key", "derive.go:derivePGPKeySet"), ("HKDF info", "derive.go:keyExpandInfoSubkey"), ("curve keys", "pgp/*.go constructors")],
  ["secret key material parsed from exports, compared with an independent reference derivation", "recorded Argon2id call parameters"])

p("C06", "Subkey indices select independent, distinct subkeys",
  "For one seed and creation time, every (subkey type, index) pair gives a different key, all different from the master key. "
  "Changing the index of one subkey type changes that type's subkey only: the master key, its self-certification and the other subkeys with their binding signatures stay byte-identical.",
  ["inputs"], "all seeds x pairs of (type, index) in 3 x 65536",
  "One increment of one index is tested, against a constant.",
  ["derive.go", "key_options.go", "pgp/key_set.go", "cmd/mnemonikey/recover.go"],
  [("index in HKDF info", "derive.go:keyExpandInfoSubkey"), ("per-type index options", "derive.go:derivePGPKeySet")],
  ["fingerprints and packets over index sweeps"])

p("C07", "Unencrypted exports are byte-for-byte deterministic",
  "An export made without a password is a function of seed, creation second and options only: repeated calls, freshly built or recovered objects and other processes give byte-identical packets and armor, also identical to those recorded from this release. "
  "Whatever subset of subkeys is selected, the selected subkeys keep the same relative order and the same packets.",
  ["inputs", "histories"], "all inputs and all call histories, in one process or several",
  "No test compares two exports; gpg tolerates reordered or re-signed packets.",
  ["pgp/key_set.go", "pgp/sign.go", "pgp/master_key.go", "mnemonikey.go"],
  [("seeded shuffle", "pgp/key_set.go:encodeAllSubkeyPackets"), ("signature time = creation", "pgp/master_key.go"), ("deterministic EdDSA", "pgp/sign.go")],
  ["export bytes across calls, objects and processes; recorded digests in /verif/harness/props/golden.json"])

p("C08", "Every export is a valid, self-consistent OpenPGP key",
  "For any user ID (of any length) and options, every export parses as the published OpenPGP v4 packet sequence, each secret key matches its public key, every self-certification and binding signature verifies under the master key, and a signing subkey carries a verifying cross-certification. "
  "Each key has the published algorithm and curve and exactly its published capability flags, timestamps equal to the creation time, the published preferences in the self-certification, and a user ID built from name and email as documented. "
  "GnuPG imports such keys and can use them.",
  ["inputs"], "all seeds, creation times, user IDs, TTLs, indices, subkey subsets and export modes",
  "One key with one short user ID is imported into gpg; packet-length boundaries, integers with leading zeros and unused subkey types are not reached.",
  ["pgp/key_set.go", "pgp/master_key.go", "pgp/ecc_key.go", "pgp/signature.go", "pgp/sign.go", "pgp/packet.go", "pgp/mpi.go", "pgp/user_id.go", "pgp/constants.go"],
  [("packet framing", "pgp/packet.go"), ("MPI encoding", "pgp/mpi.go"), ("signatures", "pgp/sign.go, pgp/signature.go, pgp/master_key.go")],
  ["exported bytes, parsed and verified by an independent OpenPGP reader", "gpg --import/--sign/--decrypt"])

p("C09", "Requested key expiry is honoured exactly or refused",
  "With a TTL (a duration in the library, or days, weeks, 365/12-day months or 365-day years on the command line) the master key and every exported subkey expire exactly that long after creation, floored to whole seconds, and the reported expiry agrees; without a TTL (or with a zero one) nothing expires. "
  "A TTL that cannot be represented - negative, under one second, above 2^32-1 seconds, overflowing or malformed - is refused rather than silently changed.",
  ["inputs"], "all durations and all TTL strings",
  "No test sets a TTL.",
  ["derive.go", "mnemonikey.go", "pgp/master_key.go", "cmd/mnemonikey/expiry.go"],
  [("expiry computation", "derive.go:derivePGPKeySet"), ("expiry subpackets", "pgp/master_key.go:SelfCertify, BindSubkey"), ("period parsing", "cmd/mnemonikey/expiry.go:parseTTL")],
  ["expiry subpackets in exports", "Expiry()", "CLI exit status"])

p("C10", "A password-protected export never exposes secret keys",
  "When an export password is given, every secret key in the export (binary or armored, full or subkeys-only) is encrypted, the password decrypts it to exactly the derived key, any other password fails its integrity check, and no secret key bytes occur in the output. "
  "Each encrypted key uses the published S2K protection (iterated-salted SHA-256, maximum count, AES-256) with its own fresh salt and IV, and the public parts and signatures equal those of the unencrypted export.",
  ["inputs", "histories"], "all keys x passwords x export modes x repeated exports",
  "No test exports with a password.",
  ["pgp/s2k.go", "pgp/ecc_key.go", "pgp/key_set.go", "mnemonikey.go"],
  [("S2K encryption", "pgp/s2k.go:EncryptS2K"), ("password plumbing", "pgp/key_set.go, pgp/ecc_key.go:encodePrivate")],
  ["secret packets, decrypted by an independent S2K implementation; substring scans for secret bytes"])

p("C11", "Exports contain exactly the selected keys; stubs hide the master secret",
  "An export contains secret material for exactly the selected subkeys, in addition to the master key in a full export. "
  "A subkeys-only export carries the master key as a stub without secret material and the master secret occurs nowhere in it; the self-certification is included exactly when asked for. "
  "On the command line, -only selects keys accordingly and -self-cert controls the self-certification of subkeys-only exports.",
  ["inputs", "configurations"], "all seeds x subsets (any order, duplicates, none) x export modes x passwords x flags",
  "One subset is tested through SubkeyTypes(); no test makes a subkeys-only export.",
  ["pgp/key_set.go", "pgp/ecc_key.go", "key_options.go", "cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
  [("GNU-dummy stub", "pgp/ecc_key.go:encodePrivateDummy"), ("selection", "key_options.go:subkeyEnabled, common_opts.go:DecodeOnlyKeyTypes")],
  ["parsed packets; substring scans for unselected secrets"])

p("C12", "Randomness is used in full and failures of its source are fatal",
  "A generated seed is all 128 bits drawn from the given random source, and each encrypted phrase draws its full 19-bit salt from the given source, so every seed and salt bit can take both values and different randomness gives different results. "
  "If the source errors or runs dry at any byte, or delivers in short reads, the operation fails with an error and returns no seed or phrase, or respectively the same result as an unfragmented read.",
  ["inputs", "fault_sequences"], "all byte streams; failure or short read at every byte position",
  "Tests use one healthy source.",
  ["seed.go", "encoding.go", "cmd/mnemonikey/generate.go"],
  [("seed draw", "seed.go:GenerateSeed"), ("salt draw", "encoding.go:EncodeMnemonicEncrypted"), ("CLI entropy file", "cmd/mnemonikey/generate.go")],
  ["seed and salt bits over streams", "results under failing readers and entropy files"])

p("C13", "Creation times are floored, bounded and consistent everywhere",
  "A creation instant from 2023-01-01T00:00:00Z to the last encodable second (2^31-1 seconds later), given in any time zone and with any sub-second part, is floored to the whole second; the reported creation time, the phrase's offset, every key packet and every signature carry that same second. "
  "Instants before or after that window are refused with the too-early or too-late error.",
  ["inputs"], "all instants and zones around and inside the window",
  "One in-window instant without sub-second part is tested.",
  ["mnemonikey.go", "parameters.go", "derive.go", "recovery.go"],
  [("window check and floor", "mnemonikey.go:New"), ("offset", "mnemonikey.go:creationOffset, recovery.go:Creation")],
  ["CreatedAt, decoded phrase, packets, errors"])

p("C14", "Armor and reported metadata agree with the exported packets",
  "Armored exports are private-key blocks with a correct checksum that decode to exactly the corresponding binary export. "
  "The reported master and subkey fingerprints, subkey types, user ID, creation time and expiry equal what the exported packets contain; a subkey that was not selected has no fingerprint and is not listed.",
  ["inputs"], "all keys, options and export sizes",
  "Only the armor's first and last line and two fingerprints are tested.",
  ["mnemonikey.go", "pgp/user_id.go", "pgp/ecc_key.go", "cmd/mnemonikey/terminal.go"],
  [("armor", "mnemonikey.go:armorEncode"), ("accessors", "mnemonikey.go")],
  ["armor decoded by an independent reader; accessors vs parsed packets; -verbose output of the CLI"])

p("C15", "The library is race-free and leaves its callers' data alone",
  "Seeds, keys and decoded phrases may be shared by concurrent goroutines: there is no data race and every call returns what it returns when run alone. "
  "No call modifies the integers, slices, passwords or options it is given, and changing those, or returned values, afterwards does not change existing seeds, keys or later results.",
  ["schedules", "histories"], "all interleavings of API calls on shared and separate objects; all later mutations of arguments and results",
  "Tests are single-threaded, run without the race detector and never reuse arguments.",
  ["mnemonikey.go", "seed.go", "bit_buffer.go", "mnemonic/encode.go", "pgp/key_set.go", "pgp/s2k.go", "pgp/encryption_subkey.go"],
  [("no shared mutable state", "all packages"), ("defensive copies", "bit_buffer.go:newBitBuffer, seed.go:Int/Bytes")],
  ["Go race detector reports; results of concurrent calls vs sequential ones; argument snapshots"])

p("C16", "The command line generates and recovers the same key end to end",
  "The phrase that generate shows (or writes) recovers, by word file, piped words or terminal entry, with the same options, exactly the private key block that generate printed, whatever the flags. "
  "Standard output carries the armored private key and nothing else (no phrase, prompt or extra lines), the phrase goes only to standard error or the word file, secret keys go only to standard output, and the user ID, subkey selection and indices are the ones requested.",
  ["inputs", "configurations"], "all flag combinations and input channels",
  "The CLI is run three times with default flags and only the armor header and footer are looked at.",
  ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/word_input.go"],
  [("generate", "cmd/mnemonikey/generate.go"), ("recover", "cmd/mnemonikey/recover.go")],
  ["stdout, stderr, word files and exit status of the real binary"])

p("C17", "Converting a phrase keeps the key, and every earlier phrase keeps working",
  "Any chain of conversions between plaintext and encrypted phrases (in the library or with the convert command) yields phrases that all recover the same seed, creation time and key, each with its own password, and never invalidates an earlier phrase. "
  "The convert command writes the new phrase to the requested output word file, otherwise shows it on the terminal, prints nothing on standard output and leaves the input word file untouched.",
  ["histories", "configurations"], "all conversion chains, passwords and input/output channel combinations",
  "convert is not tested at all.",
  ["cmd/mnemonikey/convert.go", "encoding.go", "recovery.go"],
  [("conversion", "cmd/mnemonikey/convert.go:decodeAndConvertPhrase")],
  ["phrases after each step, word files, stdout"])

p("C18", "Interactive phrase entry yields the words the user settled on",
  "For any keystroke sequence at the terminal prompt (typing, backspace, tab, submitting a unique or ambiguous prefix, rejected words, left arrow to revise the previous word, at any position), the phrase handed to recovery is exactly the words last submitted for each position, each completed to the alphabetically first wordlist word with that prefix. "
  "Simple mode and piped input take one exact word per line in any letter case and re-ask on anything else. "
  "Ctrl-C, Ctrl-D or end of input aborts without output, and the terminal's settings are restored in every case.",
  ["inputs", "histories"], "all keystroke sequences",
  "Only 14 correct words through a pipe are tested; the raw-terminal path never runs.",
  ["cmd/mnemonikey/word_input.go", "cmd/mnemonikey/recover.go"],
  [("raw entry loop", "cmd/mnemonikey/word_input.go:userInputMnemonic"), ("simple entry", "cmd/mnemonikey/word_input.go:userInputMnemonicSimple")],
  ["pty session transcripts, termios after exit, recovered key"],
  [("words, i, wordCount", "submitted words, position, expected count", "cmd/mnemonikey/word_input.go")])

p("C19", "Word files are never overwritten, are private and hold exactly the phrase",
  "Writing a phrase to a word file creates a new file with mode 0600 (at most) containing the words separated by single spaces and a newline, never overwrites, follows or truncates anything that already exists at that path (also when several processes race for it, where at most one succeeds), and otherwise fails without printing a key. "
  "Reading a word file accepts any whitespace and letter case but only files consisting exactly of one valid phrase.",
  ["inputs", "schedules", "fault_sequences"], "all pre-existing path states, concurrent writers, and file contents",
  "Only creation of a fresh file by one process is tested.",
  ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go"],
  [("exclusive creation", "cmd/mnemonikey/generate.go:saveMnemonic"), ("strict reading", "cmd/mnemonikey/recover.go:readWordFile")],
  ["file system state before and after runs of the real binary; concurrent runs"])

p("C20", "Password prompts never echo, confirm twice and restore the terminal",
  "Passwords typed at a waiting prompt are never echoed or printed, under any scheduling and in any sequence of prompts; new passwords are accepted only when non-empty and repeated identically, otherwise asked again, and a wrong phrase password is asked again. "
  "After success, failure or Ctrl-C at a waiting prompt the terminal's settings are what they were before, and an aborted prompt outputs no key or phrase; without a terminal no password can be entered and the command fails.",
  ["schedules", "histories", "fault_sequences"], "all prompt/answer histories and goroutine schedules, an interrupt at any waiting prompt",
  "No test has a terminal, so no prompt is ever reached.",
  ["cmd/mnemonikey/word_input.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/generate.go"],
  [("prompt", "cmd/mnemonikey/word_input.go:userInputPassword"), ("retry loop", "cmd/mnemonikey/recover.go:decodeMnemonicFromInput")],
  ["pty transcripts, termios sampled during and after, with injected delays around terminal calls; race-detector build"],
  [("terminal echo flag", "whether typed characters are shown", "tty")])

p("C21", "The command line fails closed",
  "On invalid flags, arguments that belong to no flag, TTLs, -only lists, indices above 65535, word files or phrases, unsupported versions or unreadable inputs, the command exits non-zero and prints no key and no phrase. "
  "Exit status 0 means that the complete key (and, for generate and convert, the complete phrase) was delivered: if standard output, or the destination of the phrase, cannot be written, the command exits non-zero.",
  ["inputs", "fault_sequences"], "all invalid command lines and inputs; write failure at every byte of each output",
  "No failing invocation is tested.",
  ["cmd/mnemonikey/main.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go", "cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/expiry.go"],
  [("argument validation", "cmd/mnemonikey/*.go"), ("exit status", "cmd/mnemonikey/main.go")],
  ["exit status, stdout, stderr and files of the real binary under invalid input and injected write failures"])

p("C22", "Help and phrase display work on every terminal size",
  "For any reported terminal size, including zero and very narrow ones, help, usage errors and the phrase display finish in bounded memory, showing every word of their text in order.",
  ["configurations"], "all terminal widths x all subcommands' help and phrase output",
  "Tests run without a terminal, so only the default width is used.",
  ["cmd/mnemonikey/terminal.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/generate.go"],
  [("line wrapping", "cmd/mnemonikey/terminal.go:justifyWidth")],
  ["pty output at each window size"])

p("C23", "Out-of-range library inputs give errors, never panics or wrong output",
  "Seeds above 128 bits or negative, unknown eras, creation offsets beyond 31 bits, word indices beyond the wordlist, payloads larger than their declared size, key seeds that are not 32 bytes, and unknown words are refused with an error (unknown words, indices, eras with their documented error). "
  "On everything in range, the exported index and word codecs are exact inverses of each other.",
  ["inputs"], "all argument values of the exported constructors and codecs",
  "Only the internal bit buffer's panics are tested.",
  ["seed.go", "encoding.go", "mnemonic/encode.go", "mnemonic/decode.go", "version.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go"],
  [("range checks", "seed.go:NewSeed, mnemonic/*.go, version.go")],
  ["results, errors and panics of the exported functions"])

p("C24", "Release builds are reproducible",
  "Building the command-line tool twice from the same sources with the same compiler, on any machine or path, gives identical binaries.",
  ["configurations"], "all build machines, paths and target platforms",
  "No test builds twice.",
  ["repro-build.sh", ".github/workflows/release.yml"],
  [("-trimpath, -buildvcs=false, CGO off", "repro-build.sh")],
  ["build artifacts"])

p("C25", "Exposed public keys and encrypted phrases do not reveal the seed",
  "Neither a public or private key exported by the tool nor an encrypted phrase without its password lets an attacker compute the seed faster than brute force against Argon2id and the password.",
  ["inputs"], "all attackers and all seeds and passwords",
  "A cryptographic hardness claim over all algorithms.",
  ["derive.go", "encoding.go"],
  [("Argon2id, HKDF, AES", "derive.go, encoding.go")],
  [])

p("C26", "The exported OpenPGP building blocks are right for every input",
  "For every packet tag and payload, non-negative integer, subpacket, signature request (SHA-256, SHA-384 or SHA-512), key seed, creation second, expiry and KDF parameters OpenPGP can represent, the pgp package produces exact encodings: lengths, public and secret packets and v4 fingerprints of the same key, signatures that verify and carry exactly the requested data and subpackets, and key sets in which each binding carries its subkey's own creation time and expiry. "
  "EncryptS2K decrypts with its password to exactly the given integer, and hash functions that cannot key AES are refused with an error.",
  ["inputs"], "all payload lengths, integers, signature requests and hand-assembled key sets",
  "The pgp package has no tests of its own.",
  ["pgp/packet.go", "pgp/mpi.go", "pgp/signature.go", "pgp/sign.go", "pgp/s2k.go", "pgp/key_set.go", "pgp/master_key.go", "pgp/encryption_subkey.go", "pgp/ed25519_subkey.go", "pgp/ecc_key.go", "pgp/user_id.go"],
  [("packet and subpacket lengths", "pgp/packet.go:packetLengthEncode"), ("signatures", "pgp/sign.go:Sign"), ("key sets", "pgp/key_set.go")],
  ["results of the exported functions, parsed and verified independently"])

p("C27", "Refusals and failures reveal nothing of the secrets involved",
  "When the library refuses a phrase, password, seed, key seed, word index or random source, or a command fails because of one, at a password prompt or while writing its output, the error and everything the command writes (apart from the terminal's echo of typed words) depend only on the kind of defect, the phrase's version, number of words and the places of its unknown words, the sizes of numbers and keys, and the flags. "
  "Two secrets that fail in the same way are refused in exactly the same words, so no word, password, seed, checksum or random byte can be read from an error, a log or a bug report.",
  ["inputs"], "all pairs of secrets with the same defect, through every function and channel that can refuse them",
  "Tests compare error kinds for a few phrases; none looks at what a message reveals.",
  ["recovery.go", "seed.go", "encoding.go", "version.go", "mnemonic/encode.go", "mnemonic/decode.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/word_input.go", "cmd/mnemonikey/main.go"],
  [("error texts", "recovery.go, seed.go, mnemonic/*.go"), ("word file errors", "cmd/mnemonikey/recover.go:readWordFile")],
  ["error texts of refused calls; standard output, standard error and terminal of failing commands"])

p("C28", "The phrase prompt shows what is entered and leaves none of it on the screen",
  "On a terminal of at least 80 x 24 characters, after any keystrokes (as long as what is typed fits on the line) at the phrase prompt the line of the cursor names the position of the word being entered and shows exactly the letters entered for it so far, followed by nothing but the completion that submitting would take; in simple mode it shows what is typed for that position and starts empty for the next. "
  "Words submitted or rejected before are not readable anywhere on the screen, and once the entry has ended (all words given, or raw mode left with Ctrl-C or Ctrl-D) no word that was entered remains on it.",
  ["inputs", "histories"], "all keystroke sequences, wherever on the screen the prompt appears",
  "No test runs the raw prompt, and none looks at what a terminal displays.",
  ["cmd/mnemonikey/word_input.go", "cmd/mnemonikey/terminal.go"],
  [("raw prompt", "cmd/mnemonikey/word_input.go:userInputMnemonic"), ("simple prompt", "cmd/mnemonikey/word_input.go:userInputMnemonicSimple")],
  ["everything displayed on a pseudo-terminal, rendered by a screen emulator"])

p("C29", "Exports of one seed merge into one working key in a GnuPG keyring",
  "After a first export of a seed with self-certification has been imported into an empty GnuPG keyring, importing any further exports of that seed (with the same expiry; any selection of subkeys, any subkey indices, with the master key or as subkeys only, with or without self-certification, by the library or by the command, at any later time, in any order) leaves one master key there with exactly the subkeys that were exported, each with its derived fingerprint, creation time, expiry, capability and secret key; the master secret is present if and only if it was exported, and the user IDs are exactly those certified. "
  "Importing an export again changes nothing, and what was encrypted to or signed by a subkey that has been replaced since can still be decrypted and verified.",
  ["histories", "inputs"], "all sequences of exports and imports of one seed",
  "Tests look at one export at a time; the subkey lifecycle of the README is about what several of them do to one keyring.",
  ["pgp/key_set.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "pgp/signature.go", "cmd/mnemonikey/recover.go", "derive.go"],
  [("subkey-only export", "pgp/key_set.go:EncodeSubkeyPackets"), ("export", "pgp/key_set.go:EncodePackets"), ("recover command", "cmd/mnemonikey/recover.go")],
  ["gpg --import, --list-secret-keys, --decrypt and --verify in a scratch keyring"])

p("C30", "Nothing is touched or left behind but what was asked for",
  "Whatever the flags, inputs and ending, a command opens no file except those named on its command line, the terminal and what the language runtime reads of the system; it creates or changes no file except the requested word file, starts no other program and uses no network. "
  "The library touches no file, program or network and writes nothing to standard output or error, and however often its functions are called, successfully or not, they leave no growing number of goroutines, open files or live objects (such as copies of secrets) behind.",
  ["inputs", "histories"], "all commands and all call sequences",
  "Tests look at return values only; nobody looks at the files, processes, connections, goroutines and memory of the process.",
  ["cmd/mnemonikey/", "derive.go", "mnemonikey.go", "recovery.go", "pgp/"],
  [("commands", "cmd/mnemonikey/main.go:main"), ("library", "mnemonikey.go:New"), ("password prompt goroutine", "cmd/mnemonikey/word_input.go:userInputPassword")],
  ["system calls of commands and of a program using the library; goroutines, descriptors and heap objects between equal periods of calls"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
