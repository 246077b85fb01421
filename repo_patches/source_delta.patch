From 588d0f3239b34199fff36e8d53595d45308e46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:44 +0000
Subject: [PATCH 01/14] fix: convert writes the phrase to -out-word-file, not
 to the input file

---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 6817ac9f21024bad1c4f912a6b77281766691c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:44 +0000
Subject: [PATCH 02/14] fix: left arrow in phrase entry drops the word being
 revised

---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From c644c5782c02404ab3d31cd321b498a5fdde5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 03/14] fix: refuse TTLs which cannot be represented instead of
 changing them

---
 cmd/mnemonikey/expiry.go | 5 +++++
 mnemonikey.go            | 8 +++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..9d5ec56 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,9 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..6a2acb0 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -23,8 +24,9 @@ const (
 )
 
 // ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL
-// selected is less than zero.
-var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
+// selected is less than zero, or is not zero but cannot be represented in an OpenPGP
+// key expiration time, which is a 32-bit number of seconds.
+var ErrTTLInvalid = errors.New("key time-to-live cannot be negative, under one second or above 2^32-1 seconds")
 
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
@@ -60,7 +62,7 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	if opts == nil {
 		opts = new(KeyOptions)
 	}
-	if opts.TTL < 0 {
+	if opts.TTL < 0 || (opts.TTL != 0 && opts.TTL < time.Second) || opts.TTL/time.Second > math.MaxUint32 {
 		return nil, ErrTTLInvalid
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
-- 
2.43.0


From 98b199529f9f2a228eba8962f132586bb74a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 04/14] fix: justifying text terminates on terminals narrower
 than a word

---
 cmd/mnemonikey/terminal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..d0479c0 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,11 +78,11 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
 		line := indentString
-		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
+		for len(words) > 0 && (line == indentString || len(line)+len(words[0])+1 <= maxWidth) {
 			if line != indentString {
 				line += " "
 			}
-- 
2.43.0


From 2a092a41543964b2977bd7fcee1133960e5efccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 05/14] fix: create word files exclusively so that nothing
 existing is overwritten

---
 cmd/mnemonikey/generate.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..208a9c4 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -199,14 +199,19 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From a08272d85c8f88b78c513b9cd678362a39e5c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 06/14] fix: refuse creation offsets beyond 31 bits instead of
 panicking

---
 encoding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..ef9889b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -46,6 +46,9 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if creationOffset>>CreationOffsetBitCount != 0 {
+		return nil, ErrCreationTooLate
+	}
 
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
@@ -73,6 +76,9 @@ func EncodeMnemonicEncrypted(
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if creationOffset>>CreationOffsetBitCount != 0 {
+		return nil, ErrCreationTooLate
+	}
 
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
-- 
2.43.0


From ec42022da09e44017b848309dd623a5eb2f2baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 07/14] fix: NewSeed refuses negative integers

---
 seed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 4d7e684..309b47f 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative or its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
-- 
2.43.0


From 10c47a898177936957d9d455017153a6bca47935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:46 +0000
Subject: [PATCH 08/14] fix: NewSeed copies the caller's integer

---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 309b47f..bcdce4f 100644
--- a/seed.go
+++ b/seed.go
@@ -44,7 +44,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 0ad275c641a56e75bce9b202f55a47b7d6bb88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:46 +0000
Subject: [PATCH 09/14] fix: EncodeToIndices leaves the caller's integer alone
 and refuses negative ones

---
 mnemonic/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..bd816e0 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -29,12 +29,16 @@ var ErrInvalidIndex = errors.New("word index value is too large")
 // bitSize does not necessarily have to be evenly divisible by BitsPerWord. If there is
 // any unused space, it will be encoded at the leading edge of the resulting slice of indices.
 func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
+	if payloadInt.Sign() < 0 {
+		return nil, errors.New("payload is negative")
+	}
 	if payloadLen := payloadInt.BitLen(); uint(payloadLen) > bitSize {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
+	payloadInt = new(big.Int).Set(payloadInt)
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
 		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
 		payloadInt.Rsh(payloadInt, BitsPerWord)
-- 
2.43.0


From a537eda00786afbc87b0f06cd39b3669c2ff9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:46 +0000
Subject: [PATCH 10/14] fix: exit with an error when the key or phrase cannot
 be written

---
 cmd/mnemonikey/convert.go  |  2 +-
 cmd/mnemonikey/generate.go | 14 ++++++++++----
 cmd/mnemonikey/recover.go  |  5 ++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 953d4c2..383359e 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -73,7 +73,7 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		return printMnemonic(recoveryMnemonic)
 	} else {
 		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 208a9c4..1a99055 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -164,23 +164,28 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		return printMnemonic(recoveryMnemonic)
 	}
 
 	return nil
 }
 
-func printMnemonic(words []string) {
+func printMnemonic(words []string) error {
 	eprint("\nThis is the mnemonic phrase which can be used to recover the private key:\n\n")
 
 	for i, word := range words {
 		humanIndex := strconv.Itoa(i + 1)
 		spacing := strings.Repeat(" ", 4-len(humanIndex))
-		eprintf("%s:%s%s\n", humanIndex, spacing, bold(magenta((word))))
+		if _, err := fmt.Fprintf(os.Stderr, "%s:%s%s\n", humanIndex, spacing, bold(magenta((word)))); err != nil {
+			return fmt.Errorf("failed to print recovery phrase: %w", err)
+		}
 	}
 
 	eprint("\nSave this phrase in a secure place, preferably offline, on paper.\n\n")
@@ -196,6 +201,7 @@ func printMnemonic(words []string) {
 			"If you do not save it now, you will " + bold("NEVER") + " see this phrase again.\n\n",
 		),
 	)
+	return nil
 }
 
 func saveMnemonic(words []string, wordFile string) error {
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..61e0d25 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -198,8 +198,11 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 0d040db94144cb3dca18d674f2840a6d16096e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:46 +0000
Subject: [PATCH 11/14] fix: reading a word file reports read errors and
 unsupported versions

---
 cmd/mnemonikey/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 61e0d25..8b19d96 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -227,11 +227,17 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
 
 	version, err := mnemonikey.ParseMnemonicVersion(words[0])
+	if err != nil {
+		return nil, err
+	}
 	if len(words) != version.MnemonicSize() {
 		return nil, fmt.Errorf(
 			"found only %d words in word file %s, expected %d words for version %d phrase",
-- 
2.43.0


From 8f18fb25c55e7976bb82f5889e1ae02b945934ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:46 +0000
Subject: [PATCH 12/14] fix: password prompt restores the terminal before
 returning and keeps stdout clean

---
 cmd/mnemonikey/word_input.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..b3d77fb 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -239,9 +239,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
+	defer func() {
+		eprintln()
 		term.Restore(int(os.Stdin.Fd()), oldState)
 	}()
 
-- 
2.43.0


From d55bbced26336fa8a80e5377ba992cbc2ade47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:47 +0000
Subject: [PATCH 13/14] fix: S2K hashes the whole password even if it exceeds
 the octet count

---
 pgp/s2k.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/s2k.go b/pgp/s2k.go
index 34451ee..3f4614b 100644
--- a/pgp/s2k.go
+++ b/pgp/s2k.go
@@ -12,6 +12,10 @@ import (
 
 func stringToKey(hashFunc HashFuncID, password, salt []byte, byteCount int) []byte {
 	preimage := append(salt, password...)
+	if byteCount < len(preimage) {
+		// RFC 4880 section 3.7.1.3: the whole salt and password are always hashed.
+		byteCount = len(preimage)
+	}
 
 	h := hashFunc.New()
 	m := byteCount / len(preimage)
-- 
2.43.0


From 99eb72469c9d67523591735158cdc8b02d31f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:41 +0000
Subject: [PATCH 14/14] fix: refuse arguments that belong to no flag

generate, recover and convert ignored positional arguments, and with them every flag
that followed: 'generate -name John Doe -encrypt-keys' printed an unencrypted key and
'recover -self-cert false -only encryption' exported the master key.
---
 cmd/mnemonikey/command.go  | 10 ++++++++++
 cmd/mnemonikey/convert.go  |  3 +++
 cmd/mnemonikey/generate.go |  3 +++
 cmd/mnemonikey/recover.go  |  3 +++
 4 files changed, 19 insertions(+)

diff --git a/cmd/mnemonikey/command.go b/cmd/mnemonikey/command.go
index e9da942..d84eda8 100644
--- a/cmd/mnemonikey/command.go
+++ b/cmd/mnemonikey/command.go
@@ -92,3 +92,13 @@ func (cmd *Command[Options]) Run(args []string) error {
 	}
 	return nil
 }
+
+// rejectPositionalArgs returns a usage error if any arguments were left over after
+// parsing the flags. Flags following such an argument are not parsed, so ignoring
+// it would also ignore those flags.
+func rejectPositionalArgs(args []string) error {
+	if len(args) > 0 {
+		return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+	}
+	return nil
+}
diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 383359e..d59bbca 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -40,6 +40,9 @@ var ConvertCommand = &Command[ConvertOptions]{
 		)
 	},
 	Execute: func(opts *ConvertOptions, args []string) error {
+		if err := rejectPositionalArgs(args); err != nil {
+			return err
+		}
 		return decodeAndConvertPhrase(opts)
 	},
 }
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 1a99055..25f9f6d 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -57,6 +57,9 @@ var GenerateCommand = &Command[GenerateOptions]{
 		)
 	},
 	Execute: func(opts *GenerateOptions, args []string) error {
+		if err := rejectPositionalArgs(args); err != nil {
+			return err
+		}
 		return generateAndPrintKey(opts)
 	},
 }
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 8b19d96..9a353cd 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -75,6 +75,9 @@ var RecoverCommand = &Command[RecoverOptions]{
 		)
 	},
 	Execute: func(opts *RecoverOptions, args []string) error {
+		if err := rejectPositionalArgs(args); err != nil {
+			return err
+		}
 		return recoverAndPrintKey(opts)
 	},
 }
-- 
2.43.0

