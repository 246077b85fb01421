module verifharness

go 1.20

require (
	github.com/kklash/mnemonikey v0.0.0
	golang.org/x/crypto v0.4.0
	golang.org/x/sys v0.10.0
)

require (
	github.com/kklash/wordlist4096 v1.0.0 // indirect
	golang.org/x/term v0.10.0 // indirect
)

replace github.com/kklash/mnemonikey => /repo
