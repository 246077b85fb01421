package props

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/kklash/mnemonikey"

	"verifharness/rt"
	"verifharness/spec"
)

// gpgHome is a throw-away keyring with its own agent.
type gpgHome struct{ dir string }

func newGPG() (*gpgHome, error) {
	d, err := os.MkdirTemp("/tmp", "vg")
	if err != nil {
		return nil, err
	}
	os.Chmod(d, 0o700)
	return &gpgHome{d}, nil
}

func (g *gpgHome) run(in []byte, args ...string) (out, errOut []byte, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "gpg", append([]string{"--homedir", g.dir, "--batch", "--no-tty", "--quiet", "--trust-model", "always"}, args...)...)
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + g.dir, "GNUPGHOME=" + g.dir, "LC_ALL=C.UTF-8"}
	cmd.WaitDelay = 5 * time.Second
	err = cmd.Run()
	return o.Bytes(), e.Bytes(), err
}

func (g *gpgHome) close() {
	cmd := exec.Command("gpgconf", "--homedir", g.dir, "--kill", "all")
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + g.dir}
	cmd.Run()
	os.RemoveAll(g.dir)
}

var gpgOnce sync.Once
var gpgBad string

// gpgUsable makes and uses a key of GnuPG's own, so that a broken
// installation is not mistaken for a broken export.
func gpgUsable() string {
	gpgOnce.Do(func() {
		g, err := newGPG()
		if err != nil {
			gpgBad = err.Error()
			return
		}
		defer g.close()
		_, e, err := g.run(nil, "--pinentry-mode", "loopback", "--passphrase", "", "--quick-generate-key", "control <c@example.com>", "ed25519", "cert,sign", "never")
		if err == nil {
			_, e, err = g.run([]byte("control"), "--detach-sign")
		}
		if err != nil {
			gpgBad = fmt.Sprintf("%v: %.300s", err, e)
		}
	})
	return gpgBad
}

func gpgCase(c *rt.Case) {
	if bad := gpgUsable(); bad != "" {
		c.Note("gpg skipped: GnuPG cannot create and use a key of its own here: %s", bad)
		return
	}
	p := genParams(c.R)
	now := time.Now().Unix() - spec.EpochUnix - 60
	if now < 10 {
		c.Note("gpg skipped: the clock is before the epoch")
		return
	}
	p.Offset = uint32(c.R.Int63n(now))
	if c.R.Intn(4) == 0 {
		p.Offset = 0
	}
	names := []string{"alice", "Bob Name", "Ünïcödé 名前", strLen(c.R, 100), strLen(c.R, 189), strLen(c.R, 192), strLen(c.R, 256), strLen(c.R, 1500)}
	p.Name, p.Email = pick(c.R, names), pick(c.R, []string{"", "alice@example.com"})
	p.TTL = 0
	if c.R.Intn(2) == 0 {
		p.TTL = time.Duration(now-int64(p.Offset)+86400*(1+c.R.Int63n(20000))) * time.Second
		if p.TTL > (1<<32-1)*time.Second {
			p.TTL = (1<<32 - 1) * time.Second
		}
	}
	if c.Index%2 == 0 {
		p.Sel = nil
	}
	// GnuPG does not keep a secret keyring entry that has no secret at all
	full := c.Index%3 != 2 || len(p.selected()) == 0
	pw := ""
	if c.Index%5 == 3 {
		pw = "gpg pass"
	}
	d := p.desc()
	d["full"], d["password"] = full, pw
	c.Input(d)
	m := build(c, p)
	var data []byte
	var err error
	if full {
		data, err = m.EncodePGP([]byte(pw))
	} else {
		data, err = m.EncodeSubkeysPGP([]byte(pw), true)
	}
	c.Check(err == nil, "export: %v", err)
	g, err := newGPG()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer g.close()
	if _, e, err := g.run(data, "--import"); err != nil {
		c.Fail("gpg --import: %v: %s", err, e)
	}
	out, e, err := g.run(nil, "--with-colons", "--with-subkey-fingerprint", "--fixed-list-mode", "--list-secret-keys")
	c.Check(err == nil, "gpg --list-secret-keys: %v: %s", err, e)
	want := map[string]bool{}
	got := map[string]bool{}
	exp := ""
	if p.TTL != 0 {
		exp = fmt.Sprint(p.unix() + int64(ttlSeconds(p.TTL)))
	}
	marker := "+"
	if !full {
		marker = "#"
	}
	want[fmt.Sprintf("sec %d %s c %s %s", p.unix(), exp, hex.EncodeToString(m.Fingerprint()), marker)] = true
	caps := map[string]string{"encryption": "e", "authentication": "a", "signing": "s"}
	for k := range p.selected() {
		want[fmt.Sprintf("ssb %d %s %s %s +", p.unix(), exp, caps[k], hex.EncodeToString(m.SubkeyFingerprint(mnemonikey.SubkeyType(k))))] = true
	}
	var cur []string
	uids := 0
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Split(l, ":")
		switch f[0] {
		case "sec", "ssb":
			cur = f
		case "fpr":
			if cur == nil {
				continue
			}
			low := ""
			for _, r := range cur[11] {
				if r >= 'a' && r <= 'z' {
					low += string(r)
				}
			}
			got[fmt.Sprintf("%s %s %s %s %s %s", cur[0], cur[5], cur[6], low, strings.ToLower(f[9]), cur[14])] = true
			cur = nil
		case "uid":
			uids++
			c.Check(strings.ReplaceAll(f[9], `\x3a`, ":") == p.uid(), "gpg shows user ID %q, want %q", f[9], p.uid())
		}
	}
	for k := range want {
		c.Check(got[k], "gpg does not show %q but %v", k, got)
	}
	c.Check(len(got) == len(want) && uids == 1, "gpg shows %v, want %v", got, want)
	c.Event("gpg imports compared")
	c.State("gpg key shapes", fmt.Sprint(p.selected(), full, pw != "", p.TTL != 0))
	fpr := hex.EncodeToString(m.Fingerprint())
	loop := []string{"--pinentry-mode", "loopback", "--passphrase", pw}
	msg := []byte("message " + p.uid())
	sig, e, err := g.run(msg, append(loop, "--local-user", fpr, "--sign")...)
	if p.selected()["signing"] {
		c.Check(err == nil, "gpg cannot sign with the key: %v: %s", err, e)
		back, e, err := g.run(sig, "--decrypt")
		c.Check(err == nil && bytes.Equal(back, msg), "gpg cannot verify its own signature: %v: %s", err, e)
		c.Event("gpg signatures made and verified")
	} else {
		c.Check(err != nil, "gpg signs although no signing subkey was exported")
	}
	ct, e, err := g.run(msg, "--recipient", fpr, "--encrypt")
	if p.selected()["encryption"] {
		c.Check(err == nil, "gpg cannot encrypt to the key: %v: %s", err, e)
		back, e, err := g.run(ct, append(loop, "--decrypt")...)
		c.Check(err == nil && bytes.Equal(back, msg), "gpg cannot decrypt with the key: %v: %s", err, e)
		c.Event("gpg messages encrypted and decrypted")
	} else {
		c.Check(err != nil, "gpg encrypts although no encryption subkey was exported")
	}
	c.Distinct(p, full, pw)
}
