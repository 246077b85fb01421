package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verifharness/cli"
	"verifharness/rt"
	"verifharness/spec"
)

// C29 follows a keyring through histories of exports of one seed: GnuPG is the
// observer, the oracle's own derivation says which keys have to be there.

// ring reads back what the keyring holds.
func ring(c *rt.Case, g *gpgHome) (master string, secret bool, subs map[string]string, uids []string) {
	out, e, err := g.run(nil, "--with-colons", "--with-subkey-fingerprint", "--fixed-list-mode", "--list-secret-keys")
	c.Check(err == nil, "gpg --list-secret-keys: %v: %s", err, e)
	subs = map[string]string{}
	var cur []string
	n := 0
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Split(l, ":")
		switch f[0] {
		case "sec", "ssb":
			cur = f
		case "fpr":
			if cur == nil {
				continue
			}
			fpr := strings.ToLower(f[9])
			if cur[0] == "sec" {
				n++
				master, secret = fpr, cur[14] == "+"
			} else {
				low := ""
				for _, r := range cur[11] {
					if r >= 'a' && r <= 'z' {
						low += string(r)
					}
				}
				subs[fpr] = fmt.Sprintf("%s created %s expires %s secret %s usable %v", low, cur[5], cur[6], cur[14], !strings.ContainsAny(cur[1], "eridn"))
			}
			cur = nil
		case "uid":
			uids = append(uids, strings.ReplaceAll(f[9], `\x3a`, ":"))
		}
	}
	c.Check(n == 1, "the keyring holds %d master keys instead of one:\n%s", n, out)
	sort.Strings(uids)
	return
}

func c29(c *rt.Case) {
	if bad := gpgUsable(); bad != "" {
		c.Note("gpg skipped: GnuPG cannot create and use a key of its own here: %s", bad)
		return
	}
	now := time.Now().Unix() - spec.EpochUnix - 60
	if now < 10 {
		c.Note("gpg skipped: the clock is before the epoch")
		return
	}
	r := c.R
	base := Params{Seed: genSeed(r), Offset: uint32(r.Int63n(now)), Name: "Cycle", Email: "c@example.com"}
	if r.Intn(2) == 0 {
		base.TTL = time.Duration((now-int64(base.Offset))/86400+2+r.Int63n(5000)) * 24 * time.Hour
	}
	pw := ""
	if r.Intn(5) == 0 {
		pw = "ring pass"
	}
	useCLI := pw == "" && r.Intn(2) == 0
	dir := cli.Scratch()
	defer os.RemoveAll(dir)
	in := writeWords(dir, "words", spec.EncodePlain(base.Seed, base.Offset))
	root := base.root()
	fpr := func(kind string, index uint16) string {
		return hex.EncodeToString(spec.Derive(root, kind, index).Fingerprint(uint32(base.unix())))
	}
	expiry := ""
	if base.TTL != 0 {
		expiry = fmt.Sprint(base.unix() + int64(ttlSeconds(base.TTL)))
	}
	caps := map[string]string{"encryption": "e", "authentication": "a", "signing": "s"}

	g, err := newGPG()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer g.close()
	loop := []string{"--pinentry-mode", "loopback", "--passphrase", pw}
	wantSubs := map[string]string{}
	wantUIDs := map[string]bool{}
	hasMaster := false
	var history []string
	type sealed struct{ sub, ct, msg string }
	var letters []sealed
	indices := []uint16{0, 1, 2, genIndex(r), genIndex(r)}
	steps := 2 + r.Intn(4)
	for n := 0; n < steps; n++ {
		p := base
		p.Enc, p.Auth, p.Sig = pick(r, indices), pick(r, indices), pick(r, indices)
		master, cert := r.Intn(3) == 0, r.Intn(2) == 0
		p.Sel = nil
		for _, k := range r.Perm(3)[:1+r.Intn(3)] {
			p.Sel = append(p.Sel, spec.Subkeys[k])
		}
		if n == 0 {
			cert = true // a keyring needs a user ID first
		}
		if r.Intn(5) == 0 {
			p.Name = "Second"
		}
		again := n > 0 && r.Intn(6) == 0
		history = append(history, fmt.Sprintf("master=%v cert=%v %v enc=%d auth=%d sig=%d name=%s twice=%v", master, cert, p.Sel, p.Enc, p.Auth, p.Sig, p.Name, again))
		c.Input(map[string]any{"seed": fmt.Sprintf("%x", base.Seed), "offset": base.Offset, "ttl": base.TTL.String(), "password": pw, "cli": useCLI, "history": history})
		var data []byte
		if useCLI {
			only := append([]string{}, p.Sel...)
			if master {
				only = append(only, "master")
			}
			r.Shuffle(len(only), func(i, j int) { only[i], only[j] = only[j], only[i] })
			args := []string{"recover", "-in-word-file", in, "-name", p.Name, "-email", p.Email, "-only", strings.Join(only, ","),
				fmt.Sprintf("-enc-index=%d", p.Enc), fmt.Sprintf("-auth-index=%d", p.Auth), fmt.Sprintf("-sig-index=%d", p.Sig), fmt.Sprintf("-self-cert=%v", cert)}
			if p.TTL != 0 {
				args = append(args, fmt.Sprintf("-ttl=%dd", ttlSeconds(p.TTL)/86400))
			}
			res := cli.Run(cli.Opt{Args: args})
			c.Check(res.Exit == 0, "%q: %v", args, res)
			data = res.Stdout
			cert = cert || master
		} else {
			m := build(c, p)
			if master {
				data, err = m.EncodePGP([]byte(pw))
				cert = true
			} else {
				data, err = m.EncodeSubkeysPGP([]byte(pw), cert)
			}
			c.Check(err == nil, "export: %v", err)
		}
		for k := 0; k < 1+map[bool]int{true: 1}[again]; k++ {
			_, e, err := g.run(data, "--import")
			c.Check(err == nil, "import %d of %v: %v: %s", n, history, err, e)
			c.Event("imports into one keyring")
		}
		hasMaster = hasMaster || master
		if cert {
			wantUIDs[p.uid()] = true
		}
		for _, k := range p.Sel {
			f := fpr(k, p.index(k))
			wantSubs[f] = fmt.Sprintf("%s created %d expires %s secret + usable true", caps[k], base.unix(), expiry)
		}
		gotMaster, gotSecret, gotSubs, gotUIDs := ring(c, g)
		c.Check(gotMaster == fpr("master", 0), "after %v the master key is %s, want %s", history, gotMaster, fpr("master", 0))
		c.Check(gotSecret == hasMaster, "after %v the keyring's master secret is there: %v", history, gotSecret)
		c.Check(fmt.Sprint(gotSubs) == fmt.Sprint(wantSubs), "after %v the keyring holds the subkeys\n%v, want\n%v", history, gotSubs, wantSubs)
		var uids []string
		for u := range wantUIDs {
			uids = append(uids, u)
		}
		sort.Strings(uids)
		c.Check(fmt.Sprint(gotUIDs) == fmt.Sprint(uids), "after %v the keyring shows the user IDs %q, want %q", history, gotUIDs, uids)
		c.Event("keyrings compared")

		// everything sealed for earlier subkeys still opens
		for _, l := range letters {
			back, e, err := g.run([]byte(l.ct), append(loop, "--decrypt")...)
			c.Check(err == nil && string(back) == l.msg, "a message for subkey %s does not open after %v: %v: %s", l.sub, history, err, e)
			c.Event("earlier messages opened")
		}
		for _, k := range p.Sel {
			f := fpr(k, p.index(k))
			msg := fmt.Sprintf("%d %s", n, f)
			switch k {
			case "encryption":
				ct, e, err := g.run([]byte(msg), "--recipient", f+"!", "--encrypt")
				c.Check(err == nil, "gpg cannot encrypt to subkey %s after %v: %v: %s", f, history, err, e)
				letters = append(letters, sealed{f, string(ct), msg})
			case "signing":
				sig, e, err := g.run([]byte(msg), append(loop, "--local-user", f+"!", "--sign")...)
				c.Check(err == nil, "gpg cannot sign with subkey %s after %v: %v: %s", f, history, err, e)
				back, e, err := g.run(sig, "--decrypt")
				c.Check(err == nil && bytes.Equal(back, []byte(msg)), "the signature by subkey %s is not good after %v: %v: %s", f, history, err, e)
				c.Event("signatures by a chosen subkey")
			}
		}
	}
	for _, l := range letters {
		back, e, err := g.run([]byte(l.ct), append(loop, "--decrypt")...)
		c.Check(err == nil && string(back) == l.msg, "a message for subkey %s does not open after %v: %v: %s", l.sub, history, err, e)
		c.Event("earlier messages opened")
	}
	c.State("keyring shapes", fmt.Sprint(len(wantSubs), len(wantUIDs), hasMaster, base.TTL != 0, pw != "", useCLI))
	c.Distinct(base.Seed, history)
}

func init() {
	rt.Register(&rt.Property{ID: "C29", Variant: "fast",
		Rule:   "case = one history of exports of one seed (keys, indices, stubs, certifications, user IDs, repeats; by library or command) imported into one GnuPG keyring, which is listed and used after every import; distinct by seed and history.",
		Assume: []string{"GnuPG as installed is the observer; a control key of its own must work, else the check says it was skipped", "one expiry per history: certifications of equal date and different expiry compete in GnuPG", "Argon2id replaced by a stand-in PRF of all its parameters"},
		Streams: func() []rt.Stream {
			return []rt.Stream{
				{Name: "histories", Quick: 40, Thorough: 1500, Limit: 100 * time.Second, Min: 8, Hang: 300 * time.Second, Fn: c29},
			}
		}})
}
