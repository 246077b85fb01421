#!/usr/bin/env python3
"""run.py MUTANTS.jsonl LOG [workers]: apply each listed change to a private copy
of /repo, run the checks of a private copy of /verif against it and log which
one notices. A development aid, not a check; never touches /repo."""
import json, os, random, subprocess, sys, threading, queue
LIB = "C04 C01 C03 C05 C08 C07 C23 C09 C14 C13 C11 C12 C06 C02 C10 C17 C15 C26 C27".split()
CMD = "C21 C16 C19 C17 C22 C09 C11 C14 C12 C18 C20 C27 C28 C29 C30".split()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off",
           VERIF_FAILFAST="1", VERIF_BUDGET="0", VERIF_DIVIDE="10", VERIF_SEED="1", VERIF_TIER="quick")
muts = [json.loads(l) for l in open(sys.argv[1])]
log = open(sys.argv[2], "a")
done = set()
for l in open(sys.argv[2]):
    if l.strip(): done.add(l.split("\t")[0])
q = queue.Queue()
for m in muts:
    m["id"] = "%s:%d:%d:%s" % (m["file"], m["Start"], m["End"], m["New"][:20].replace("\t", " ").replace("\n", " "))
random.Random(7).shuffle(muts)
for m in muts:
    if m["id"] not in done: q.put(m)
lock = threading.Lock()
def sh(cmd, cwd, t):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        class R: returncode = 99; stdout = "timeout"
        return R
def work(k):
    A = "/tmp/mut%d" % k
    subprocess.run(["rm", "-rf", A]); os.makedirs(A)
    subprocess.check_call(["git", "clone", "-q", "/repo", A + "/repo"])
    subprocess.check_call("tar -C /verif --exclude=.git --exclude=.build --exclude=out --exclude=evidence --exclude=seeded -cf - . | (mkdir %s/verif; tar -C %s/verif -xf -)" % (A, A), shell=True)
    subprocess.check_call(["sed", "-i", "s#=> /repo#=> %s/repo#" % A, A + "/verif/harness/go.mod"])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = A + "/repo/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
        verdict = "SURVIVED"
        if sh(["go", "build", "-gcflags=-e", "-o", A + "/bin", "./cmd/mnemonikey"], A + "/repo", 100).returncode:
            verdict = "stillborn"
        else:
            for c in CMD if m["file"].startswith("cmd/") else LIB:
                r = sh([A + "/verif/check.sh", c], A, 300)
                if r.returncode:
                    verdict = "%s(%d)" % (c, r.returncode)
                    break
            else:
                r = sh("rm -f cmd/mnemonikey/mnemonikey; go test -vet=off -count=1 ./...", A + "/repo", 300) if False else subprocess.run("go test -vet=off -count=1 ./... >/dev/null 2>&1 || go test -vet=off -count=1 ./... >/dev/null 2>&1", shell=True, cwd=A + "/repo", env=ENV)
                if r.returncode: verdict = "repo-tests"
        open(p, "wb").write(src)
        with lock:
            log.write("%s\t%d\t%s\t%s\n" % (m["id"], m["Line"], verdict, m["What"].replace("\n", " ")[:150])); log.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(int(sys.argv[3]) if len(sys.argv) > 3 else 3)]
for t in ts: t.start()
for t in ts: t.join()
