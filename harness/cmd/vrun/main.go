// Command vrun runs one property's workload and monitors.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strconv"
	"syscall"
	"time"

	"verifharness/props"
	"verifharness/rt"
	"verifharness/spec"
)

func main() {
	prop := flag.String("prop", "", "property id")
	variant := flag.String("variant", "fast", "build variant: fast, real or race")
	root := flag.String("root", "/verif", "where evidence and replays go")
	replay := flag.String("replay", "", "replay file")
	child := flag.Bool("child-export", false, "answer parameter lines with export digests (used by C07)")
	childProt := flag.Bool("child-protected", false, "answer parameter lines with protected exports (used by C10)")
	childOps := flag.Int64("child-ops", -1, "use the library with this seed and do nothing else (used by C30)")
	elsewhere := flag.Int64("elsewhere", -1, "run a few cases with this seed and answer with what was observed")
	golden := flag.Int("golden", 0, "print n recorded exports")
	baseDict := flag.Bool("base-dictionary", false, "print the constants of the program under test")
	list := flag.Bool("list", false, "list properties and variants")
	flag.Parse()
	// Signals ignored where the check was started (nohup, a background job)
	// would stay ignored in the programs it runs.
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGXFSZ, syscall.SIGALRM)
	go func() {
		for s := range sig {
			switch s {
			case syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM:
				os.Exit(3)
			}
		}
	}()
	if os.Getenv("TZ") == "" { // nothing may depend on the local time zone
		time.Local = time.FixedZone("local", 5*3600+45*60)
	}

	switch {
	case *child:
		props.ChildExport()
		return
	case *childOps >= 0:
		props.ChildOps(*childOps)
		return
	case *childProt:
		props.ChildProtected()
		return
	case *golden > 0:
		json.NewEncoder(os.Stdout).Encode(props.MakeGolden(*golden))
		return
	case *baseDict:
		props.LoadDictionary()
		os.Stdout.Write(props.BaseDictionary())
		return
	case *list:
		var l []string
		for _, p := range rt.Registry {
			l = append(l, p.ID+" "+p.Variant)
		}
		sort.Strings(l)
		for _, s := range l {
			fmt.Println(s)
		}
		return
	}
	if !spec.SelfTest() {
		fmt.Fprintln(os.Stderr, "oracle self-test failed")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	props.LoadDictionary()
	var only *rt.Violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		only = new(rt.Violation)
		if err := json.Unmarshal(b, only); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		tier, seed = only.Tier, only.Seed
		if only.Elsewhere != nil && *elsewhere < 0 {
			os.Exit(only.Elsewhere.Replay("-prop", *prop, "-variant", *variant, "-root", *root, "-replay", *replay, "-elsewhere", "0"))
		}
		if only.Dict != nil {
			rt.Dict = only.Dict
		}
	}
	rt.Extra = func() map[string]any {
		m := kdfStats()
		if m == nil {
			m = map[string]any{}
		}
		if d := rt.Dict; d != nil {
			m["input_dictionary"] = map[string]int{"numbers": len(d.Ints), "texts": len(d.Strings), "new_numbers": len(d.NewInts), "new_texts": len(d.NewStrings)}
		}
		return m
	}
	for _, p := range rt.Registry {
		if p.ID == *prop && p.Variant == *variant {
			if *elsewhere >= 0 && only == nil {
				os.Exit(rt.ExecuteElsewhere(p, *elsewhere))
			}
			os.Exit(rt.Execute(p, tier, seed, *root, only))
		}
	}
	fmt.Fprintf(os.Stderr, "no property %s for variant %s\n", *prop, *variant)
	os.Exit(2)
}
