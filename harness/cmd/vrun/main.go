// vrun builds the test binary of one property's package against /repo's working tree,
// runs it in shards, merges the shard reports into the evidence file and prints the verdict.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type SubReport struct {
	Evaluations int
	Nontrivial  int
	Distinct    []uint64
	Classes     map[string]int
	Samples     []string
	Failed      bool
}
type Report struct {
	Property string
	Rule     string
	Subs     map[string]*SubReport
	Hang     string
	Findings map[string]string
	Done     bool
}

// package of each property, by first letter or full id
var pkgOf = map[string]string{
	"T": "theta", "U": "tuple", "K": "kll", "R": "req", "D": "tdigest", "F": "freq", "C": "countmin",
	"B": "bloom", "S": "sampling", "V": "sampling", "H": "hll", "P": "cpc", "X": "decoders", "G": "golden",
	"Q": "cross", "E": "cross", "A": "api",
}

// properties whose test binary is built with the race detector, where that works
var raceOf = map[string]bool{"E02": true}

// buildRace builds the test binary with the race detector and makes sure that it starts.
func buildRace(bin, pkg string) bool {
	b := exec.Command("go", "test", "-c", "-race", "-vet=off", "-o", bin, "./"+pkg)
	b.Dir = filepath.Join(root(), "harness")
	if b.Run() != nil {
		return false
	}
	return exec.Command(bin, "-test.run", "^$").Run() == nil
}

func root() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	os.Exit(3)
}

func findings(id string) (known []string) {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			known = append(known, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
	}
	return
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vrun ID | vrun replay FILE")
	}
	id := os.Args[1]
	replay := ""
	var rp struct{ Property, Sub, Failfile, Seed string }
	if id == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			die("%v", err)
		}
		id = rp.Property
		replay = os.Args[2]
	}
	pkg, ok := pkgOf[id[:1]]
	if !ok {
		die("unknown property %s", id)
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vrun-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	code := run(id, pkg, tier, seed, tmp, replay, rp.Sub, rp.Failfile, start)
	_ = os.RemoveAll(tmp)
	os.Exit(code)
}

func run(id, pkg, tier string, seed int, tmp, replay, rsub, rfail string, start time.Time) int {
	bin := filepath.Join(tmp, "t.test")
	race := raceOf[id] && buildRace(bin, pkg)
	build := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "./"+pkg)
	build.Dir = filepath.Join(root(), "harness")
	if race {
		build = exec.Command("true")
	}
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "ERROR: build failed: %v\n%s\n", err, out)
		return 3
	}
	buildS := time.Since(start).Seconds()
	nsh := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VK_NSHARDS")); err == nil && v > 0 {
		nsh = v
	}
	if nsh > 8 {
		nsh = 8
	}
	if replay != "" {
		nsh = 1
	}
	// the number of shards determines which cases are generated, so it is fixed
	const logical = 8
	if replay == "" {
		if os.Getenv("VK_NSHARDS") == "" {
			nsh = logical
		}
	}
	memKB := 0
	if strings.HasPrefix(id, "X") {
		memKB = 10 << 20
	}
	type res struct {
		shard int
		out   []byte
		err   error
		rep   *Report
		dir   string
	}
	results := make([]res, nsh)
	var wg sync.WaitGroup
	sem := make(chan struct{}, max(1, min(nsh, runtime.NumCPU())))
	for i := 0; i < nsh; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			dir := filepath.Join(tmp, fmt.Sprintf("s%d", i))
			_ = os.MkdirAll(dir, 0o755)
			repf := filepath.Join(dir, "report.json")
			args := []string{"-test.run", "^Test" + id + "$", "-test.timeout", "24h", "-test.v=false"}
			var cmd *exec.Cmd
			if memKB > 0 {
				cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -v %d; exec \"$0\" \"$@\"", memKB), bin)
				cmd.Args = append(cmd.Args, args...)
			} else {
				cmd = exec.Command(bin, args...)
			}
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VK_OUT="+repf, "VK_SHARD="+strconv.Itoa(i), "VK_NSHARDS="+strconv.Itoa(nsh),
				"VK_CURRENT="+filepath.Join(dir, "current"), "VERIF_SEED="+strconv.Itoa(seed), "GOMAXPROCS=2", "GODEBUG=randseednop=0,randautoseed=0")
			if race {
				cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
			}
			if replay != "" {
				ff := filepath.Join(dir, "replay.fail")
				_ = os.WriteFile(ff, []byte(rfail), 0o644)
				cmd.Env = append(cmd.Env, "VK_SUB="+rsub)
				if rfail != "" {
					cmd.Env = append(cmd.Env, "VK_REPLAY="+ff)
				}
			}
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			e := cmd.Run()
			r := res{shard: i, out: buf.Bytes(), err: e, dir: dir}
			if b, e2 := os.ReadFile(repf); e2 == nil {
				var rp Report
				if json.Unmarshal(b, &rp) == nil {
					r.rep = &rp
				}
			}
			results[i] = r
		}(i)
	}
	wg.Wait()

	// merge
	rule := ""
	evals, nontriv := 0, 0
	distinct := map[uint64]struct{}{}
	classes := map[string]map[string]int{}
	perSub := map[string]map[string]int{}
	var samples []any
	type viol struct {
		sub, kind, log, fail string
		shard                int
	}
	var viols []viol
	var errs []string
	fnd := map[string]string{}
	reFail := regexp.MustCompile(`--- FAIL: Test` + id + `/([^ ]+)`)
	for _, r := range results {
		if r.rep != nil {
			rule = r.rep.Rule
			for k, v := range r.rep.Findings {
				fnd[k] = v
			}
			for n, s := range r.rep.Subs {
				evals += s.Evaluations
				nontriv += s.Nontrivial
				for _, h := range s.Distinct {
					distinct[h] = struct{}{}
				}
				if perSub[n] == nil {
					perSub[n] = map[string]int{}
				}
				perSub[n]["evaluations"] += s.Evaluations
				perSub[n]["nontrivial"] += s.Nontrivial
				for k, v := range s.Classes {
					if classes[n] == nil {
						classes[n] = map[string]int{}
					}
					classes[n][k] += v
				}
				for i, sm := range s.Samples {
					if i < 2 && len(samples) < 24 {
						samples = append(samples, n+": "+sm)
					}
				}
			}
		}
		if r.err != nil {
			txt := string(r.out)
			switch {
			case r.rep != nil && r.rep.Hang != "":
				viols = append(viols, viol{sub: subOf(r.rep.Hang, id), kind: "hang", log: r.rep.Hang, shard: r.shard})
			case r.rep != nil && r.rep.Done:
				any := false
				for _, m := range reFail.FindAllStringSubmatch(txt, -1) {
					any = true
					ff := ""
					g, _ := filepath.Glob(filepath.Join(r.dir, "testdata", "rapid", "*", "*.fail"))
					for _, f := range g {
						base := filepath.Base(filepath.Dir(f))
						if strings.HasSuffix(base, "_"+m[1]) || strings.HasSuffix(base, "/"+m[1]) {
							b, _ := os.ReadFile(f)
							ff = string(b)
						}
					}
					viols = append(viols, viol{sub: m[1], kind: "failure", log: txt, fail: ff, shard: r.shard})
				}
				if !any {
					errs = append(errs, "shard failed without failing sub-check:\n"+tail(txt, 3000))
				}
			case raceOf[id] && (strings.Contains(txt, "WARNING: DATA RACE") || strings.Contains(txt, "fatal error: concurrent map")):
				cur, _ := os.ReadFile(filepath.Join(r.dir, "current"))
				sub, _, _ := strings.Cut(string(cur), ":")
				viols = append(viols, viol{sub: sub, kind: "data race", log: fmt.Sprintf("current case: %s\n%s", cur, head(txt, 20000)), shard: r.shard})
			case strings.Contains(txt, "fatal error: stack overflow") || strings.Contains(txt, "goroutine stack exceeds"):
				viols = append(viols, viol{sub: "?", kind: "stack overflow", log: tail(txt, 20000), shard: r.shard})
			case memKB > 0 && (strings.Contains(txt, "out of memory") || strings.Contains(txt, "cannot allocate memory")):
				cur, _ := os.ReadFile(filepath.Join(r.dir, "current"))
				viols = append(viols, viol{sub: "?", kind: "memory blow-up while decoding", log: fmt.Sprintf("current input: %x\n%s", cur, head(txt, 4000)), shard: r.shard})
			default:
				errs = append(errs, fmt.Sprintf("shard %d died: %v\n%s", r.shard, r.err, tail(txt, 3000)))
			}
		} else if r.rep == nil || !r.rep.Done {
			errs = append(errs, fmt.Sprintf("shard %d wrote no report\n%s", r.shard, tail(string(r.out), 2000)))
		}
	}
	if replay != "" {
		for _, r := range results {
			os.Stdout.Write(r.out)
		}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(distinct), "nontrivial": nontriv, "rule": rule, "samples": samples,
		"per_sub": perSub, "classes": classes, "violations": len(viols), "build_s": buildS, "shards": nsh,
	}
	if raceOf[id] {
		cov["race_detector"] = race
	}
	if samples == nil {
		cov["samples"] = []any{"(none)"}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall}
	evdir := filepath.Join(root(), "evidence")
	if replay == "" {
		_ = os.MkdirAll(evdir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644)
	}
	for _, k := range findings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].sub < viols[j].sub })
		rdir := filepath.Join(evdir, "replay")
		_ = os.MkdirAll(rdir, 0o755)
		seen := map[string]bool{}
		for _, v := range viols {
			if seen[v.sub+v.kind] {
				continue
			}
			seen[v.sub+v.kind] = true
			path := replay
			if replay == "" {
				path = filepath.Join(rdir, fmt.Sprintf("%s-%s.json", id, sane(v.sub)))
				b, _ := json.MarshalIndent(map[string]any{"Property": id, "Sub": v.sub, "Failfile": v.fail, "Seed": strconv.Itoa(seed),
					"Shard": v.shard, "Kind": v.kind, "Log": v.log}, "", " ")
				_ = os.WriteFile(path, b, 0o644)
			}
			fmt.Printf("--- %s %s (%s, shard %d)\n%s\n", id, v.sub, v.kind, v.shard, clip(v.log, 6000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed, evals, len(distinct), wall)
	return 0
}

func subOf(msg, id string) string {
	if i := strings.Index(msg, id+"/"); i >= 0 {
		return strings.Fields(msg[i+len(id)+1:])[0]
	}
	return "?"
}
func sane(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-' {
			return r
		}
		return '_'
	}, s)
}
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}
