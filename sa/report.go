package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// runPart analyses a part of the probes in a process of its own.
func runPart(self, dir string, p *Property, i, n, deeper int) (r result) {
	f := filepath.Join(dir, fmt.Sprintf("r%d.%d.json", i, deeper))
	cmd := exec.Command(self, "-prop", p.id, "-repo", repoDir, "-deeper", strconv.Itoa(deeper), "-shard", fmt.Sprintf("%d/%d", i, n), "-out", f)
	cmd.Env = append(os.Environ(), fmt.Sprintf("SA_LEFT=%d", int((budget-time.Since(started)).Seconds())))
	out, err := cmd.CombinedOutput()
	if len(out) > 0 && (debug || os.Getenv("SA_TIME") != "") {
		os.Stderr.Write(out)
	}
	b, err2 := os.ReadFile(f)
	if err == nil && err2 == nil {
		err = json.Unmarshal(b, &r)
	} else if err == nil {
		err = err2
	}
	if err != nil {
		tail := string(out)
		if len(tail) > 400 {
			tail = tail[len(tail)-400:]
		}
		r.Failures = append(r.Failures, jsonFailure{"analysis", fmt.Sprintf("undecided: part %d of the analysis ended abnormally: %v", i, err), "", tail})
	}
	return r
}

// runAll spreads the probes over processes.
func runAll(p *Property) result {
	n := 1
	if p.probes != nil {
		k := len(p.allProbes())
		n = (k + 2) / 3
		if deeper > 0 {
			n = k
		}
		if n < 1 {
			n = 1
		}
	}
	if n == 1 && deeper == 0 {
		return runShard(p, "", "", false)
	}
	dir, err := os.MkdirTemp("", "sa-")
	if err != nil {
		return runShard(p, "", "", false)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	var wg sync.WaitGroup
	at := make(chan bool, min(8, max(2, runtime.NumCPU())))
	if deeper > 0 {
		at = make(chan bool, 6) // they need more memory
	}
	rs := make([]result, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			at <- true
			defer func() { <-at }()
			for d := deeper; d >= 0; d-- {
				rs[i] = runPart(self, dir, p, i, n, d)
				// too deep for the time and memory there is: less deep
				late := false
				for _, f := range rs[i].Failures {
					late = late || strings.HasPrefix(f.Msg, "undecided")
				}
				if !late {
					break
				}
			}
		}(i)
	}
	wg.Wait()
	var r result
	r.Rules = map[string]int{}
	vis := map[string]bool{}
	fs := map[string]bool{}
	for _, x := range rs {
		for _, f := range x.Failures {
			k := f.Probe + "|" + f.Msg + "|" + f.Where
			if !fs[k] {
				fs[k] = true
				r.Failures = append(r.Failures, f)
			}
		}
		for _, v := range x.Visited {
			if !vis[v] {
				vis[v] = true
				r.Visited = append(r.Visited, v)
			}
		}
		r.Oblig += x.Oblig
		r.OK += x.OK
		r.Loops += x.Loops
		r.Probes += x.Probes
		r.Steps += x.Steps
		r.Decides += x.Decides
		r.Solves += x.Solves
		for k, v := range x.Rules {
			r.Rules[k] += v
		}
		if len(r.Samples) < 4 {
			r.Samples = append(r.Samples, x.Samples...)
		}
		r.Notes = append(r.Notes, x.Notes...)
	}
	return r
}

// report prints the verdict and writes the evidence. Known findings are
// looked up in known_findings.txt by property, probe and message.
func report(p *Property, r result, verif string, start time.Time, write bool) int {
	known := readKnown(filepath.Join(verif, "known_findings.txt"), p.id)
	var viol []jsonFailure
	for _, f := range r.Failures {
		if k := known[f.Probe+": "+f.Msg]; k {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.id, f.Probe, f.Msg)
			continue
		}
		viol = append(viol, f)
	}
	// a check that analysed nothing proves nothing
	if min := minimum[p.id]; len(viol) == 0 && r.Oblig < min {
		viol = append(viol, jsonFailure{"coverage", fmt.Sprintf("only %d obligations were generated, %d expected", r.Oblig, min), "", ""})
	}
	sort.Strings(r.Visited)
	sort.Strings(r.Notes)
	for i, v := range r.Visited {
		r.Visited[i] = strings.ReplaceAll(v, "github.com/myyrakle/gost", "gost")
	}
	if write {
		ev := map[string]any{
			"property": p.id, "tier": env("VERIF_TIER", "quick"), "seed": atoi(env("VERIF_SEED", "1")), "level": "other",
			"coverage": map[string]any{
				"explanation":          explanation,
				"obligations":          r.Oblig,
				"discharged":           r.OK,
				"probes":               r.Probes,
				"rule_instances":       r.Rules,
				"abstract_steps":       r.Steps,
				"loops_summarised":     r.Loops,
				"domain_queries":       r.Decides,
				"emptiness_tests":      r.Solves,
				"functions_analysed":   r.Visited,
				"functions_analysed_n": len(r.Visited),
				"rule":                 p.note,
				"samples":              r.Samples,
				"notes":                dedupe(r.Notes),
			},
			"assumptions": assumptions,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(viol),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), append(b, '\n'), 0o644)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s probes=%d obligations=%d functions=%d loops=%d wall=%.1fs\n", p.id, r.Probes, r.Oblig, len(r.Visited), r.Loops, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", p.id+".violations.txt")
	var b strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&b, "%s: %s\n", f.Probe, f.Msg)
		if f.Where != "" {
			fmt.Fprintf(&b, "    at %s\n", f.Where)
		}
		if f.Detail != "" {
			d := f.Detail
			if len(d) > 1500 && !debug {
				d = d[:1500] + " ..."
			}
			fmt.Fprintf(&b, "    when %s\n", d)
		}
	}
	if write {
		os.WriteFile(rp, []byte(b.String()), 0o644)
	}
	s := b.String()
	if len(s) > 12000 {
		s = s[:12000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rp)
	return 1
}

var minimum = map[string]int{}

const explanation = "Static analysis of /repo's current source (type-checked SSA form). Each probe is client code with unknown parameters that is analysed, not run, together with every function it reaches: an abstract interpretation with path partitioning over a relational numeric domain and value-numbered terms; loops are summarised by recurrences for all iteration counts. An obligation is one assertion on one abstract path, or one instance of a structural rule."

var assumptions = []string{
	"Go's specified semantics on a 64-bit platform; SSA construction by golang.org/x/tools",
	"functions of the standard library behave as documented (uninterpreted where the property does not depend on their result)",
	"single-goroutine access except where the property is about threads",
}

func dedupe(xs []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return out
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// readKnown reads lines "open: property=<id> <probe>: <message>".
func readKnown(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "open: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			m[strings.TrimPrefix(l, pre)] = true
		}
	}
	return m
}
