// Command vmon runs the monitors: "vmon check" decides a property (it is what
// the registered commands call), "vmon work" is the process the workload runs
// in, and "vmon replay" runs one recorded case again.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/mon"
	_ "verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "work":
		work(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		for _, id := range mon.IDs() {
			for _, s := range mon.Lookup(id).Scenarios {
				fmt.Println(id, s.Name, "mode="+s.Mode(), s.Quick, s.Thorough)
			}
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vmon check|work|replay|list ...")
	os.Exit(2)
}

func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	var o mon.Options
	out := fs.String("out", "", "report file")
	fs.StringVar(&o.Prop, "prop", "", "property")
	fs.StringVar(&o.Tier, "tier", "quick", "tier")
	fs.Uint64Var(&o.Seed, "seed", 1, "seed")
	fs.StringVar(&o.Mode, "mode", "plain", "run the scenarios of this mode")
	fs.StringVar(&o.Only, "only", "", "scenario")
	fs.IntVar(&o.OnlyCase, "case", -1, "case")
	fs.BoolVar(&o.Full, "full", false, "full trace")
	fs.StringVar(&o.CurFile, "cur", "", "current case file")
	fs.Float64Var(&o.Scale, "scale", 0, "scale the number of cases")
	fs.Parse(args)
	mon.Run(o, func(r *mon.Report) {
		b, err := json.Marshal(r)
		if err == nil {
			if *out == "" {
				var buf bytes.Buffer
				json.Indent(&buf, b, "", " ")
				os.Stdout.Write(append(buf.Bytes(), '\n'))
			} else {
				err = os.WriteFile(*out, b, 0o644)
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	})
}

type result struct {
	rep          *mon.Report
	fails        []mon.Failure
	races        int
	inconclusive string
}

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?|0x[0-9a-f]+|goroutine \d+|Goroutine \d+`)

// runChild runs the workload in a process of its own, so that fatal errors and
// race reports end up in the verdict instead of ending the check.
func runChild(bin, prop, tier string, seed uint64, mode string, scale float64, limit time.Duration) result {
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		return result{inconclusive: err.Error()}
	}
	defer os.RemoveAll(dir)
	out, cur := filepath.Join(dir, "out.json"), filepath.Join(dir, "cur")
	cmd := exec.Command(bin, "work", "-prop", prop, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
		"-mode="+mode, "-out", out, "-cur", cur, "-scale", fmt.Sprint(scale))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+filepath.Join(dir, "race"))
	if err := cmd.Start(); err != nil {
		return result{inconclusive: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Kill()
		err = <-done
	}
	var res result
	base := mon.Failure{Prop: prop, Seed: seed, Tier: tier, Mode: mode}
	if b, e := os.ReadFile(out); e == nil {
		var rep mon.Report
		if json.Unmarshal(b, &rep) == nil {
			res.rep = &rep
			res.fails = append(res.fails, rep.Failures...)
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, blk := range strings.Split(string(b), "==================\n") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			res.races++
			key := lineNo.ReplaceAllString(blk, "")
			if seen[key] || len(seen) >= 4 {
				continue
			}
			seen[key] = true
			f := base
			f.Msg = "data race reported by the race detector"
			f.Stack = blk
			f.Scenario, f.Case = current(cur)
			res.fails = append(res.fails, f)
		}
	}
	if timedOut {
		res.inconclusive = fmt.Sprintf("the workload did not end within %v of wall-clock time", limit)
		return res
	}
	if res.rep == nil {
		text := stderr.String()
		low := strings.ToLower(text)
		switch {
		case strings.Contains(low, "out of memory") || strings.Contains(low, "cannot allocate memory") || strings.Contains(low, "failed to create new os thread"):
			res.inconclusive = "the machine ran out of resources: " + head(text, 400)
		case strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "SIGSEGV"):
			f := base
			f.Msg = "the workload crashed: " + firstLine(text)
			f.Stack = head(text, 12000)
			f.Scenario, f.Case = current(cur)
			res.fails = append(res.fails, f)
		default:
			res.inconclusive = fmt.Sprintf("the workload ended without a report: %v: %s", err, head(text, 400))
		}
	}
	return res
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	return head(s, 200)
}

func current(file string) (string, int) {
	b, err := os.ReadFile(file)
	if err != nil {
		return "", 0
	}
	line, _, _ := strings.Cut(strings.ReplaceAll(string(b), "\x00", " "), "\n")
	return mon.ParseWhere(line)
}

// known is an entry of the known-findings file: failures of the property whose
// scenario and message match are announced but do not fail the check.
type known struct{ prop, scen, match, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> scenario=<name> match=<text up to the end>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		k.text = l
		rest := strings.TrimPrefix(l, "known: ")
		if i := strings.Index(rest, " match="); i >= 0 {
			k.match = rest[i+len(" match="):]
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "scenario="); ok {
				k.scen = v
			}
		}
		if k.prop != "" && k.scen != "" && k.match != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	bins := map[string]*string{
		"race": fs.String("racebin", "", "binary built with the race detector"),
		"work": fs.String("workbin", "", "binary built with work counters"),
	}
	root := fs.String("root", "/verif", "where evidence and replay files go")
	scale := fs.Float64("scale", 0, "scale the number of cases")
	fs.Parse(args)
	start := time.Now()
	p := mon.Lookup(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	limit := 840 * time.Second
	if *tier == "thorough" {
		limit = 3 * time.Hour
	}
	modes := map[string]bool{}
	for _, s := range p.Scenarios {
		modes[s.Mode()] = true
	}
	race := modes["race"]
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var all []result
	bins["plain"] = &self
	for _, mode := range []string{"plain", "work", "race"} {
		if !modes[mode] || len(all) > 0 && len(all[len(all)-1].fails) > 0 {
			continue
		}
		if *bins[mode] == "" {
			fmt.Fprintln(os.Stderr, "this property needs -"+mode+"bin")
			os.Exit(2)
		}
		all = append(all, runChild(*bins[mode], *prop, *tier, *seed, mode, *scale, limit))
	}
	var fails []mon.Failure
	incon := ""
	cov := map[string]any{}
	events, maxes, perScen := map[string]int64{}, map[string]int64{}, map[string]int64{}
	var cases, ops, checks, distinct, states, races int64
	var samples []any
	for _, r := range all {
		fails = append(fails, r.fails...)
		races += int64(r.races)
		if r.inconclusive != "" {
			incon = r.inconclusive
		}
		if r.rep == nil {
			continue
		}
		cases += r.rep.Cases
		ops += r.rep.Ops
		checks += r.rep.Checks
		distinct += r.rep.Distinct
		states += r.rep.States
		for k, v := range r.rep.Events {
			events[k] += v
		}
		for k, v := range r.rep.Max {
			maxes[k] = max(maxes[k], v)
		}
		for k, v := range r.rep.PerScen {
			perScen[k] += v
		}
		samples = append(samples, r.rep.Samples...)
	}
	var open []mon.Failure
	ks := readKnown(filepath.Join(*root, "known_findings.txt"))
	saidKnown := map[string]bool{}
next:
	for _, f := range fails {
		for _, k := range ks {
			if k.prop == f.Prop && k.scen == f.Scenario && strings.Contains(f.Msg, k.match) {
				if !saidKnown[k.text] {
					saidKnown[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.Prop, k.match)
				}
				continue next
			}
		}
		open = append(open, f)
	}
	if len(open) == 0 && incon == "" {
		// the monitors must have observed something
		for _, s := range p.Scenarios {
			if perScen[s.Name] == 0 {
				incon = "no case of scenario " + s.Name + " was run"
			}
		}
		if checks == 0 || ops == 0 {
			incon = "the monitors observed nothing"
		}
	}
	cov["evaluations"] = cases
	cov["distinct_nontrivial"] = distinct
	cov["rule"] = p.Rule
	cov["operations_observed"] = ops
	cov["oracle_decisions"] = checks
	cov["cases_per_scenario"] = perScen
	if states > 0 {
		cov["distinct_states_observed"] = states
	}
	if len(events) > 0 {
		cov["events"] = events
	}
	if len(maxes) > 0 {
		cov["maxima"] = maxes
	}
	if race {
		cov["race_reports"] = races
	}
	if samples == nil {
		samples = []any{"none"}
	}
	cov["samples"] = samples
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(open),
		"assumptions": []string{
			"held on the executions observed; nothing is claimed about workloads that were not generated",
			"the Go toolchain, its race detector and the reference models in /verif/harness are trusted",
		},
	}
	if incon != "" {
		ev["inconclusive"] = incon
	}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: %d cases, %d operations observed, %d oracle decisions, %d distinct non-trivial cases, %.1fs\n",
		*prop, *tier, cases, ops, checks, distinct, time.Since(start).Seconds())
	if len(open) > 0 {
		sort.SliceStable(open, func(i, j int) bool { return open[i].NOps < open[j].NOps })
		for i, f := range open {
			path := mon.WriteReplay(filepath.Join(*root, "out", "replay"), i, f)
			fmt.Printf("%s/%d: %s\n", f.Scenario, f.Case, head(f.Msg, 1000))
			if i == 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			}
		}
		os.Exit(1)
	}
	if incon != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", *prop, incon)
		os.Exit(2)
	}
	fmt.Printf("OK property=%s held on everything observed\n", *prop)
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("trace", "", "write the full trace here")
	fs.Parse(args)
	if fs.NArg() != 1 {
		usage()
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f mon.Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := mon.Options{Prop: f.Prop, Tier: f.Tier, Seed: f.Seed, Mode: f.Mode, Only: f.Scenario, OnlyCase: f.Case, Full: true}
	mon.Run(o, func(r *mon.Report) {
		if len(r.Failures) == 0 {
			fmt.Println("the case passes now")
			return
		}
		g := r.Failures[0]
		for _, l := range g.Full {
			fmt.Println(l)
		}
		if *root != "" {
			os.WriteFile(*root, []byte(strings.Join(g.Full, "\n")+"\n"), 0o644)
		}
		fmt.Printf("config: %s\n%s\n%s\n", g.Note, g.Msg, g.Stack)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, fs.Arg(0))
		os.Exit(1)
	})
}
