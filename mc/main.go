package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property")
	stage := flag.String("stage", "", "stage (worker)")
	tier := flag.String("tier", "quick", "quick or thorough")
	isWorker := flag.Bool("worker", false, "serve tasks")
	dl := flag.Int64("deadline", 0, "unix time (worker)")
	binList := flag.String("bins", "", "name=path,...")
	out := flag.String("out", "", "/verif directory")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("variants", false, "print the build variants the property needs")
	only := flag.String("only", "", "run only the stages / tasks with this prefix (debugging)")
	started := flag.Int64("started", 0, "unix time the check started")
	flag.Parse()
	if *list {
		vs := map[string]bool{"plain": true}
		for _, st := range stagesFor(*prop, *tier) {
			vs[st.Bin] = true
		}
		var l []string
		for v := range vs {
			l = append(l, v)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	if *isWorker {
		worker(*prop, *stage, *tier, time.Unix(*dl, 0))
		return
	}
	onlyPrefix = *only
	bins := map[string]string{}
	for _, b := range strings.Split(*binList, ",") {
		if n, p, ok := strings.Cut(b, "="); ok {
			bins[n] = p
		}
	}
	start := time.Now()
	if *started != 0 {
		start = time.Unix(*started, 0)
	}
	budget := 700 * time.Second
	if *tier == "thorough" {
		budget = 5400 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	deadline := start.Add(budget)
	if *replay != "" {
		os.Exit(doReplay(*replay, bins))
	}
	sum := &Summary{}
	for _, st := range stagesFor(*prop, *tier) {
		if onlyPrefix != "" && !strings.HasPrefix(st.Name, onlyPrefix) {
			continue
		}
		t0 := time.Now()
		runStage(*prop, *tier, st, bins, deadline, sum)
		fmt.Fprintf(os.Stderr, "%s %s/%s: %.1f s, %d tasks so far, %d transitions\n", *prop, *tier, st.Name, time.Since(t0).Seconds(), sum.Tasks, sum.Transitions)
		if len(sum.Fails) > 0 {
			break
		}
	}
	os.Exit(finishCheck(*prop, *tier, *out, start, sum))
}

var onlyPrefix string

// Replay is what a replay file holds.
type Replay struct {
	Property, Tier, Stage, Task string
	Message                     string
	Scenario                    []string
	Confirmed                   int
	Stack                       string `json:",omitempty"`
	Rerun                       string
}

func finishCheck(prop, tier, dir string, start time.Time, s *Summary) int {
	cov := map[string]any{
		"states":                        s.States,
		"transitions":                   s.Transitions,
		"traces_validated_against_impl": s.Traces,
		"exhaustive":                    !s.Capped && len(s.Fails) == 0,
		"samples":                       s.Samples,
		"tasks":                         s.Tasks,
	}
	if s.Samples == nil {
		cov["samples"] = []string{}
	}
	if s.Points > 0 {
		cov["points"] = s.Points
	}
	if len(s.Outcomes) > 0 {
		cov["outcomes"] = s.Outcomes
	}
	if len(s.Skipped) > 0 {
		cov["skipped_after_deadline"] = len(s.Skipped)
	}
	st := map[string]any{}
	for n, r := range s.PerStage {
		st[n] = map[string]any{"states": r.States, "transitions": r.Transitions, "executions": r.Traces, "points": r.Points, "capped": r.Capped, "cpu_s": round1(r.Wall), "what": stageText(prop, n, tier)}
	}
	cov["stages"] = st
	cov["rule"] = "states: distinct (container kind, hash pattern, implementation or contents state) visited, in schedule stages distinct scheduling points; transitions: operations executed on the real containers and compared with the reference, in schedule stages statements executed under the scheduler; traces_validated_against_impl: executions started from an empty container (every execution is of the implementation itself, there is no separate model to bind)"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assumptions(prop), "wall_s": round1(time.Since(start).Seconds()),
		"violations": len(s.Fails),
	}
	writeJSON(filepath.Join(dir, "evidence", prop+".json"), ev)
	if len(s.Fails) == 0 {
		note := ""
		if s.Capped {
			note = " (capped, see the evidence file)"
		}
		fmt.Printf("%s held on %d states, %d transitions, %d executions%s\n", prop, s.States, s.Transitions, s.Traces, note)
		return 0
	}
	sort.Slice(s.Fails, func(i, j int) bool { return len(s.Fails[i].Scenario) < len(s.Fails[j].Scenario) })
	f := s.Fails[0]
	rp := filepath.Join(dir, "evidence", prop+".replay.json")
	writeJSON(rp, Replay{Property: prop, Tier: tier, Stage: f.Stage, Task: f.Task, Message: f.Msg,
		Scenario: strings.Split(strings.TrimSpace(f.Scenario), "\n"), Confirmed: f.Confirmed, Stack: f.Stack,
		Rerun: "./check.sh -replay " + rp})
	fmt.Printf("%s: %s\n%s\n", prop, f.Msg, f.Scenario)
	if f.Stack != "" {
		fmt.Fprintln(os.Stderr, tail(f.Stack, 3000))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func round1(x float64) float64 { return float64(int(x*10+0.5)) / 10 }

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0o755)
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// doReplay reruns the task a replay file names.
func doReplay(file string, bins map[string]string) int {
	b, err := os.ReadFile(file)
	var r Replay
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		return 3
	}
	for _, st := range stagesFor(r.Property, r.Tier) {
		if st.Name != r.Stage {
			continue
		}
		for i, t := range tasksFor(r.Property, r.Stage, r.Tier) {
			if t.Name != r.Task {
				continue
			}
			args := []string{"-worker", "-prop", r.Property, "-stage", st.Name, "-tier", r.Tier, "-deadline", strconv.FormatInt(time.Now().Add(time.Hour).Unix(), 10)}
			p, err := spawn(bins[st.Bin], args, append([]string{"GOMAXPROCS=1", "GOGC=400"}, st.Env...))
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness error:", err)
				return 3
			}
			res, f := p.do(i, t.Name)
			if res != nil {
				f = res.Fail
			}
			if f == nil {
				fmt.Println("no violation")
				return 0
			}
			fmt.Printf("%s\n%s\n", f.Msg, f.Scenario)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
			return 1
		}
	}
	fmt.Fprintln(os.Stderr, "harness error: no such task")
	return 3
}
