package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Task is a unit of exploration; tasks are independent and deterministic.
type Task struct {
	Name string
	Run  func(c *Ctx)
}

// Ctx collects what a task covered.
type Ctx struct {
	Prop, Tier string
	Deadline   time.Time
	TraceFile  *os.File // if set, every scenario is written here before it runs
	res        Result
	seen       map[string][]uint64
	beat       time.Time
	note       string // what is running, for failures outside a scenario
}

// Result is what a worker reports per task.
type Result struct {
	Task        string
	States      int64 // distinct (container kind, hash pattern, contents) visited
	Transitions int64 // operations executed on the real containers and checked
	Traces      int64 // histories (executions) run on the implementation
	Points      int64 // scheduling, collection or fault points enumerated
	Outcomes    map[string]int64
	Samples     []string
	Capped      bool
	Fail        *Failure
	Wall        float64
}

// Failure is a property violation.
type Failure struct {
	Task, Msg string
	Scenario  string
	Stack     string `json:",omitempty"`
	Confirmed int
	Stage     string
}

type failure struct{ msg string }

func failf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

func (c *Ctx) outcome(s string) {
	if c.res.Outcomes == nil {
		c.res.Outcomes = map[string]int64{}
	}
	c.res.Outcomes[s]++
}

func (c *Ctx) sample(s string) {
	if len(c.res.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.res.Samples = append(c.res.Samples, s)
	}
}

// visit counts distinct states: contents mask (n keys) of a configuration.
func (c *Ctx) visit(conf string, n int, mask uint64) {
	b := c.seen[conf]
	if b == nil {
		if c.seen == nil {
			c.seen = map[string][]uint64{}
		}
		b = make([]uint64, (1<<n+63)/64)
		c.seen[conf] = b
	}
	if b[mask/64]>>(mask%64)&1 == 0 {
		b[mask/64] |= 1 << (mask % 64)
		c.res.States++
	}
}

func (c *Ctx) late() bool {
	if now := time.Now(); now.Sub(c.beat) > 4*time.Second && heartbeat != nil {
		c.beat = now
		heartbeat()
	}
	if !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
		c.res.Capped = true
		return true
	}
	return false
}

// catch runs f and returns the failure it ends in, if any. A panic raised by the code
// under test is a failure; so is running into the rehash limit.
func catch(f func()) (fl *Failure) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case failure:
			fl = &Failure{Msg: x.msg}
		case harness:
			panic(x)
		case maphash.Livelock:
			fl = &Failure{Msg: "operation does not terminate (rehashes without end)", Stack: string(debug.Stack())}
		default:
			fl = &Failure{Msg: fmt.Sprintf("operation panicked: %v", x), Stack: string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// harness is the panic value for errors of the checker itself.
type harness struct{ msg string }

func (c *Ctx) fail(f *Failure) {
	if c.res.Fail == nil {
		c.res.Fail = f
	}
	panic(stopTask{})
}

type stopTask struct{}

func runTask(t Task, c *Ctx) (r Result) {
	start := time.Now()
	defer func() {
		switch x := recover().(type) {
		case nil, stopTask:
		case harness:
			fmt.Fprintf(os.Stderr, "harness error: %v\n%s", x.msg, debug.Stack())
			os.Exit(3)
		case failure:
			c.res.Fail = &Failure{Msg: x.msg, Scenario: c.note}
		case maphash.Livelock:
			c.res.Fail = &Failure{Msg: "operation does not terminate (rehashes without end)", Scenario: c.note, Stack: string(debug.Stack())}
		default:
			c.res.Fail = &Failure{Msg: fmt.Sprintf("panic: %v", x), Scenario: c.note, Stack: string(debug.Stack())}
		}
		c.res.Task = t.Name
		if c.res.Fail != nil {
			c.res.Fail.Task = t.Name
		}
		c.res.Wall = time.Since(start).Seconds()
		r = c.res
	}()
	resetStub()
	t.Run(c)
	return
}

func resetStub() {
	maphash.VerifTables = nil
	maphash.VerifNextSeed = 1
	maphash.VerifLimit, maphash.VerifSums = 0, 0
	maphash.VerifRecord = nil
	gkRecord, gkCalls, gkHook = false, nil, nil
}

// heartbeat tells the parent that the running task makes progress.
var heartbeat func()

// worker serves task numbers read from stdin, one JSON result line each.
func worker(prop, stage, tier string, deadline time.Time) {
	ts := tasksFor(prop, stage, tier)
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.NewFile(3, "results"))
	heartbeat = func() {
		out.WriteString(".\n")
		out.Flush()
	}
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i < 0 || i >= len(ts) {
			fmt.Fprintln(os.Stderr, "harness error: bad task number", in.Text())
			os.Exit(3)
		}
		c := &Ctx{Prop: prop, Tier: tier, Deadline: deadline}
		if tf := os.Getenv("VERIF_TRACE"); tf != "" {
			c.TraceFile, err = os.Create(tf)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness error:", err)
				os.Exit(3)
			}
		}
		r := runTask(ts[i], c)
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	os.Exit(0)
}

// Stage is one batch of tasks run under one build of the checker.
type Stage struct {
	Name string   // passed to tasksFor
	Bin  string   // build variant
	Env  []string // extra environment
	Par  int      // workers, 0: one per CPU
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *lockedBuf
}

type lockedBuf struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.Lock()
	defer l.Unlock()
	return l.b.String()
}

func spawn(bin string, args, env []string) (*proc, error) {
	p := &proc{cmd: exec.Command(bin, args...), err: &lockedBuf{}}
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{w}
	p.cmd.Stderr, p.cmd.Stdout = p.err, p.err
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err = p.cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	p.out = bufio.NewReaderSize(r, 1<<20)
	return p, nil
}

// cpu returns the CPU seconds p has used.
func (p *proc) cpu() float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// hangCPU is how much CPU time a task may use without a sign of progress before it
// counts as hanging. Tasks normally give one every few seconds.
var hangCPU = 150.0

// do runs task i on p. A nil result with a failure means the process died or hung.
func (p *proc) do(i int, name string) (*Result, *Failure) {
	base := p.cpu()
	fmt.Fprintf(p.in, "%d\n", i)
	type reply struct {
		line []byte
		err  error
	}
	ch := make(chan reply, 1)
	beats := make(chan struct{}, 100)
	go func() {
		for {
			l, err := p.out.ReadBytes('\n')
			if err == nil && string(l) == ".\n" {
				beats <- struct{}{}
				continue
			}
			ch <- reply{l, err}
			return
		}
	}()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	hung := false
	for {
		select {
		case r := <-ch:
			var res Result
			if r.err == nil && json.Unmarshal(r.line, &res) == nil {
				return &res, nil
			}
			p.in.Close()
			err := p.cmd.Wait()
			msg := fmt.Sprintf("process died: %v", err)
			if hung {
				msg = fmt.Sprintf("operation does not terminate (no result after %.0f s of CPU time)", hangCPU)
			}
			es := p.err.String()
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				return nil, &Failure{Task: name, Msg: "HARNESS", Stack: es}
			}
			return nil, &Failure{Task: name, Msg: msg + ": " + crashLine(es), Stack: tail(es, 6000)}
		case <-beats:
			base = p.cpu()
		case <-tick.C:
			if !hung && p.cpu()-base > hangCPU {
				hung = true
				p.cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(5*time.Second, func() { p.cmd.Process.Kill() })
			}
		}
	}
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, m := range []string{"AddressSanitizer", "fatal error", "panic:", "DATA RACE", "checkptr", "SIGSEGV", "unexpected fault", "runtime:"} {
			if strings.Contains(l, m) {
				return strings.TrimSpace(l)
			}
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// runStage runs all tasks of a stage on worker processes.
func runStage(prop, tier string, st Stage, bins map[string]string, deadline time.Time, total *Summary) {
	bin := bins[st.Bin]
	if bin == "" {
		fmt.Fprintln(os.Stderr, "harness error: no build", st.Bin)
		os.Exit(3)
	}
	ts := tasksFor(prop, st.Name, tier)
	par := st.Par
	if par == 0 {
		par = runtime.NumCPU()
	}
	if par > len(ts) {
		par = len(ts)
	}
	args := []string{"-worker", "-prop", prop, "-stage", st.Name, "-tier", tier, "-deadline", strconv.FormatInt(deadline.Unix(), 10)}
	env := append([]string{"GOMAXPROCS=1", "GOGC=400"}, st.Env...)
	var mu sync.Mutex
	next := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for {
				mu.Lock()
				i := next
				if stop || i >= len(ts) {
					mu.Unlock()
					break
				}
				if time.Now().After(deadline) {
					total.Capped = true
					total.Skipped = append(total.Skipped, st.Name+"/"+ts[i].Name)
					next++
					mu.Unlock()
					continue
				}
				next++
				mu.Unlock()
				if p == nil {
					var err error
					if p, err = spawn(bin, args, env); err != nil {
						fmt.Fprintln(os.Stderr, "harness error:", err)
						os.Exit(3)
					}
				}
				r, f := p.do(i, ts[i].Name)
				if f != nil {
					p = nil
					if f.Msg == "HARNESS" {
						fmt.Fprintln(os.Stderr, f.Stack)
						os.Exit(3)
					}
					f = crashReplay(bin, args, env, i, f)
					r = &Result{Task: ts[i].Name, Fail: f}
				}
				mu.Lock()
				total.add(r, st.Name)
				if r.Fail != nil {
					r.Fail.Stage = st.Name
					stop = true
				}
				mu.Unlock()
			}
			if p != nil {
				p.in.Close()
				p.cmd.Wait()
			}
		}()
	}
	wg.Wait()
}

// crashReplay reruns a task whose process died, noting each scenario before it runs.
func crashReplay(bin string, args, env []string, i int, f *Failure) *Failure {
	dir, err := os.MkdirTemp("", "verif-trace")
	if err != nil {
		return f
	}
	defer os.RemoveAll(dir)
	tf := filepath.Join(dir, "trace")
	for try := 0; try < 3; try++ {
		p, err := spawn(bin, args, append(env, "VERIF_TRACE="+tf))
		if err != nil {
			return f
		}
		r, g := p.do(i, f.Task)
		if g != nil {
			f.Confirmed++
			if b, err := os.ReadFile(tf); err == nil {
				f.Scenario = string(b)
			}
			if strings.Contains(f.Msg, "does not terminate") {
				return f
			}
			continue
		}
		p.in.Close()
		p.cmd.Wait()
		if r.Fail != nil {
			f.Confirmed++
		}
	}
	return f
}

// Summary is what a whole check covered.
type Summary struct {
	Result
	Tasks    int
	PerStage map[string]*Result
	Skipped  []string
	Fails    []*Failure
}

func (s *Summary) add(r *Result, stage string) {
	s.Tasks++
	if s.PerStage == nil {
		s.PerStage = map[string]*Result{}
	}
	p := s.PerStage[stage]
	if p == nil {
		p = &Result{}
		s.PerStage[stage] = p
	}
	for _, x := range []*Result{&s.Result, p} {
		x.States += r.States
		x.Transitions += r.Transitions
		x.Traces += r.Traces
		x.Points += r.Points
		for k, v := range r.Outcomes {
			if x.Outcomes == nil {
				x.Outcomes = map[string]int64{}
			}
			x.Outcomes[k] += v
		}
		x.Capped = x.Capped || r.Capped
		x.Wall += r.Wall
	}
	if len(s.Samples) < 6 {
		for _, x := range r.Samples {
			s.Samples = append(s.Samples, stage+"/"+r.Task+": "+x)
		}
	}
	if r.Fail != nil {
		s.Fails = append(s.Fails, r.Fail)
	}
}
