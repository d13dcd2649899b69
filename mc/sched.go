package main

import (
	"fmt"
	"runtime"
)

// A cooperative scheduler: threads are goroutines of which one runs at a time; at
// every point (before every statement of the package under test, in the instrumented
// build) the running thread may be preempted in favour of another one. explore
// enumerates every schedule with at most `bound` preemptions.

type sthread struct {
	wake chan struct{}
	done bool
	fail *Failure
}

type choice struct {
	enabled int  // number of alternatives
	preempt bool // taking an alternative other than 0 preempts a runnable thread
}

type sched struct {
	ts     []*sthread
	cur    int
	prefix []int // choices to replay
	trace  []choice
	taken  []int
	points int
	alive  int
	all    chan struct{}
	off    bool
	bad    string
}

// nth returns the c-th enabled thread: the running one first, then in order.
func (s *sched) nth(c int) int {
	if !s.ts[s.cur].done {
		if c == 0 {
			return s.cur
		}
		c--
	}
	for i, t := range s.ts {
		if i != s.cur && !t.done {
			if c == 0 {
				return i
			}
			c--
		}
	}
	panic(harness{"no such thread"})
}

// decide takes the next choice among the enabled threads.
func (s *sched) decide() int {
	if s.alive == 1 {
		return s.nth(0)
	}
	i := len(s.taken)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= s.alive {
			s.bad = fmt.Sprintf("replay diverged: choice %d of %d at point %d", c, s.alive, i)
			c = 0
		}
	}
	s.taken = append(s.taken, c)
	s.trace = append(s.trace, choice{s.alive, !s.ts[s.cur].done})
	return s.nth(c)
}

func (s *sched) point() {
	if s.off {
		return
	}
	if s.points++; s.points > maxPoints {
		failf("operation does not terminate (%d statements executed)", s.points)
	}
	me := s.cur
	if next := s.decide(); next != me {
		s.cur = next
		s.ts[next].wake <- struct{}{}
		<-s.ts[me].wake
	}
}

// run executes the bodies under the schedule prefix (then without preemptions).
func (s *sched) run(bodies []func()) *Failure {
	s.all = make(chan struct{})
	s.alive = len(bodies)
	for range bodies {
		s.ts = append(s.ts, &sthread{wake: make(chan struct{})})
	}
	for i, f := range bodies {
		go func() {
			t := s.ts[i]
			<-t.wake
			finished := false
			defer func() {
				if !finished && t.fail == nil {
					t.fail = &Failure{Msg: "operation ended its goroutine"}
				}
				t.done = true
				if s.alive--; s.alive == 0 {
					close(s.all)
					return
				}
				s.cur = s.decide()
				s.ts[s.cur].wake <- struct{}{}
			}()
			t.fail = catch(f)
			finished = true
		}()
	}
	// the first thread to run is a free choice
	s.cur = 0
	s.taken, s.trace = append(s.taken, 0), append(s.trace, choice{len(bodies), false})
	if len(s.prefix) > 0 {
		s.taken[0] = s.prefix[0]
		s.cur = s.prefix[0]
	}
	s.ts[s.cur].wake <- struct{}{}
	<-s.all
	s.off = true
	for i, t := range s.ts {
		if t.fail != nil {
			t.fail.Msg = fmt.Sprintf("thread %d: %s", i, t.fail.Msg)
			return t.fail
		}
	}
	return nil
}

// Harness is a fresh instance of a concurrent scenario: thread bodies, and a check of
// the final state.
type Harness struct {
	Bodies []func()
	After  func()
}

var current *sched

// maxPoints bounds the statements of one execution; scenarios take some hundreds.
const maxPoints = 30000

// exploreSchedules runs mk() under every schedule with at most bound preemptions.
func (c *Ctx) exploreSchedules(name string, bound int, budget float64, mk func() Harness) {
	if !instrumented {
		panic(harness{"schedule exploration needs the instrumented build"})
	}
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	execs := 0
	exec := func(prefix []int) (*sched, *Failure) {
		execs++
		c.res.Traces++
		h := mk()
		s := &sched{prefix: prefix}
		setPoint(s.point)
		current = s
		f := s.run(h.Bodies)
		setPoint(nil)
		current = nil
		if s.bad != "" {
			panic(harness{s.bad})
		}
		if f == nil && h.After != nil {
			f = catch(h.After)
		}
		c.res.Transitions += int64(s.points)
		return s, f
	}
	preemptions := func(s *sched, n int) (p int) {
		for i := 0; i < n; i++ {
			if s.taken[i] != 0 && s.trace[i].preempt {
				p++
			}
		}
		return
	}
	longest := 0
	var explore func(prefix []int)
	explore = func(prefix []int) {
		if execs&0x3f == 0 && c.late() || c.res.Capped {
			return
		}
		s, f := exec(prefix)
		if len(s.taken) > longest {
			longest = len(s.taken)
		}
		if f != nil {
			taken := s.taken
			for i := 0; i < 5; i++ {
				if _, g := exec(taken); g != nil {
					f.Confirmed++
				}
			}
			f.Scenario = fmt.Sprintf("%s\nschedule (choice at each scheduling point; 0: continue): %s", name, runLengths(taken))
			c.fail(f)
		}
		for i := len(prefix); i < len(s.trace); i++ {
			cost := preemptions(s, i)
			if s.trace[i].preempt {
				cost++
			}
			if cost > bound {
				continue
			}
			for alt := 1; alt < s.trace[i].enabled; alt++ {
				p := make([]int, i+1)
				copy(p, s.taken[:i])
				p[i] = alt
				explore(p)
			}
		}
	}
	s0, _ := exec(nil)
	for n := len(s0.trace) * (len(s0.ts) - 1); budget > 0 && bound > 1 && schedules(n, bound) > budget; bound-- {
	}
	if budget > 0 && schedules(len(s0.trace)*(len(s0.ts)-1), bound) > budget {
		c.outcome("scenario above the schedule budget even with one preemption")
	}
	c.outcome(fmt.Sprintf("scenarios explored with at most %d preemptions", bound))
	explore(nil)
	c.res.States += int64(longest)
	c.sample(fmt.Sprintf("%s: %d schedules with at most %d preemptions, up to %d scheduling points", name, execs, bound, longest))
}

// schedules estimates the number of schedules with at most k preemptions.
func schedules(n, k int) (x float64) {
	t := 1.0
	for i := 1; i <= k; i++ {
		t = t * float64(n) / float64(i)
		x += t
	}
	return
}

func runLengths(xs []int) string {
	s := ""
	for i := 0; i < len(xs); {
		j := i
		for j < len(xs) && xs[j] == xs[i] {
			j++
		}
		if s != "" {
			s += ", "
		}
		s += fmt.Sprintf("%d x%d", xs[i], j-i)
		i = j
	}
	return s
}
