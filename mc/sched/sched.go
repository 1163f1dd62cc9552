// Package sched runs a few goroutines one at a time and explores all their
// interleavings up to a number of preemptions.
package sched

import "fmt"

// Sched hands the processor from point to point.
type Sched struct {
	threads []*thread
	cur     int
	prefix  []int
	choices []int
	points  []point
	diverge string
	free    bool // no control: points do nothing
}

type point struct {
	enabled []int // in canonical order: the running thread first
	running bool  // the running thread is still enabled
}

type thread struct {
	wake chan struct{}
	back chan struct{}
	done bool
	err  interface{}
}

// Current is the scheduler in charge.
var Current *Sched

// Point is a scheduling point of the running thread.
func Point() {
	if s := Current; s != nil && !s.free && s.cur >= 0 {
		t := s.threads[s.cur]
		t.back <- struct{}{}
		<-t.wake
	}
}

// Exec is one finished execution.
type Exec struct {
	Choices []int
	points  []point
	Errs    []interface{}
	Diverge string
}

// run executes the bodies following prefix, then choice 0.
func run(bodies []func(), prefix []int) *Exec {
	s := &Sched{prefix: prefix, cur: -1}
	Current = s
	for _, b := range bodies {
		t := &thread{wake: make(chan struct{}), back: make(chan struct{})}
		s.threads = append(s.threads, t)
		b := b
		go func() {
			<-t.wake
			defer func() {
				t.err = recover()
				t.done = true
				t.back <- struct{}{}
			}()
			b()
		}()
	}
	last := -1
	for {
		var p point
		if last >= 0 && !s.threads[last].done {
			p.enabled = append(p.enabled, last)
			p.running = true
		}
		for i, t := range s.threads {
			if i != last && !t.done {
				p.enabled = append(p.enabled, i)
			}
		}
		if len(p.enabled) == 0 {
			break
		}
		k := 0
		if len(s.choices) < len(prefix) {
			k = prefix[len(s.choices)]
			if k >= len(p.enabled) {
				s.diverge = fmt.Sprintf("choice %d of %d at point %d", k, len(p.enabled), len(s.choices))
				k = 0
			}
		}
		s.choices = append(s.choices, k)
		s.points = append(s.points, p)
		last = p.enabled[k]
		s.cur = last
		t := s.threads[last]
		t.wake <- struct{}{}
		<-t.back
	}
	Current = nil
	e := &Exec{Choices: s.choices, points: s.points, Diverge: s.diverge}
	for _, t := range s.threads {
		e.Errs = append(e.Errs, t.err)
	}
	return e
}

// Explore runs the bodies made by mk under every interleaving with at most
// bound preemptions; check looks at each execution and may end the search.
func Explore(mk func() []func(), bound int, check func(e *Exec) bool) (execs, points int) {
	stop := false
	var rec func(prefix []int)
	rec = func(prefix []int) {
		if stop {
			return
		}
		e := run(mk(), prefix)
		execs++
		points += len(e.points)
		if !check(e) {
			stop = true
			return
		}
		cost := make([]int, len(e.points)+1)
		for i, p := range e.points {
			cost[i+1] = cost[i]
			if p.running && e.Choices[i] != 0 {
				cost[i+1]++
			}
		}
		for i := len(prefix); i < len(e.points); i++ {
			p := e.points[i]
			k := cost[i]
			if p.running {
				k++
			}
			if k > bound {
				continue
			}
			for alt := 1; alt < len(p.enabled); alt++ {
				rec(append(append([]int{}, e.Choices[:i]...), alt))
			}
		}
	}
	rec(nil)
	return
}

// Replay runs one schedule.
func Replay(mk func() []func(), choices []int) *Exec { return run(mk(), choices) }
