// Package sched replays a recorded schedule: every hooked operation of a
// registered goroutine is an event that consumes one entry "goroutine@event"
// of the schedule and hands control to that goroutine.
package sched

import (
	"bytes"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

type g struct {
	name string
	ch   chan struct{}
	done bool
}

var (
	mu      sync.Mutex
	on      bool // exploring
	started bool // a goroutine has been started
	ids     = map[int64]*g{}
	names   = map[string]*g{}
	all     []*g
	log     []string
	pos     int

	// Diverged is called when the run does not follow the schedule.
	Diverged = func(msg string) { panic(msg) }
)

func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

func register(name string) *g {
	x := &g{name: name, ch: make(chan struct{}, 1)}
	names[name] = x
	all = append(all, x)
	return x
}

// Start: the calling goroutine is the main one.
func Start(l []string) {
	mu.Lock()
	defer mu.Unlock()
	if names["main"] == nil {
		ids[goid()] = register("main")
	}
	log = l
	on = true
}

func Stop() {
	mu.Lock()
	on = false
	mu.Unlock()
}

func me() *g {
	mu.Lock()
	defer mu.Unlock()
	if !on || !started {
		return nil
	}
	return ids[goid()]
}

func event(x *g, what string) {
	mu.Lock()
	if pos >= len(log) {
		mu.Unlock()
		Diverged("the schedule is over at " + x.name + "@" + what)
		return
	}
	e := log[pos]
	pos++
	i := strings.IndexByte(e, '@')
	t := names[e[:i]]
	mu.Unlock()
	if e[i+1:] != what || t == nil || t.done {
		Diverged("schedule entry " + strconv.Itoa(pos) + " is " + e + ", " + x.name + " is at " + what)
		return
	}
	if t == x {
		return
	}
	t.ch <- struct{}{}
	if !x.done {
		<-x.ch
	}
}

// Point is called before an operation; it reports whether a schedule is
// being followed.
func Point(what string) bool {
	x := me()
	if x == nil {
		return false
	}
	event(x, what)
	return true
}

func Diverge(msg string) { Diverged(msg) }

// Go starts a goroutine of the schedule.
func Go(f func(), done func()) {
	mu.Lock()
	x := register("g" + strconv.Itoa(len(all)))
	if names["main"] == nil {
		panic("sched: not started")
	}
	started = true
	follow := on
	mu.Unlock()
	go func() {
		mu.Lock()
		ids[goid()] = x
		mu.Unlock()
		if follow {
			<-x.ch
		}
		f()
		x.done = true
		done()
		if follow {
			event(x, "end")
		}
	}()
	Point("go")
}

// Wait blocks until every goroutine started by Go is done.
func Wait(block func()) {
	x := me()
	if x == nil {
		block()
		return
	}
	for _, y := range all {
		if y != x && !y.done {
			event(x, "block")
			return
		}
	}
}
