// Package er is ordinary (non test) code of another package that calls the
// library on behalf of tests.
package er

import (
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

type TB interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

// Do calls the library through a config, or its package level functions.
func Do(c *snaps.Config, t TB, api int, v string) {
	if c == nil {
		switch api {
		case 0:
			snaps.MatchSnapshot(t, v)
		case 1:
			snaps.MatchJSON(t, v)
		case 2:
			snaps.MatchYAML(t, v)
		case 3:
			snaps.MatchStandaloneSnapshot(t, v)
		case 4:
			snaps.MatchStandaloneJSON(t, v)
		}
		return
	}
	switch api {
	case 0:
		c.MatchSnapshot(t, v)
	case 1:
		c.MatchJSON(t, v)
	case 2:
		c.MatchYAML(t, v)
	case 3:
		c.MatchStandaloneSnapshot(t, v)
	case 4:
		c.MatchStandaloneJSON(t, v)
	}
}

// Via runs f below n more frames of this file.
func Via(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	Via(n-1, f)
}

type Runner struct{ F func() }

func (r *Runner) Run() { r.F() }
func (r Runner) Val()  { r.F() }

func Each[E any](l []E, f func(E)) {
	for _, e := range l {
		f(e)
	}
}

func ViaDo(n int, c *snaps.Config, t TB, api int, v string) {
	if n > 0 {
		ViaDo(n-1, c, t, api, v)
		return
	}
	Do(c, t, api, v)
}

// Allocs runs f below a frame of package testing.
func Allocs(f func()) {
	testing.AllocsPerRun(1, func() {
		if g := f; g != nil {
			f = nil
			g()
		}
	})
}
