package zzverif

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zzverif/deep/er"
)

// frames of non test files between a test and a call

func viaLocal(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	viaLocal(n-1, f)
}

func do2(c *snaps.Config, t *T, api int, v string) { er.Do(c, t, api, v) }

//line lib/helper.go:10
func viaLine(f func()) { viaLine2(f) }

//line x_test.go/helper_tests.go:10
func viaLine2(f func()) { viaLine3(f) }

//line ../../elsewhere/_test.go.go:10
func viaLine3(f func()) { f() }
