package zzverif

import (
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/gkampitakis/go-snaps/zzverif/deep/er"
)

// calls made by code of other test files, at other depths

var lineFiles = []string{"other_test.go", "deep/x_test.go", "deep/er/y_test.go", "deep/er/z/a.b_test.go", "d_test.go/b%d_test.go", "deep/a b_test.go", "deep/_test.go"}

var lineCalls = []func(how int, c *snaps.Config, t *T, api int, in string){line0, line1, line2, line3, line4, line5, line6}

//line other_test.go:5
func line0(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line deep/x_test.go:5
func line1(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line deep/er/y_test.go:5
func line2(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line deep/er/z/a.b_test.go:5
func line3(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line d_test.go/b%d_test.go:5
func line4(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line deep/a b_test.go:5
func line5(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}

//line deep/_test.go:5
func line6(how int, c *snaps.Config, t *T, api int, in string) {
	switch how {
	case 0:
		er.Do(c, t, api, in)
	case 1:
		er.ViaDo(3, c, t, api, in)
	case 2:
		func() { do2(c, t, api, in) }()
	}
}
