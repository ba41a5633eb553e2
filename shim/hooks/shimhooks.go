package zzverif

import "github.com/gkampitakis/go-snaps/zzshim/sched"

func init() {
	sched.Diverged = func(msg string) {
		Log(msg)
		end("assume", "")
	}
	schedHook = func(on bool) {
		load()
		if on {
			sched.Start(nat.Sched)
		} else {
			sched.Stop()
		}
	}
	goHook = sched.Go
	waitHook = sched.Wait
}
