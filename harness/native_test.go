package zzverif

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
)

// TestMain: stage "count" prints the number of phases; stage "env" evaluates
// the environment of a phase and re-executes the binary in it; stage "run"
// runs the phase.
func TestMain(m *testing.M) {
	phase, _ := strconv.Atoi(os.Getenv("VERIF_PHASE"))
	switch os.Getenv("VERIF_STAGE") {
	case "count":
		load()
		fmt.Println(PhaseCount(nat.Harness))
		os.Exit(0)
	case "env":
		load()
		nativeMain(func() int { PhaseEnv(nat.Harness, phase); return 0 })
		var env []string
		for _, e := range os.Environ() {
			if strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "VERIF_STAGE=") {
				env = append(env, e)
			}
		}
		env = append(env, "VERIF_STAGE=run")
		for k, v := range natEnv {
			switch k[0] {
			case 'E':
				env = append(env, k[1:]+"="+v)
			case 'F':
				env = append(env, "VERIF_FLAG_"+k[1:]+"="+v)
			}
		}
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		if natEnv["T"] != "" && os.Getenv("VERIF_EXE_TRIM") != "" {
			exe = os.Getenv("VERIF_EXE_TRIM")
			for i, e := range env {
				if strings.HasPrefix(e, "VERIF_SRC=") {
					env[i] = "VERIF_SRC=github.com/gkampitakis/go-snaps/zzverif"
				}
			}
		}
		panic(syscall.Exec(exe, []string{exe, "-test.run=^TestPhase$"}, env))
	case "run":
		m.Run()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func TestPhase(t *testing.T) {
	if os.Getenv("VERIF_STAGE") != "run" {
		return
	}
	phase, _ := strconv.Atoi(os.Getenv("VERIF_PHASE"))
	load()
	flag.Set("test.run", "")
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_FLAG_") {
			kv := strings.SplitN(e[len("VERIF_FLAG_"):], "=", 2)
			flag.Set(kv[0], kv[1])
		}
	}
	nativeMain(func() int { RunPhase(nat.Harness, phase); return 0 })
	Reach("phase" + strconv.Itoa(phase))
	natRes.Done = true
	save()
}
