package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int8

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	argv    []string
	ctx     *ECtx
	cache   map[string]cacheEnt
	Queries int
	Hits    int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	log     io.Writer
}

type cacheEnt struct {
	r     satRes
	vars  []int32
	model []uint64
}

func newSolver(ctx *ECtx, argv []string) *Solver {
	return &Solver{ctx: ctx, argv: argv, cache: map[string]cacheEnt{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.argv, err))
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.ctx.resetSolverMarks()
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout 30000)\n")
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd == nil {
		return
	}
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"eof\")"
	}
	return strings.TrimSpace(l)
}

// check decides the conjunction of cs. On sat, the model for the variables of
// cs is returned (parallel slices).
func (s *Solver) check(cs []*Expr) cacheEnt {
	ids := make([]int32, len(cs))
	for i, e := range cs {
		ids[i] = e.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, len(ids)*4)
	for _, id := range ids {
		kb = append(kb, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	key := string(kb)
	if r, ok := s.cache[key]; ok {
		s.Hits++
		return r
	}
	t0 := time.Now()
	if s.cmd != nil && s.ctx.defs > 200000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	s.Queries++
	var sb strings.Builder
	var vars []int32
	for _, e := range cs {
		s.ctx.emitDefs(e, &sb)
		vars = mergeVars(vars, e.vars)
	}
	sb.WriteString("(push 1)\n")
	for _, e := range cs {
		sb.WriteString("(assert " + s.ctx.ref(e) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.log != nil {
		io.WriteString(s.log, sb.String())
	}
	s.in.WriteString(sb.String())
	s.in.Flush()
	ent := cacheEnt{}
	switch l := s.line(); l {
	case "sat":
		ent.r = resSat
		s.Sat++
		ent.vars = vars
		ent.model = make([]uint64, len(vars))
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(" v" + strconv.Itoa(int(v)))
			}
			q.WriteString("))\n")
			s.in.WriteString(q.String())
			s.in.Flush()
			vals := s.readValues()
			for i, v := range vars {
				x, ok := vals["v"+strconv.Itoa(int(v))]
				if !ok {
					panic("solver: missing value in model")
				}
				ent.model[i] = x
			}
		}
	case "unsat":
		ent.r = resUnsat
		s.Unsat++
	default:
		ent.r = resUnknown
		s.Unknown++
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			s.stop()
			s.Time += time.Since(t0)
			return ent
		}
	}
	s.in.WriteString("(pop 1)\n")
	s.Time += time.Since(t0)
	s.cache[key] = ent
	return ent
}

func (s *Solver) readValues() map[string]uint64 {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	res := map[string]uint64{}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		name, val := f[i], f[i+1]
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_": // (_ bvN w)
			x, _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			i += 2
		default:
			panic("solver: cannot parse value " + val)
		}
		res[name] = x
	}
	return res
}
