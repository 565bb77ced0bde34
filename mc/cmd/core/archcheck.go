//go:build amd64

package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/emu"
	"verif/mc/rt"
)

func init() { checks = append(checks, c21) }

// host is one combination of byte order and word size the enumeration runs on.
type host struct {
	name string
	bin  string
	emu  bool
	prog *emu.Program
	once sync.Once
	err  error
}

var hosts = []*host{
	{name: "little-endian 64-bit (amd64)", bin: ""},
	{name: "little-endian 32-bit (386)", bin: "core386"},
	{name: "big-endian 64-bit (mips64, emulated)", bin: "core-mips64", emu: true},
	{name: "big-endian 32-bit (mips, emulated)", bin: "core-mips", emu: true},
}

type archLine struct {
	how    string
	n      uint64
	digest string
}

type archOut struct {
	units map[int]archLine
	text  string
	ins   uint64
	end   string // "" or how the run ended early
	note  string
}

func (h *host) path() string {
	if h.bin == "" {
		return os.Args[0]
	}
	return filepath.Join(filepath.Dir(os.Args[0]), h.bin)
}

var errSetup = errors.New("cannot run")

// run executes the units [from, to) on the host.
func (h *host) run(c *rt.Ctx, from, to int, extra ...string) archOut {
	tier := "thorough"
	if c.Quick {
		tier = "quick"
	}
	args := append([]string{h.path(), "-arch", tier, strconv.Itoa(from), strconv.Itoa(to)}, extra...)
	var so bytes.Buffer
	o := archOut{units: map[int]archLine{}}
	limit := 400 * time.Second
	if h.emu {
		h.once.Do(func() { h.prog, h.err = emu.Load(h.path()) })
		if h.err != nil {
			panic("harness: " + h.err.Error())
		}
		start := time.Now()
		slow := false
		code, n, err := h.prog.Run(args, []string{"GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1"}, nil, &so, 1<<50, func(uint64) bool {
			c.Tick()
			slow = time.Since(start) > limit
			return !slow
		})
		o.ins = n
		var un *emu.Unsupported
		switch {
		case errors.As(err, &un):
			o.end, o.note = "unsupported", err.Error()
		case slow:
			o.end = "no end"
		case err != nil:
			o.end, o.note = "crash", err.Error()
		case code != 0:
			o.end, o.note = "crash", fmt.Sprintf("exit code %d", code)
		}
	} else {
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		var se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			panic("harness: " + err.Error())
		}
		fin := make(chan error, 1)
		go func() { fin <- cmd.Wait() }()
		var err error
		start := time.Now()
	loop:
		for {
			select {
			case err = <-fin:
				break loop
			case <-time.After(time.Second):
				c.Tick()
				if time.Since(start) > limit {
					cmd.Process.Kill()
					o.end = "no end"
				}
			}
		}
		if err != nil && o.end == "" {
			o.end, o.note = "crash", fmt.Sprintf("%v: %s", err, clip(se.String(), 600))
		}
	}
	o.text = so.String()
	for _, ln := range strings.Split(o.text, "\n") {
		var i int
		var l archLine
		if k, _ := fmt.Sscanf(ln, "unit %d %s %d %s", &i, &l.how, &l.n, &l.digest); k == 4 {
			o.units[i] = l
		}
	}
	return o
}

// firstDiff locates the first differing case of a unit and shows both sides of it.
func firstDiff(c *rt.Ctx, a, b *host, u int) string {
	la, lb := a.run(c, u, u+1, "list"), b.run(c, u, u+1, "list")
	xa, xb := strings.Split(la.text, "\n"), strings.Split(lb.text, "\n")
	k := 0
	for k < len(xa) && k < len(xb) && xa[k] == xb[k] && strings.HasPrefix(xa[k], "case ") {
		k++
	}
	show := func(h *host) (string, string) {
		o := h.run(c, u, u+1, strconv.Itoa(k+1))
		desc, res := "", ""
		for _, ln := range strings.Split(o.text, "\n") {
			if q, ok := strings.CutPrefix(ln, "desc "); ok {
				desc, _ = strconv.Unquote(q)
			}
			if q, ok := strings.CutPrefix(ln, "res "); ok {
				s, _ := strconv.Unquote(q)
				res += "\n    " + s
			}
		}
		if o.end != "" {
			res += "\n    ends: " + o.end + " " + o.note
		}
		return desc, res
	}
	da, ra := show(a)
	db, rb := show(b)
	if da == "" {
		da = db
	}
	return fmt.Sprintf("case %d: %s\n  on %s:%s\n  on %s:%s", k+1, da, a.name, ra, b.name, rb)
}

const archBatch = 10

var c21 = &rt.Check{
	ID: "C21", Level: "model_checking",
	Rule:        "state = one case (type x value, type x input, limit, tree, bit field) run on the little-endian 64-bit host; transition = the same case run on another host (32-bit little-endian natively, 64-bit and 32-bit big-endian in an instruction-level emulator executing the compiled library); all results of all cases are compared through digests, a difference is located to its case",
	Assumptions: []string{"the emulator executes big-endian MIPS code correctly (on the unchanged tree every digest agrees with the native ones)", "no claims or values of more than 2 GiB on 32-bit hosts"},
	NoMemLimit:  true,
	Units: func(quick bool) []rt.Unit {
		all := archUnits(quick)
		var us []rt.Unit
		us = append(us, rt.Unit{Name: "builds", Run: func(c *rt.Ctx) {
			for _, h := range hosts[1:] {
				c.State()
				c.Case(func() string { return "build for " + h.name })
				if _, err := os.Stat(h.path()); err != nil {
					c.Fail("the library does not compile for this host: %v", err)
				}
			}
		}})
		for from := 0; from < len(all); from += archBatch {
			from, to := from, min(from+archBatch, len(all))
			us = append(us, rt.Unit{Name: fmt.Sprintf("units %d..%d: %s ..", from, to-1, all[from].Name), Run: func(c *rt.Ctx) {
				c.Case(func() string { return "batch of " + all[from].Name })
				ref := hosts[0].run(c, from, to)
				for i := 0; i < int(cases(&ref)); i++ {
					c.State()
				}
				for _, h := range hosts[1:] {
					if _, err := os.Stat(h.path()); err != nil {
						continue
					}
					o := h.run(c, from, to)
					c.Trans(int(cases(&o)))
					if h.emu {
						c.Count("emulated_million_instructions", int(o.ins/1e6))
					}
					if o.end == "unsupported" {
						c.Count("emulator_gave_up", 1)
						fmt.Fprintf(os.Stderr, "note: emulator: %s\n", o.note)
						continue
					}
					for i := from; i < to; i++ {
						x, okx := ref.units[i]
						y, oky := o.units[i]
						if okx && oky && x == y {
							c.Validated(int(x.n))
							continue
						}
						xs, ys := x.how, y.how
						if !okx {
							xs = ref.end
						}
						if !oky {
							ys = o.end
						}
						if xs == "crash" && ys == "crash" || xs == "no end" && ys == "no end" {
							break // the same on both
						}
						if ys == "no end" && h.emu && xs == "ok" && o.ins < 1e9 {
							break // starved, no verdict
						}
						c.Case(func() string { return "unit " + all[i].Name })
						c.Fail("different results (%s %d %s, %s %d %s %s), first in %s", xs, x.n, x.digest, ys, y.n, y.digest, o.note, firstDiff(c, hosts[0], h, i))
					}
				}
			}})
		}
		return us
	},
}

func cases(o *archOut) (n uint64) {
	for _, l := range o.units {
		n += l.n
	}
	return
}
