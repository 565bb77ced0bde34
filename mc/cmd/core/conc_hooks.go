//go:build hooks

package main

import (
	"bytes"
	"fmt"
	"iter"
	"reflect"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"github.com/protolambda/zssz/verifhook"

	"verif/mc/rt"
	"verif/mc/universe"
)

func init() { checks = []*rt.Check{c15, c09} }

// sched runs tasks as coroutines. A schedule is a list of segments: run this task for that many points, then
// preempt it in favour of the next task of the list; after the last segment every task runs until it ends or blocks.
type sched struct {
	tasks  []*ctask
	cur    *ctask
	given  int
	total  int
	inSeg  bool
	cutSeg bool
}

type ctask struct {
	yield   func(int) bool
	next    func() (int, bool)
	stop    func()
	done    bool
	blocked bool
	res     string
}

type seg struct{ task, n int }

const stepLimit = 3000000

// after sets the number of points until the scheduler is called again.
func (s *sched) after(n int) {
	verifhook.Left = n
	s.given = n
}

// account adds the points passed since the last call of after.
func (s *sched) account() {
	n := s.given - verifhook.Left
	if verifhook.Left < 0 {
		n = s.given
	}
	s.total += n
	s.after(verifhook.Left)
	if s.total > stepLimit {
		panic("no progress: too many steps under this schedule")
	}
}

func (s *sched) hook(id int) {
	t := s.cur
	if t == nil {
		verifhook.Left = 1 << 62
		return
	}
	if id == -1 {
		t.blocked = true
	} else {
		// the end of a segment, or a task that spins waiting for another one, which must not starve it
		s.cutSeg = s.inSeg
	}
	t.yield(id)
}

// run executes the tasks under the schedule. It reports the results, and whether the last segment was cut (false: its task
// ended before the given number of points, so longer segments make no new schedule).
func (s *sched) run(fs []func() string, schedule []seg) (res []string, cut bool) {
	s.tasks = s.tasks[:0]
	for _, f := range fs {
		t := &ctask{}
		t.next, t.stop = iter.Pull(func(yield func(int) bool) {
			t.yield = yield
			defer func() {
				if e := recover(); e != nil {
					t.res = fmt.Sprintf("panic: %v", e)
				}
			}()
			t.res = f()
		})
		s.tasks = append(s.tasks, t)
	}
	s.total = 0
	verifhook.Hook = s.hook
	point = func() { verifhook.Point(0) }
	defer func() {
		s.cur = nil
		verifhook.Hook = nil
		verifhook.Left = 1 << 62
		point = func() {}
	}()
	resume := func(t *ctask, n int) {
		s.cur = t
		t.blocked = false
		s.cutSeg = false
		s.after(n)
		if _, ok := t.next(); !ok {
			t.done = true
		}
		s.account()
		s.cur = nil
	}
	last := 0
	cut = true
	for k, g := range schedule {
		t := s.tasks[g.task]
		if t.done {
			return nil, false
		}
		s.inSeg = true
		resume(t, g.n)
		s.inSeg = false
		if !s.cutSeg { // ended or blocked earlier
			if k < len(schedule)-1 {
				return nil, false
			}
			cut = false
		}
		last = g.task
	}
	// the others first, then the preempted ones
	for idle := 0; ; {
		progress := false
		for k := 1; k <= len(s.tasks); k++ {
			t := s.tasks[(last+k)%len(s.tasks)]
			if !t.done {
				resume(t, 200000)
				if t.done || !t.blocked {
					progress = true
				}
			}
		}
		all := true
		for _, t := range s.tasks {
			all = all && t.done
		}
		if all {
			break
		}
		if !progress {
			if idle++; idle > 3 {
				for _, t := range s.tasks {
					if !t.done {
						t.res = "deadlock"
					}
				}
				break
			}
		} else {
			idle = 0
		}
	}
	for _, t := range s.tasks {
		res = append(res, t.res)
	}
	return res, cut
}

// explore enumerates all schedules of the tasks with at most bound preemptions, at every stride-th point.
func explore(n, bound, stride int, f func(schedule []seg) (cut bool)) {
	var sc []seg
	var rec func()
	rec = func() {
		if len(sc) == bound {
			return
		}
		for task := 0; task < n; task++ {
			if len(sc) > 0 && sc[len(sc)-1].task == task {
				continue
			}
			for k := 1; ; k += stride {
				sc = append(sc, seg{task, k})
				cut := f(sc)
				if cut {
					rec()
				}
				sc = sc[:len(sc)-1]
				if !cut {
					break
				}
			}
		}
	}
	rec()
}

func segs(s []seg, names []string) string {
	out := ""
	for _, g := range s {
		out += fmt.Sprintf("run task %d (%s) for %d points; ", g.task, names[g.task], g.n)
	}
	return out + "then the others to the end"
}

func concRun(c *rt.Ctx, t *typ, ops []cop, vals []reflect.Value, pick []int, bound, stride int, base *varState) {
	sc := &sched{}
	var names []string
	for _, i := range pick {
		names = append(names, ops[i].name)
	}
	var snaps [][]byte
	for _, p := range vals {
		snaps = append(snaps, snapshot(t.T, p.UnsafePointer(), nil))
	}
	execs := 0
	explore(len(pick), bound, stride, func(schedule []seg) bool {
		base.restore()
		d, err := types.SSZFactory(t.T)
		if err != nil {
			panic(err)
		}
		fs := make([]func() string, len(pick))
		for k, i := range pick {
			fs[k] = ops[i].run(d)
		}
		sch := append([]seg{}, schedule...)
		c.Case(func() string { return segs(sch, names) })
		c.State()
		res, cut := sc.run(fs, schedule)
		c.Trans(sc.total)
		if res == nil {
			return false
		}
		c.Validated(1)
		for k, i := range pick {
			if res[k] != ops[i].want {
				c.Fail("%s gives %s, alone it gives %s", ops[i].name, clip(res[k], 500), clip(ops[i].want, 500))
			}
		}
		execs++
		if !cut || execs%64 == 1 {
			for k, p := range vals {
				if !bytes.Equal(snapshot(t.T, p.UnsafePointer(), nil), snaps[k]) {
					c.Fail("a shared value was modified")
				}
			}
		}
		return cut
	})
	c.Count("operation_sets", 1)
}

// soloSteps counts the points of an operation.
func soloSteps(d types.SSZ, o cop) int {
	point = func() { verifhook.Point(0) }
	f := o.run(d)
	at := verifhook.Left
	f()
	point = func() {}
	return at - verifhook.Left
}

var c15 = &rt.Check{
	ID: "C15", Level: "model_checking",
	Rule:        "stateless exploration: two or three operations (encode, decode, dry check, fuzz decode, size, hash, sign, pretty-print, build a definition) run as tasks on one shared definition (and shared values) under a controlled scheduler with a scheduling point before every statement of the library and in every hash, read and write call; all schedules with at most the given number of preemptions are executed on the real code, each from the same initial state of all package-level variables; state = distinct (type, operations, schedule); transitions = points passed. Every result is compared with the result of running alone (the reference model's where it gives one)",
	Assumptions: []string{"scheduling points are statement boundaries and callbacks; within a statement execution is atomic", "sequentially consistent memory in this part; the race-detector run covers unsynchronized accesses"},
	Units: func(quick bool) []rt.Unit {
		var us []rt.Unit
		if verifhook.GoStmts > 0 || verifhook.ChanOps > 0 {
			return us // goroutines inside the library: left to the race detector part
		}
		prep := func(c *rt.Ctx, e universe.Entry) (*typ, []cop, []reflect.Value, *varState) {
			t := build(c, e)
			htr.InitZeroHashes(mixHash)
			ops, vals := concOps(t)
			return t, ops, vals, base0
		}
		budget := 2000000
		if !quick {
			budget = 60000000
		}
		for _, e := range concTypes(quick) {
			us = append(us, rt.Unit{Name: e.Name, Run: func(c *rt.Ctx) {
				if base0 == nil {
					htr.InitZeroHashes(mixHash)
					base0 = saveVars()
				}
				t, ops, vals, base := prep(c, e)
				steps := make([]int, len(ops))
				for i := range ops {
					steps[i] = soloSteps(t.D, ops[i])
				}
				for i := range ops {
					for j := i; j < len(ops); j++ {
						n := steps[i] + steps[j]
						bound := 1
						if 2*steps[i]*steps[j]*n < budget {
							bound = 2
						}
						if n*n > 4*budget {
							c.Count("operation_sets_left_out", 1)
							continue
						}
						concRun(c, t, ops, vals, []int{i, j}, bound, 1, base)
					}
				}
				for i := range ops {
					for j := i; j < len(ops); j++ {
						for k := j; k < len(ops); k++ {
							if n := steps[i] + steps[j] + steps[k]; 2*n*n < budget/8 {
								concRun(c, t, ops, vals, []int{i, j, k}, 1, 1, base)
							}
						}
					}
				}
			}})
		}
		// long values: one preemption, at many places spread over the operation
		ns, many := []int{20, 70, 300}, 60
		if !quick {
			ns, many = []int{20, 40, 70, 140, 300, 600, 1100}, 400
		}
		long := withLong(ns, func(c *rt.Ctx, t *typ) {
			htr.InitZeroHashes(mixHash)
			if base0 == nil {
				base0 = saveVars()
			}
			ops, vals := concOps(t)
			for i := range ops {
				for j := i; j < len(ops); j++ {
					n := max(soloSteps(t.D, ops[i]), soloSteps(t.D, ops[j]))
					concRun(c, t, ops, vals, []int{i, j}, 1, n/many+1, base0)
				}
			}
		})
		return append(long, us...)
	},
}

var base0 *varState
