//go:build race

package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif/mc/rt"
)

func init() { checks = []*rt.Check{c15race} }

var newTypes int

var c15race = &rt.Check{
	ID: "C15", Level: "model_checking", NoMemLimit: true,
	Rule: "all pairs (and all operations together) on real goroutines under the Go race detector, which compares all accesses not ordered by synchronization, whatever order they happened in; state = distinct (type, operations)",
	Env:  []string{"GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4"},
	Units: func(quick bool) []rt.Unit {
		var us []rt.Unit
		reps := 3
		if !quick {
			reps = 40
		}
		run := func(c *rt.Ctx, t *typ) {
			htr.InitZeroHashes(mixHash)
			ops, _ := concOps(t)
			// types seen for the first time
			ops = append(ops, cop{name: "GetSSZ of a new type", want: fmt.Sprint(t.D.IsFixed(), t.D.MinLen()+1), run: func(types.SSZ) func() string {
				newTypes++
				n := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t.T}, {Name: "B", Type: reflect.TypeFor[uint8](), Tag: reflect.StructTag(fmt.Sprint("n", newTypes))}})
				p := reflect.Zero(reflect.PointerTo(n)).Interface()
				return func() string {
					d := zssz.GetSSZ(p)
					l := d.MinLen()
					if !d.IsFixed() {
						l -= 4
					}
					return fmt.Sprint(d.IsFixed(), l)
				}
			}})
			together := func(pick []int) {
				for r := 0; r < reps; r++ {
					c.Case(func() string {
						s := "goroutines:"
						for _, i := range pick {
							s += " " + ops[i].name
						}
						return s
					})
					d, err := types.SSZFactory(t.T)
					if err != nil {
						panic(err)
					}
					res := make([]string, len(pick))
					var wg sync.WaitGroup
					start := make(chan int)
					for k, i := range pick {
						f := ops[i].run(d)
						wg.Add(1)
						go func() {
							defer wg.Done()
							defer func() {
								if e := recover(); e != nil {
									res[k] = fmt.Sprint("panic: ", e)
								}
							}()
							<-start
							if k%2 == r%2 {
								runtime.Gosched()
							}
							res[k] = f()
						}()
					}
					close(start)
					wg.Wait()
					c.Trans(len(pick))
					for k, i := range pick {
						if res[k] != ops[i].want {
							c.Fail("%s gives %s, alone it gives %s", ops[i].name, clip(res[k], 500), clip(ops[i].want, 500))
						}
					}
				}
				c.State()
				c.Validated(1)
			}
			var all []int
			for i := range ops {
				all = append(all, i, i)
				for j := i; j < len(ops); j++ {
					together([]int{i, j})
				}
			}
			together(all)
		}
		ns := []int{20, 70, 300, 1500}
		if !quick {
			ns = append(ns, 5000)
		}
		us = append(us, withLong(ns, run)...)
		return append(us, perType(concTypes(quick), run)...)
	},
}
