//go:build hooks

package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"github.com/protolambda/zssz/verifhook"

	"verif/mc/model"
	"verif/mc/rt"
	"verif/mc/universe"
)

var sinks [64][]byte
var psinks [16]*[4]*byte

// collect runs a full garbage collection (freed memory is overwritten: GODEBUG=clobberfree=1), then fills memory of many
// size classes with garbage, so that memory that was freed wrongly is also reused.
func collect() {
	runtime.GC()
	for i, n := range [...]int{1, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 160, 192, 256, 320, 512, 1024} {
		b := make([]byte, n)
		for k := range b {
			b[k] = 0xee
		}
		sinks[i] = b
	}
	for i := range psinks {
		psinks[i] = new([4]*byte)
	}
}

// grow makes the stack of the goroutine move (it is shrunk again by collections).
//
//go:noinline
func grow(n int) byte {
	var a [512]byte
	a[n&511] = byte(n)
	if n > 0 {
		return grow(n-1) + a[(n*7)&511]
	}
	return a[0]
}

type gcPlan struct {
	mode   int // 0: none, 1: collect at every point, 2: collect at one point, 3: move the stack at every point
	at     int
	n      int
	visits int // mode 1: collect at the first so many visits of the same statement (0: all)
	seen   map[int]int
	done   int
}

func (g *gcPlan) start() {
	g.n = 0
	switch g.mode {
	case 0:
		verifhook.Left = 1 << 62
	case 2:
		verifhook.Left = g.at
	default:
		verifhook.Left = 0
	}
	if g.visits > 0 && g.seen == nil {
		g.seen = map[int]int{}
	}
	verifhook.Hook = func(id int) {
		g.n++
		switch g.mode {
		case 1:
			verifhook.Left = 0
			if g.visits > 0 {
				if g.seen[id]++; g.seen[id] > g.visits && (id != 0 || g.seen[id] > 40) {
					return
				}
			}
			g.done++
			grow(12)
			collect()
		case 2:
			g.done++
			grow(12)
			collect()
			verifhook.Left = 1 << 62
		case 3:
			g.done++
			grow(40)
			verifhook.Left = 0
		}
	}
	point = func() { verifhook.Point(0) }
}

func (g *gcPlan) end() {
	verifhook.Hook = nil
	verifhook.Left = 1 << 62
	point = func() {}
}

// gop is one operation; run makes everything it needs itself, so that nothing but the operation keeps its value alive.
type gop struct {
	name string
	run  func(g *gcPlan) string
	want string
}

func gcOps(t *typ) (ops []gop) {
	vs := opValues(t)
	add := func(name, want string, run func(g *gcPlan) string) { ops = append(ops, gop{name, run, want}) }
	seen := map[string]bool{}
	type vv struct {
		n string
		v *model.Val
	}
	for _, x := range []vv{
		{"largest", vs[0]},
		{"middle", vs[1]},
		{"small", vs[2]},
	} {
		v := x.v
		s := model.Ser(t.S, v)
		if seen[string(s)] {
			continue
		}
		seen[string(s)] = true
		mk := func() interface{} { return model.NewGo(t.S, v).Interface() }
		rd := func(b []byte) io.Reader { return pointReader{bytes.NewReader(b)} }
		add("Decode "+x.n, fmt.Sprintf("%x", s), func(g *gcPlan) string {
			p := fresh(t)
			g.start()
			err := zssz.Decode(rd(s), uint64(len(s)), p.Interface(), t.D)
			g.end()
			collect()
			collect()
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%x", valueBytes(t, p))
		})
		add("Encode "+x.n, fmt.Sprintf("%x", s), func(g *gcPlan) string {
			w := &pointWriter{}
			defer g.end()
			val := mk()
			g.start()
			n, err := zssz.Encode(w, val, t.D)
			if err != nil || n != len(s) {
				return fmt.Sprint(n, err)
			}
			return fmt.Sprintf("%x", w.b.Bytes())
		})
		root := fmt.Sprintf("%x", mixModel.HTR(t.S, v))
		add("HashTreeRoot "+x.n, root, func(g *gcPlan) string {
			defer g.end()
			val := mk()
			g.start()
			return fmt.Sprintf("%x", zssz.HashTreeRoot(mixFn, val, t.D))
		})
		if x.n != "largest" {
			continue
		}
		add("Decode over another value", fmt.Sprintf("%x", s), func(g *gcPlan) string {
			p := model.NewGo(t.S, vs[1])
			g.start()
			err := zssz.Decode(rd(s), uint64(len(s)), p.Interface(), t.D)
			g.end()
			collect()
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%x", valueBytes(t, p))
		})
		if len(s) > 1 {
			add("failing Decode, then Decode", fmt.Sprintf("%x", s), func(g *gcPlan) string {
				p := fresh(t)
				g.start()
				err := zssz.Decode(rd(s[:len(s)-1]), uint64(len(s)), p.Interface(), t.D)
				g.end()
				if err == nil {
					return "no error"
				}
				collect()
				g.start()
				err = zssz.Decode(rd(s), uint64(len(s)), p.Interface(), t.D)
				g.end()
				collect()
				if err != nil {
					return "error"
				}
				return fmt.Sprintf("%x", valueBytes(t, p))
			})
		}
		add("SizeOf", fmt.Sprint(len(s)), func(g *gcPlan) string {
			defer g.end()
			val := mk()
			g.start()
			return fmt.Sprint(zssz.SizeOf(val, t.D))
		})
		if t.S.Kind == model.KCont {
			add("SigningRoot", fmt.Sprintf("%x", mixModel.SigningRoot(t.S, v)), func(g *gcPlan) string {
				defer g.end()
				val := mk()
				g.start()
				return fmt.Sprintf("%x", zssz.SigningRoot(mixFn, val, t.D.(types.SignedSSZ)))
			})
		}
		add("Pretty", "", func(g *gcPlan) string {
			w := &pointWriter{}
			defer g.end()
			val := mk()
			g.start()
			zssz.Pretty(w, " ", val, t.D)
			return w.b.String()
		})
		add("build a definition, decode and hash", fmt.Sprintf("%x %s", s, root), func(g *gcPlan) string {
			p := fresh(t)
			g.start()
			d, err := types.SSZFactory(t.T)
			if err == nil {
				err = zssz.Decode(rd(s), uint64(len(s)), p.Interface(), d)
			}
			r := ""
			if err == nil {
				r = fmt.Sprintf("%x", zssz.HashTreeRoot(mixFn, p.Interface(), d))
			}
			g.end()
			collect()
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%x %s", valueBytes(t, p), r)
		})
		add("values kept while others are decoded", fmt.Sprintf("%x", s), func(g *gcPlan) string {
			// only the decoded value is kept: everything it needs must be reachable from it
			keep := []reflect.Value{}
			g.start()
			for i := 0; i < 3; i++ {
				p := fresh(t)
				if err := zssz.Decode(rd(s), uint64(len(s)), p.Interface(), t.D); err != nil {
					g.end()
					return "error"
				}
				keep = append(keep, p)
			}
			g.end()
			collect()
			for i := range keep {
				if got := fmt.Sprintf("%x", valueBytes(t, keep[i])); got != fmt.Sprintf("%x", s) {
					return got
				}
			}
			return fmt.Sprintf("%x", s)
		})
	}
	if fuzzInDomain(t) && t.D.FuzzMinLen() < 500 {
		f := pattern(int(t.D.FuzzMinLen()) + 40)
		add("DecodeFuzzBytes", "", func(g *gcPlan) string {
			p := fresh(t)
			g.start()
			n, err := zssz.DecodeFuzzBytes(pointReader{bytes.NewReader(f)}, uint64(len(f)), p.Interface(), t.D)
			g.end()
			collect()
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%d %x", n, valueBytes(t, p))
		})
	}
	return
}

// onStack runs f on a new goroutine (with a new, small stack).
func onStack(f func() string) (res string) {
	done := make(chan interface{})
	go func() {
		var e interface{} = "exited"
		defer func() { done <- e }()
		defer func() {
			if x := recover(); x != nil {
				e = x
			}
		}()
		res = f()
		e = nil
	}()
	if e := <-done; e != nil {
		return fmt.Sprint("panic: ", e)
	}
	return
}

var c09 = &rt.Check{
	ID: "C09", Level: "fault_enumeration",
	Rule:        "every operation on diverse values of every type is run with a collection (freed memory overwritten and reused, stack moved) at every point; and for the smaller types once for every single point as the only moment of a collection; a point is before every statement of the library and around every hash, read and write call. Non-trivial: the operation passed the chosen point. Afterwards the decoded values, encodings, roots and texts are compared with the reference model's (or with the result without collections)",
	Env:         []string{"GODEBUG=clobberfree=1", "GOMAXPROCS=1"},
	Assumptions: []string{"collections in the middle of a statement, and write barriers during a concurrent mark phase, are not enumerated"},
	Units: func(quick bool) []rt.Unit {
		es := universe.All(4)
		es = append(es, universe.Containers(universe.Rep, 2)...)
		es = append(append(es, universe.Wide()[40:44]...), universe.Tall()[4:10]...)
		all, visits, one := 60, 1, 100
		long, spread := []int{20, 70, 1100}, 7
		singles := map[reflect.Type]bool{}
		for _, e := range append(append([]universe.Entry{}, universe.FieldPool...), universe.Find("Deep")...) {
			singles[e.T] = true
		}
		if !quick {
			es = append(es, universe.Containers(universe.FieldPool, 2)...)
			all, visits, one = 1500, 4, 1500
			long, spread = []int{20, 70, 140, 300, 600, 1100, 2100, 5000}, 60
			for _, e := range es {
				singles[e.T] = true
			}
		}
		es = append(append([]universe.Entry{}, universe.FieldPool...), es...)
		run := func(c *rt.Ctx, t *typ) {
			htr.InitZeroHashes(mixHash)
			ops := gcOps(t)
			single := 0
			if singles[t.T] {
				single = one
			}
			for i := range ops {
				o := &ops[i]
				if o.want == "" {
					o.want = o.run(&gcPlan{})
				}
				check := func(g *gcPlan, how string) {
					c.Case(func() string { return o.name + ", " + how })
					got := onStack(func() string { return o.run(g) })
					c.Trans(1)
					if g.n > 0 {
						c.State()
					}
					c.Count("collections_or_stack_moves", g.done)
					if got != o.want {
						c.Fail("result %s, should be %s", clip(got, 600), clip(o.want, 600))
					}
					c.Validated(1)
				}
				check(&gcPlan{mode: 3}, "stack moved at every point")
				// count the points first
				cnt := &gcPlan{mode: 3}
				onStack(func() string { return o.run(cnt) })
				switch {
				case cnt.n <= all:
					check(&gcPlan{mode: 1}, "collection at every point")
				default:
					check(&gcPlan{mode: 1, visits: visits}, fmt.Sprintf("collection at the first %d visits of every point", visits))
					c.Count("operations_with_repeated_points_left_out", 1)
				}
				if longOps > 0 {
					for k := 1; k < cnt.n; k += cnt.n/spread + 1 {
						check(&gcPlan{mode: 2, at: k}, fmt.Sprintf("collection at point %d", k))
					}
				}
				if cnt.n <= single {
					for k := 0; k < cnt.n; k++ {
						check(&gcPlan{mode: 2, at: k}, fmt.Sprintf("collection at point %d", k))
					}
				}
			}
		}
		return append(withLong(long, run), perType(dedup(es), run)...)
	},
}
