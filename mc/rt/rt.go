// Package rt runs the checks: a parent process hands out units of enumeration to worker processes, watches them
// (crash, hang), confirms and reports violations, and writes the evidence file.
package rt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Check struct {
	ID          string
	Level       string // model_checking or fault_enumeration
	Rule        string // how cases are made, what a state / non-trivial case is
	Assumptions []string
	Units       func(quick bool) []Unit
	Shift       bool // cheap check: the quick tier explores what others keep for the thorough one, and the thorough tier more
	NoMemLimit  bool // do not cap the address space (asan)
	Workers     int
	Env         []string
}

type Unit struct {
	Name string
	Run  func(c *Ctx)
}

// Ctx is what a unit sees.
type Ctx struct {
	Quick bool
	Seed  int64

	check  *Check
	unit   int
	name   string
	slot   *slot
	trace  uint64 // case number to describe on stderr (crash replay)
	known  map[string]bool
	seen   map[uint64]struct{}
	mseed  maphash.Seed
	cnt    Counts
	sample []string
	nsamp  int
	curDsc func() string
}

type Counts struct {
	States, Trans, Validated, Cases uint64
	Extra                           map[string]uint64
}

type slot struct {
	unit, cas uint64
}

type shared struct {
	next, stop uint64
	slots      [64]slot
}

type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Unit     int      `json:"unit"`
	UnitName string   `json:"unit_name"`
	Case     uint64   `json:"case"`
	Desc     string   `json:"case_desc"`
	Msg      string   `json:"message"`
	Soft     bool     `json:"soft,omitempty"`
	Units    []int    `json:"units_run_by_worker,omitempty"`
	Rerun    string   `json:"rerun,omitempty"`
	Repro    string   `json:"reproduced,omitempty"`
	Args     []string `json:"-"`
}

// Deep is set in the thorough tier of checks with Shift.
var Deep bool

type abortUnit struct{}

// SkipUnit as a panic leaves out the rest of a unit that does not apply to the tree under check.
type SkipUnit struct{}

// Local is a context outside the worker machinery (no reporting).
func Local(quick bool) *Ctx {
	return &Ctx{Quick: quick, check: &Check{}, slot: &slot{}, known: map[string]bool{}, mseed: maphash.MakeSeed(), seen: map[uint64]struct{}{}, nsamp: 3}
}

// Tick tells the watching parent that the unit is alive.
func (c *Ctx) Tick() { atomic.AddUint64(&c.slot.cas, 1) }

// Fresh forgets the keys seen so far.
func (c *Ctx) Fresh() { c.seen = map[uint64]struct{}{} }

// Counts so far.
func (c *Ctx) Counts() Counts { return c.cnt }

// Case starts one case. desc is only evaluated on failure.
func (c *Ctx) Case(desc func() string) {
	c.cnt.Cases++
	c.curDsc = desc
	n := atomic.AddUint64(&c.slot.cas, 1)
	if c.trace == n {
		fmt.Fprintf(os.Stderr, "MC-CASE %s\n", strconv.Quote(desc()))
	}
	if c.nsamp < 3 && (n == 1 || n == 17 || n == 1009) {
		c.nsamp++
		c.sample = append(c.sample, c.name+": "+clip(desc(), 300))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// First reports whether this key is new in this unit.
func (c *Ctx) First(key []byte) bool {
	h := maphash.Bytes(c.mseed, key)
	if _, ok := c.seen[h]; ok {
		return false
	}
	c.seen[h] = struct{}{}
	return true
}

func (c *Ctx) State()          { c.cnt.States++ }
func (c *Ctx) Trans(n int)     { c.cnt.Trans += uint64(n) }
func (c *Ctx) Validated(n int) { c.cnt.Validated += uint64(n) }
func (c *Ctx) Count(key string, n int) {
	if c.cnt.Extra == nil {
		c.cnt.Extra = map[string]uint64{}
	}
	c.cnt.Extra[key] += uint64(n)
}

// Fail reports a violation of the property by the current case and ends the unit.
func (c *Ctx) Fail(format string, args ...interface{}) { c.fail(false, format, args...) }

// FailSoft is for measurements: it only counts when it can be reproduced in a fresh process.
func (c *Ctx) FailSoft(format string, args ...interface{}) { c.fail(true, format, args...) }

func (c *Ctx) fail(soft bool, format string, args ...interface{}) {
	d := ""
	if c.curDsc != nil {
		d = safeDesc(c.curDsc)
	}
	if c.known[c.check.ID+"|"+c.name+"|"+d] {
		fmt.Printf("{\"known\":%q}\n", c.name+"|"+d)
		return
	}
	emit(map[string]interface{}{"violation": Violation{Property: c.check.ID, Unit: c.unit, UnitName: c.name, Case: c.slot.cas, Desc: d, Msg: fmt.Sprintf(format, args...), Soft: soft}})
	panic(abortUnit{})
}

func safeDesc(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "(case description failed)"
		}
	}()
	return f()
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func (c *Ctx) runUnit(i int, u *Unit) (failed bool) {
	c.unit, c.name = i, u.Name
	c.seen = map[uint64]struct{}{}
	c.curDsc = nil
	c.nsamp = 3
	if i%97 == 0 || i < 3 {
		c.nsamp = 0
	}
	atomic.StoreUint64(&c.slot.cas, 0)
	atomic.StoreUint64(&c.slot.unit, uint64(i)+1)
	defer func() {
		if e := recover(); e != nil {
			failed = true
			if _, ok := e.(abortUnit); ok {
				return
			}
			if _, ok := e.(SkipUnit); ok {
				c.Count("units left out: the library keeps limits", 1)
				failed = false
				return
			}
			st := string(debug.Stack())
			d := ""
			if c.curDsc != nil {
				d = safeDesc(c.curDsc)
			}
			if c.known[c.check.ID+"|"+c.name+"|"+d] {
				fmt.Printf("{\"known\":%q}\n", c.name+"|"+d)
				return
			}
			emit(map[string]interface{}{"violation": Violation{Property: c.check.ID, Unit: i, UnitName: u.Name, Case: c.slot.cas, Desc: d, Msg: fmt.Sprintf("panic: %v\n%s", e, clip(st, 3000))}})
		}
	}()
	u.Run(c)
	return false
}

var (
	fCheck   = flag.String("check", "", "property id")
	fTier    = flag.String("tier", "", "quick or thorough")
	fWorker  = flag.Bool("worker", false, "")
	fSlot    = flag.Int("slot", 0, "")
	fShm     = flag.String("shm", "", "")
	fUnits   = flag.String("units", "", "run only these unit numbers (comma separated)")
	fTrace   = flag.Uint64("trace", 0, "describe this case number of the last unit on stderr")
	fName    = flag.String("run", "", "run only units whose name contains this")
	fBudget  = flag.Int("budget", 0, "seconds")
	fVerif   = flag.String("verif", "/verif", "")
	fList    = flag.Bool("list", false, "list units")
	fReplay  = flag.String("replay", "", "re-run the unit of a replay file")
	fVariant = flag.String("variant", "", "evidence variant to merge (extra binary run)")
)

func Main(checks []*Check) {
	flag.Parse()
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier == "" {
		*fTier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			panic(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			panic(err)
		}
		*fCheck, *fTier, *fUnits = v.Property, v.Tier, fmt.Sprint(v.Unit)
	}
	var ck *Check
	for _, c := range checks {
		if c.ID == *fCheck {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *fCheck)
		os.Exit(3)
	}
	quick := *fTier == "quick" && !ck.Shift
	Deep = *fTier != "quick" && ck.Shift
	units := ck.Units(quick)
	if *fName != "" {
		var us []Unit
		for _, u := range units {
			if strings.Contains(u.Name, *fName) {
				us = append(us, u)
			}
		}
		units = us
	}
	if *fList {
		for i, u := range units {
			fmt.Println(i, u.Name)
		}
		return
	}
	if *fWorker {
		worker(ck, units, seed)
		return
	}
	os.Exit(parent(ck, units, seed))
}

func mapShared(path string) *shared {
	f, err := os.OpenFile(path, os.O_RDWR, 0600)
	if err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, int(unsafe.Sizeof(shared{})), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return (*shared)(unsafe.Pointer(&b[0]))
}

func budget() time.Duration {
	if *fBudget != 0 {
		return time.Duration(*fBudget) * time.Second
	}
	if *fTier == "quick" {
		return 330 * time.Second
	}
	return 720 * time.Second
}

func limitMemory(n uint64) {
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil {
		lim.Cur = min(n, lim.Max)
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

func addressed() (n uint64) {
	s, _ := os.ReadFile("/proc/self/statm")
	fmt.Sscan(string(s), &n)
	return n * uint64(os.Getpagesize())
}

// MoreMemory lets f address n bytes more instead of the usual 5 GiB.
func (c *Ctx) MoreMemory(n uint64, f func()) {
	if !c.check.NoMemLimit && unsafe.Sizeof(uintptr(0)) == 8 {
		limitMemory(addressed() + n)
		defer func() { limitMemory(addressed() + 5<<30) }() // the Go runtime does not give address space back
	}
	debug.SetGCPercent(50)
	defer debug.SetGCPercent(300)
	f()
	debug.FreeOSMemory()
}

func worker(ck *Check, units []Unit, seed int64) {
	start := time.Now()
	if !ck.NoMemLimit && unsafe.Sizeof(uintptr(0)) == 8 {
		limitMemory(5 << 30)
	}
	debug.SetGCPercent(300)
	sh := mapShared(*fShm)
	c := &Ctx{Quick: *fTier == "quick" && !ck.Shift, Seed: seed, check: ck, slot: &sh.slots[*fSlot], known: loadKnown(), mseed: maphash.MakeSeed()}
	var done []int
	skipped := 0
	run := func(i int, last bool) {
		if last {
			c.trace = *fTrace
		}
		done = append(done, i)
		if os.Getenv("MC_DEBUG") != "" {
			t0 := time.Now()
			defer func() {
				if d := time.Since(t0); d > 2*time.Second {
					fmt.Fprintf(os.Stderr, "MC-TIME %v %s\n", d, units[i].Name)
				}
			}()
		}
		if c.runUnit(i, &units[i]) {
			emit(map[string]interface{}{"ran": done})
			c.cnt.Extra = nil
		}
	}
	if *fUnits != "" {
		us := strings.Split(*fUnits, ",")
		for k, s := range us {
			i, err := strconv.Atoi(s)
			if err != nil {
				panic(err)
			}
			run(i, k == len(us)-1)
		}
	} else {
		for {
			i := int(atomic.AddUint64(&sh.next, 1)) - 1
			if i >= len(units) || atomic.LoadUint64(&sh.stop) != 0 {
				break
			}
			if time.Since(start) > budget() {
				skipped++
				continue
			}
			run(i, false)
		}
	}
	atomic.StoreUint64(&c.slot.unit, 0)
	emit(map[string]interface{}{"counts": c.cnt, "samples": c.sample, "skipped": skipped, "units": len(done)})
}

type line struct {
	Violation *Violation
	Ran       []int
	Counts    *Counts
	Samples   []string
	Skipped   int
	Units     int
	Known     string
}

type result struct {
	lines  []line
	stderr string
	err    error
	unit   uint64
	cas    uint64
	hung   bool
}

func spawn(ck *Check, shm string, sh *shared, slot int, extra ...string) result {
	args := append([]string{"-worker", "-check", ck.ID, "-tier", *fTier, "-shm", shm, "-slot", fmt.Sprint(slot), "-run", *fName, "-budget", fmt.Sprint(int(budget().Seconds()))}, extra...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = os.Environ()
	if os.Getenv("GOMAXPROCS") == "" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	cmd.Env = append(cmd.Env, ck.Env...)
	var so bytes.Buffer
	se := &tail{}
	cmd.Stdout, cmd.Stderr = &so, se
	sh.slots[slot] = slot0()
	r := result{}
	if err := cmd.Start(); err != nil {
		r.err = err
		return r
	}
	fin := make(chan error, 1)
	go func() { fin <- cmd.Wait() }()
	lastU, lastC, at := uint64(0), uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case r.err = <-fin:
			break loop
		case <-tick.C:
			u, k := atomic.LoadUint64(&sh.slots[slot].unit), atomic.LoadUint64(&sh.slots[slot].cas)
			if u != lastU || k != lastC {
				lastU, lastC, at = u, k, time.Now()
			} else if time.Since(at) > hangAfter() {
				r.hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case r.err = <-fin:
					break loop
				case <-time.After(5 * time.Second):
				}
				cmd.Process.Kill()
			}
		}
	}
	r.unit, r.cas = sh.slots[slot].unit, sh.slots[slot].cas
	r.stderr = se.String()
	if os.Getenv("MC_DEBUG") != "" {
		os.Stderr.WriteString(r.stderr)
	}
	scan := bufio.NewScanner(&so)
	scan.Buffer(nil, 64<<20)
	for scan.Scan() {
		var l line
		if json.Unmarshal(scan.Bytes(), &l) == nil {
			r.lines = append(r.lines, l)
		}
	}
	return r
}

func slot0() slot { return slot{} }

func hangAfter() time.Duration { return 90 * time.Second }

// tail keeps the head and the tail of what is written.
type tail struct {
	mu         sync.Mutex
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if len(t.head) < 8000 {
		k := min(8000-len(t.head), len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 16000 {
		t.last = append([]byte{}, t.last[len(t.last)-8000:]...)
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.last) }

func parent(ck *Check, units []Unit, seed int64) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	shm := filepath.Join(dir, "shm")
	if err := os.WriteFile(shm, make([]byte, unsafe.Sizeof(shared{})), 0600); err != nil {
		panic(err)
	}
	sh := mapShared(shm)
	nw := ck.Workers
	if nw == 0 {
		nw = min(runtime.NumCPU(), 8)
	}
	if nw > len(units) {
		nw = len(units)
	}
	if *fUnits != "" {
		nw = 1
	}
	results := make([]result, nw)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var viols []Violation
	known := map[string]bool{}
	total := Counts{Extra: map[string]uint64{}}
	var samples []string
	skipped, unitsDone := 0, 0
	absorb := func(r *result, slotN int) {
		mu.Lock()
		defer mu.Unlock()
		for _, l := range r.lines {
			if l.Violation != nil {
				viols = append(viols, *l.Violation)
				atomic.StoreUint64(&sh.stop, 1)
			}
			if l.Ran != nil && len(viols) > 0 {
				viols[len(viols)-1].Units = l.Ran
			}
			if l.Known != "" {
				known[l.Known] = true
			}
			if l.Counts != nil {
				total.States += l.Counts.States
				total.Trans += l.Counts.Trans
				total.Validated += l.Counts.Validated
				total.Cases += l.Counts.Cases
				for k, v := range l.Counts.Extra {
					total.Extra[k] += v
				}
				skipped += l.Skipped
				unitsDone += l.Units
				samples = append(samples, l.Samples...)
			}
		}
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var extra []string
			if *fUnits != "" {
				extra = []string{"-units", *fUnits}
			}
			for tries := 0; ; tries++ {
				r := spawn(ck, shm, sh, w, extra...)
				results[w] = r
				absorb(&r, w)
				if r.err == nil {
					return
				}
				if os.Getenv("MC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "worker %d: %v hung=%v unit=%d case=%d\n%s\n", w, r.err, r.hung, r.unit, r.cas, r.stderr)
				}
				// the worker died: run the unit it was in alone, in a fresh process
				if r.unit == 0 || r.unit > uint64(len(units)) {
					mu.Lock()
					fmt.Fprintf(os.Stderr, "worker failed outside a unit: %v\n%s\n", r.err, r.stderr)
					harnessErr = true
					mu.Unlock()
					return
				}
				u := int(r.unit) - 1
				r2 := spawn(ck, shm, sh, 32+w, "-units", fmt.Sprint(u), "-trace", fmt.Sprint(r.cas))
				desc := ""
				if k := strings.Index(r2.stderr, "MC-CASE "); k >= 0 {
					ln := r2.stderr[k+8:]
					if e := strings.IndexByte(ln, '\n'); e >= 0 {
						ln = ln[:e]
					}
					if q, err := strconv.Unquote(ln); err == nil {
						desc = q
					}
				}
				what := "process crashed"
				if r.hung {
					what = "no progress (operation does not return)"
				}
				if r2.err != nil || (!r.hung && !killed(r.err)) {
					if r2.err != nil && r2.cas != r.cas {
						desc = fmt.Sprintf("(first seen at case %d, again at case %d) ", r.cas, r2.cas) + desc
					}
					mu.Lock()
					viols = append(viols, Violation{Property: ck.ID, Unit: u, UnitName: units[u].Name, Case: r.cas, Desc: desc,
						Msg: fmt.Sprintf("%s: %v\n%s", what, r.err, clip(r.stderr, 4000)), Repro: fmt.Sprint(r2.err != nil)})
					atomic.StoreUint64(&sh.stop, 1)
					mu.Unlock()
					return
				}
				// killed from outside or a stall that does not repeat: take the result of the second run and go on
				absorb(&r2, w)
				if tries > 20 {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	// confirm
	var final []Violation
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Unit < viols[j].Unit })
	for k := range viols {
		v := viols[k]
		if len(final) >= 3 {
			break
		}
		if v.Repro == "" {
			r := spawn(ck, shm, sh, 62, "-units", fmt.Sprint(v.Unit))
			v.Repro = "no"
			if hasViol(&r) {
				v.Repro = "alone"
			} else if len(v.Units) > 1 && k < 4 {
				var s []string
				for _, u := range v.Units {
					s = append(s, fmt.Sprint(u))
				}
				r := spawn(ck, shm, sh, 62, "-units", strings.Join(s, ","))
				if hasViol(&r) {
					v.Repro = "after the same units"
				}
			}
			if v.Soft && v.Repro == "no" {
				fmt.Fprintf(os.Stderr, "note: measurement not reproduced, dropped: %s %s\n", v.UnitName, v.Msg)
				continue
			}
		}
		final = append(final, v)
	}
	code := 0
	for i := range final {
		v := &final[i]
		v.Tier = *fTier
		v.Rerun = fmt.Sprintf("./check.sh %s %s -units %d   (all: %v)", ck.ID, v.Tier, v.Unit, v.Units)
		b, _ := json.MarshalIndent(v, "", " ")
		rd := filepath.Join(*fVerif, "replay")
		os.MkdirAll(rd, 0755)
		p := filepath.Join(rd, fmt.Sprintf("%s%s-%d.json", ck.ID, *fVariant, i))
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("%s\n  unit %s\n  case %s\n  %s\n", ck.ID, v.UnitName, clip(v.Desc, 1500), strings.ReplaceAll(clip(v.Msg, 2500), "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		code = 1
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
	}
	if harnessErr && code == 0 {
		code = 4
	}
	exhaustive := skipped == 0 && code == 0 && *fUnits == "" && *fName == ""
	writeEvidence(ck, seed, total, samples, exhaustive, skipped, unitsDone, len(units), len(final), time.Since(start).Seconds())
	fmt.Printf("%s %s%s: units=%d/%d states=%d transitions=%d validated=%d cases=%d exhaustive=%v %.1fs exit=%d\n",
		ck.ID, *fTier, *fVariant, unitsDone, len(units), total.States, total.Trans, total.Validated, total.Cases, exhaustive, time.Since(start).Seconds(), code)
	return code
}

var harnessErr bool

func killed(err error) bool {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok {
			return ws.Signaled() && ws.Signal() == syscall.SIGKILL
		}
	}
	return false
}

func hasViol(r *result) bool {
	if r.err != nil {
		return true
	}
	for _, l := range r.lines {
		if l.Violation != nil {
			return true
		}
	}
	return false
}

// known-findings.txt: lines "finding: property=<id> unit=<unit> | <case>" suppress exactly that case.
func loadKnown() map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(ln, "finding: property="); ok {
			id, rest, _ := strings.Cut(rest, " unit=")
			u, d, _ := strings.Cut(rest, " | ")
			out[id+"|"+u+"|"+d] = true
		}
	}
	return out
}

func writeEvidence(ck *Check, seed int64, t Counts, samples []string, exhaustive bool, skipped, unitsDone, units, viols int, wall float64) {
	if len(samples) > 24 {
		samples = samples[:24]
	}
	cov := map[string]interface{}{
		"rule":          ck.Rule,
		"samples":       samples,
		"exhaustive":    exhaustive,
		"units":         units,
		"units_run":     unitsDone,
		"units_skipped": skipped,
		"cases":         t.Cases,
	}
	for k, v := range t.Extra {
		cov[k] = v
	}
	if ck.Level == "fault_enumeration" {
		cov["evaluations"] = t.Trans
		cov["distinct_nontrivial"] = t.States
		cov["traces_validated_against_impl"] = t.Validated
	} else {
		cov["states"] = t.States
		cov["transitions"] = t.Trans
		cov["traces_validated_against_impl"] = t.Validated
	}
	p := filepath.Join(*fVerif, "evidence", ck.ID+".json")
	if *fVariant != "" {
		// merge under the variant's name into the evidence of the main run
		if b, err := os.ReadFile(p); err == nil {
			var ev map[string]interface{}
			if json.Unmarshal(b, &ev) == nil {
				if c, ok := ev["coverage"].(map[string]interface{}); ok {
					c["variant"+*fVariant] = cov
					ev["wall_s"] = ev["wall_s"].(float64) + wall
					if v, ok := ev["violations"].(float64); ok {
						ev["violations"] = int(v) + viols
					}
					b, _ := json.MarshalIndent(ev, "", " ")
					os.WriteFile(p, append(b, '\n'), 0644)
					return
				}
			}
		}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": *fTier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": wall, "violations": viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}
