// Package core runs cases, keeps counters, watches for hangs and writes the
// evidence and replay files.
package core

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vmon/tm"
)

type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string
	Quick int // scale of the case counts per tier
	Thor  int
	Run   func(c *Ctx)
	// Need lists counters that must reach a minimum on a clean run, or the run is inconclusive.
	Need map[string]int64
	Race bool
}

type Violation struct {
	Property string      `json:"property"`
	Seed     uint64      `json:"seed"`
	Tier     string      `json:"tier"`
	Group    string      `json:"group"`
	Case     int         `json:"case"`
	What     string      `json:"what"`
	Detail   interface{} `json:"detail,omitempty"`
	Stack    string      `json:"stack,omitempty"`
}

type Ctx struct {
	P     *Prop
	Seed  uint64
	Tier  string
	Scale int

	OnlyGroup string // replay
	OnlyCase  int
	Workers   int

	mu       sync.Mutex
	counters map[string]*int64
	distinct [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	samples []interface{}
	viols   []Violation
	nviol   int64
	evals   int64
	slots   []byte // mmapped, visible to the parent after a crash
	states  []*workerState
	Notes   map[string]interface{}
}

type workerState struct {
	tid     int32
	group   atomic.Value
	caseNo  int64
	started int64 // thread cpu ns at case start; 0 idle
}

const MaxWorkers = 64

func NewCtx(p *Prop, seed uint64, tier string, slotFile string) *Ctx {
	c := &Ctx{P: p, Seed: seed, Tier: tier, OnlyCase: -1, counters: map[string]*int64{}, Notes: map[string]interface{}{}}
	c.Scale = p.Quick
	if tier == "thorough" {
		c.Scale = p.Thor
	}
	c.Workers = runtime.NumCPU()
	if c.Workers > 8 {
		c.Workers = 8
	}
	if c.Workers < 2 {
		c.Workers = 2
	}
	for i := range c.distinct {
		c.distinct[i].m = map[uint64]struct{}{}
	}
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil {
			f.Truncate(MaxWorkers * 64)
			if b, err := syscall.Mmap(int(f.Fd()), 0, MaxWorkers*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.slots = b
			}
			f.Close()
		}
	}
	return c
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	p := c.counters[name]
	if p == nil {
		p = new(int64)
		c.counters[name] = p
	}
	c.mu.Unlock()
	atomic.AddInt64(p, n)
}

func (c *Ctx) Note(name string, v interface{}) {
	c.mu.Lock()
	c.Notes[name] = v
	c.mu.Unlock()
}

func (c *Ctx) Get(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	if p := c.counters[name]; p != nil {
		return atomic.LoadInt64(p)
	}
	return 0
}

func (c *Ctx) Violations() int { return int(atomic.LoadInt64(&c.nviol)) }

func (c *Ctx) AddViolation(v Violation) {
	atomic.AddInt64(&c.nviol, 1)
	c.mu.Lock()
	if len(c.viols) < 20 {
		v.Property, v.Seed, v.Tier = c.P.ID, c.Seed, c.Tier
		c.viols = append(c.viols, v)
	}
	c.mu.Unlock()
}

// Case is one execution under observation.
type Case struct {
	C     *Ctx
	Group string
	I     int
	*tm.Rng
	detail interface{}
	failed bool
	local  map[string]int64
}

type failNow struct{}

// Detail attaches context to a possible violation of this case.
func (k *Case) Detail(x interface{}) { k.detail = x }

// Fail records a violation and ends the case.
func (k *Case) Fail(format string, args ...interface{}) {
	k.Report(format, args...)
	panic(failNow{})
}

// Report records a violation and continues.
func (k *Case) Report(format string, args ...interface{}) {
	k.failed = true
	what := fmt.Sprintf(format, args...)
	if len(what) > 3000 {
		what = what[:2000] + " [...] " + what[len(what)-900:]
	}
	k.C.AddViolation(Violation{Group: k.Group, Case: k.I, What: what, Detail: k.detail})
}

func (k *Case) Count(name string, n int64) {
	if k.local == nil {
		k.local = map[string]int64{}
	}
	k.local[name] += n
}

// Eval counts n judged observations.
func (k *Case) Eval(n int) { k.Count("\x00evals", int64(n)) }

// Seen registers a distinct non-trivial case by content.
func (k *Case) Seen(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(x))
			h.Write(b[:])
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], x)
			h.Write(b[:])
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	s := h.Sum64()
	d := &k.C.distinct[s&63]
	d.Lock()
	d.m[s] = struct{}{}
	d.Unlock()
}

// Sample keeps the case as an example for the evidence file.
func (k *Case) Sample(x interface{}) {
	if k.I >= 400 && k.I%997 != 0 {
		return
	}
	k.C.mu.Lock()
	if len(k.C.samples) < 6 {
		k.C.samples = append(k.C.samples, x)
	}
	k.C.mu.Unlock()
}

// WantSample tells whether building a sample is worthwhile.
func (k *Case) WantSample() bool {
	k.C.mu.Lock()
	defer k.C.mu.Unlock()
	return len(k.C.samples) < 6
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) rng(group string, i int) *tm.Rng {
	return tm.NewRng(c.Seed, strHash(c.P.ID), strHash(group), uint64(i))
}

// Run executes n cases of a group on all workers.
func (c *Ctx) Run(group string, n int, fn func(k *Case)) {
	c.RunN(group, n, c.Workers, fn)
}

// Scaled is n times the tier's scale (in percent of the quick scale).
func (c *Ctx) Scaled(n int) int { return n * c.Scale / 100 }

func (c *Ctx) RunN(group string, n int, workers int, fn func(k *Case)) {
	if c.OnlyGroup != "" {
		if c.OnlyGroup != group {
			return
		}
		workers = 1
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		st := &workerState{}
		c.mu.Lock()
		slot := len(c.states) % MaxWorkers
		c.states = append(c.states, st)
		c.mu.Unlock()
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			atomic.StoreInt32(&st.tid, int32(syscall.Gettid()))
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Violations() >= 12 {
					break
				}
				if c.OnlyCase >= 0 && i != c.OnlyCase {
					continue
				}
				c.mark(slot, group, i)
				st.group.Store(group)
				atomic.StoreInt64(&st.caseNo, int64(i))
				atomic.StoreInt64(&st.started, threadCPU()+1)
				c.one(group, i, fn)
				atomic.StoreInt64(&st.started, 0)
			}
			c.mark(slot, "", 0)
		}()
	}
	wg.Wait()
}

func (c *Ctx) mark(slot int, group string, i int) {
	if c.slots == nil {
		return
	}
	b := c.slots[slot*64 : slot*64+64]
	n := copy(b[16:], group)
	b[8] = byte(n)
	binary.LittleEndian.PutUint64(b, uint64(i))
}

// ReadSlots lists the cases that were running when a child died.
func ReadSlots(file string) (out []string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for o := 0; o+64 <= len(b); o += 64 {
		if n := int(b[o+8]); n > 0 && n <= 48 {
			out = append(out, fmt.Sprintf("%s/%d", string(b[o+16:o+16+n]), binary.LittleEndian.Uint64(b[o:])))
		}
	}
	return
}

func (c *Ctx) one(group string, i int, fn func(k *Case)) {
	k := &Case{C: c, Group: group, I: i, Rng: c.rng(group, i)}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(failNow); !ok {
				stack := string(debug.Stack())
				if FromLibrary(stack) {
					c.AddViolation(Violation{Group: group, Case: i, What: fmt.Sprintf("unexpected panic out of the library: %v", x), Detail: k.detail, Stack: trim(stack)})
				} else {
					fmt.Fprintf(os.Stderr, "HARNESS ERROR in %s/%d: %v\n%s\n", group, i, x, stack)
					os.Exit(3)
				}
			}
		}
		for n, x := range k.local {
			if n == "\x00evals" {
				atomic.AddInt64(&c.evals, x)
			} else {
				c.Count(n, x)
			}
		}
	}()
	fn(k)
}

// FromLibrary tells whether a panic stack passes through the code under test,
// innermost harness frame last.
func FromLibrary(stack string) bool {
	// frames are listed innermost first; find the first frame after the panic
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, "github.com/gagliardetto/binary.") {
			return true
		}
		if strings.HasPrefix(line, "vmon/st.") {
			continue // a callback the library made
		}
		if strings.HasPrefix(line, "vmon/") {
			return false
		}
	}
	return false
}

func trim(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// Try runs fn and returns the panic it raised, if any.
func Try(fn func()) (pan interface{}, stack string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(failNow); ok {
				panic(x)
			}
			pan = x
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

func threadCPU() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru) != nil {
		return 0
	}
	return (ru.Utime.Nano() + ru.Stime.Nano())
}

func taskCPU(tid int32) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return -1
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+2:]
	f := strings.Fields(s)
	var u, k int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &k)
	return (u + k) * 10_000_000
}

// HangCPU is the processor time one case may burn before it counts as a hang;
// the longest legitimate case takes a small fraction of a second.
const HangCPU = 40 * time.Second

// Watch ends the process with a violation when a single case burns HangCPU of
// processor time on its own thread (not wall time, so load cannot trigger it).
func (c *Ctx) Watch(onHang func(v Violation)) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c.mu.Lock()
			sts := append([]*workerState(nil), c.states...)
			c.mu.Unlock()
			for _, st := range sts {
				s := atomic.LoadInt64(&st.started)
				if s == 0 {
					continue
				}
				no := atomic.LoadInt64(&st.caseNo)
				now := taskCPU(atomic.LoadInt32(&st.tid))
				if now > 0 && now-s > int64(HangCPU) && atomic.LoadInt64(&st.started) == s {
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					v := Violation{Property: c.P.ID, Seed: c.Seed, Tier: c.Tier, Group: st.group.Load().(string), Case: int(no),
						What: fmt.Sprintf("one case burned more than %s of processor time without returning", HangCPU), Stack: trim(string(buf))}
					onHang(v)
				}
			}
		}
	}()
}

func Hex(b []byte) string {
	if len(b) > 600 {
		return hex.EncodeToString(b[:600]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// ---- results ----------------------------------------------------------------

func WriteJSON(path string, x interface{}) error {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

func WriteReplay(dir string, v Violation) string {
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", v.Property, strings.ReplaceAll(v.Group, "/", "_"), v.Case))
	if err := WriteJSON(p, v); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
	}
	return p
}

func (c *Ctx) Distinct() int {
	n := 0
	for i := range c.distinct {
		n += len(c.distinct[i].m)
	}
	return n
}

// Finish writes the evidence and returns the exit code.
func (c *Ctx) Finish(evidence, replayDir string, start time.Time) int {
	cov := map[string]interface{}{
		"evaluations":         atomic.LoadInt64(&c.evals),
		"distinct_nontrivial": c.Distinct(),
		"rule":                c.P.Rule,
		"samples":             c.samples,
	}
	obs := map[string]int64{}
	for n, p := range c.counters {
		obs[n] = *p
	}
	cov["observed"] = obs
	for n, x := range c.Notes {
		cov[n] = x
	}
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": c.P.ID, "tier": c.Tier, "seed": int64(c.Seed), "level": c.P.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(c.viols),
		"assumptions": []string{"the reference model in /verif/harness/tm states the intended formats", "only the executions counted here were observed"},
	}
	if c.OnlyGroup == "" {
		if err := WriteJSON(evidence, ev); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}
	if len(c.viols) > 0 {
		sort.Slice(c.viols, func(i, j int) bool {
			if c.viols[i].Group != c.viols[j].Group {
				return c.viols[i].Group < c.viols[j].Group
			}
			return c.viols[i].Case < c.viols[j].Case
		})
		seen := 0
		for _, v := range c.viols {
			p := "(replay)"
			if c.OnlyGroup == "" {
				p = WriteReplay(replayDir, v)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
			fmt.Printf("  %s/%d: %s\n", v.Group, v.Case, v.What)
			if seen++; seen >= 5 {
				break
			}
		}
		return 1
	}
	if c.OnlyGroup != "" {
		fmt.Println("replayed case: no violation")
		return 0
	}
	for n, min := range c.P.Need {
		if got := c.Get(n); got < min {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s: counter %q reached %d, needs %d\n", c.P.ID, n, got, min)
			return 2
		}
	}
	if atomic.LoadInt64(&c.evals) == 0 {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s: nothing was observed\n", c.P.ID)
		return 2
	}
	fmt.Printf("held property=%s evaluations=%d distinct=%d observed=%v wall=%.1fs\n", c.P.ID, c.evals, c.Distinct(), obs, time.Since(start).Seconds())
	return 0
}
