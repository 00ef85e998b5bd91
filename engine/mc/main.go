//go:build go1.21

// Command mc explores one property on the code under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/rom1mouret/ml-essentials/zzverif/sched"
)

// Violation is one way a property fails.
type Violation struct {
	Key  string   // stable identification: the case that fails
	Case string   // what -only takes to run it again
	Msg  string   // what was observed
	Info []string // schedule, log, ...
}

// Report of one shard.
type Report struct {
	Property    string
	States      int
	Transitions int
	Traces      int
	Schedules   int
	Pruned      int
	MaxDepth    int
	Complete    bool
	Units       map[string]int
	Incomplete  []string
	Samples     []string
	Violations  []Violation
	Notes       []string
	Consts      map[string]string // must be the same in every process
	WallS       float64
}

// Ctx drives the exploration of one property in one process.
type Ctx struct {
	prop     string
	thorough bool
	seed     int
	shard    int
	of       int
	only     string
	trace    string
	deadline time.Time
	settled  time.Time // from then on one violation is enough
	rep      Report
	counter  int
	seen     map[uint64]struct{}
	unit     string
	unitN    int
	maxViol  int
	scratch  string
	ex       *sched.Explorer
	stop     bool
	sampleAt int
	quickCap int // executions beyond the first level of a case
	nodes    int // nodes of the schedule trees
}

type failT struct{ msg string }

func failf(format string, a ...interface{}) { panic(failT{fmt.Sprintf(format, a...)}) }

func check(ok bool, format string, a ...interface{}) {
	if !ok {
		failf(format, a...)
	}
}

var progress int64 // watched by the watchdog

var currentCase atomic.Value

// want tells whether this shard executes the next case.
func (c *Ctx) want(id string) bool {
	if c.stop {
		return false
	}
	if c.only != "" {
		return id == c.only
	}
	n := c.counter
	c.counter++
	return n%c.of == c.shard
}

func (c *Ctx) expired() bool {
	if c.stop {
		return true
	}
	if len(c.rep.Violations) > 0 && time.Now().After(c.settled) {
		// it is wrong already: more examples are not worth the wait
		c.stop = true
		c.rep.Complete = false
		return true
	}
	if time.Now().After(c.deadline) {
		c.stop = true
		c.rep.Complete = false
		c.rep.Incomplete = append(c.rep.Incomplete, c.unit)
		return true
	}
	return false
}

// Unit names the family of the following cases.
func (c *Ctx) Unit(name string) {
	c.unit = name
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// state records a visited abstract state.
func (c *Ctx) state(s string) { c.stateH(hash64(s)) }

func (c *Ctx) stateH(h uint64) {
	if len(c.seen) < 4000000 {
		if _, ok := c.seen[h]; !ok {
			c.seen[h] = struct{}{}
		}
	}
}

func (c *Ctx) sampling() bool {
	return len(c.rep.Samples) < 2 || (len(c.rep.Samples) < 6 && c.rep.Traces >= c.sampleAt)
}

func (c *Ctx) sample(s string) {
	n := c.rep.Traces
	if c.sampling() {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, c.unit+": "+s)
		c.sampleAt = n*10 + 50
	}
}

func (c *Ctx) violation(key, cas, msg string, info []string) {
	for _, v := range c.rep.Violations {
		if v.Key == key {
			return
		}
	}
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	c.rep.Violations = append(c.rep.Violations, Violation{Key: key, Case: cas, Msg: msg, Info: info})
	if len(c.rep.Violations) >= c.maxViol {
		c.stop = true
		c.rep.Complete = false
	}
}

func resultMsg(res *sched.Result) string {
	if f, ok := res.Panic.(failT); ok {
		return f.msg
	}
	if f, ok := res.WorkerPanic.(failT); ok {
		return f.msg
	}
	return res.Err()
}

// Case runs body once under the default schedule. id identifies the input.
func (c *Ctx) Case(id string, body func()) {
	if !c.want(id) || c.expired() {
		return
	}
	c.exec(id, body)
}

func (c *Ctx) enter(id string) {
	currentCase.Store(c.unit + " " + id)
	if c.trace != "" {
		os.WriteFile(c.trace, []byte(c.unit+" "+id), 0o644)
	}
}

func (c *Ctx) exec(id string, body func()) bool {
	atomic.AddInt64(&progress, 1)
	c.enter(id)
	res := sched.Run(body)
	c.rep.Traces++
	c.rep.Transitions += res.Steps
	c.rep.Units[c.unit]++
	c.state(c.unit + "|" + id)
	if msg := resultMsg(res); msg != "" {
		c.violation(c.unit+" "+id, id, msg, nil)
		return false
	}
	c.sample(id)
	return true
}

// Schedules explores every execution of body within the bounds of conf.
func (c *Ctx) Schedules(id string, conf func(e *sched.Explorer), body func()) {
	if !c.want(id) || c.expired() {
		return
	}
	c.rep.Traces++
	c.state(c.unit + "|" + id)
	if e := c.explore(id, conf, body); !e.Complete && len(c.rep.Violations) == 0 {
		c.rep.Complete = false
		c.rep.Incomplete = append(c.rep.Incomplete, c.unit+" "+id)
	}
}

// Level is a way to bound an exploration.
type Level struct {
	Name string
	Conf func(e *sched.Explorer)
}

// Deepen explores the executions of body within the bounds of the first level,
// then of the other levels until one takes more than max executions. What
// counts for each case is the last level that was completed.
func (c *Ctx) Deepen(id string, levels []Level, max int, conf func(e *sched.Explorer), body func()) {
	if !c.want(id) || c.expired() {
		return
	}
	c.rep.Traces++
	c.state(c.unit + "|" + id)
	done := ""
	for i, l := range levels {
		e := c.explore(id, func(e *sched.Explorer) {
			if i > 0 {
				e.MaxExec = max
			}
			l.Conf(e)
			if conf != nil {
				conf(e)
			}
		}, body)
		if len(c.rep.Violations) > 0 {
			return
		}
		if !e.Complete {
			break
		}
		done = l.Name
	}
	if done == "" {
		c.rep.Complete = false
		c.rep.Incomplete = append(c.rep.Incomplete, c.unit+" "+id)
		return
	}
	c.rep.Units[c.unit+": cases completed up to "+done]++
}

// interleavings are the levels for the schedules of concurrent goroutines.
func interleavings(first, last int) []Level {
	delay := func(n int) Level {
		return Level{strconv.Itoa(n) + " delays", func(e *sched.Explorer) {
			e.Delay = true
			e.Bound[sched.KSched] = n
			e.Bound[sched.KSelect] = 1
		}}
	}
	preempt := func(n int) Level {
		return Level{strconv.Itoa(n) + " preemptions", func(e *sched.Explorer) {
			e.Bound[sched.KSched] = n
			e.Bound[sched.KSelect] = 1
		}}
	}
	all := Level{"all interleavings", func(e *sched.Explorer) { e.Bound[sched.KSched] = -1 }}
	return []Level{delay(0), delay(1), delay(2), preempt(1), preempt(2), all}[first : last+1]
}

func (c *Ctx) explore(id string, conf func(e *sched.Explorer), body func()) *sched.Explorer {
	if c.ex == nil {
		c.ex = sched.NewExplorer(-1)
	}
	e := c.ex
	*e = *sched.NewExplorer(-1)
	conf(e)
	e.Sleep = e.Sleep && e.Bound[sched.KSched] < 0
	e.Deadline = c.deadline
	races := sched.RaceErrors()
	c.enter(id)
	e.Explore(func() {
		atomic.AddInt64(&progress, 1)
		body()
	}, func(res *sched.Result) bool {
		msg := resultMsg(res)
		if msg != "" && res.Nondet != "" {
			c.note("nondeterministic replay in " + c.unit + " " + id + ": " + res.Nondet)
			return false
		}
		if n := sched.RaceErrors(); n > races {
			races = n
			c.violation(c.unit+" "+id, id, "data race (see race report)", e.Choices())
			return false
		}
		if msg != "" {
			c.violation(c.unit+" "+id, id, msg, e.Choices())
			return false
		}
		return true
	})
	c.rep.Schedules += e.Execs
	c.rep.Pruned += e.Pruned
	c.rep.Transitions += e.Trans
	c.rep.Units[c.unit] += e.Execs
	if e.MaxDepth > c.rep.MaxDepth {
		c.rep.MaxDepth = e.MaxDepth
	}
	c.nodes += e.Points
	c.sample(fmt.Sprintf("%s: %d schedules, %d steps", id, e.Execs, e.Trans))
	return e
}

// constant reports a value that all the processes must agree on.
func (c *Ctx) constant(key, val string) {
	if c.rep.Consts == nil {
		c.rep.Consts = map[string]string{}
	}
	c.rep.Consts[key] = val
}

func (c *Ctx) note(s string) {
	for _, n := range c.rep.Notes {
		if n == s {
			return
		}
	}
	if len(c.rep.Notes) < 20 {
		c.rep.Notes = append(c.rep.Notes, s)
	}
}

// mustPanic runs f and tells whether it panicked.
func mustPanic(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if sched.IsAbort(e) {
				panic(e)
			}
			panicked = true
		}
	}()
	f()
	return false
}

type propDef struct {
	run  func(c *Ctx)
	race bool
}

var props = map[string]propDef{}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	of := flag.Int("of", 1, "number of shards")
	out := flag.String("out", "", "report file")
	secs := flag.Float64("secs", 60, "time budget")
	only := flag.String("only", "", "run this case only")
	trace := flag.String("trace", "", "file that receives the name of the current case")
	native := flag.Bool("native", false, "the code under test is not rewritten")
	hang := flag.Float64("hang", 60, "seconds without progress before a case is reported as hanging")
	prof := flag.String("cpuprofile", "", "profile the exploration")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	sched.Native = *native
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	start := time.Now()
	c := &Ctx{prop: *prop, thorough: *tier == "thorough", seed: *seed, shard: *shard, of: *of, only: *only, trace: *trace,
		deadline: start.Add(time.Duration(*secs * float64(time.Second))), settled: start.Add(30 * time.Second), maxViol: 8, seen: map[uint64]struct{}{}}
	c.rep.Property = *prop
	c.rep.Complete = true
	c.rep.Units = map[string]int{}
	dir, err := os.MkdirTemp("", "mcscratch")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.scratch = dir
	write := func() {
		c.rep.States = len(c.seen) + c.nodes
		c.rep.WallS = time.Since(start).Seconds()
		b, _ := json.Marshal(&c.rep)
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			b, _ = json.MarshalIndent(&c.rep, "", " ")
			fmt.Println(string(b))
		}
	}
	// watchdog: a case that never ends
	go func() {
		last := int64(-1)
		at := time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			n := atomic.LoadInt64(&progress)
			if n != last {
				last = n
				at = time.Now()
				continue
			}
			if time.Since(at).Seconds() > *hang {
				id, _ := currentCase.Load().(string)
				c.rep.Violations = append(c.rep.Violations, Violation{Key: id, Msg: fmt.Sprintf("does not end (no progress for %.0f s)", *hang)})
				c.rep.Complete = false
				write()
				os.RemoveAll(dir)
				os.Exit(0)
			}
		}
	}()
	p.run(c)
	write()
	os.RemoveAll(dir)
}

// tmpDir returns a fresh empty directory in the scratch area.
func (c *Ctx) tmpDir() string {
	d, err := os.MkdirTemp(c.scratch, "d")
	if err != nil {
		panic(err)
	}
	return d
}

func rmDir(c *Ctx, d string) {
	if strings.HasPrefix(d, c.scratch+string(filepath.Separator)) {
		os.RemoveAll(d)
	}
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
