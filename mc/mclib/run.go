//go:build go1.21

package mclib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough tells if this is the thorough tier.
func Thorough() bool { return Tier() == "thorough" }

// N returns q in the quick tier and t in the thorough one.
func N(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

const (
	hangAfter = 180 * time.Second // one execution normally takes milliseconds
	heapLimit = 3 << 30
	sliceTime = 300 * time.Millisecond
)

type job struct {
	Space    int     `json:"s"`
	Prefixes [][]int `json:"p"`
	Repeat   bool    `json:"r,omitempty"` // run just this execution
}

type found struct {
	Space   int       `json:"s"`
	Choices []int     `json:"c"`
	Trace   string    `json:"t"`
	Case    string    `json:"d"`
	V       Violation `json:"v"`
}

type result struct {
	Left     [][]int  `json:"l,omitempty"`
	Execs    int64    `json:"e"`
	Nodes    int64    `json:"n"`
	Edges    int64    `json:"g"`
	Pruned   int64    `json:"x"`
	Outcomes []uint64 `json:"o,omitempty"`
	Found    []found  `json:"f,omitempty"`
	Samples  []string `json:"m,omitempty"`
	MaxDepth int      `json:"d"`
}

// Coordinator drives the exploration.
type Coordinator struct {
	Check    Check
	Scratch  string
	VerifDir string
	start    time.Time
	deadline time.Time

	perSpace   []*spaceStats
	found      []found
	unrepro    []found
	exhaustive bool
	deadlocked bool
	Extra      map[string]interface{}
	extraExecs int64
	postViol   []found
}

type spaceStats struct {
	Name     string `json:"name"`
	Rule     string `json:"rule"`
	Bound    int    `json:"deviation_bound"`
	Execs    int64  `json:"executions"`
	Nodes    int64  `json:"nodes"`
	Edges    int64  `json:"transitions"`
	Pruned   int64  `json:"pruned"`
	Distinct int    `json:"distinct_outcomes"`
	MaxDepth int    `json:"max_depth"`
	Complete bool   `json:"complete"`
	outcomes map[uint64]struct{}
	samples  []string
}

// Main is the entry point of a check binary.
func Main(c Check) {
	if !Thorough() {
		var keep []Space
		for _, s := range c.Spaces {
			if !s.ThoroughOnly {
				keep = append(keep, s)
			}
		}
		c.Spaces = keep
	}
	if os.Getenv("MC_WORKER") != "" {
		worker(c)
		return
	}
	verif := flag.String("verif", "/verif", "verification directory")
	replay := flag.String("replay", "", "replay file")
	workers := flag.Int("workers", runtime.NumCPU(), "worker processes")
	budget := flag.Duration("budget", 0, "time budget")
	only := flag.String("space", "", "only this space")
	flag.Parse()

	if *only != "" {
		var keep []Space
		for _, s := range c.Spaces {
			if s.Name == *only {
				keep = append(keep, s)
			}
		}
		c.Spaces = keep
		os.Setenv("MC_ONLY", *only)
	}

	scratch, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fatalf("%v", err)
	}
	code := func() int {
		defer os.RemoveAll(scratch)
		co := &Coordinator{Check: c, Scratch: scratch, VerifDir: *verif, start: time.Now(), Extra: map[string]interface{}{}}
		b := *budget
		if b == 0 {
			b = time.Duration(N(240, 720)) * time.Second
		}
		co.deadline = co.start.Add(b)
		if *replay != "" {
			return co.replay(*replay)
		}
		return co.run(*workers)
	}()
	os.Exit(code)
}

/* ---------------------------------------------------------------- worker */

func worker(c Check) {
	if only := os.Getenv("MC_ONLY"); only != "" {
		var keep []Space
		for _, s := range c.Spaces {
			if s.Name == only {
				keep = append(keep, s)
			}
		}
		c.Spaces = keep
	}
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	scratch := os.Getenv("MC_SCRATCH")
	in := bufio.NewReaderSize(os.NewFile(3, "jobs"), 1<<20)
	out := json.NewEncoder(os.NewFile(4, "results"))
	sh := openShm(filepath.Join(scratch, "shm"), false)
	if c.Init != nil {
		c.Init(scratch)
	}
	go func() { // watchdog: hangs and runaway memory end the worker
		last, since := sh.execs(), time.Now()
		var m runtime.MemStats
		for i := 0; ; i++ {
			time.Sleep(200 * time.Millisecond)
			if i%5 == 0 {
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > heapLimit {
					fmt.Fprintf(os.Stderr, "MC-WATCHDOG: heap grew beyond %d MB in one execution\n", heapLimit>>20)
					os.Exit(98)
				}
			}
			if e := sh.execs(); e != last {
				last, since = e, time.Now()
			} else if busy.Load() && time.Since(since) > hangAfter {
				fmt.Fprintf(os.Stderr, "MC-WATCHDOG: execution did not finish within %s\n", hangAfter)
				os.Exit(97)
			} else if !busy.Load() {
				since = time.Now()
			}
		}
	}()
	seen := make([]map[uint64]struct{}, len(c.Spaces))
	for i := range seen {
		seen[i] = map[uint64]struct{}{}
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fatalf("worker: %v", err)
		}
		busy.Store(true)
		res := workJob(c.Spaces[j.Space], j, scratch, sh, seen[j.Space])
		busy.Store(false)
		if err := out.Encode(res); err != nil {
			return
		}
	}
}

var busy atomic.Bool

// reported counts the violations this process reported, by space and key.
var reported = map[string]int{}

func workJob(sp Space, j job, scratch string, sh *shm, seen map[uint64]struct{}) (res result) {
	sh.setSpace(j.Space)
	stack := j.Prefixes
	begin := time.Now()
	for len(stack) > 0 {
		if !j.Repeat && time.Since(begin) > sliceTime {
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		x := runOne(sp, prefix, scratch, sh)
		if !j.Repeat {
			stack = append(stack, x.alternatives()...)
		}
		d := len(x.choices)
		res.Nodes += int64(d-len(prefix)) + 1
		res.Edges += int64(d - len(prefix))
		if len(prefix) > 0 {
			res.Edges++
		}
		if d > res.MaxDepth {
			res.MaxDepth = d
		}
		if x.pruned {
			res.Pruned++
			continue
		}
		res.Execs++
		h := hash(strings.Join(x.outcome, "\x00"))
		if _, ok := seen[h]; !ok {
			seen[h] = struct{}{}
			res.Outcomes = append(res.Outcomes, h)
			if len(seen) <= 3 && len(x.viols) == 0 {
				s := x.sampled
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				o := strings.Join(x.outcome, " ; ")
				if len(o) > 400 {
					o = o[:400] + "..."
				}
				res.Samples = append(res.Samples, fmt.Sprintf("[%s] %s | choices: %s | observed: %s", sp.Name, s, x.Trace(), o))
			}
		}
		for _, v := range x.viols {
			k := sp.Name + "\x00" + v.Key
			if !j.Repeat && reported[k] >= 3 {
				continue
			}
			reported[k]++
			res.Found = append(res.Found, found{
				Space: j.Space, Choices: append([]int{}, x.choices...), Trace: x.Trace(), Case: x.sampled, V: v,
			})
		}
		if len(res.Found) > 50 {
			break
		}
	}
	res.Left = stack
	return
}

/* ----------------------------------------------------------- coordinator */

type proc struct {
	id      int
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	scratch string
	stderr  string
	sh      *shm
}

func (co *Coordinator) spawn(id int) *proc {
	dir := filepath.Join(co.Scratch, "w"+strconv.Itoa(id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatalf("%v", err)
	}
	p := &proc{id: id, scratch: dir, stderr: filepath.Join(dir, "stderr")}
	p.sh = openShm(filepath.Join(dir, "shm"), true)
	self, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	jr, jw, err := os.Pipe()
	if err != nil {
		fatalf("%v", err)
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		fatalf("%v", err)
	}
	ef, err := os.Create(p.stderr)
	if err != nil {
		fatalf("%v", err)
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "MC_WORKER=1", "MC_SCRATCH="+dir, "GOPATH="+filepath.Join(dir, "mc-gp"))
	cmd.Dir = dir
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.ExtraFiles = []*os.File{jr, rw}
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	jr.Close()
	rw.Close()
	ef.Close()
	p.cmd, p.in, p.out = cmd, jw, bufio.NewReaderSize(rr, 1<<20)
	return p
}

func (p *proc) do(j job) (res result, err error) {
	b, _ := json.Marshal(j)
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return
	}
	err = json.Unmarshal(line, &res)
	return
}

func (p *proc) close() {
	p.in.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
}

// dead collects why the worker died and in which execution.
func (p *proc) dead() (space int, choices []int, detail string, infra bool) {
	p.in.Close()
	err := p.cmd.Wait()
	b, _ := os.ReadFile(p.stderr)
	s := string(b)
	if p.cmd.ProcessState != nil && p.cmd.ProcessState.ExitCode() == 3 && strings.Contains(s, "mc: ") {
		infra = true
	}
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	space, choices = p.sh.read()
	detail = fmt.Sprintf("worker process ended (%v): %s", err, s)
	return
}

func (co *Coordinator) run(workers int) int {
	c := co.Check
	for _, s := range c.Spaces {
		co.perSpace = append(co.perSpace, &spaceStats{Name: s.Name, Rule: s.Rule, Bound: s.Bound, outcomes: map[uint64]struct{}{}})
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	// round robin over the spaces so that every space makes progress before the
	// deadline
	stacks := make([][][]int, len(c.Spaces))
	inflight := make([]int, len(c.Spaces))
	for i := range stacks {
		stacks[i] = [][]int{{}}
	}
	next := 0
	active := 0
	stopped := false
	crashes := 0
	var infraMsg string
	hist := map[string]int{}
	known := loadKnown(filepath.Join(co.VerifDir, "KNOWN_FINDINGS.txt"), c.ID)
	unknown := 0
	keysFile := os.Getenv("MC_KEYS")
	failFast := os.Getenv("MC_FAILFAST") != ""
	worker := func(id int) {
		p := co.spawn(id)
		gen, recycled := 0, 0
		defer func() { p.close() }()
		for {
			mu.Lock()
			var j job
			got := false
			for {
				if time.Now().After(co.deadline) {
					stopped = true
				}
				if stopped {
					break
				}
				for k := 0; k < len(stacks); k++ {
					i := (next + k) % len(stacks)
					if n := len(stacks[i]); n > 0 {
						take := 1
						if n > 64 {
							take = n / 32
							if take > 200 {
								take = 200
							}
						}
						j = job{Space: i, Prefixes: append([][]int{}, stacks[i][n-take:]...)}
						stacks[i] = stacks[i][:n-take]
						next = i + 1
						got = true
						break
					}
				}
				if got || active == 0 {
					break
				}
				cond.Wait()
			}
			if !got {
				stopped = true
				mu.Unlock()
				cond.Broadcast()
				return
			}
			active++
			inflight[j.Space]++
			mu.Unlock()

			res, err := p.do(j)

			mu.Lock()
			active--
			inflight[j.Space]--
			if err != nil {
				sp, ch, detail, infra := p.dead()
				if infra {
					infraMsg = detail
					stopped = true
				} else {
					crashes++
					co.found = append(co.found, found{Space: sp, Choices: ch, Trace: fmt.Sprint(ch), V: Violation{Key: "crash", Detail: detail}})
					if crashes >= 3 {
						stopped = true
					}
				}
				gen++
				if !stopped {
					mu.Unlock()
					p = co.spawn(id + 100*gen)
					mu.Lock()
				}
				co.exhaustive = false
				co.deadlocked = true
				cond.Broadcast()
				mu.Unlock()
				if stopped {
					return
				}
				continue
			}
			st := co.perSpace[j.Space]
			st.Execs += res.Execs
			st.Nodes += res.Nodes
			st.Edges += res.Edges
			st.Pruned += res.Pruned
			if res.MaxDepth > st.MaxDepth {
				st.MaxDepth = res.MaxDepth
			}
			for _, o := range res.Outcomes {
				st.outcomes[o] = struct{}{}
			}
			if len(st.samples) < 2 {
				st.samples = append(st.samples, res.Samples...)
				if len(st.samples) > 2 {
					st.samples = st.samples[:2]
				}
			}
			stacks[j.Space] = append(stacks[j.Space], res.Left...)
			suspect := false
			for _, f := range res.Found {
				k := fmt.Sprint(f.Space, f.V.Key)
				hist[k]++
				if hist[k] <= 24 {
					co.found = append(co.found, f)
				}
				if _, ok := known[f.V.Key]; !ok && hist[k] <= 3 {
					unknown++
				}
				if _, ok := known[f.V.Key]; !ok {
					suspect = true
				}
			}
			// the code under test may have been left in a state in which
			// everything fails: what fails in a fresh process comes first
			if suspect && recycled < 8 && !stopped {
				recycled++
				mu.Unlock()
				p.close()
				p = co.spawn(id + 100*(gen+1))
				mu.Lock()
				gen++
			}
			if unknown > 400 && keysFile == "" || unknown > 0 && failFast {
				stopped = true
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}
	// wake sleepers at the deadline
	go func() {
		time.Sleep(time.Until(co.deadline))
		mu.Lock()
		stopped = true
		mu.Unlock()
		cond.Broadcast()
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); worker(i) }(i)
	}
	wg.Wait()
	if infraMsg != "" {
		fmt.Fprintf(os.Stderr, "mc %s: machinery error: %s\n", c.ID, infraMsg)
		return 3
	}
	co.exhaustive = !co.deadlocked
	for i, st := range co.perSpace {
		st.Complete = len(stacks[i]) == 0 && !co.deadlocked
		st.Distinct = len(st.outcomes)
		if !st.Complete {
			co.exhaustive = false
		}
	}
	if keysFile != "" { // for the developer of a check
		seen := map[string]bool{}
		var b strings.Builder
		for _, f := range co.found {
			if !seen[f.V.Key] {
				seen[f.V.Key] = true
				d := f.V.Detail
				if len(d) > 300 {
					d = d[:300]
				}
				fmt.Fprintf(&b, "%s :: %s\n", f.V.Key, d)
			}
		}
		os.WriteFile(keysFile, []byte(b.String()), 0o644)
	}
	if c.Post != nil && unknown == 0 {
		c.Post(co)
	}
	return co.finish(workers)
}

// PostFail lets Post report a violation.
func (co *Coordinator) PostFail(key, caze, format string, args ...interface{}) {
	co.postViol = append(co.postViol, found{Space: -1, Case: caze, V: Violation{Key: key, Detail: fmt.Sprintf(format, args...)}})
}

// AddExecs counts executions made by Post.
func (co *Coordinator) AddExecs(n int) { co.extraExecs += int64(n) }

// again re-runs a found violation in a process of its own.
func (co *Coordinator) again(f found, id int) bool {
	p := co.spawn(1000 + id)
	res, err := p.do(job{Space: f.Space, Prefixes: [][]int{f.Choices}, Repeat: true})
	if err != nil {
		_, _, _, infra := p.dead()
		return !infra && f.V.Key == "crash"
	}
	p.close()
	for _, g := range res.Found {
		if g.V.Key == f.V.Key {
			return true
		}
	}
	return false
}

// confirm re-runs a found violation and tells how often it showed up again.
func (co *Coordinator) confirm(f found) (hits, runs int) {
	try := func(id int) bool { return co.again(f, 1000+id) }
	for runs < 5 {
		if try(runs) {
			hits++
		}
		runs++
		if os.Getenv("MC_FAILFAST") != "" && hits > 0 {
			return
		}
	}
	if hits > 0 {
		return
	}
	for runs < 40 { // the code under test may be nondeterministic
		if try(runs) {
			hits++
			runs++
			return
		}
		runs++
	}
	return
}

func (co *Coordinator) finish(workers int) int {
	c := co.Check
	kf := loadKnown(filepath.Join(co.VerifDir, "KNOWN_FINDINGS.txt"), c.ID)
	sort.SliceStable(co.found, func(i, j int) bool { return len(co.found[i].Choices) < len(co.found[j].Choices) })
	var real []found
	printed := map[string]bool{}
	keys := map[string]bool{}
	confirmed := 0
	// the ones which show up again at once come first
	hit := map[int]bool{}
	again := map[string]int{}
	begin := time.Now()
	for i, f := range co.found {
		if len(again) >= 6 || time.Since(begin) > time.Minute {
			break
		}
		if _, ok := kf[f.V.Key]; ok || f.Space < 0 || again[f.V.Key] > 0 {
			continue
		}
		if co.again(f, i) {
			hit[i] = true
			again[f.V.Key]++
		}
	}
	var order, rest []found
	for i, f := range co.found {
		if hit[i] {
			order = append(order, f)
			continue
		}
		rest = append(rest, f)
	}
	co.found = append(order, rest...)
	tries := map[string]int{}
	for _, f := range append(co.found, co.postViol...) {
		if k, ok := kf[f.V.Key]; ok {
			if !printed[k] {
				printed[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			}
			continue
		}
		if keys[f.V.Key] {
			continue
		}
		if f.Space >= 0 {
			if confirmed >= 6 || tries[f.V.Key] >= 3 {
				continue
			}
			tries[f.V.Key]++
			hits, runs := co.confirm(f)
			if hits == 0 {
				co.unrepro = append(co.unrepro, f)
				continue
			}
			f.V.Detail += fmt.Sprintf("\n(reproduced %d/%d)", hits, runs)
			confirmed++
		}
		keys[f.V.Key] = true
		real = append(real, f)
	}
	for i, f := range real {
		if i >= 5 {
			break
		}
		path := co.writeReplay(i, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		d := f.V.Detail
		if len(d) > 2500 {
			d = d[:2500] + "..."
		}
		name := "post"
		if f.Space >= 0 {
			name = c.Spaces[f.Space].Name
		}
		fmt.Printf("  space=%s key=%s\n  case: %s\n  choices: %s\n  %s\n", name, f.V.Key, f.Case, f.Trace, d)
	}
	co.writeEvidence(real)
	var ex, nodes int64
	for _, s := range co.perSpace {
		ex += s.Execs
		nodes += s.Nodes
		fmt.Printf("%s space %-28s executions=%d nodes=%d distinct=%d pruned=%d complete=%v\n", c.ID, s.Name, s.Execs, s.Nodes, s.Distinct, s.Pruned, s.Complete)
	}
	fmt.Printf("%s tier=%s executions=%d nodes=%d exhaustive=%v violations=%d unreproduced=%d wall=%.1fs\n", c.ID, Tier(), ex+co.extraExecs, nodes, co.exhaustive, len(real), len(co.unrepro), time.Since(co.start).Seconds())
	for _, f := range co.unrepro {
		fmt.Printf("  unreproduced: key=%s case=%s %s\n", f.V.Key, f.Case, f.V.Detail)
	}
	if len(real) > 0 {
		return 1
	}
	return 0
}

func (co *Coordinator) writeReplay(i int, f found) string {
	dir := filepath.Join(co.VerifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", co.Check.ID, i))
	name := ""
	if f.Space >= 0 {
		name = co.Check.Spaces[f.Space].Name
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": co.Check.ID, "space": name, "choices": f.Choices, "trace": f.Trace, "case": f.Case,
		"key": f.V.Key, "detail": f.V.Detail, "tier": Tier(),
		"how": fmt.Sprintf("VERIF_TIER=%s /verif/check.sh %s --replay %s", Tier(), co.Check.ID, path),
	}, "", "  ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (co *Coordinator) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var r struct {
		Space   string `json:"space"`
		Choices []int  `json:"choices"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	for i, s := range co.Check.Spaces {
		if s.Name != r.Space {
			continue
		}
		p := co.spawn(0)
		res, err := p.do(job{Space: i, Prefixes: [][]int{r.Choices}, Repeat: true})
		if err != nil {
			_, _, d, _ := p.dead()
			fmt.Println(d)
			return 1
		}
		p.close()
		for _, f := range res.Found {
			fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  choices: %s\n  key=%s %s\n", co.Check.ID, file, f.Case, f.Trace, f.V.Key, f.V.Detail)
		}
		if len(res.Found) > 0 {
			return 1
		}
		fmt.Println("no violation", res.Samples)
		return 0
	}
	fatalf("no space %q", r.Space)
	return 3
}

func (co *Coordinator) writeEvidence(real []found) {
	c := co.Check
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ex, nodes, edges, pruned int64
	distinct := 0
	var samples []string
	var rules []string
	for _, s := range co.perSpace {
		ex += s.Execs
		nodes += s.Nodes
		edges += s.Edges
		pruned += s.Pruned
		distinct += s.Distinct
		samples = append(samples, s.samples...)
		rules = append(rules, s.Name+": "+s.Rule)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]interface{}{
		"samples":       samples,
		"exhaustive":    co.exhaustive,
		"spaces":        co.perSpace,
		"unreproduced":  len(co.unrepro),
		"choice_pruned": pruned,
		"explanation":   "states are nodes of the explored choice tree, transitions its edges; every complete path was executed against the code under test and judged by the oracle",
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	switch level {
	case "model_checking":
		cov["states"] = nodes
		cov["transitions"] = edges
		cov["traces_validated_against_impl"] = ex + co.extraExecs
		cov["distinct_outcomes"] = distinct
		cov["rule"] = strings.Join(rules, " | ")
	default:
		cov["evaluations"] = ex + co.extraExecs
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = strings.Join(rules, " | ") + " (distinct: by observed outcome)"
	}
	for k, v := range co.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": Tier(), "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(co.start).Seconds(), "violations": len(real), "assumptions": c.Assume,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("evidence: %v", err)
	}
	dir := filepath.Join(co.VerifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}

// loadKnown reads lines "known: property=<id> key=<key> :: <what fails>".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		if rest == l {
			continue
		}
		if i := strings.Index(rest, " :: "); i > 0 {
			out[rest[:i]] = rest[i+4:]
		}
	}
	return out
}
