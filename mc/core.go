package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

// A Check explores one property's bounded space. Run enumerates the complete
// space in every worker; Env.Each picks the worker's share.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made (fault_enumeration), or a one-line description
	Assumptions []string
	Run         func(e *Env)
	// Limits in seconds; 0 means default.
	QuickBudget, ThoroughBudget int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Violation struct {
	Bin     string `json:"bin,omitempty"`
	Case    string `json:"case"`
	Index   int64  `json:"index"`
	Message string `json:"message"`
	Reruns  string `json:"reruns"`
}

type Result struct {
	Cases      int64            `json:"cases"`
	Trans      int64            `json:"trans"`
	Traces     int64            `json:"traces"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Total      int64            `json:"total"`
	Complete   bool             `json:"complete"`
	Bounds     []string         `json:"bounds"`
	Error      string           `json:"error"`
}

// Env is one worker's view of the exploration.
type Env struct {
	ID       string
	Tier     string
	Thorough bool
	Shard    int64
	Shards   int64
	Only     int64 // -1: all
	Dir      string
	deadline time.Time
	idx      int64
	stopped  bool
	res      Result
	journal  []byte
	sampleAt int64
	maxViol  int
	limitLbl string
}

// Bound records, once, what the enumeration covers.
func (e *Env) Bound(f string, args ...interface{}) {
	e.res.Bounds = append(e.res.Bounds, fmt.Sprintf(f, args...))
	if os.Getenv("MC_TRACE") != "" && e.Shard == 0 {
		trace("%s at case %d: %s\n", time.Now().Format("15:04:05"), e.idx, e.res.Bounds[len(e.res.Bounds)-1])
	}
}

// trace is for developing checks.
func trace(f string, args ...interface{}) {
	if o, err := os.OpenFile(os.Getenv("MC_TRACE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintf(o, f, args...)
		o.Close()
	}
}

func (e *Env) Count(name string, n int64) { e.res.Counters[name] += n }
func (e *Env) Trans(n int)                { e.res.Trans += int64(n) }
func (e *Env) Traces(n int)               { e.res.Traces += int64(n) }

func (e *Env) setJournal(s string) {
	if e.journal == nil {
		return
	}
	n := copy(e.journal[16:], s)
	b := e.journal
	for i := 0; i < 8; i++ {
		b[i] = byte(e.idx >> (8 * i))
	}
	b[8], b[9], b[10] = byte(n), byte(n>>8), byte(n>>16)
}

// beat tells the parent that a long case makes progress.
func (e *Env) beat() {
	if b := e.journal; b != nil {
		n := uint32(b[12]) | uint32(b[13])<<8 | uint32(b[14])<<16 | uint32(b[15])<<24
		n++
		b[12], b[13], b[14], b[15] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	}
}

// Mine reports whether the next case (which it counts) is this worker's and
// the run has not been stopped. Use with Exec; Each combines both.
func (e *Env) Mine() bool {
	e.idx++
	if e.stopped {
		return false
	}
	if e.Only >= 0 {
		return e.idx == e.Only
	}
	if e.idx%e.Shards != e.Shard {
		return false
	}
	if e.res.Cases&63 == 0 && time.Now().After(e.deadline) {
		e.stopped = true
		e.res.Complete = false
		return false
	}
	return true
}

// Stopped lets enumerators cut short.
func (e *Env) Stopped() bool { return e.stopped }

func safely(run func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return run()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// Exec runs one case that Mine accepted.
func (e *Env) Exec(key string, run func() string) {
	e.setJournal(key)
	e.res.Cases++
	if e.res.Cases >= e.sampleAt && len(e.res.Samples) < 6 {
		e.res.Samples = append(e.res.Samples, key)
		e.sampleAt = e.sampleAt*7 + 1
	}
	start := time.Now()
	msg := safely(run)
	if d := time.Since(start); d > 500*time.Millisecond && os.Getenv("MC_TRACE") != "" {
		trace("slow: %s %.300q\n", d, key)
	}
	if msg == "" {
		return
	}
	again := 0
	for i := 0; i < 5; i++ {
		if safely(run) != "" {
			again++
		}
	}
	e.res.Violations = append(e.res.Violations, Violation{Case: key, Index: e.idx, Message: msg, Reruns: fmt.Sprintf("%d/5", again)})
	if len(e.res.Violations) >= e.maxViol {
		e.stopped = true
		e.res.Complete = false
	}
}

// Each visits one case of the space. key identifies it; run returns "" or what
// is wrong.
func (e *Env) Each(key string, run func() string) {
	if e.Mine() {
		e.Exec(key, run)
	}
}

func (e *Env) write(res io.Writer) {
	e.res.Total = e.idx
	_ = json.NewEncoder(res).Encode(e.res)
}

func scratchRoot() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if f, err := os.CreateTemp("/dev/shm", "probe"); err == nil {
			f.Close()
			os.Remove(f.Name())
			return "/dev/shm"
		}
	}
	return os.TempDir()
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int64("shard", 0, "")
	shards := fs.Int64("shards", 1, "")
	only := fs.Int64("only", -1, "")
	dir := fs.String("dir", "", "")
	budget := fs.Float64("budget", 60, "")
	maxviol := fs.Int("maxviol", 3, "")
	_ = fs.Parse(args)
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	logrus.SetOutput(io.Discard)
	c := checks[*id]
	e := &Env{ID: *id, Tier: *tier, Thorough: *tier == "thorough", Shard: *shard, Shards: *shards, Only: *only, Dir: *dir,
		deadline: time.Now().Add(time.Duration(*budget * float64(time.Second))), maxViol: *maxviol, sampleAt: 1}
	e.res.Counters = map[string]int64{}
	e.res.Complete = true
	if f, err := os.OpenFile(filepath.Join(*dir, "journal"), os.O_RDWR|os.O_CREATE, 0644); err == nil {
		const size = 1 << 16
		_ = f.Truncate(size)
		if m, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			e.journal = m
		}
	}
	c.Run(e)
	out, err := os.Create(filepath.Join(*dir, "result.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	e.write(out)
	out.Close()
}

func journalHead(dir string) string {
	f, err := os.Open(filepath.Join(dir, "journal"))
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 16)
	n, _ := io.ReadFull(f, b)
	return string(b[:n])
}

func readJournal(dir string) (int64, string) {
	b, err := os.ReadFile(filepath.Join(dir, "journal"))
	if err != nil || len(b) < 16 {
		return 0, ""
	}
	var idx int64
	for i := 0; i < 8; i++ {
		idx |= int64(b[i]) << (8 * i)
	}
	n := int(b[8]) | int(b[9])<<8 | int(b[10])<<16
	if 16+n > len(b) {
		n = len(b) - 16
	}
	return idx, string(b[16 : 16+n])
}

type procOut struct {
	res  *Result
	fail string
	idx  int64
	key  string
}

// binary finds the program of a kind of worker: "" is this one, "race" the one
// built with the race detector.
func binary(bin string) string {
	if bin == "race" {
		return os.Getenv("MC_RACE_BIN")
	}
	self, _ := os.Executable()
	return self
}

// threads take turns, so workers under the race detector need no second processor
var procs = map[string]string{"": "2", "race": "1"}

type slot struct {
	bin           string
	shard, shards int64
}

// runWorker runs one worker process, watching for death and for a case that
// does not finish.
func runWorker(bin, id, tier, dir string, shard, shards, only int64, budget float64, stall time.Duration, maxviol int) procOut {
	_ = os.MkdirAll(dir, 0755)
	_ = os.Remove(filepath.Join(dir, "result.json"))
	cmd := exec.Command(binary(bin), "worker", "-id", id, "-tier", tier, "-dir", dir, "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards),
		"-only", fmt.Sprint(only), "-budget", fmt.Sprint(budget), "-maxviol", fmt.Sprint(maxviol))
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs[bin], "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"))
	var errb limitedBuf
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		return procOut{fail: "start: " + err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lastBeat, lastChange := "", time.Now()
	hung := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			if h := journalHead(dir); h != lastBeat {
				lastBeat, lastChange = h, time.Now()
			} else if time.Since(lastChange) > stall {
				hung = true
				_ = cmd.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	if rerr == nil && err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			return procOut{res: &r}
		}
	}
	idx, key := readJournal(dir)
	if hung {
		return procOut{fail: fmt.Sprintf("does not finish within %s", stall), idx: idx, key: key}
	}
	return procOut{fail: fmt.Sprintf("process died (%v): %s", err, errb.String()), idx: idx, key: key}
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := 4000 - len(l.b); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		l.b = append(l.b, p[:room]...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown returns the keys of listed findings of the property.
func loadKnown(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" case=")
		if q, err := strconv.QuotedPrefix(rest); err == nil {
			key, _ := strconv.Unquote(q)
			known[key] = strings.TrimSpace(rest[len(q):])
		}
	}
	return known
}

func runCheck(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 150.0
	if c.QuickBudget > 0 {
		budget = float64(c.QuickBudget)
	}
	if tier == "thorough" {
		budget = 600
		if c.ThoroughBudget > 0 {
			budget = float64(c.ThoroughBudget)
		}
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		budget, _ = strconv.ParseFloat(s, 64)
	}
	root, err := os.MkdirTemp(scratchRoot(), "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)
	n := int64(runtime.NumCPU())
	if n > 8 {
		n = 8
	}
	var slots []slot
	for i := int64(0); i < n; i++ {
		slots = append(slots, slot{"", i, n})
	}
	if binary("race") != "" {
		const races = 4
		for i := int64(0); i < races; i++ {
			slots = append(slots, slot{"race", i, races})
		}
	}
	outs := make([]procOut, len(slots))
	var wg sync.WaitGroup
	for i, sl := range slots {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = runWorker(sl.bin, id, tier, filepath.Join(root, fmt.Sprintf("w%d", i)), sl.shard, sl.shards, -1, budget, 60*time.Second, 3)
		}()
	}
	wg.Wait()
	total := Result{Counters: map[string]int64{}, Complete: true}
	var viols []Violation
	space := map[string]int64{}
	for i, o := range outs {
		sl := slots[i]
		if o.res == nil {
			if reported := false; len(viols) > 0 {
				known := loadKnown(id)
				for _, v := range viols {
					if _, ok := known[v.Case]; !ok {
						reported = true
					}
				}
				if reported {
					// one confirmed failure will do
					total.Complete = false
					continue
				}
			}
			// confirm on the single case
			dir := filepath.Join(root, fmt.Sprintf("c%d", i))
			conf := runWorker(sl.bin, id, tier, dir, 0, 1, o.idx, budget, 120*time.Second, 3)
			if conf.res == nil && o.idx > 0 {
				viols = append(viols, Violation{Bin: sl.bin, Case: o.key, Index: o.idx, Message: o.fail, Reruns: "confirmed: " + conf.fail})
				total.Complete = false
				continue
			}
			if conf.res != nil && len(conf.res.Violations) > 0 {
				viols = append(viols, conf.res.Violations...)
				total.Complete = false
				continue
			}
			// not reproduced: repeat the whole share once
			again := runWorker(sl.bin, id, tier, dir, sl.shard, sl.shards, -1, budget, 120*time.Second, 3)
			if again.res == nil {
				viols = append(viols, Violation{Bin: sl.bin, Case: again.key, Index: again.idx, Message: again.fail, Reruns: "share failed twice: " + o.fail})
				total.Complete = false
				continue
			}
			o = again
		}
		r := o.res
		total.Cases += r.Cases
		total.Trans += r.Trans
		total.Traces += r.Traces
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for j := range r.Violations {
			r.Violations[j].Bin = sl.bin
		}
		if r.Total > space[sl.bin] {
			total.Total += r.Total - space[sl.bin]
			space[sl.bin] = r.Total
		}
		if len(r.Bounds) > len(total.Bounds) {
			total.Bounds = r.Bounds
		}
		total.Complete = total.Complete && r.Complete
		viols = append(viols, r.Violations...)
		if r.Error != "" {
			fmt.Fprintln(os.Stderr, r.Error)
			return 2
		}
	}
	sort.Slice(viols, func(i, j int) bool {
		if len(viols[i].Case) != len(viols[j].Case) {
			return len(viols[i].Case) < len(viols[j].Case)
		}
		return viols[i].Case < viols[j].Case
	})
	return report(c, tier, seed, start, &total, viols)
}

func report(c *Check, tier string, seed int, start time.Time, total *Result, viols []Violation) int {
	known := loadKnown(c.ID)
	evdir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evdir, 0755)
	var fresh []Violation
	for _, v := range viols {
		if what, ok := known[v.Case]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, what, strconv.Quote(v.Case))
			continue
		}
		fresh = append(fresh, v)
	}
	sort.Strings(total.Samples)
	samples := []interface{}{}
	for _, s := range total.Samples {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		samples = append(samples, s)
	}
	cov := map[string]interface{}{"samples": samples, "exhaustive": total.Complete, "bounds": total.Bounds, "space_size": total.Total}
	switch c.Level {
	case "fault_enumeration":
		cov["evaluations"] = total.Cases
		cov["distinct_nontrivial"] = total.Counters["nontrivial"]
		cov["rule"] = c.Rule
	default:
		cov["states"] = total.Cases
		cov["transitions"] = total.Trans
		cov["traces_validated_against_impl"] = total.Traces
		cov["how"] = c.Rule
	}
	if len(total.Counters) > 0 {
		cov["counters"] = total.Counters
	}
	ev := map[string]interface{}{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces replayed, exhaustive=%v, %.1fs %v\n", c.ID, tier, total.Cases, total.Trans, total.Traces, total.Complete, time.Since(start).Seconds(), total.Counters)
	if len(fresh) == 0 {
		return 0
	}
	for i, v := range fresh {
		if i == 3 {
			break
		}
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", c.ID, i))
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "tier": tier, "index": v.Index, "bin": v.Bin, "case": v.Case, "message": v.Message, "reruns": v.Reruns,
			"replay": fmt.Sprintf("bash ./check %s replay %s", c.ID, path)}, "", " ")
		_ = os.WriteFile(path, append(rb, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  case: %s\n  reruns failing again: %s\n  %s\n", strconv.Quote(trunc(v.Case, 800)), v.Reruns, strings.ReplaceAll(trunc(v.Message, 3000), "\n", "\n  "))
	}
	return 1
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func replay(id, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v struct {
		Tier  string `json:"tier"`
		Index int64  `json:"index"`
		Bin   string `json:"bin"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	root, _ := os.MkdirTemp(scratchRoot(), "verif-replay-")
	defer os.RemoveAll(root)
	o := runWorker(v.Bin, id, v.Tier, root, 0, 1, v.Index, 120, 120*time.Second, 3)
	if o.res == nil {
		fmt.Println(o.fail, strconv.Quote(o.key))
		return 1
	}
	for _, v := range o.res.Violations {
		fmt.Printf("case %s\n%s\n", strconv.Quote(v.Case), v.Message)
	}
	if len(o.res.Violations) > 0 {
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		worker(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "fresh" {
		fresh(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "cli" {
		cli(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "overlay" {
		kind := ""
		if len(os.Args) > 3 {
			kind = os.Args[3]
		}
		var err error
		if kind == "order" {
			err = orderOverlay(os.Args[2])
		} else {
			err = overlay(os.Args[2], kind == "race")
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc ID quick|thorough|replay FILE")
		os.Exit(2)
	}
	if os.Args[2] == "replay" {
		os.Exit(replay(os.Args[1], os.Args[3]))
	}
	os.Exit(runCheck(os.Args[1], os.Args[2]))
}
