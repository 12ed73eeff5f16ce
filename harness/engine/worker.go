package engine

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ShardResult is what a worker process reports.
type ShardResult struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Known       map[string]int `json:"known"`
	Failed      bool           `json:"failed"`
	Message     string         `json:"message"`
	Key         string         `json:"key"`
	Case        []byte         `json:"case"`
	Note        string         `json:"note"`
	Error       string         `json:"error"`
	Done        bool           `json:"done"`
}

type replayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

const (
	memLimit     = 4 << 30          // address space of a worker
	hangAfter    = 30 * time.Second // one case running longer than this is suspected to hang
	replayLimitS = 60               // CPU seconds for the confirmation of a suspected hang
)

// tbImpl lets rapid run outside of go test.
type tbImpl struct {
	mu     sync.Mutex
	failed bool
	msgs   []string
}

func (t *tbImpl) Helper()                   {}
func (t *tbImpl) Name() string              { return "pbt" }
func (t *tbImpl) Logf(f string, a ...any)   {}
func (t *tbImpl) Log(a ...any)              {}
func (t *tbImpl) Skipf(string, ...any)      { t.SkipNow() }
func (t *tbImpl) Skip(...any)               { t.SkipNow() }
func (t *tbImpl) SkipNow()                  { runtime.Goexit() }
func (t *tbImpl) Errorf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)) }
func (t *tbImpl) Error(a ...any)            { t.add(fmt.Sprint(a...)) }
func (t *tbImpl) Fatalf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)); runtime.Goexit() }
func (t *tbImpl) Fatal(a ...any)            { t.add(fmt.Sprint(a...)); runtime.Goexit() }
func (t *tbImpl) FailNow()                  { t.Fail(); runtime.Goexit() }
func (t *tbImpl) Fail()                     { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *tbImpl) Failed() bool              { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }
func (t *tbImpl) add(s string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.failed = true
	t.msgs = append(t.msgs, s)
}

type runner struct {
	prop    *Prop
	part    *Part
	res     *ShardResult
	cur     *os.File
	hashes  map[uint64]struct{}
	started atomic.Int64 // unix nano of the running case, 0 if none
	known   map[string]bool
	failErr error
	failRaw []byte
	frozen  bool // stop counting (during shrinking)
}

func (r *runner) one(c any) error {
	raw := encodeCase(c)
	if r.cur != nil {
		var hdr [8]byte
		binary.LittleEndian.PutUint64(hdr[:], uint64(len(raw)))
		_, _ = r.cur.WriteAt(hdr[:], 0)
		_, _ = r.cur.WriteAt(raw, 8)
	}
	ctx := &Ctx{}
	r.started.Store(time.Now().UnixNano())
	err := r.part.SafeCheck(c, ctx)
	r.started.Store(0)

	var v *Violation
	if errors.As(err, &v) && v.Key != "" && r.known[v.Key] {
		r.res.Known[v.Key]++
		err = nil
	}
	if !r.frozen {
		r.res.Evaluations++
		for _, l := range ctx.labels {
			r.res.Labels[r.part.Name+":"+l]++
		}
		if ctx.nontrivial {
			h := hashBytes(raw)
			if _, dup := r.hashes[h]; !dup {
				r.hashes[h] = struct{}{}
				r.res.NonTrivial++
				if n := len(r.hashes); len(r.res.Samples) < 3 && (n == 1 || n%17 == 0) {
					s := string(raw)
					if len(s) > 900 {
						s = s[:900] + "...(cut)"
					}
					r.res.Samples = append(r.res.Samples, s)
				}
			}
		}
	}
	if err != nil {
		r.frozen = true
		r.failErr = err
		r.failRaw = raw
	}
	return err
}

// Worker runs one shard of one part and writes its result file.
func Worker(args []string) int {
	fs := flag.CommandLine
	testing.Init()
	prop := fs.String("prop", "", "")
	part := fs.String("part", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	checks := fs.Int("checks", 0, "")
	seed := fs.String("seed", "1", "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	corpus := fs.String("corpus", "", "")
	hang := fs.Int("hang", int(hangAfter/time.Second), "")
	_ = fs.Parse(args)

	p := registry[*prop]
	pt := p.part(*part)
	if pt == nil {
		fmt.Fprintln(os.Stderr, "no such part")
		return 2
	}
	limitMemory(pt)

	cur, err := os.Create(*out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &runner{prop: p, part: pt, cur: cur, hashes: map[uint64]struct{}{}, known: LoadKnown(*known, *prop),
		res: &ShardResult{Labels: map[string]int{}, Known: map[string]int{}}}

	go watchdog(r, time.Duration(*hang)*time.Second)

	s, _ := strconv.ParseUint(*seed, 10, 64)
	func() {
		if *shard == 0 && *corpus != "" {
			if done := r.runCorpus(*corpus); done {
				return
			}
		}
		if pt.list != nil {
			for i, c := range pt.list(*tier) {
				if i%*shards != *shard {
					continue
				}
				if r.one(c) != nil {
					return
				}
			}
			return
		}
		r.runRapid(s, *checks)
	}()

	if r.failErr != nil {
		r.res.Failed = true
		r.res.Message = r.failErr.Error()
		var v *Violation
		if errors.As(r.failErr, &v) {
			r.res.Key = v.Key
		}
		r.res.Case = r.failRaw
	}
	r.res.Done = true
	b, _ := json.Marshal(r.res)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hb := make([]byte, 0, 8*len(r.hashes))
	for h := range r.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	_ = os.WriteFile(*out+".hashes", hb, 0o644)
	return 0
}

func (r *runner) runCorpus(dir string) (failed bool) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var rf replayFile
		if json.Unmarshal(b, &rf) != nil || rf.Part != r.part.Name || rf.Property != r.prop.ID {
			continue
		}
		c := r.part.newT()
		if err := json.Unmarshal(rf.Case, c); err != nil {
			continue
		}
		r.res.Labels[r.part.Name+":regression-corpus"]++
		if r.one(c) != nil {
			return true
		}
	}
	return false
}

func (r *runner) runRapid(seed uint64, checks int) {
	if checks <= 0 {
		return
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "15s")
	tb := &tbImpl{}
	var firstErr error
	var firstRaw []byte
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			c := r.part.gen(t)
			if err := r.one(c); err != nil {
				if firstErr == nil {
					firstErr, firstRaw = err, append([]byte(nil), r.failRaw...)
				}
				t.Fatalf("violation")
			}
		})
	}()
	<-done
	if r.failErr == nil {
		if tb.failed {
			r.res.Error = fmt.Sprint(tb.msgs)
		}
		return
	}
	// Re-run the shrunk case on its own; a violation that does not repeat is
	// reported with the first case seen.
	for i := 0; i < 20; i++ {
		c := r.part.newT()
		if json.Unmarshal(r.failRaw, c) != nil {
			break
		}
		if err := r.part.SafeCheck(c, &Ctx{}); err != nil {
			r.failErr = err
			return
		}
	}
	r.failErr, r.failRaw = firstErr, firstRaw
	r.res.Note = "the shrunk case does not fail on every run (result depends on more than the input); first failing case recorded"
}

func firstLine(s string) string {
	for i := range s {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

func limitMemory(p *Part) {
	debug.SetMemoryLimit(2 << 30)
	if p.NoMemLimit {
		return
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
}

func watchdog(r *runner, hang time.Duration) {
	for {
		time.Sleep(500 * time.Millisecond)
		s := r.started.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > hang {
			fmt.Fprintln(os.Stderr, "suspected hang")
			os.Exit(3)
		}
	}
}

// ReplayOne runs the case of a replay file once. Exit code 0: passes, 1: fails.
func ReplayOne(path string, knownPath string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[rf.Property]
	if p == nil || p.part(rf.Part) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or part")
		return 2
	}
	pt := p.part(rf.Part)
	c := pt.newT()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limitMemory(pt)
	_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: replayLimitS, Max: replayLimitS + 5})
	n := 1
	if rf.Note != "" {
		n = 200
	}
	for i := 0; i < n; i++ {
		if err := pt.SafeCheck(c, &Ctx{}); err != nil {
			fmt.Printf("FAIL %s/%s: %v\n", rf.Property, rf.Part, err)
			return 1
		}
	}
	fmt.Printf("PASS %s/%s\n", rf.Property, rf.Part)
	return 0
}

func (p *Prop) part(name string) *Part {
	for _, pt := range p.Parts {
		if pt.Name == name {
			return pt
		}
	}
	return nil
}
