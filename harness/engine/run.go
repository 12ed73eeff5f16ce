package engine

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/dict"
)

// Options of a run of one property.
type Options struct {
	Tier  string
	Seed  int64
	Verif string // /verif
	Work  string // scratch directory
	Scale float64
}

// LoadKnown reads the keys of recorded findings of a property.
func LoadKnown(path, prop string) map[string]bool {
	out := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		var id, key string
		for _, w := range strings.Fields(line) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				id = v
			}
			if v, ok := strings.CutPrefix(w, "key="); ok {
				key = v
			}
		}
		if id == prop && key != "" {
			out[key] = true
		}
	}
	return out
}

type job struct {
	part   *Part
	shard  int
	shards int
	checks int
}

type outcome struct {
	job  job
	res  *ShardResult
	code int
	err  string
	out  string
	// not run, because another shard failed
	skipped bool
}

// runWorker runs one shard in a process of its own.
func runWorker(id string, p *Prop, o Options, j job, exe, knownPath, corpus, out string, extra ...string) (oc outcome) {
	args := append([]string{"worker", "-prop", id, "-part", j.part.Name, "-tier", o.Tier,
		"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards), "-checks", strconv.Itoa(j.checks),
		"-seed", strconv.FormatUint(shardSeed(o.Seed, id, j.part.Name, j.shard), 10),
		"-out", out, "-known", knownPath, "-corpus", corpus}, extra...)
	cmd := exec.Command(exe, args...)
	cmd.Env = workerEnv(p.Race)
	var eb strings.Builder
	cmd.Stderr = &limited{b: &eb, n: 16000}
	cmd.Stdout = cmd.Stderr
	if err := cmd.Run(); err != nil {
		oc.code = cmd.ProcessState.ExitCode()
		if oc.code == 0 {
			oc.code = -1
		}
	}
	oc.err = eb.String()
	if b, e := os.ReadFile(out); e == nil {
		var r ShardResult
		if json.Unmarshal(b, &r) == nil {
			oc.res = &r
		}
	}
	return oc
}

// Run decides one property and returns the exit code.
func Run(id string, o Options) int {
	start := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	knownPath := filepath.Join(o.Verif, "known_findings.txt")
	corpus := filepath.Join(o.Verif, "corpus", id)
	if src := os.Getenv("PBT_SRC"); src != "" {
		// the constants of the code under test, for the generators
		path := filepath.Join(o.Work, "dict.json")
		if err := dict.Scan(src).Write(path); err == nil {
			os.Setenv(dict.Env, path)
		}
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var jobs []job
	for _, pt := range p.Parts {
		n, factor := pt.Quick, p.QuickTimes
		if o.Tier == "thorough" {
			n, factor = pt.Thorough, p.ThoroughTimes
		}
		if factor == 0 {
			factor = 5
		}
		n = int(float64(n) * o.Scale * factor)
		shards := 8
		if pt.MaxShards > 0 && pt.MaxShards < shards {
			shards = pt.MaxShards
		}
		if pt.list == nil && n < 64 {
			shards = 1
		}
		for s := 0; s < shards; s++ {
			c := n / shards
			if s < n%shards {
				c++
			}
			jobs = append(jobs, job{pt, s, shards, c})
		}
	}

	results := make([]outcome, len(jobs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			st := stop
			mu.Unlock()
			out := filepath.Join(o.Work, fmt.Sprintf("%s.%d.json", id, i))
			oc := outcome{job: j, out: out}
			if st {
				oc.skipped = true
				results[i] = oc
				return
			}
			oc = runWorker(id, p, o, j, exe, knownPath, corpus, out)
			oc.out, oc.job = out, j
			if (oc.res != nil && oc.res.Failed) || oc.code != 0 {
				mu.Lock()
				stop = true
				mu.Unlock()
			}
			results[i] = oc
		}()
	}
	wg.Wait()

	ev := newEvidence(p, o)
	hashes := map[string]struct{}{}
	known := map[string]int{}
	internal := ""
	type viol struct {
		part, msg, note string
		raw             []byte
	}
	var violations []viol
	// failures first: one violation makes the confirmation of deaths unnecessary
	rank := func(o outcome) int {
		switch {
		case o.skipped:
			return 2
		case o.code != 0:
			return 1
		}
		return 0
	}
	sort.SliceStable(results, func(a, b int) bool { return rank(results[a]) < rank(results[b]) })
	for ri := 0; ri < len(results); ri++ {
		oc := results[ri]
		if oc.skipped {
			// Nothing was confirmed in the end: the shard counts, too
			if len(violations) > 0 || internal != "" {
				continue
			}
			j, out := oc.job, oc.out
			oc = runWorker(id, p, o, j, exe, knownPath, corpus, out, "-hang", "200")
			oc.job, oc.out = j, out
		}
		if oc.res != nil {
			r := oc.res
			ev.evals += r.Evaluations
			for k, v := range r.Labels {
				ev.labels[k] += v
			}
			for _, s := range r.Samples {
				ev.addSample(oc.job.part.Name, s)
			}
			for k, v := range r.Known {
				known[k] += v
			}
			ev.perPart[oc.job.part.Name] += r.Evaluations
			if hb, e := os.ReadFile(oc.out + ".hashes"); e == nil {
				for k := 0; k+8 <= len(hb); k += 8 {
					hashes[fmt.Sprintf("%s/%x", oc.job.part.Name, binary.LittleEndian.Uint64(hb[k:]))] = struct{}{}
				}
			}
			if r.Error != "" {
				internal = fmt.Sprintf("%s/%s shard %d: %s", id, oc.job.part.Name, oc.job.shard, r.Error)
			}
			if r.Failed {
				violations = append(violations, viol{oc.job.part.Name, r.Message, r.Note, r.Case})
			}
		}
		if oc.code != 0 {
			// The worker died (crash, out of memory, suspected hang): run the
			// case it was working on alone; only a repeated death counts.
			if len(violations) > 0 {
				continue // one is enough
			}
			raw := readCur(oc.out + ".cur")
			msg := fmt.Sprintf("worker ended with code %d while running this case: %s", oc.code, firstLines(oc.err, 6))
			if raw != nil {
				rp := filepath.Join(o.Work, "confirm.json")
				writeReplay(rp, id, oc.job.part.Name, msg, "", raw)
				if died, how := confirm(exe, rp, p.Race); died {
					violations = append(violations, viol{oc.job.part.Name, msg + "\nconfirmed alone: " + how, "", raw})
					continue
				}
			}
			if raw != nil && p.Race && strings.Contains(oc.err, "concurrent map") {
				violations = append(violations, viol{oc.job.part.Name, msg, "the failure depends on the schedule", raw})
				continue
			}
			if oc.res == nil && !strings.HasSuffix(oc.out, ".again") {
				// perhaps the machine was short of time or memory
				again := oc.out + ".again"
				second := runWorker(id, p, o, oc.job, exe, knownPath, corpus, again, "-hang", "200")
				second.job, second.out = oc.job, again
				results = append(results, second)
				continue
			}
			internal = fmt.Sprintf("%s/%s shard %d: %s (not reproduced by the case alone)", id, oc.job.part.Name, oc.job.shard, msg)
		}
	}
	ev.distinct = len(hashes)
	ev.known = known
	ev.violations = len(violations)
	if err := ev.write(filepath.Join(o.Verif, "evidence", id+".json"), time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, k, known[k])
	}

	if len(violations) > 0 {
		dir := filepath.Join(o.Verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		seen := map[string]bool{}
		for _, v := range violations {
			if seen[v.part] {
				continue
			}
			seen[v.part] = true
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, strings.ReplaceAll(v.part, " ", "-"), hashBytes(v.raw)))
			writeReplay(path, id, v.part, v.msg, v.note, v.raw)
			fmt.Printf("--- %s/%s\n%s\n", id, v.part, firstLines(v.msg, 40))
			if v.note != "" {
				fmt.Println("note:", v.note)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", internal)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		id, o.Tier, o.Seed, ev.evals, ev.distinct, time.Since(start).Seconds())
	return 0
}

func confirm(exe, replay string, race bool) (bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "replay", replay)
	cmd.Env = workerEnv(race)
	var b strings.Builder
	cmd.Stderr = &limited{b: &b, n: 16000}
	cmd.Stdout = cmd.Stderr
	err := cmd.Run()
	if ctx.Err() != nil {
		return true, "did not finish within 150 s"
	}
	if err == nil {
		return false, ""
	}
	return true, fmt.Sprintf("%v: %s", err, firstLines(b.String(), 12))
}

// workerEnv: with the race detector, all races are counted, and reported to the
// check instead of ending the process.
func workerEnv(race bool) []string {
	env := append(os.Environ(), "GOTRACEBACK=single")
	if race {
		return append(env, "GOMAXPROCS=4", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	}
	return append(env, "GOMAXPROCS=2")
}

func readCur(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)-8) < n {
		return nil
	}
	return b[8 : 8+n]
}

func writeReplay(path, prop, part, msg, note string, raw []byte) {
	b, _ := json.MarshalIndent(replayFile{Property: prop, Part: part, Message: firstLines(msg, 40), Note: note, Case: raw}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

func firstLines(s string, n int) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > n {
		lines = append(lines[:n], "...")
	}
	for i, l := range lines {
		if len(l) > 2000 {
			lines[i] = l[:2000] + "..."
		}
	}
	return strings.Join(lines, "\n")
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if rest := l.n - l.b.Len(); rest > 0 {
		if len(p) > rest {
			l.b.Write(p[:rest])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}

type evidence struct {
	p          *Prop
	o          Options
	evals      int
	distinct   int
	labels     map[string]int
	perPart    map[string]int
	samples    []map[string]any
	perSample  map[string]int
	known      map[string]int
	violations int
}

func newEvidence(p *Prop, o Options) *evidence {
	return &evidence{p: p, o: o, labels: map[string]int{}, perPart: map[string]int{}, perSample: map[string]int{}}
}

func (e *evidence) addSample(part, s string) {
	if e.perSample[part] >= 3 {
		return
	}
	e.perSample[part]++
	m := map[string]any{"part": part}
	var v any
	if json.Unmarshal([]byte(s), &v) == nil {
		m["case"] = v
	} else {
		m["case_text"] = s
	}
	e.samples = append(e.samples, m)
}

func (e *evidence) write(path string, wall time.Duration) error {
	cov := map[string]any{
		"evaluations":         e.evals,
		"distinct_nontrivial": e.distinct,
		"rule":                e.p.Rule,
		"samples":             e.samples,
		"evaluations_by_part": e.perPart,
		"classes":             e.labels,
	}
	if len(e.known) > 0 {
		cov["known_finding_cases"] = e.known
	}
	if e.samples == nil {
		cov["samples"] = []any{}
	}
	m := map[string]any{
		"property":    e.p.ID,
		"tier":        e.o.Tier,
		"seed":        e.o.Seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{}, e.p.Assumptions...),
		"wall_s":      wall.Seconds(),
		"violations":  e.violations,
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
