// Package engine runs generated-input properties: seeded random search with
// shrinking (rapid), isolation of every shard in its own process, replay of
// single cases, and the evidence file.
package engine

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Ctx collects what one case exercised.
type Ctx struct {
	nontrivial bool
	labels     []string
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial if cond holds.
func (c *Ctx) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Label counts the case in a class.
func (c *Ctx) Label(s string) { c.labels = append(c.labels, s) }

// LabelIf counts the case in a class if cond holds.
func (c *Ctx) LabelIf(cond bool, s string) {
	if cond {
		c.labels = append(c.labels, s)
	}
}

// Part is one generated check of a property; a property has one or more.
type Part struct {
	Name string
	// Quick and Thorough are the numbers of cases generated per tier.
	Quick, Thorough int
	// MaxShards limits the parallel processes (0: default).
	MaxShards int
	// NoMemLimit disables the address space limit (race builds).
	NoMemLimit bool

	gen   func(t *rapid.T) any
	newT  func() any
	check func(c any, ctx *Ctx) error
	list  func(tier string) []any
}

// Prop is one property.
type Prop struct {
	ID          string
	Rule        string // how cases are made, and what is non-trivial
	Assumptions []string
	Race        bool // needs the race-detector build
	Parts       []*Part
	// QuickTimes and ThoroughTimes multiply the numbers of cases of the parts
	// (default 5).
	QuickTimes, ThoroughTimes float64
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if _, dup := registry[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// IDs lists all registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Gen defines a randomly generated part.
func Gen[T any](name string, quick, thorough int, gen func(t *rapid.T) T, check func(c T, ctx *Ctx) error) *Part {
	return &Part{
		Name: name, Quick: quick, Thorough: thorough,
		gen:  func(t *rapid.T) any { return gen(t) },
		newT: func() any { return new(T) },
		check: func(c any, ctx *Ctx) error {
			switch v := c.(type) {
			case T:
				return check(v, ctx)
			case *T:
				return check(*v, ctx)
			}
			return fmt.Errorf("engine: wrong case type %T", c)
		},
	}
}

// List defines an enumerated part: every listed case is run on every run.
func List[T any](name string, list func(tier string) []T, check func(c T, ctx *Ctx) error) *Part {
	p := Gen[T](name, 0, 0, nil, check)
	p.gen = nil
	p.list = func(tier string) []any {
		var out []any
		for _, c := range list(tier) {
			out = append(out, c)
		}
		return out
	}
	return p
}

// Violation is an error that carries a stable key, so that recorded findings
// can be told apart from others.
type Violation struct {
	Key string
	Msg string
}

func (v *Violation) Error() string { return v.Msg }

// Keyf builds a keyed violation.
func Keyf(key, format string, args ...any) error {
	return &Violation{Key: key, Msg: fmt.Sprintf(format, args...)}
}

// SafeCheck runs the check of a part and turns panics into errors.
func (p *Part) SafeCheck(c any, ctx *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	return p.check(c, ctx)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// drop the frames of the recovery itself
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Protect runs f and reports a panic as an error.
func Protect(what string, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return nil
}

func encodeCase(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("engine: case not serialisable: %v", err))
	}
	return b
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func shardSeed(seed int64, prop, part string, shard int) uint64 {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, part, shard)
	s := splitmix(h.Sum64())
	s &= math.MaxInt64
	if s == 0 {
		s = 1
	}
	return s
}

var errStop = errors.New("stop")
