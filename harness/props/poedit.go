package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog/po"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C23

// colRef is a reference with column.
type colRef struct {
	Path string `json:"p"`
	Line int    `json:"l"`
	Col  int    `json:"c,omitempty"`
}

func (r colRef) po() *po.Reference { return &po.Reference{Path: r.Path, Line: r.Line, Column: r.Col} }

func (r colRef) compare(o colRef) int {
	switch {
	case r.Path != o.Path:
		return strings.Compare(r.Path, o.Path)
	case r.Line != o.Line:
		if r.Line < o.Line {
			return -1
		}
		return 1
	case r.Col < o.Col:
		return -1
	case r.Col > o.Col:
		return 1
	}
	return 0
}

type orderMsg struct {
	Ctx    string         `json:"ctx,omitempty"`
	ID     string         `json:"id"`
	Plural string         `json:"plural,omitempty"`
	Strs   map[int]string `json:"strs,omitempty"`
	Refs   []colRef       `json:"refs,omitempty"`
	Flags  []string       `json:"flags,omitempty"`
	Tr     []string       `json:"tr,omitempty"`
	Ex     []string       `json:"ex,omitempty"`
	PrevID string         `json:"prev,omitempty"`
	Parts  int            `json:"parts,omitempty"` // number of times the message is added
	NoComm bool           `json:"noComm,omitempty"`
}

func (m *orderMsg) sortedRefs() []colRef {
	out := append([]colRef{}, m.Refs...)
	sort.Slice(out, func(i, j int) bool { return out[i].compare(out[j]) < 0 })
	return out
}

func (m *orderMsg) key() string { return m.Ctx + "\x04" + m.ID }

type orderCase struct {
	Fields    []ref.Field `json:"fields"`
	HasHeader bool        `json:"hasHeader"`
	Header    *orderMsg   `json:"header,omitempty"`
	Msgs      []*orderMsg `json:"msgs"`
	Width     int         `json:"width"`
	NoRefs    bool        `json:"noRefs,omitempty"`
	NoEmpty   bool        `json:"noEmpty,omitempty"`
	Sort      string      `json:"sort"` // default, nil, iddesc, ctxid, len
	Seeds     []int64     `json:"seeds"`
}

var orderIDs = []string{"a", "b", "c", "aa", "ab", "B", "é", "z", "10", "9", "a b"}
var orderCtxs = []string{"", "", "", "a", "b", "ctx", "B"}
var orderPaths = []string{"a.go", "b.go", "b.go", "dir/a.go", "A.go", "a.go2", "ü.go"}
var orderLines = []string{"one", "two", "three", "a note", "fuzzy", "see: x"}

func genColRefs(t *rapid.T, max int) []colRef {
	var out []colRef
	seen := map[colRef]bool{}
	for n := intR(t, "nrefs", 0, max); n > 0; n-- {
		r := colRef{Path: pick(t, "path", orderPaths...), Line: pick(t, "line", -1, 0, 1, 2, 9, 10, 11, 100)}
		if r.Line > 0 {
			r.Col = pick(t, "col", 0, 0, 0, 1, 2)
		}
		if !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	return out
}

func genOrderMsg(t *rapid.T) *orderMsg {
	m := &orderMsg{ID: pick(t, "id", orderIDs...), Ctx: pick(t, "ctx", orderCtxs...), Parts: 1}
	if chance(t, "isPlural", 20) {
		m.Plural = pick(t, "plural", "p", "q")
	}
	if chance(t, "hasStr", 70) {
		m.Strs = map[int]string{0: pick(t, "str", "x", "", "some words here")}
		if m.Plural != "" {
			for i := intR(t, "forms", 0, 5); i > 0; i-- {
				m.Strs[i] = fmt.Sprint("f", i)
			}
		}
	}
	if chance(t, "noComm", 10) {
		m.NoComm = true
		return m
	}
	m.Refs = genColRefs(t, 4)
	m.Flags = subset(t, "flag", 25, flagPool)
	m.Tr = subset(t, "tr", 20, orderLines)
	m.Ex = subset(t, "ex", 20, orderLines)
	m.PrevID = pick(t, "prev", "", "", "", "old")
	m.Parts = pick(t, "parts", 1, 1, 1, 2, 3)
	return m
}

func genOrder(t *rapid.T) orderCase {
	c := orderCase{HasHeader: chance(t, "hasHeader", 60), Sort: pick(t, "sort", "default", "default", "default", "default", "nil", "iddesc", "ctxid", "len")}
	if c.HasHeader {
		c.Fields = genFields(t)
		if chance(t, "headerComment", 40) {
			c.Header = &orderMsg{Refs: genColRefs(t, 3), Flags: subset(t, "hflag", 30, flagPool), Tr: subset(t, "htr", 30, orderLines)}
		}
	}
	seen := map[string]bool{}
	for n := intR(t, "nmsgs", 1, 8); n > 0; n-- {
		m := genOrderMsg(t)
		if !seen[m.key()] {
			seen[m.key()] = true
			c.Msgs = append(c.Msgs, m)
		}
	}
	c.Width = pick(t, "width", -1, -1, 0, 1, 10, 40, 80)
	c.NoRefs = chance(t, "noRefs", 15)
	c.NoEmpty = chance(t, "noEmpty", 15)
	for n := intR(t, "norders", 2, 4); n > 0; n-- {
		c.Seeds = append(c.Seeds, int64(intR(t, "seed", 1, 1<<30)))
	}
	return c
}

// fill adds references and flags one by one.
func fill(c *po.Comment, m *orderMsg, refs []colRef, flags []string, r *rand.Rand) {
	c.Translator, c.Extracted, c.PrevMsgID = strings.Join(m.Tr, "\n"), strings.Join(m.Ex, "\n"), m.PrevID
	for _, i := range r.Perm(len(refs)) {
		c.AddReference(refs[i].po())
	}
	for _, i := range r.Perm(len(flags)) {
		c.AddFlag(flags[i])
	}
}

// build adds everything in an order given by the seed.
func (c orderCase) build(seed int64) *po.File {
	r := rand.New(rand.NewSource(seed))
	f := po.NewFile()
	f.Header = nil
	if c.HasHeader {
		f.Header = &po.Header{}
		for _, i := range r.Perm(len(c.Fields)) {
			f.Header.Set(c.Fields[i].Key, c.Fields[i].Val)
		}
		if c.Header != nil {
			f.Header.Comment = po.NewComment()
			fill(f.Header.Comment, c.Header, c.Header.Refs, c.Header.Flags, r)
		}
	}
	var parts []*po.Message
	for _, m := range c.Msgs {
		n := m.Parts
		if n < 1 {
			n = 1
		}
		refs, flags := make([][]colRef, n), make([][]string, n)
		for _, x := range m.Refs {
			k := r.Intn(n)
			refs[k] = append(refs[k], x)
			if k2 := r.Intn(n); k2 != k {
				refs[k2] = append(refs[k2], x)
			}
		}
		for _, x := range m.Flags {
			k := r.Intn(n)
			flags[k] = append(flags[k], x)
			if k2 := r.Intn(n); k2 != k {
				flags[k2] = append(flags[k2], x)
			}
		}
		for k := 0; k < n; k++ {
			pm := po.NewMessage()
			pm.Context, pm.ID, pm.IDPlural = m.Ctx, m.ID, m.Plural
			for i, s := range m.Strs {
				pm.Str[i] = s
			}
			if m.NoComm {
				pm.Comment = nil
			} else {
				fill(pm.Comment, m, refs[k], flags[k], r)
			}
			parts = append(parts, pm)
		}
	}
	for _, i := range r.Perm(len(parts)) {
		f.AddMessage(parts[i])
	}
	return f
}

func (c orderCase) less(a, b *orderMsg) bool {
	switch c.Sort {
	case "iddesc":
		if a.ID != b.ID {
			return a.ID > b.ID
		}
		return a.Ctx < b.Ctx
	case "len":
		if len(a.ID) != len(b.ID) {
			return len(a.ID) < len(b.ID)
		}
		if a.ID != b.ID {
			return a.ID > b.ID
		}
		return a.Ctx > b.Ctx
	case "default":
		x, y := a.sortedRefs(), b.sortedRefs()
		for i := 0; i < len(x) && i < len(y); i++ {
			if d := x[i].compare(y[i]); d != 0 {
				return d < 0
			}
		}
		if len(x) != len(y) {
			return len(x) < len(y)
		}
	}
	if a.Ctx != b.Ctx {
		return a.Ctx < b.Ctx
	}
	return a.ID < b.ID
}

func (c orderCase) encoder(w *bytes.Buffer) *po.Encoder {
	enc := po.NewEncoder(w)
	enc.SetWrapWidth(c.Width)
	enc.SetWriteReferences(!c.NoRefs)
	enc.SetWriteEmptyHeader(!c.NoEmpty)
	switch c.Sort {
	case "default":
	case "nil":
		enc.SetSortFunction(nil)
	default:
		enc.SetSortFunction(func(a, b *po.Message) int {
			x, y := &orderMsg{Ctx: a.Context, ID: a.ID}, &orderMsg{Ctx: b.Context, ID: b.ID}
			switch {
			case c.less(x, y):
				return -1
			case c.less(y, x):
				return 1
			}
			return 0
		})
	}
	return enc
}

// scanEntries lists context and id of the entries of a PO text.
func scanEntries(text string) ([]string, error) {
	var out []string
	ctx := ""
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		kw := ""
		for _, k := range []string{"msgctxt ", "msgid "} {
			if strings.HasPrefix(l, k) {
				kw = k
			}
		}
		if kw == "" {
			continue
		}
		val, err := scanLiteral(strings.TrimPrefix(l, kw))
		if err != nil {
			return nil, err
		}
		for i+1 < len(lines) && strings.HasPrefix(lines[i+1], `"`) {
			i++
			v, err := scanLiteral(lines[i])
			if err != nil {
				return nil, err
			}
			val += v
		}
		if kw == "msgctxt " {
			ctx = val
			continue
		}
		if val != "" {
			out = append(out, ctx+"\x04"+val)
		}
		ctx = ""
	}
	return out, nil
}

func commentState(c *po.Comment) string {
	if c == nil {
		return "none"
	}
	var refs []string
	for _, r := range c.References {
		refs = append(refs, fmt.Sprintf("%s:%d:%d", r.Path, r.Line, r.Column))
	}
	sort.Strings(refs)
	return fmt.Sprintf("%q %q %q %q %q %q", c.Translator, c.Extracted, refs, sortedCopy(c.Flags), c.PrevMsgContext, c.PrevMsgID)
}

// fileState is the content of a file regardless of the order of references
// and flags.
func fileState(f *po.File) string {
	var out []string
	for cx, byID := range f.Messages {
		for id, m := range byID {
			out = append(out, fmt.Sprintf("%q/%q: %s", cx, id, msgState(m)))
		}
	}
	sort.Strings(out)
	if f.Header != nil {
		h := *f.Header
		h.Comment = nil
		out = append(out, fmt.Sprintf("%+v %s", h, commentState(f.Header.Comment)))
	}
	return strings.Join(out, "\n")
}

func msgState(m *po.Message) string {
	return fmt.Sprintf("%q %q %q %q %s", m.Context, m.ID, m.IDPlural, m.Str, commentState(m.Comment))
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "(nothing)"
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d: %q against %q", i+1, x[i], o)
		}
	}
	return fmt.Sprintf("line %d: nothing against more", len(x)+1)
}

func checkC23(c orderCase, ctx *engine.Ctx) error {
	ctx.NonTrivialIf(len(c.Msgs) > 1)
	ctx.Label("sort " + c.Sort)
	parts := false
	for _, m := range c.Msgs {
		parts = parts || m.Parts > 1
	}
	ctx.LabelIf(parts, "merged")
	want := append([]*orderMsg{}, c.Msgs...)
	sort.Slice(want, func(i, j int) bool { return c.less(want[i], want[j]) })
	var wantKeys []string
	for _, m := range want {
		wantKeys = append(wantKeys, m.key())
	}
	first := ""
	for i, seed := range c.Seeds {
		f := c.build(seed)
		before := fileState(f)
		var buf bytes.Buffer
		enc := c.encoder(&buf)
		if err := enc.Encode(f); err != nil {
			return fmt.Errorf("Encode: %v", err)
		}
		text := buf.String()
		if after := fileState(f); after != before {
			return fmt.Errorf("encoding changes the file: %s", firstDiff(before, after))
		}
		keys, err := scanEntries(text)
		if err != nil {
			return fmt.Errorf("%v in\n%s", err, clip(text, 1500))
		}
		if c.Sort == "nil" {
			if !eqStrings(sortedCopy(keys), sortedCopy(wantKeys)) {
				return fmt.Errorf("entries %q, want %q in any order", keys, wantKeys)
			}
			continue
		}
		if !eqStrings(keys, wantKeys) {
			return fmt.Errorf("entries are in order %q, want %q\n%s", keys, wantKeys, clip(text, 1500))
		}
		if i == 0 {
			first = text
		}
		if text != first {
			return fmt.Errorf("another order of additions gives other bytes: %s", firstDiff(text, first))
		}
		// again with the same encoder, and with a new one
		buf.Reset()
		if err := enc.Encode(f); err != nil || buf.String() != first {
			return fmt.Errorf("the second encoding gives other bytes (%v): %s", err, firstDiff(buf.String(), first))
		}
		buf.Reset()
		if err := c.encoder(&buf).Encode(f); err != nil || buf.String() != first {
			return fmt.Errorf("a second encoder gives other bytes (%v): %s", err, firstDiff(buf.String(), first))
		}
	}
	f := c.build(c.Seeds[0])
	a, err := po.Marshal(f)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	b, err := po.Marshal(c.build(c.Seeds[len(c.Seeds)-1]))
	if err != nil || string(a) != string(b) {
		return fmt.Errorf("Marshal gives other bytes (%v): %s", err, firstDiff(string(a), string(b)))
	}
	var buf bytes.Buffer
	if err := po.NewEncoder(&buf).Encode(f); err != nil || buf.String() != string(a) {
		return fmt.Errorf("Marshal differs from the default encoder (%v): %s", err, firstDiff(buf.String(), string(a)))
	}
	return nil
}

type parseOrderCase struct {
	Base poFileCase `json:"base"`
	Perm []int      `json:"perm"`
}

func genParseOrder(t *rapid.T) parseOrderCase {
	c := parseOrderCase{Base: genPoFile(t)}
	c.Base.NoSort = false
	c.Perm = perm(t, "perm", len(c.Base.Msgs))
	return c
}

// checkParseOrder: the order of the entries of a file has no influence on
// its encoding.
func checkParseOrder(c parseOrderCase, ctx *engine.Ctx) error {
	if len(c.Base.Msgs) < 2 {
		return nil
	}
	ctx.NonTrivial()
	hdr := ref.HeaderMsg(c.Base.Fields)
	text := func(msgs []*ref.Msg) (string, error) {
		f, err := po.Parse([]byte((&ref.Layout{Plain: true}).Render(hdr, msgs)))
		if err != nil {
			return "", err
		}
		return c.Base.encode(f)
	}
	var other []*ref.Msg
	for _, i := range c.Perm {
		other = append(other, c.Base.Msgs[i])
	}
	a, errA := text(c.Base.Msgs)
	b, errB := text(other)
	if errA != nil || errB != nil {
		return fmt.Errorf("parse or encode: %v %v", errA, errB)
	}
	if a != b {
		return fmt.Errorf("another order of the entries gives other bytes: %s", firstDiff(a, b))
	}
	return nil
}

// failWriter fails after some bytes.
// ---------------------------------------------------------------- C24

type editOp struct {
	Kind string    `json:"kind"`
	Ctx  string    `json:"ctx,omitempty"`
	ID   string    `json:"id,omitempty"`
	Msg  *orderMsg `json:"msg,omitempty"`
	Flag string    `json:"flag,omitempty"`
	Ref  *colRef   `json:"ref,omitempty"`
	Nil  bool      `json:"nil,omitempty"`
}

type editCase struct {
	Zero bool     `json:"zero,omitempty"` // start with po.File{}
	Ops  []editOp `json:"ops"`
}

func genEditMsg(t *rapid.T, repeated bool) *orderMsg {
	m := genOrderMsg(t)
	m.ID = pick(t, "eid", "", "a", "a", "b", "b", "c", "a b")
	m.Ctx = pick(t, "ectx", "", "", "x", "y")
	if repeated && chance(t, "repeats", 20) {
		again := func(name string, l []string) []string {
			if len(l) > 0 && chance(t, name, 60) {
				l = append(l, l[intR(t, name+"At", 0, len(l)-1)])
			}
			return l
		}
		m.Tr, m.Ex, m.Flags = again("trAgain", m.Tr), again("exAgain", m.Ex), again("flagAgain", m.Flags)
		if len(m.Refs) > 0 && chance(t, "refAgain", 50) {
			m.Refs = append(m.Refs, m.Refs[intR(t, "refAgainAt", 0, len(m.Refs)-1)])
		}
	}
	return m
}

func repeats[T comparable](l []T) bool {
	seen := map[T]bool{}
	for _, x := range l {
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	return false
}

func unique(l []string) []string {
	return slices.Compact(sortedCopy(l))
}

func genEdit(t *rapid.T) editCase {
	c := editCase{Zero: chance(t, "zero", 20)}
	for n := intR(t, "nops", 1, 14); n > 0; n-- {
		o := editOp{Kind: pick(t, "kind", "add", "add", "add", "addTo", "merge", "merge", "mergeComment", "flag", "ref", "msgRef", "has", "get", "encode"),
			Ctx: pick(t, "octx", "", "", "x", "y"), ID: pick(t, "oid", "a", "a", "b", "b", "c", "", "nope")}
		switch o.Kind {
		case "add", "merge", "mergeComment":
			o.Msg = genEditMsg(t, true)
			o.Nil = o.Kind != "add" && chance(t, "nilMsg", 8)
		case "addTo":
			o.Msg = genEditMsg(t, true)
			if o.Msg.ID == "" {
				o.Msg.ID = "a"
			}
		case "flag", "has":
			o.Flag = pick(t, "flag", flagPool...)
		case "ref", "msgRef":
			r := genColRefs(t, 1)
			if len(r) == 0 {
				r = []colRef{{Path: "a.go", Line: 1}}
			}
			o.Ref = &r[0]
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// editState is the model of one stored message.
type editState struct {
	m     orderMsg
	refs  map[colRef]int
	flags map[string]bool
	tr    map[string]bool
	ex    map[string]bool
	// what the message was stored with is not required to be free of repetitions
	dupRefs, dupFlags, dupTr, dupEx bool
}

func newEditState(m *orderMsg) *editState {
	s := &editState{m: *m, refs: map[colRef]int{}, flags: map[string]bool{}, tr: map[string]bool{}, ex: map[string]bool{},
		dupRefs: repeats(m.Refs), dupFlags: repeats(m.Flags), dupTr: repeats(m.Tr), dupEx: repeats(m.Ex)}
	s.mergeComment(m)
	return s
}

func (s *editState) mergeComment(m *orderMsg) {
	for _, r := range m.Refs {
		if s.refs[r] == 0 {
			s.refs[r] = 1
		}
	}
	for _, f := range m.Flags {
		s.flags[f] = true
	}
	for _, l := range m.Tr {
		s.tr[l] = true
	}
	for _, l := range m.Ex {
		s.ex[l] = true
	}
}

func (s *editState) merge(m *orderMsg) {
	s.mergeComment(m)
	if s.m.Plural == "" {
		s.m.Plural = m.Plural
	}
}

func lineSet(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return out
}

func (s *editState) compare(pm *po.Message) error {
	if pm == nil {
		return fmt.Errorf("not found")
	}
	if pm.Context != s.m.Ctx || pm.ID != s.m.ID {
		return fmt.Errorf("is (%q, %q)", pm.Context, pm.ID)
	}
	if pm.IDPlural != s.m.Plural {
		return fmt.Errorf("plural %q, want %q", pm.IDPlural, s.m.Plural)
	}
	if len(pm.Str) != len(s.m.Strs) {
		return fmt.Errorf("translations %q, want %q", pm.Str, s.m.Strs)
	}
	for i, x := range s.m.Strs {
		if pm.Str[i] != x {
			return fmt.Errorf("translations %q, want %q", pm.Str, s.m.Strs)
		}
	}
	c := pm.Comment
	if c == nil {
		c = &po.Comment{}
	}
	loose := func(l []string, dup bool) []string {
		if dup {
			return unique(l)
		}
		return l
	}
	if got, want := loose(lineSet(c.Translator), s.dupTr), sortedKeys(s.tr); !eqStrings(got, want) {
		return fmt.Errorf("translator comment lines %q, want %q", got, want)
	}
	if got, want := loose(lineSet(c.Extracted), s.dupEx), sortedKeys(s.ex); !eqStrings(got, want) {
		return fmt.Errorf("extracted comment lines %q, want %q", got, want)
	}
	if got, want := loose(sortedCopy(c.Flags), s.dupFlags), sortedKeys(s.flags); !eqStrings(got, want) {
		return fmt.Errorf("flags %q, want %q", got, want)
	}
	for _, f := range append(sortedKeys(s.flags), "nope", "") {
		if c.HasFlag(f) != s.flags[f] {
			return fmt.Errorf("HasFlag(%q) is %v", f, c.HasFlag(f))
		}
	}
	got := map[colRef]int{}
	for _, r := range c.References {
		got[colRef{r.Path, r.Line, r.Column}]++
	}
	wantRefs, gotRefs := fmt.Sprint(sortRefs(s.refs)), fmt.Sprint(sortRefs(got))
	if s.dupRefs {
		wantRefs, gotRefs = fmt.Sprint(sortedRefKeys(s.refs)), fmt.Sprint(sortedRefKeys(got))
	}
	if wantRefs != gotRefs {
		return fmt.Errorf("references %v, want %v", sortRefs(got), sortRefs(s.refs))
	}
	if c.PrevMsgID != s.m.PrevID || c.PrevMsgContext != "" {
		return fmt.Errorf("previous (%q, %q), want (%q, %q)", c.PrevMsgContext, c.PrevMsgID, "", s.m.PrevID)
	}
	return nil
}

func sortedRefKeys(m map[colRef]int) []string {
	var out []string
	for r := range m {
		out = append(out, fmt.Sprintf("%s:%d:%d", r.Path, r.Line, r.Col))
	}
	sort.Strings(out)
	return out
}

func sortRefs(m map[colRef]int) []string {
	var out []string
	for r, n := range m {
		out = append(out, fmt.Sprintf("%s:%d:%d x%d", r.Path, r.Line, r.Col, n))
	}
	sort.Strings(out)
	return out
}

func (m *orderMsg) message() *po.Message {
	pm := po.NewMessage()
	pm.Context, pm.ID, pm.IDPlural = m.Ctx, m.ID, m.Plural
	for i, s := range m.Strs {
		pm.Str[i] = s
	}
	if m.NoComm {
		pm.Comment = nil
		return pm
	}
	pm.Comment.Translator, pm.Comment.Extracted, pm.Comment.PrevMsgID = strings.Join(m.Tr, "\n"), strings.Join(m.Ex, "\n"), m.PrevID
	for _, r := range m.Refs {
		pm.Comment.References = append(pm.Comment.References, r.po())
	}
	pm.Comment.Flags = append(pm.Comment.Flags, m.Flags...)
	return pm
}

func checkC24(c editCase, ctx *engine.Ctx) error {
	f := po.NewFile()
	if c.Zero {
		f = &po.File{}
	}
	model := map[[2]string]*editState{}
	for i, o := range c.Ops {
		what := fmt.Sprintf("operation %d (%s)", i+1, o.Kind)
		key := [2]string{o.Ctx, o.ID}
		stored, st := f.GetMessage(o.Ctx, o.ID), model[key]
		if (stored != nil) != (st != nil) {
			return fmt.Errorf("%s: GetMessage(%q, %q) is %v, want a message: %v", what, o.Ctx, o.ID, stored, st != nil)
		}
		// merges and additions leave the argument as it is
		switch o.Kind {
		case "add", "addTo":
			pm := o.Msg.message()
			before := msgState(pm)
			if o.Kind == "add" {
				f.AddMessage(pm)
			} else {
				if f.Messages == nil {
					f.Messages = po.Messages{}
				}
				f.Messages.Add(pm)
			}
			k := [2]string{o.Msg.Ctx, o.Msg.ID}
			switch {
			case o.Msg.ID == "":
			case model[k] == nil:
				model[k] = newEditState(o.Msg)
			default:
				ctx.NonTrivial()
				model[k].merge(o.Msg)
				if s := msgState(pm); s != before {
					return fmt.Errorf("%s changes the message given: %s, before %s", what, s, before)
				}
				// once more changes nothing
				state := fileState(f)
				f.AddMessage(pm)
				if s := fileState(f); s != state {
					return fmt.Errorf("%s: adding the message a second time changes the file: %s", what, firstDiff(state, s))
				}
			}
		case "merge", "mergeComment":
			if stored == nil {
				continue
			}
			ctx.NonTrivial()
			if o.Nil {
				state := fileState(f)
				if o.Kind == "merge" {
					stored.Merge(nil)
				} else if stored.Comment != nil {
					stored.Comment.Merge(nil)
				}
				if s := fileState(f); s != state && !strings.Contains(state, "none") {
					return fmt.Errorf("%s: merging nil changes the file: %s", what, firstDiff(state, s))
				}
				continue
			}
			pm := o.Msg.message()
			before := msgState(pm)
			for n := 0; n < 2; n++ {
				if o.Kind == "merge" {
					stored.Merge(pm)
					st.merge(o.Msg)
				} else if stored.Comment != nil {
					stored.Comment.Merge(pm.Comment)
					st.mergeComment(o.Msg)
				}
				if s := msgState(pm); s != before {
					return fmt.Errorf("%s changes the message given: %s, before %s", what, s, before)
				}
				if err := st.compare(stored); err != nil {
					return fmt.Errorf("%s, time %d: %w", what, n+1, err)
				}
			}
		case "flag":
			if stored != nil && stored.Comment != nil {
				stored.Comment.AddFlag(o.Flag)
				st.flags[o.Flag] = true
			}
		case "ref":
			if stored != nil && stored.Comment != nil {
				stored.Comment.AddReference(o.Ref.po())
				st.refs[*o.Ref]++
			}
		case "msgRef":
			if stored != nil {
				stored.AddReference(o.Ref.po())
				st.refs[*o.Ref]++
			}
		case "has":
			if stored != nil && stored.Comment != nil && stored.Comment.HasFlag(o.Flag) != st.flags[o.Flag] {
				return fmt.Errorf("%s: HasFlag(%q) is %v", what, o.Flag, !st.flags[o.Flag])
			}
		case "encode":
			if len(f.Messages) > 0 {
				if _, err := po.Marshal(f); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			}
		}
		n := 0
		for _, byID := range f.Messages {
			n += len(byID)
		}
		if n != len(model) {
			return fmt.Errorf("%s: %d messages, want %d", what, n, len(model))
		}
		for k, s := range model {
			if err := s.compare(f.GetMessage(k[0], k[1])); err != nil {
				return fmt.Errorf("%s: message (%q, %q): %w", what, k[0], k[1], err)
			}
		}
	}
	return nil
}

type unionCase struct {
	Msgs  []*orderMsg `json:"msgs"`
	Perms [][]int     `json:"perms"`
}

func genUnion(t *rapid.T) unionCase {
	c := unionCase{}
	plurals := map[string]string{}
	for n := intR(t, "nmsgs", 2, 9); n > 0; n-- {
		m := genEditMsg(t, false)
		m.Strs = nil
		if m.Plural != "" {
			if p, ok := plurals[m.key()]; ok {
				m.Plural = p
			}
			plurals[m.key()] = m.Plural
		}
		c.Msgs = append(c.Msgs, m)
	}
	c.Perms = [][]int{perm(t, "p1", len(c.Msgs)), perm(t, "p2", len(c.Msgs))}
	return c
}

// checkUnion: the merged sets do not depend on the order of additions.
func checkUnion(c unionCase, ctx *engine.Ctx) error {
	model := map[[2]string]*editState{}
	merged := false
	for _, m := range c.Msgs {
		k := [2]string{m.Ctx, m.ID}
		switch {
		case m.ID == "":
		case model[k] == nil:
			model[k] = newEditState(m)
		default:
			merged = true
			model[k].merge(m)
		}
	}
	ctx.NonTrivialIf(merged)
	for _, p := range c.Perms {
		f := po.NewFile()
		for _, i := range p {
			f.AddMessage(c.Msgs[i].message())
		}
		n := 0
		for _, byID := range f.Messages {
			n += len(byID)
		}
		if n != len(model) {
			return fmt.Errorf("order %v: %d messages, want %d", p, n, len(model))
		}
		for k, s := range model {
			got := f.GetMessage(k[0], k[1])
			if got != nil && got.Comment != nil {
				// the previous id of the message added first stays
				got.Comment.PrevMsgID = s.m.PrevID
			}
			if got != nil && got.Comment == nil {
				s2 := *s
				s2.m.PrevID = ""
				s = &s2
			}
			if err := s.compare(got); err != nil {
				return fmt.Errorf("order %v: message (%q, %q): %w", p, k[0], k[1], err)
			}
		}
	}
	return nil
}

type headerOp struct {
	Get bool   `json:"get,omitempty"`
	Key string `json:"key"`
	Val string `json:"val"`
}

type headerCase struct {
	Preset []ref.Field `json:"preset"`
	Ops    []headerOp  `json:"ops"`
}

func genCasing(t *rapid.T, s string) string {
	switch intR(t, "casing", 0, 4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if chance(t, "flip", 50) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func genHeaderOps(t *rapid.T) headerCase {
	c := headerCase{}
	if chance(t, "preset", 30) {
		for _, k := range subset(t, "presetKey", 40, extraHeaders) {
			c.Preset = append(c.Preset, ref.Field{Key: k, Val: pick(t, "presetVal", "p", "q", "")})
		}
	}
	keys := append(append([]string{}, stdHeaders...), extraHeaders...)
	for n := intR(t, "nops", 1, 16); n > 0; n-- {
		k := pick(t, "key", keys...)
		c.Ops = append(c.Ops, headerOp{Get: chance(t, "get", 40), Key: genCasing(t, k), Val: genHeaderVal(t)})
	}
	return c
}

func checkHeaderOps(c headerCase, ctx *engine.Ctx) error {
	h := &po.Header{}
	model := map[string]string{}
	for _, p := range c.Preset {
		if h.UnknownFields == nil {
			h.UnknownFields = map[string]string{}
		}
		h.UnknownFields[p.Key] = p.Val
		model[strings.ToLower(p.Key)] = p.Val
	}
	sets := 0
	for i, o := range c.Ops {
		if !o.Get {
			h.Set(o.Key, o.Val)
			model[strings.ToLower(o.Key)] = o.Val
			sets++
		}
		if got, want := h.Get(o.Key), model[strings.ToLower(o.Key)]; got != want {
			return fmt.Errorf("operation %d: Get(%q) is %q, want %q", i+1, o.Key, got, want)
		}
	}
	ctx.NonTrivialIf(sets > 1)
	for k, want := range model {
		for _, s := range []string{k, strings.ToUpper(k)} {
			if got := h.Get(s); got != want {
				return fmt.Errorf("Get(%q) is %q, want %q", s, got, want)
			}
		}
	}
	// the fields behind the names
	for k, got := range map[string]string{po.HeaderProjectIDVersion: h.ProjectIDVersion, po.HeaderReportMsgIDBugsTo: h.ReportMsgidBugsTo,
		po.HeaderPOTCreationDate: h.POTCreationDate, po.HeaderPORevisionDate: h.PORevisionDate, po.HeaderLastTranslator: h.LastTranslator,
		po.HeaderLanguageTeam: h.LanguageTeam, po.HeaderLanguage: h.Language, po.HeaderMIMEVersion: h.MimeVersion, po.HeaderContentType: h.ContentType,
		po.HeaderContentTransferEncoding: h.ContentTransferEncoding, po.HeaderPluralForms: h.PluralForms, po.HeaderXGenerator: h.XGenerator} {
		if want := model[strings.ToLower(k)]; got != want {
			return fmt.Errorf("the field of %q is %q, want %q", k, got, want)
		}
	}
	// written and read again
	f := po.NewFile()
	f.Header = h
	data, err := po.Marshal(f)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	back, err := po.Parse(data)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, data)
	}
	for k, want := range model {
		if got := back.Header.Get(k); got != want {
			return fmt.Errorf("written and read again, Get(%q) is %q, want %q\n%s", k, got, want, data)
		}
		if n := strings.Count(strings.ToLower("\n"+string(data)), "\n\""+k+":"); n != 1 && !(n == 0 && want == "") {
			return fmt.Errorf("the header has %d fields %q, want one\n%s", n, k, data)
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C23",
		QuickTimes: 5, ThoroughTimes: 6,
		Rule: "files whose messages, references (with columns, and equal up to the column), flags and header fields are added in 2-4 random orders, also in several overlapping parts that are merged; all encodings must be equal byte for byte, entries scanned from the text must be in the order of a reference sort; non-trivial: at least two messages. Parsed files with permuted entries (at least two) and writers failing after n bytes (failing)",
		Assumptions: []string{
			"references and flags are added with AddReference and AddFlag or by merging",
			"without a sort function the order of the messages is not specified",
		},
		Parts: []*engine.Part{
			engine.Gen("orders", 4000, 150000, genOrder, checkC23),
			engine.Gen("parsed", 2500, 80000, genParseOrder, checkParseOrder),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C24",
		QuickTimes: 10, ThoroughTimes: 12,
		Rule: "histories of additions, merges (of nil, of messages without comment), flags, references and retrievals on a file against a model of sets, additions in permuted orders against the union, and header sets and gets in any casing against a map; non-trivial: something was merged, more than one field set",
		Assumptions: []string{
			"the plural of a stored message stays, unless it has none",
			"comment lines have no surrounding white space; blank lines are not counted",
		},
		Parts: []*engine.Part{
			engine.Gen("histories", 6000, 200000, genEdit, checkC24),
			engine.Gen("union", 4000, 120000, genUnion, checkUnion),
			engine.Gen("header", 4000, 120000, genHeaderOps, checkHeaderOps),
		},
	})
}
