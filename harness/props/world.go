package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"

	"verif/harness/ref"
)

// A world is a bundle as the user configures it, with the content of all its
// catalogs; the model below answers every lookup from this description.
type world struct {
	Domains []string   `json:"domains"`
	Default *string    `json:"default,omitempty"`
	ErrCtx  *string    `json:"errCtx,omitempty"`
	Steps   []step     `json:"steps"`
	Cats    []*catSpec `json:"cats"`
	FS      bool       `json:"fs,omitempty"`
}

type step struct {
	Kind string   `json:"kind"` // source, fallback, lang, req
	Tags []string `json:"tags"`
	Str  bool     `json:"str,omitempty"` // passed as string
}

type catSpec struct {
	Lang    string     `json:"lang"`
	Domain  string     `json:"domain"`
	Format  string     `json:"format"`           // po, mo, json
	Header  string     `json:"header,omitempty"` // plural forms
	UseCLDR string     `json:"useCldr,omitempty"`
	NoField string     `json:"noField,omitempty"` // a header line that is not a field
	DecCLDR bool       `json:"decCldr,omitempty"`
	NoHdr   bool       `json:"noHdr,omitempty"` // no header entry at all
	Msgs    []*ref.Msg `json:"msgs"`            // for json, forms are keyed by category index
}

var worldTags = []string{"de", "de-AT", "en", "en-GB", "fr", "pl", "ru", "ar", "pt", "pt-PT", "zh-Hans", "zh-Hant", "sr", "sr-Latn", "ja", "cs", "lv", "ga", "es", "tlh", "qaa", "cy"}
var worldFormulas = []string{
	"nplurals=2; plural=(n != 1);",
	"nplurals=1; plural=0;",
	"nplurals=2; plural=(n > 1);",
	"nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
	"nplurals=3; plural=n%3;",
	"nplurals=2; plural=(n == 1);",
	"nplurals=4; plural=n==1 ? 3 : n==2 ? 2 : n>10 ? 0 : 1;",
	"nplurals=6; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5);",
}

var worldForms = map[string]*ref.PluralForms{}

func init() {
	for _, f := range worldFormulas {
		pf, err := ref.ParsePluralForms(f)
		if err != nil {
			panic(err)
		}
		worldForms[f] = pf
	}
}

// numVal is a count in one of its Go representations.
type numVal struct {
	V   int64  `json:"v"`
	Rep string `json:"rep,omitempty"`
}

func (n numVal) any() any {
	switch n.Rep {
	case "int64":
		return n.V
	case "int32":
		return int32(n.V)
	case "uint":
		if n.V >= 0 {
			return uint(n.V)
		}
	case "uint8":
		if n.V >= 0 && n.V < 256 {
			return uint8(n.V)
		}
	case "float64":
		return float64(n.V)
	case "string":
		return fmt.Sprint(n.V)
	case "named":
		return namedInt(n.V)
	case "ptr":
		v := int(n.V)
		return &v
	case "bad":
		return "no number"
	case "nil":
		return nil
	}
	return int(n.V)
}

func (n numVal) bad() bool { return n.Rep == "bad" || n.Rep == "nil" }

func genNumVal(t *rapid.T, badPercent int) numVal {
	v := int64(0)
	switch intR(t, "nk", 0, 4) {
	case 4:
		v = sourceInt(t, "n", 1<<31-1)
	case 0:
		v = int64(intR(t, "n", 0, 4))
	case 1:
		v = int64(intR(t, "n", 0, 130))
	case 2:
		v = int64(intR(t, "n", -12, 25))
	case 3:
		v = pick(t, "n", int64(1000000), 1000, 2000000, 101, 111, 1001, 5000001)
	}
	n := numVal{V: v, Rep: pick(t, "rep", "int", "int", "int64", "int32", "uint", "uint8", "float64", "string", "named", "ptr")}
	if chance(t, "bad", badPercent) {
		n.Rep = pick(t, "badRep", "bad", "nil")
	}
	return n
}

func abs(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

// form is the reference plural form of a catalog: an index, and for json the
// category index.
func (c *catSpec) form(n int64) int {
	tag := language.MustParse(c.Lang)
	g, hasRules := cldrFor(tag)
	o, _ := ref.OperandsOf(fmt.Sprint(abs(n)))
	if c.Format == "json" {
		return ref.CatIndex(g.Category(o))
	}
	if c.NoHdr || c.Header == "" || (hasRules && (c.DecCLDR || strings.EqualFold(c.UseCLDR, "true"))) {
		return g.Form(o)
	}
	zero := false
	return int(worldForms[c.Header].E.Eval(abs(n), &zero))
}

func (c *catSpec) nforms() []int {
	g, hasRules := cldrFor(language.MustParse(c.Lang))
	if c.Format == "json" {
		var out []int
		for _, n := range g.Cats {
			out = append(out, ref.CatIndex(n))
		}
		return out
	}
	n := len(g.Cats)
	if !(c.NoHdr || c.Header == "" || (hasRules && (c.DecCLDR || strings.EqualFold(c.UseCLDR, "true")))) {
		n = worldForms[c.Header].N
	}
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// file renders the catalog.
func (c *catSpec) file() []byte {
	var fields []ref.Field
	if c.Header != "" {
		fields = append(fields, ref.Field{Key: "Plural-Forms", Val: c.Header})
	}
	if c.UseCLDR != "" {
		fields = append(fields, ref.Field{Key: "X-spreak-use-CLDR", Val: c.UseCLDR})
	}
	fields = append(fields, ref.Field{Key: "Content-Type", Val: "text/plain; charset=UTF-8"})
	hdr := ref.HeaderMsg(fields)
	if c.NoHdr {
		hdr = nil
	}
	switch c.Format {
	case "mo":
		return ref.WriteMO(ref.MoEntries(hdr, c.Msgs), ref.MoLayout{Sorted: true})
	case "json":
		return renderJSON(c.Msgs)
	}
	return []byte((&ref.Layout{Plain: true}).Render(hdr, c.Msgs))
}

// renderJSON writes a JSON catalog: a plain string if there is only 'other'
// and nothing else.
func renderJSON(msgs []*ref.Msg) []byte {
	doc := map[string]any{}
	for _, m := range msgs {
		key := m.ID
		if m.Ctx != "" {
			key += "_" + m.Ctx
		}
		if len(m.Strs) == 1 && m.Ctx == "" {
			doc[key] = m.Strs[5]
			continue
		}
		obj := map[string]string{}
		for i, s := range m.Strs {
			obj[strings.ToLower(ref.CatNames[i])] = s
		}
		if m.Ctx != "" {
			obj["context"] = m.Ctx
		}
		doc[key] = obj
	}
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	return b
}

func (c *catSpec) decoder() catalog.Decoder {
	switch {
	case c.Format == "mo" && c.DecCLDR:
		return catalog.NewMoCLDRDecoder()
	case c.Format == "mo":
		return catalog.NewMoDecoder()
	case c.Format == "json":
		return catalog.NewJSONDecoder()
	case c.DecCLDR:
		return catalog.NewPoCLDRDecoder()
	}
	return catalog.NewPoDecoder()
}

type loaderFunc func(lang language.Tag, domain string) (catalog.Catalog, error)

func (f loaderFunc) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	return f(lang, domain)
}

func (w *world) spec(lang, domain string) *catSpec {
	for _, c := range w.Cats {
		if c.Lang == lang && c.Domain == domain {
			return c
		}
	}
	return nil
}

// miss is a failing step of a lookup.
type miss struct {
	Kind   string
	Lang   string
	Domain string
	Ctx    string
	ID     string
	Idx    int
	JSON   bool
	Alt    string // a second kind that is as good
}

func (m miss) String() string {
	return fmt.Sprintf("%s(lang=%s domain=%q ctx=%q id=%q idx=%d)", m.Kind, m.Lang, m.Domain, m.Ctx, m.ID, m.Idx)
}

// matches compares an error of the library with the model's step.
func (m miss) matches(err error) bool {
	kinds := []string{m.Kind}
	if m.Alt != "" {
		kinds = append(kinds, m.Alt)
	}
	idOK := func(id string) bool { return id == m.ID || m.JSON && m.Ctx != "" && id == m.ID+"_"+m.Ctx }
	for _, k := range kinds {
		switch k {
		case "domain":
			var e *spreak.ErrMissingDomain
			if errors.As(err, &e) && e.Language.String() == m.Lang && e.Domain == m.Domain {
				return true
			}
		case "context":
			var e *catalog.ErrMissingContext
			if errors.As(err, &e) && e.Language.String() == m.Lang && e.Domain == m.Domain && e.Context == m.Ctx {
				return true
			}
		case "id":
			var e *catalog.ErrMissingMessageID
			if errors.As(err, &e) && e.Language.String() == m.Lang && e.Domain == m.Domain && e.Context == m.Ctx && idOK(e.MsgID) {
				return true
			}
		case "translation":
			var e *catalog.ErrMissingTranslation
			if errors.As(err, &e) && e.Language.String() == m.Lang && e.Domain == m.Domain && e.Context == m.Ctx && idOK(e.MsgID) && (m.JSON || e.Idx == m.Idx) {
				return true
			}
		case "number":
			var d *spreak.ErrMissingDomain
			var c *catalog.ErrMissingContext
			var i *catalog.ErrMissingMessageID
			var tr *catalog.ErrMissingTranslation
			if err != nil && !errors.As(err, &d) && !errors.As(err, &c) && !errors.As(err, &i) && !errors.As(err, &tr) {
				return true
			}
		}
	}
	return false
}

// find looks an entry up in one catalog.
func (c *catSpec) find(ctx, id string, plural bool, n numVal) (string, *miss) {
	m := &miss{Lang: c.Lang, Domain: c.Domain, Ctx: ctx, ID: id, JSON: c.Format == "json"}
	if plural && n.bad() {
		m.Kind = "number"
		return "", m
	}
	var hasCtx, ctxOnlyFuzzy bool
	ctxOnlyFuzzy = true
	var msg *ref.Msg
	for _, e := range c.Msgs {
		if e.Ctx != ctx {
			continue
		}
		if c.Format == "mo" && len(ref.MoEntries(nil, []*ref.Msg{e})) == 0 {
			continue
		}
		hasCtx = true
		if e.Fuzzy() && c.Format != "json" {
			continue
		}
		ctxOnlyFuzzy = false
		if e.ID == id {
			msg = e
		}
	}
	if !hasCtx {
		m.Kind = "context"
		return "", m
	}
	if msg == nil {
		m.Kind = "id"
		if ctxOnlyFuzzy {
			m.Alt = "context"
		}
		return "", m
	}
	idx := 0
	if c.Format == "json" {
		idx = 5
	}
	if plural {
		idx = c.form(n.V)
	}
	m.Idx = idx
	if c.Format == "json" {
		// foreign categories are dropped
		ok := false
		for _, f := range c.nforms() {
			ok = ok || f == idx
		}
		if !ok {
			m.Kind = "translation"
			return "", m
		}
	}
	if msg.Strs[idx] == "" {
		m.Kind = "translation"
		return "", m
	}
	return msg.Strs[idx], nil
}

// state is the model of the created bundle.
type state struct {
	w         *world
	languages []string // in load order
	loaded    map[string]bool
	source    string // "" is undetermined
	fallback  string
	domains   map[string]bool
	created   []miss // not used for lookups
}

// model creates the expected bundle; ok is false if creation must fail.
func (w *world) model() (st *state, ok bool) {
	st = &state{w: w, loaded: map[string]bool{}, domains: map[string]bool{}, source: "und", fallback: "und"}
	for _, s := range w.Steps {
		switch s.Kind {
		case "source":
			st.source = s.Tags[0]
		case "fallback":
			st.fallback = s.Tags[0]
		}
	}
	for _, s := range w.Steps {
		for _, tag := range s.Tags {
			required := s.Kind != "lang"
			if tag == "und" {
				if required {
					return st, false
				}
				continue
			}
			if tag == st.source || st.loaded[tag] {
				if !st.loaded[tag] {
					st.languages = append(st.languages, tag)
				}
				st.loaded[tag] = true
				continue
			}
			any := false
			var found []string
			for _, d := range w.Domains {
				if w.spec(tag, d) != nil {
					any = true
					found = append(found, d)
				} else if required {
					return st, false
				}
			}
			if !any {
				if required {
					return st, false
				}
				continue
			}
			for _, d := range found {
				st.domains[d] = true
			}
			st.loaded[tag] = true
			st.languages = append(st.languages, tag)
		}
	}
	return st, true
}

func (st *state) defaultDomain() string {
	if st.w.Default != nil {
		return *st.w.Default
	}
	return ""
}

func (st *state) errCtx() string {
	if st.w.ErrCtx != nil {
		return *st.w.ErrCtx
	}
	return "errors"
}

// fallbackLang is the language a localizer without match uses.
func (st *state) fallbackLang() string {
	if st.fallback != "und" && st.loaded[st.fallback] {
		return st.fallback
	}
	return st.source
}

// match is the language the matcher picks.
func (st *state) match(tags []language.Tag) (string, bool) {
	var supported []language.Tag
	for _, l := range st.languages {
		supported = append(supported, language.MustParse(l))
	}
	if _, i, conf := language.NewMatcher(supported).Match(tags...); conf > language.No {
		return st.languages[i], true
	}
	return st.fallbackLang(), false
}

// answer is what a lookup must give.
type answer struct {
	Text   string
	Lang   string // the language the text comes from
	Source bool   // it is the source text
	Misses []miss
}

func (st *state) lookup(lang, domain, ctx, id, plural string, isPlural bool, n numVal) answer {
	var a answer
	chain := []string{lang}
	if fb := st.fallbackLang(); fb != lang {
		chain = append(chain, fb)
	}
	for _, l := range chain {
		if l == st.source {
			break
		}
		c := st.w.spec(l, domain)
		registered := false
		for _, d := range st.w.Domains {
			registered = registered || d == domain
		}
		if c == nil || !registered {
			a.Misses = append(a.Misses, miss{Kind: "domain", Lang: l, Domain: domain})
			continue
		}
		text, m := c.find(ctx, id, isPlural, n)
		if m == nil {
			a.Text, a.Lang = text, l
			return a
		}
		a.Misses = append(a.Misses, *m)
	}
	a.Lang, a.Source = st.source, true
	a.Text = id
	if isPlural && plural != "" && !n.bad() {
		pf, _, _ := gettextFor(language.MustParse(st.source))
		zero := false
		if pf.E.Eval(abs(n.V), &zero) != 0 {
			a.Text = plural
		}
	}
	return a
}

// options are the bundle options that build the world.
func (w *world) options() []spreak.BundleOption {
	var opts []spreak.BundleOption
	for _, d := range w.Domains {
		if w.FS {
			fsys := fstest.MapFS{}
			cldr := map[string]bool{}
			for _, c := range w.Cats {
				if c.Domain == d {
					fsys[c.Lang+"."+c.Format] = &fstest.MapFile{Data: c.file()}
					cldr[c.Format] = cldr[c.Format] || c.DecCLDR
				}
			}
			dec := func(format string, plain, cl catalog.Decoder) spreak.FsOption {
				if cldr[format] {
					return spreak.WithDecoder("."+format, cl)
				}
				return spreak.WithDecoder("."+format, plain)
			}
			opts = append(opts, spreak.WithFilesystemLoader(d, spreak.WithFs(fsys),
				dec("po", catalog.NewPoDecoder(), catalog.NewPoCLDRDecoder()),
				dec("mo", catalog.NewMoDecoder(), catalog.NewMoCLDRDecoder()),
				spreak.WithJSONDecoder()))
			continue
		}
		opts = append(opts, spreak.WithDomainLoader(d, loaderFunc(func(lang language.Tag, domain string) (catalog.Catalog, error) {
			c := w.spec(lang.String(), domain)
			if c == nil {
				return nil, spreak.NewErrNotFound(lang, "test", "domain %s", domain)
			}
			return c.decoder().Decode(lang, domain, c.file())
		})))
	}
	if w.Default != nil {
		opts = append(opts, spreak.WithDefaultDomain(*w.Default))
	}
	if w.ErrCtx != nil {
		opts = append(opts, spreak.WithErrorContext(*w.ErrCtx))
	}
	for _, s := range w.Steps {
		var langs []any
		for _, tag := range s.Tags {
			if s.Str {
				langs = append(langs, tag)
			} else {
				langs = append(langs, language.MustParse(tag))
			}
		}
		switch s.Kind {
		case "source":
			opts = append(opts, spreak.WithSourceLanguage(language.MustParse(s.Tags[0])))
		case "fallback":
			opts = append(opts, spreak.WithFallbackLanguage(langs[0]))
		case "lang":
			opts = append(opts, spreak.WithLanguage(langs...))
		case "req":
			opts = append(opts, spreak.WithRequiredLanguage(langs...))
		}
	}
	return opts
}

// worldConf biases the generator.
type worldConf struct {
	formats  []string
	missing  int // percentage of entries, forms and catalogs that are left out
	hostile  bool
	errTexts bool
	fuzzy    int
}

var worldIDs = []string{"a", "b", "a_b", "car", "cars", "Hello %s", "a|b", "one", "other"}
var worldCtxs = []string{"", "", "b", "ctx", "errors", "_", "a"}

// Texts between a context and an ID in a joined key.
var worldSeps = []string{"", "", "_", "|", ":", "/", ".", " ", "-", "\n", "#", "::"}
var worldDomains = []string{"", "app", "a", "other"}

func genWorld(t *rapid.T, conf worldConf) *world {
	w := &world{}
	w.Domains = subset(t, "dom", 55, worldDomains)
	if len(w.Domains) == 0 {
		w.Domains = []string{pick(t, "dom", worldDomains...)}
	}
	if chance(t, "hasDefault", 60) {
		d := pick(t, "default", append([]string{"none"}, w.Domains...)...)
		w.Default = &d
	}
	if chance(t, "hasErrCtx", 30) {
		c := pick(t, "errCtx", "", "ctx", "errors", "x")
		w.ErrCtx = &c
	}
	nlang := intR(t, "nlang", 1, 4)
	var langs []string
	p := perm(t, "langs", len(worldTags))
	for _, i := range p[:nlang] {
		langs = append(langs, worldTags[i])
	}
	source, fallback := "", ""
	if chance(t, "hasSource", 60) {
		source = pick(t, "source", append([]string{"en", "fr", "pl"}, langs...)...)
	}
	if chance(t, "hasFallback", 50) {
		fallback = pick(t, "fallback", langs...)
	}
	full := map[string]bool{fallback: true}
	var steps []step
	var rest []string
	for _, l := range langs {
		if chance(t, "required", 15) {
			full[l] = true
			steps = append(steps, step{Kind: "req", Tags: []string{l}, Str: chance(t, "asStr", 50)})
		} else {
			rest = append(rest, l)
		}
	}
	for len(rest) > 0 {
		n := intR(t, "perStep", 1, len(rest))
		steps = append(steps, step{Kind: "lang", Tags: rest[:n:n], Str: chance(t, "asStr", 50)})
		rest = rest[n:]
	}
	if source != "" {
		steps = append(steps, step{Kind: "source", Tags: []string{source}})
	}
	if fallback != "" {
		steps = append(steps, step{Kind: "fallback", Tags: []string{fallback}, Str: chance(t, "asStr", 50)})
	}
	for _, i := range perm(t, "steps", len(steps)) {
		w.Steps = append(w.Steps, steps[i])
	}
	bases := map[string]bool{}
	w.FS = chance(t, "fs", 40)
	for _, l := range langs {
		b, _ := language.MustParse(l).Base()
		if bases[b.String()] {
			w.FS = false
		}
		bases[b.String()] = true
	}
	for _, d := range w.Domains {
		decCLDR := chance(t, "decCldr", 20)
		for _, l := range langs {
			if l == source && !chance(t, "sourceCat", 30) {
				continue
			}
			if !full[l] && chance(t, "noCat", conf.missing) {
				continue
			}
			c := genCat(t, conf, l, d)
			if c.Format != "json" {
				c.DecCLDR = decCLDR
			}
			w.Cats = append(w.Cats, c)
		}
	}
	return w
}

func genCat(t *rapid.T, conf worldConf, lang, domain string) *catSpec {
	c := &catSpec{Lang: lang, Domain: domain, Format: pick(t, "format", conf.formats...)}
	if c.Format != "json" {
		switch intR(t, "hdr", 0, 3) {
		case 0:
			c.NoHdr = chance(t, "noHdr", 50)
		default:
			c.Header = pick(t, "formula", worldFormulas...)
		}
		if chance(t, "cldrHdr", 20) {
			c.UseCLDR = pick(t, "useCldr", "true", "TRUE", "True", "false", "yes", "1")
		}
		if c.NoHdr {
			c.Header, c.UseCLDR = "", ""
		}
	}
	forms := c.nforms()
	seen := map[string]bool{}
	n := intR(t, "nmsgs", 1, 6)
	// two messages that are the same if context and ID are joined
	var joined [][2]string
	if chance(t, "joined", 12) {
		x, y, z, sep := pick(t, "x", "a", "b", "ctx"), pick(t, "y", "a", "b", "car"), pick(t, "z", "a", "b", "one"), pick(t, "sep", worldSeps...)
		joined = [][2]string{{x, y + sep + z}, {x + sep + y, z}}
		n = max(n, 2)
	}
	for i := 0; i < n; i++ {
		m := &ref.Msg{Strs: map[int]string{}}
		if i < len(joined) {
			m.Ctx, m.ID = joined[i][0], joined[i][1]
		} else {
			m.ID, m.Ctx = pick(t, "id", worldIDs...), pick(t, "ctx", worldCtxs...)
		}
		if i >= len(joined) && chance(t, "padded", 4) {
			m.ID = padText(t, m.ID)
		}
		if i >= len(joined) && chance(t, "otherID", 4) {
			m.ID = sizedText(t, "id", int(sourceInt(t, "idSize", 300)))
			if chance(t, "sourceID", 50) {
				m.ID = sourceWord(t, "id")
			}
			m.ID = strings.Map(func(r rune) rune {
				if r == '%' {
					return '$'
				}
				return r
			}, m.ID)
		}
		key := m.Ctx + "\x04" + m.ID
		if c.Format == "json" {
			key = m.ID
			if m.Ctx != "" {
				key += "_" + m.Ctx
			}
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		text := func(form int) string {
			if chance(t, "emptyForm", conf.missing/2) {
				return ""
			}
			if conf.missing > 0 && chance(t, "blankForm", 3) {
				return pick(t, "blank", " ", "\n", "\t", "\u00a0", "  ") // not empty
			}
			s := fmt.Sprintf("%s/%s/%s/%s/%d", lang, domain, m.Ctx, m.ID, form)
			if conf.hostile && chance(t, "hostile", 25) {
				s += genText(t, "text", 5)
			}
			return s
		}
		plural := chance(t, "plural", 60)
		switch {
		case !plural && c.Format == "json":
			m.Strs[5] = text(5)
		case !plural:
			m.Strs[0] = text(0)
		default:
			if c.Format != "json" {
				m.Plural = pick(t, "pluralID", "cars", "as", "b", "%d cars")
			}
			for _, f := range forms {
				if f == 5 && c.Format == "json" || !chance(t, "noForm", conf.missing/2) {
					m.Strs[f] = text(f)
				}
			}
			if chance(t, "extraForm", 15) {
				f := intR(t, "extra", 0, 5)
				if _, ok := m.Strs[f]; !ok {
					m.Strs[f] = text(f)
				}
			}
		}
		if c.Format != "json" && chance(t, "flagged", conf.fuzzy) {
			m.Flags = subset(t, "flag", 30, flagPool)
		}
		c.Msgs = append(c.Msgs, m)
	}
	if chance(t, "filled", 1) { // a large catalog
		for n := sourceInt(t, "filler", 300); n > 0; n-- {
			m := &ref.Msg{ID: fmt.Sprintf("filler-%d", n), Strs: map[int]string{}}
			form := 0
			if c.Format == "json" {
				form = 5
			}
			m.Strs[form] = fmt.Sprintf("%s/%s/%s/%d", lang, domain, m.ID, form)
			c.Msgs = append(c.Msgs, m)
		}
	}
	if c.Format == "json" && len(c.Msgs) == 0 || len(c.Msgs) == 0 && c.NoHdr {
		c.Msgs = append(c.Msgs, &ref.Msg{ID: "a", Strs: map[int]string{0: "x", 5: "x"}})
	}
	return c
}

// padText returns a text that differs from s in white space only.
func padText(t *rapid.T, s string) string {
	return pick(t, "pad", s+" ", " "+s, s+"\n", s+"\t", s+"\u00a0")
}

// op is one lookup.
type op struct {
	Key    bool     `json:"key,omitempty"` // key localizer
	D      bool     `json:"d,omitempty"`
	N      bool     `json:"n,omitempty"`
	P      bool     `json:"p,omitempty"`
	F      bool     `json:"f,omitempty"`
	Via    string   `json:"via,omitempty"` // "", localize
	Domain string   `json:"domain,omitempty"`
	Ctx    string   `json:"ctx,omitempty"`
	ID     string   `json:"id"`
	Plural string   `json:"plural,omitempty"`
	Num    numVal   `json:"num"`
	Vars   []string `json:"vars,omitempty"`
}

func (o op) vars() []any {
	var out []any
	for _, v := range o.Vars {
		kind, rest, _ := strings.Cut(v, ":")
		switch kind {
		case "i":
			n, _ := strconv.Atoi(rest)
			out = append(out, n)
		case "f":
			f, _ := strconv.ParseFloat(rest, 64)
			out = append(out, f)
		case "nil":
			out = append(out, nil)
		default:
			out = append(out, v)
		}
	}
	return out
}

func genOp(t *rapid.T, w *world, bad int) op {
	o := op{
		Key: chance(t, "key", 20), D: chance(t, "D", 50), N: chance(t, "N", 50), P: chance(t, "P", 50), F: chance(t, "F", 20),
		ID: pick(t, "id", worldIDs...), Ctx: pick(t, "ctx", worldCtxs...),
		Domain: pick(t, "domain", append([]string{"none"}, w.Domains...)...),
		Plural: pick(t, "pluralText", "as", "cars", "%d cars", ""),
		Num:    genNumVal(t, bad),
	}
	if chance(t, "existing", 70) && len(w.Cats) > 0 {
		c := pick(t, "cat", w.Cats...)
		m := pick(t, "msg", c.Msgs...)
		o.ID, o.Ctx, o.Domain = m.ID, m.Ctx, c.Domain
		if m.Ctx != "" {
			o.P = true
		}
		o.D = chance(t, "D", 85)
		if m.HasPlural() {
			o.N = chance(t, "N", 85)
		}
		if chance(t, "rejoin", 5) { // another context and ID with the same joined text
			text := []rune(o.Ctx + pick(t, "sep", worldSeps...) + o.ID)
			at := intR(t, "cut", 0, len(text))
			o.Ctx, o.ID, o.P = string(text[:at]), string(text[at:]), true
		}
	}
	if chance(t, "via", 20) {
		o.Via = "localize"
		o.Key = false
	}
	return o
}

type domMsg struct {
	localize.Message
	Domain string
}

func (m *domMsg) HasDomain() bool   { return true }
func (m *domMsg) GetDomain() string { return m.Domain }

// effective gives the domain, context, id and plural that the operation means.
func (o op) effective(st *state) (domain, ctx, id, plural string, isPlural bool) {
	domain = st.defaultDomain()
	if o.D {
		domain = o.Domain
	}
	if o.P {
		ctx = o.Ctx
	}
	id = o.ID
	isPlural = o.N
	if isPlural {
		plural = o.Plural
		if o.Key {
			plural = o.ID
		}
		if o.Via == "localize" && plural == "" {
			isPlural = false
		}
	}
	return
}

func (o op) message() localize.Localizable {
	m := localize.Message{Singular: o.ID, Count: int(o.Num.V)}
	if o.P {
		m.Context = o.Ctx
	}
	if o.N {
		m.Plural = o.Plural
	}
	if o.F {
		m.Vars = o.vars()
	}
	if o.D {
		return &domMsg{m, o.Domain}
	}
	return &m
}

// call runs the operation; hasErr tells whether the error is known.
func (o op) call(l *spreak.Localizer) (text string, err error, hasErr bool) {
	if o.Via == "localize" {
		text, err = l.LocalizeWithError(o.message())
		if s := l.Localize(o.message()); s != text {
			return fmt.Sprintf("Localize %q but LocalizeWithError %q", s, text), err, true
		}
		return text, err, true
	}
	if o.Key {
		return o.callKey(&spreak.KeyLocalizer{Localizer: l}), nil, false
	}
	n, v := o.Num.any(), o.vars()
	k := 0
	for i, b := range []bool{o.D, o.N, o.P, o.F} {
		if b {
			k |= 1 << i
		}
	}
	switch k {
	case 0:
		text = l.Get(o.ID)
	case 1:
		text = l.DGet(o.Domain, o.ID)
	case 2:
		text = l.NGet(o.ID, o.Plural, n)
	case 3:
		text = l.DNGet(o.Domain, o.ID, o.Plural, n)
	case 4:
		text = l.PGet(o.Ctx, o.ID)
	case 5:
		text = l.DPGet(o.Domain, o.Ctx, o.ID)
	case 6:
		text = l.NPGet(o.Ctx, o.ID, o.Plural, n)
	case 7:
		text = l.DNPGet(o.Domain, o.Ctx, o.ID, o.Plural, n)
	case 8:
		text = l.Getf(o.ID, v...)
	case 9:
		text = l.DGetf(o.Domain, o.ID, v...)
	case 10:
		text = l.NGetf(o.ID, o.Plural, n, v...)
	case 11:
		text = l.DNGetf(o.Domain, o.ID, o.Plural, n, v...)
	case 12:
		text = l.PGetf(o.Ctx, o.ID, v...)
	case 13:
		text = l.DPGetf(o.Domain, o.Ctx, o.ID, v...)
	case 14:
		text = l.NPGetf(o.Ctx, o.ID, o.Plural, n, v...)
	case 15:
		text = l.DNPGetf(o.Domain, o.Ctx, o.ID, o.Plural, n, v...)
	}
	return text, nil, false
}

func (o op) callKey(l *spreak.KeyLocalizer) string {
	n, v := o.Num.any(), o.vars()
	k := 0
	for i, b := range []bool{o.D, o.N, o.P, o.F} {
		if b {
			k |= 1 << i
		}
	}
	switch k {
	case 0:
		return l.Get(o.ID)
	case 1:
		return l.DGet(o.Domain, o.ID)
	case 2:
		return l.NGet(o.ID, n)
	case 3:
		return l.DNGet(o.Domain, o.ID, n)
	case 4:
		return l.PGet(o.Ctx, o.ID)
	case 5:
		return l.DPGet(o.Domain, o.Ctx, o.ID)
	case 6:
		return l.NPGet(o.Ctx, o.ID, n)
	case 7:
		return l.DNPGet(o.Domain, o.Ctx, o.ID, n)
	case 8:
		return l.Getf(o.ID, v...)
	case 9:
		return l.DGetf(o.Domain, o.ID, v...)
	case 10:
		return l.NGetf(o.ID, n, v...)
	case 11:
		return l.DNGetf(o.Domain, o.ID, n, v...)
	case 12:
		return l.PGetf(o.Ctx, o.ID, v...)
	case 13:
		return l.DPGetf(o.Domain, o.Ctx, o.ID, v...)
	case 14:
		return l.NPGetf(o.Ctx, o.ID, n, v...)
	}
	return l.DNPGetf(o.Domain, o.Ctx, o.ID, n, v...)
}

func (o op) name() string {
	s := ""
	if o.D {
		s += "D"
	}
	if o.N {
		s += "N"
	}
	if o.P {
		s += "P"
	}
	s += "Get"
	if o.F {
		s += "f"
	}
	if o.Key {
		s = "Key." + s
	}
	if o.Via != "" {
		s = "Localize"
	}
	return s
}

// rec collects the errors given to the missing callback.
type rec struct{ errs []error }

func (r *rec) cb(err error) { r.errs = append(r.errs, err) }

func sortedTags(tags []language.Tag) []string {
	var out []string
	for _, t := range tags {
		out = append(out, t.String())
	}
	sort.Strings(out)
	return out
}

var _ = io.EOF
var _ fs.FS = fstest.MapFS{}
