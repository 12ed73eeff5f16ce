package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"

	"verif/harness/engine"
	"verif/harness/ref"
)

// compareCatalog checks every message of the specification, and near misses,
// against the catalog.
func compareCatalog(c *catSpec, cat catalog.Catalog, counts []int64, what string) error {
	if cat.Language().String() != c.Lang {
		return fmt.Errorf("%s: language %s, want %s", what, cat.Language(), c.Lang)
	}
	one := func(ctx, id string) error {
		text, err := cat.Lookup(ctx, id)
		want, m := c.find(ctx, id, false, numVal{})
		if err := compareLookup(text, err, want, m); err != nil {
			return fmt.Errorf("%s: Lookup(%q, %q): %w", what, ctx, id, err)
		}
		for _, n := range counts {
			text, err := cat.LookupPlural(ctx, id, n)
			want, m := c.find(ctx, id, true, numVal{V: n})
			if err := compareLookup(text, err, want, m); err != nil {
				return fmt.Errorf("%s: LookupPlural(%q, %q, %d): %w", what, ctx, id, n, err)
			}
		}
		return nil
	}
	for _, m := range c.Msgs {
		for _, p := range [][2]string{{m.Ctx, m.ID}, {"", m.ID}, {"ctx", m.ID}, {m.Ctx, m.Plural}, {m.Ctx, m.ID + "x"}, {m.ID, m.Ctx}} {
			if p[1] == "" {
				continue
			}
			if err := one(p[0], p[1]); err != nil {
				return err
			}
		}
	}
	return nil
}

func compareLookup(text string, err error, want string, m *miss) error {
	switch {
	case m == nil && err != nil:
		return fmt.Errorf("error %v, want %q", err, want)
	case m == nil && text != want:
		return fmt.Errorf("gives %q, want %q", text, want)
	case m != nil && err == nil:
		return fmt.Errorf("gives %q, want error %v", text, m)
	case m != nil && !m.matches(err):
		return fmt.Errorf("error %v, want %v", err, m)
	}
	return nil
}

func genCounts(t *rapid.T) []int64 {
	out := []int64{0, 1, 2, 5}
	for n := intR(t, "ncounts", 1, 4); n > 0; n-- {
		out = append(out, genCount(t))
	}
	return out
}

// genRichSpec draws a gettext catalog with arbitrary texts.
func genRichSpec(t *rapid.T, format string) *catSpec {
	c := &catSpec{Lang: pick(t, "lang", worldTags...), Domain: pick(t, "domain", "", "app"), Format: format}
	switch intR(t, "hdr", 0, 5) {
	case 0:
		c.NoHdr = true
	case 1:
	default:
		c.Header = pick(t, "formula", worldFormulas...)
	}
	if !c.NoHdr && chance(t, "cldrHdr", 20) {
		c.UseCLDR = pick(t, "useCldr", "true", "TRUE", "false", "yes")
	}
	if !c.NoHdr && chance(t, "noField", 10) {
		c.NoField = pick(t, "line", noFields...)
	}
	c.DecCLDR = chance(t, "decCldr", 25)
	c.Msgs = genMsgs(t, 1, 6, false)
	for _, m := range c.Msgs {
		if len(m.Strs) > 1 && chance(t, "noPluralID", 8) {
			m.Plural = ""
		}
		for i := range m.Strs {
			if m.Strs[i] == "" && chance(t, "fill", 60) {
				m.Strs[i] = fmt.Sprintf("form %d", i)
			}
		}
	}
	return c
}

// ---------------------------------------------------------------- C12

type moCase struct {
	Spec   *catSpec `json:"spec"`
	Data   []byte   `json:"data"`
	Text   []byte   `json:"text"`
	Counts []int64  `json:"counts"`
	Chunks []int    `json:"chunks"`
	Traits []string `json:"traits"`
	// Dup: a second Plural-Forms field precedes the one of Spec. Which one counts is open, but it is the same one as for PO.
	Dup bool `json:"dup,omitempty"`
}

func genMO(t *rapid.T) moCase {
	c := moCase{Spec: genRichSpec(t, "mo"), Counts: genCounts(t)}
	l := ref.MoLayout{
		Big: chance(t, "big", 50), Sorted: chance(t, "sorted", 50), Shuffle: chance(t, "shuffle", 60),
		Hash: chance(t, "hash", 50), Share: chance(t, "share", 40), C: chooser(t),
	}
	if chance(t, "rev", 25) {
		l.Rev = pick(t, "revision", uint32(1), 1<<16, 1<<16|1)
	}
	var hdr *ref.Msg
	if !c.Spec.NoHdr {
		fields := c.Spec.headerFields()
		if c.Spec.Header != "" && chance(t, "twoRules", 6) {
			c.Dup = true
			c.Traits = append(c.Traits, "two rules")
			other := ref.Field{Key: pick(t, "otherKey", "Plural-Forms", "Plural-Forms", "plural-forms"), Val: pick(t, "other", worldFormulas...)}
			fields = append([]ref.Field{other}, fields...)
		}
		hdr = ref.HeaderMsg(fields)
	}
	for _, tr := range []struct {
		name string
		on   bool
	}{{"big endian", l.Big}, {"unsorted", !l.Sorted}, {"shuffled placement", l.Shuffle}, {"hash table", l.Hash}, {"shared strings", l.Share}, {"other revision", l.Rev != 0}} {
		if tr.on {
			c.Traits = append(c.Traits, tr.name)
		}
	}
	if chance(t, "separatorInID", 12) {
		for _, m := range c.Spec.Msgs { // only the first separator ends the context
			if m.Ctx != "" && m.Plural != "" {
				m.Plural += "\x04" + pick(t, "afterSeparator", "", "x", m.Ctx)
				c.Traits = append(c.Traits, "separator in the plural")
				break
			}
		}
	}
	c.Data = ref.WriteMO(ref.MoEntries(hdr, c.Spec.Msgs), l)
	lay := &ref.Layout{C: chooser(t), Plain: chance(t, "plain", 30)}
	c.Text = []byte(lay.Render(hdr, c.Spec.Msgs))
	for n := intR(t, "nchunks", 1, 5); n > 0; n-- {
		c.Chunks = append(c.Chunks, intR(t, "chunk", 1, 40))
	}
	return c
}

// shortReader gives at most the next chunk size per call; as a seeker too.
type shortReader struct {
	r      *bytes.Reader
	chunks []int
	i      int
}

func (s *shortReader) Read(p []byte) (int, error) {
	n := s.chunks[s.i%len(s.chunks)]
	s.i++
	if n > len(p) {
		n = len(p)
	}
	return s.r.Read(p[:n])
}

type shortSeeker struct{ shortReader }

func (s *shortSeeker) Seek(off int64, whence int) (int64, error) { return s.r.Seek(off, whence) }

func (c *catSpec) headerFields() []ref.Field {
	var fields []ref.Field
	if c.Header != "" {
		fields = append(fields, ref.Field{Key: "Plural-Forms", Val: c.Header})
	}
	if c.UseCLDR != "" {
		fields = append(fields, ref.Field{Key: "X-spreak-use-CLDR", Val: c.UseCLDR})
	}
	if c.NoField != "" {
		fields = append(fields, ref.Field{Val: c.NoField})
	}
	return append(fields, ref.Field{Key: "Content-Type", Val: "text/plain; charset=UTF-8"})
}

func checkC12(c moCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Spec.Lang)
	dec := c.Spec.decoder()
	v2, ok := dec.(catalog.DecoderV2)
	if !ok {
		return errors.New("the MO decoder does not read from readers")
	}
	ctx.NonTrivialIf(len(c.Traits) > 0)
	for _, tr := range c.Traits {
		ctx.Label(tr)
	}
	if len(c.Traits) == 0 {
		ctx.Label("plain")
	}
	deliver := map[string]func() (catalog.Catalog, error){
		"bytes":  func() (catalog.Catalog, error) { return dec.Decode(tag, c.Spec.Domain, bytes.Clone(c.Data)) },
		"seeker": func() (catalog.Catalog, error) { return v2.DecodeReader(tag, c.Spec.Domain, bytes.NewReader(c.Data)) },
		"buffer": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, bytes.NewBuffer(bytes.Clone(c.Data)))
		},
		"one byte": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, iotest.OneByteReader(bytes.NewReader(c.Data)))
		},
		"half": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, iotest.HalfReader(bytes.NewReader(c.Data)))
		},
		"data and EOF": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, iotest.DataErrReader(bytes.NewReader(c.Data)))
		},
		"short": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, &shortReader{r: bytes.NewReader(c.Data), chunks: c.Chunks})
		},
		// the reader is where the catalog starts, behind something that was read before
		"seeker behind other data": func() (catalog.Catalog, error) {
			r := bytes.NewReader(append(append([]byte{}, c.Text...), c.Data...))
			if _, err := r.Seek(int64(len(c.Text)), io.SeekStart); err != nil {
				return nil, err
			}
			return v2.DecodeReader(tag, c.Spec.Domain, r)
		},
		"short seeker": func() (catalog.Catalog, error) {
			return v2.DecodeReader(tag, c.Spec.Domain, &shortSeeker{shortReader{r: bytes.NewReader(c.Data), chunks: c.Chunks}})
		},
	}
	for _, name := range sortedKeys(deliver) {
		cat, err := deliver[name]()
		if err != nil {
			return fmt.Errorf("MO catalog (%v) by %s: %w", c.Traits, name, err)
		}
		if !c.Dup {
			if err := compareCatalog(c.Spec, cat, c.Counts, fmt.Sprintf("MO catalog (%v) by %s", c.Traits, name)); err != nil {
				return err
			}
		}
		if err := compareMessages(c.Spec, cat, true); err != nil {
			return fmt.Errorf("MO catalog (%v) by %s: %w", c.Traits, name, err)
		}
	}
	// the PO file of the same content
	p := *c.Spec
	p.Format = "po"
	pocat, err := p.decoder().Decode(tag, p.Domain, c.Text)
	if err != nil {
		return fmt.Errorf("PO catalog: %w", err)
	}
	mocat, _ := deliver["bytes"]()
	for _, m := range c.Spec.Msgs {
		a, errA := pocat.Lookup(m.Ctx, m.ID)
		b, errB := mocat.Lookup(m.Ctx, m.ID)
		if a != b || (errA == nil) != (errB == nil) {
			return fmt.Errorf("Lookup(%q, %q): PO %q %v, MO %q %v", m.Ctx, m.ID, a, errA, b, errB)
		}
		for _, n := range c.Counts {
			a, errA := pocat.LookupPlural(m.Ctx, m.ID, n)
			b, errB := mocat.LookupPlural(m.Ctx, m.ID, n)
			if a != b || (errA == nil) != (errB == nil) {
				return fmt.Errorf("LookupPlural(%q, %q, %d): PO %q %v, MO %q %v", m.Ctx, m.ID, n, a, errA, b, errB)
			}
		}
	}
	return nil
}

// compareMessages compares the inspection copy of a gettext catalog.
func compareMessages(c *catSpec, cat catalog.Catalog, mo bool) error {
	g, ok := cat.(*catalog.GettextCatalog)
	if !ok {
		return fmt.Errorf("catalog is a %T", cat)
	}
	if g.Domain() != c.Domain {
		return fmt.Errorf("domain %q, want %q", g.Domain(), c.Domain)
	}
	msgs := g.Messages()
	n := 0
	for _, byID := range msgs {
		n += len(byID)
	}
	want := 0
	for _, m := range c.Msgs {
		if m.Fuzzy() || mo && len(ref.MoEntries(nil, []*ref.Msg{m})) == 0 {
			continue
		}
		want++
		got := msgs[m.Ctx][m.ID]
		if got == nil {
			return fmt.Errorf("Messages() lacks (%q, %q)", m.Ctx, m.ID)
		}
		tr := got.Translations()
		for i, s := range m.Strs {
			if tr[i] != s {
				return fmt.Errorf("Messages(): (%q, %q) form %d is %q, want %q", m.Ctx, m.ID, i, tr[i], s)
			}
		}
		for i, s := range tr {
			if s != "" && m.Strs[i] == "" {
				return fmt.Errorf("Messages(): (%q, %q) has unexpected form %d %q", m.Ctx, m.ID, i, s)
			}
		}
	}
	if n != want {
		return fmt.Errorf("Messages() has %d entries, want %d", n, want)
	}
	return nil
}

// ---------------------------------------------------------------- C33

type hdrRuleCase struct {
	Lang    string      `json:"lang"`
	Format  string      `json:"format"`
	DecCLDR bool        `json:"decCldr"`
	Fields  []ref.Field `json:"fields"`
	NoHdr   bool        `json:"noHdr"`
	Counts  []int64     `json:"counts"`
}

var badFormulas = []string{
	"nplurals=2", "plural=n;", "garbage", "nplurals=2; plural=n+;", "nplurals=2; plural=(n != 1;", "nplurals=x; plural=0;",
	"nplurals=2; plural=m != 1;", "nplurals=2; plural=;", "nplurals=2 plural=(n != 1);", "nplurals=2; plural=n ? 1;",
}

// Lines of a header that are not fields; they say nothing and take nothing away.
var noFields = []string{"created by hand", "# translated by me", "nplurals=1; plural=0;", "Plural-Forms nplurals=1; plural=0;", "  ", "-"}

func genHdrRule(t *rapid.T) hdrRuleCase {
	c := hdrRuleCase{Format: pick(t, "format", "po", "mo"), DecCLDR: chance(t, "decCldr", 35), Counts: genCounts(t)}
	switch intR(t, "langKind", 0, 4) {
	case 0:
		c.Lang = pick(t, "lang", "tlh", "qaa", "mt", "an", "ach", "mai", "szl", "jbo", "arn", "fil", "und")
	case 1:
		c.Lang = genVariant(t, gettextLangs)
	default:
		c.Lang = genVariant(t, cldrLangs)
	}
	if _, ok := parseTag(c.Lang); !ok {
		c.Lang = "pl"
	}
	c.NoHdr = chance(t, "noHdr", 15)
	if c.NoHdr {
		return c
	}
	caseOf := func(s string) string {
		switch intR(t, "case", 0, 3) {
		case 0:
			return string(bytes.ToLower([]byte(s)))
		case 1:
			return string(bytes.ToUpper([]byte(s)))
		}
		return s
	}
	var f []ref.Field
	switch intR(t, "pf", 0, 9) {
	case 0, 1:
	case 2:
		f = append(f, ref.Field{Key: caseOf("Plural-Forms"), Val: pick(t, "bad", badFormulas...)})
	case 3, 4, 5:
		f = append(f, ref.Field{Key: caseOf("Plural-Forms"), Val: ref.GettextByLang[pick(t, "ofLang", gettextLangs...)]})
	case 6:
		f = append(f, ref.Field{Key: caseOf("Plural-Forms"), Val: ""})
	default:
		f = append(f, ref.Field{Key: caseOf("Plural-Forms"), Val: pick(t, "formula", worldFormulas...)})
	}
	if len(f) > 0 && f[0].Val == "" {
		f[0].Val = ""
	}
	if chance(t, "cldrHdr", 45) {
		f = append(f, ref.Field{Key: caseOf("X-spreak-use-CLDR"), Val: pick(t, "useCldr", "true", "TRUE", "True", "tRuE", "false", "", "yes", "1", "truee", "t", "FALSE")})
	}
	f = append(f, ref.Field{Key: caseOf("Content-Type"), Val: "text/plain; charset=UTF-8"})
	if chance(t, "other", 60) {
		f = append(f, ref.Field{Key: "Language", Val: pick(t, "hlang", "de", "ar", "pl", c.Lang, "")}, ref.Field{Key: "X-Plural-Forms", Val: "nplurals=1; plural=0;"})
	}
	if chance(t, "noField", 20) {
		f = append(f, ref.Field{Val: pick(t, "line", noFields...)})
	}
	if chance(t, "spacing", 35) {
		for i := range f {
			f[i].Sep = pick(t, "sep", ":", ":", ":  ", " : ", ":\t", " :", "")
		}
	}
	for _, i := range perm(t, "fields", len(f)) {
		c.Fields = append(c.Fields, f[i])
	}
	return c
}

func checkC33(c hdrRuleCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Lang)
	strs := map[int]string{}
	for i := 0; i < 8; i++ {
		strs[i] = fmt.Sprintf("form %d", i)
	}
	msgs := []*ref.Msg{{ID: "a", Plural: "as", Strs: strs}}
	hdr := ref.HeaderMsg(c.Fields)
	if c.NoHdr {
		hdr = nil
	}
	spec := &catSpec{Lang: c.Lang, Format: c.Format, DecCLDR: c.DecCLDR}
	var data []byte
	if c.Format == "mo" {
		data = ref.WriteMO(ref.MoEntries(hdr, msgs), ref.MoLayout{Sorted: true})
	} else {
		data = []byte((&ref.Layout{Plain: true}).Render(hdr, msgs))
	}
	formula, asks := "", c.DecCLDR
	for _, f := range c.Fields {
		ctx.LabelIf(f.Key == "", "line that is not a field")
		switch string(bytes.ToLower([]byte(f.Key))) {
		case "plural-forms":
			formula = f.Val
		case "x-spreak-use-cldr":
			asks = asks || string(bytes.ToLower([]byte(f.Val))) == "true"
		}
	}
	g, has := cldrFor(tag)
	useCLDR := formula == "" || asks && has
	pf, errPF := ref.ParsePluralForms(formula)
	cat, err := spec.decoder().Decode(tag, "app", data)
	ctx.NonTrivialIf(formula != "")
	if !useCLDR && errPF != nil {
		ctx.Label("formula rejected")
		if err == nil {
			return fmt.Errorf("%s catalog for %s with formula %q is accepted", c.Format, c.Lang, formula)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s catalog for %s with formula %q: %w", c.Format, c.Lang, formula, err)
	}
	switch {
	case !useCLDR:
		ctx.Label("header formula")
	case formula != "" && errPF != nil:
		ctx.Label("CLDR instead of bad formula")
	case formula != "":
		ctx.Label("CLDR instead of formula")
	default:
		ctx.Label("CLDR without formula")
	}
	ctx.LabelIf(!has, "language without CLDR rules")
	for _, n := range c.Counts {
		var form int
		if useCLDR {
			o, _ := ref.OperandsOf(fmt.Sprint(n))
			form = g.Form(o)
		} else {
			zero := false
			form = int(pf.E.Eval(n, &zero))
		}
		got, err := cat.LookupPlural("", "a", n)
		if want := strs[form]; err != nil || got != want {
			return fmt.Errorf("%s catalog for %s (formula %q, CLDR %v): n=%d gives %q %v, want %q", c.Format, c.Lang, formula, useCLDR, n, got, err, want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C17

type fuzzyCase struct {
	Spec   *catSpec `json:"spec"`
	Text   []byte   `json:"text"`
	Counts []int64  `json:"counts"`
	Plain  bool     `json:"plain"`
}

func genFuzzy(t *rapid.T) fuzzyCase {
	c := fuzzyCase{Spec: genRichSpec(t, "po"), Counts: genCounts(t), Plain: chance(t, "plain", 20)}
	for _, m := range c.Spec.Msgs {
		genComments(t, m, chance(t, "rich", 70))
		if chance(t, "fuzzy", 30) && !m.Fuzzy() {
			at := intR(t, "fuzzyAt", 0, len(m.Flags))
			m.Flags = append(append(append([]string{}, m.Flags[:at]...), "fuzzy"), m.Flags[at:]...)
		}
		for i := range m.Strs {
			if chance(t, "empty", 25) {
				m.Strs[i] = ""
			}
		}
	}
	var hdr *ref.Msg
	if !c.Spec.NoHdr {
		hdr = ref.HeaderMsg(c.Spec.headerFields())
		if chance(t, "fuzzyHeader", 20) {
			hdr.Flags = []string{"fuzzy"}
		}
	}
	lay := &ref.Layout{C: chooser(t), Plain: c.Plain}
	c.Text = []byte(lay.Render(hdr, c.Spec.Msgs))
	return c
}

func checkC17(c fuzzyCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Spec.Lang)
	cat, err := c.Spec.decoder().Decode(tag, c.Spec.Domain, c.Text)
	if err != nil {
		return fmt.Errorf("decoding: %w\n%s", err, c.Text)
	}
	hidden, empty, served := 0, 0, 0
	for _, m := range c.Spec.Msgs {
		e := len(m.Strs) == 0
		for _, s := range m.Strs {
			e = e || s == ""
		}
		switch {
		case m.Fuzzy():
			hidden++
			ctx.LabelIf(len(m.Flags) > 1, "fuzzy among other flags")
		case e:
			empty++
		default:
			served++
		}
	}
	ctx.NonTrivialIf(hidden+empty > 0 && served > 0)
	ctx.LabelIf(hidden > 0, "fuzzy")
	ctx.LabelIf(empty > 0, "empty or partial")
	if err := compareCatalog(c.Spec, cat, c.Counts, "catalog"); err != nil {
		return fmt.Errorf("%w\n%s", err, c.Text)
	}
	if err := compareMessages(c.Spec, cat, false); err != nil {
		return fmt.Errorf("%w\n%s", err, c.Text)
	}
	// through a localizer: fallback text and report
	r := &rec{}
	b, err := spreak.NewBundle(
		spreak.WithDefaultDomain(c.Spec.Domain),
		spreak.WithDomainLoader(c.Spec.Domain, loaderFunc(func(l language.Tag, d string) (catalog.Catalog, error) {
			return c.Spec.decoder().(catalog.DecoderV2).DecodeReader(l, d, bytes.NewReader(c.Text))
		})),
		spreak.WithRequiredLanguage(tag),
		spreak.WithMissingTranslationCallback(r.cb),
	)
	if err != nil {
		return err
	}
	l := spreak.NewLocalizer(b, tag)
	for _, m := range c.Spec.Msgs {
		for i := -1; i < len(c.Counts); i++ {
			r.errs = nil
			var got, src string
			var want string
			var ms *miss
			if i < 0 {
				got, src = l.PGet(m.Ctx, m.ID), m.ID
				want, ms = c.Spec.find(m.Ctx, m.ID, false, numVal{})
			} else {
				n := c.Counts[i]
				got, src = l.NPGet(m.Ctx, m.ID, "PLURAL", n), m.ID
				if n != 1 {
					src = "PLURAL"
				}
				want, ms = c.Spec.find(m.Ctx, m.ID, true, numVal{V: n})
			}
			if ms != nil {
				want = src
				if len(r.errs) == 0 || !ms.matches(r.errs[0]) {
					return fmt.Errorf("untranslated (%q, %q) reports %v, want %v\n%s", m.Ctx, m.ID, r.errs, ms, c.Text)
				}
			} else if len(r.errs) != 0 {
				return fmt.Errorf("translated (%q, %q) reports %v\n%s", m.Ctx, m.ID, r.errs, c.Text)
			}
			if got != want {
				return fmt.Errorf("localizer gives %q for (%q, %q), want %q\n%s", got, m.Ctx, m.ID, want, c.Text)
			}
		}
	}
	// the flag as seen by full parsing
	f, err := po.NewParser().Parse(bytes.NewReader(c.Text))
	if err != nil {
		return fmt.Errorf("parsing: %w\n%s", err, c.Text)
	}
	for _, m := range c.Spec.Msgs {
		pm := f.GetMessage(m.Ctx, m.ID)
		if pm == nil {
			return fmt.Errorf("message (%q, %q) lost\n%s", m.Ctx, m.ID, c.Text)
		}
		if got := pm.Comment != nil && pm.Comment.HasFlag("fuzzy"); got != m.Fuzzy() {
			return fmt.Errorf("message (%q, %q): fuzzy flag %v, want %v\n%s", m.Ctx, m.ID, got, m.Fuzzy(), c.Text)
		}
	}
	return nil
}

var _ io.Reader = (*shortReader)(nil)

func init() {
	engine.Register(&engine.Prop{
		ID:         "C12",
		QuickTimes: 4, ThoroughTimes: 4,
		Rule: "random messages with arbitrary texts written by our own MO writer in a random layout and by our own PO writer; every message and near misses looked up, delivered in eight ways; non-trivial: the layout differs from the plain one (byte order, order, placement and padding, hash table, shared strings, revision)",
		Assumptions: []string{
			"as msgfmt does, untranslated messages are left out of the MO file",
		},
		Parts: []*engine.Part{engine.Gen("layouts", 5000, 150000, genMO, checkC12)},
	})
	engine.Register(&engine.Prop{
		ID: "C33", QuickTimes: 8, ThoroughTimes: 8,
		Rule:  "random language, decoder and header (formula of any language, invalid or absent; CLDR field in any spelling; names in any case and order); the text served for every count is compared with the reference rule; non-trivial: the header has a formula",
		Parts: []*engine.Part{engine.Gen("rules", 40000, 1000000, genHdrRule, checkC33)},
	})
	engine.Register(&engine.Prop{
		ID:         "C17",
		QuickTimes: 6, ThoroughTimes: 8,
		Rule: "random PO files in random layouts with random flag lists and empty or missing forms; every message looked up in the catalog and through a localizer with callback; non-trivial: at least one fuzzy or incomplete and one served message",
		Assumptions: []string{
			"the flag comment stands among the comment lines directly before the entry (a comment block followed by a blank line is detached)",
		},
		Parts: []*engine.Part{engine.Gen("flags", 8000, 250000, genFuzzy, checkC17)},
	})
}
