package props

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/localize"

	"verif/harness/engine"
)

// ---------------------------------------------------------------- C03

type accept struct {
	Tag string `json:"tag"`
	Q   string `json:"q,omitempty"`   // "" is 1
	Sep string `json:"sep,omitempty"` // white space before the entry
}

type request struct {
	Kind   string   `json:"kind"` // tag, str, accept, junk, other
	Tag    string   `json:"tag,omitempty"`
	Accept []accept `json:"accept,omitempty"`
	Junk   string   `json:"junk,omitempty"`
}

var requestTags = append([]string{"de-CH", "en-US", "zh-TW", "zh-Hant-HK", "zh", "sr-Cyrl", "es-419", "pt-BR", "nl", "nb", "no", "da",
	"hr", "mo", "iw", "tl", "und", "mul", "fr-CA", "gsw", "en-AU", "ru-UA", "lv-LV", "x-private", "de-x-foo", "ca", "sk"}, worldTags...)

func (r request) value() any {
	switch r.Kind {
	case "tag":
		return language.MustParse(r.Tag)
	case "str":
		return r.Tag
	case "junk":
		return r.Junk
	case "accept":
		var b strings.Builder
		for i, a := range r.Accept {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.Sep + a.Tag)
			if a.Q != "" {
				b.WriteString(";q=" + a.Q)
			}
		}
		return b.String()
	}
	switch r.Junk {
	case "int":
		return 5
	case "nil":
		return nil
	case "bytes":
		return []byte("de")
	case "strings":
		return []string{"de", "fr", "en"}
	case "tagptr":
		t := language.German
		return &t
	case "base":
		b, _ := language.German.Base()
		return b
	case "tags":
		return []language.Tag{language.German, language.English, language.French}
	}
	return struct{}{}
}

// tags are the wanted languages in order of preference.
func (r request) tags() []language.Tag {
	switch r.Kind {
	case "tag", "str":
		return []language.Tag{language.MustParse(r.Tag)}
	case "accept":
		type wt struct {
			t language.Tag
			q float64
		}
		var ws []wt
		for _, a := range r.Accept {
			q := 1.0
			if a.Q != "" {
				fmt.Sscanf(a.Q, "%g", &q)
			}
			if q > 0 {
				ws = append(ws, wt{language.MustParse(a.Tag), q})
			}
		}
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].q > ws[j].q })
		var out []language.Tag
		for _, w := range ws {
			out = append(out, w.t)
		}
		return out
	}
	return nil
}

type negotiateCase struct {
	World   *world      `json:"world"`
	Matcher int         `json:"matcher,omitempty"` // 0: the default
	Domain  *string     `json:"domain,omitempty"`
	Reqs    [][]request `json:"reqs"`
	Probe   []string    `json:"probe,omitempty"`
}

func genRequest(t *rapid.T, loaded []string) request {
	tag := func() string {
		if len(loaded) > 0 && chance(t, "loaded", 40) {
			return pick(t, "reqLoaded", loaded...)
		}
		return pick(t, "reqTag", requestTags...)
	}
	switch intR(t, "reqKind", 0, 9) {
	case 0, 1, 2:
		return request{Kind: "tag", Tag: tag()}
	case 3, 4:
		return request{Kind: "str", Tag: tag()}
	case 5, 6, 7:
		r := request{Kind: "accept"}
		for n := intR(t, "naccept", 1, 4); n > 0; n-- {
			a := accept{Tag: tag(), Sep: pick(t, "sep", "", " ")}
			if chance(t, "hasQ", 60) {
				a.Q = pick(t, "q", "0.9", "0.8", "0.5", "0.1", "1", "1.0", "0", "0.0", "0.899", "0.001")
			}
			r.Accept = append(r.Accept, a)
		}
		return r
	case 8:
		return request{Kind: "junk", Junk: pick(t, "junk", "", "not a language", "de-", "123456789", "###", "de-de-de-de", "a", "\xff", ";q=1")}
	}
	return request{Kind: "other", Junk: pick(t, "other", "int", "nil", "bytes", "strings", "tagptr", "base", "tags")}
}

func genNegotiate(t *rapid.T) negotiateCase {
	c := negotiateCase{World: genWorld(t, worldConf{formats: []string{"po", "json"}, missing: 30})}
	st, _ := c.World.model()
	if chance(t, "matcher", 35) {
		c.Matcher = intR(t, "matcherKind", 1, 50)
	}
	if chance(t, "ownDomain", 40) {
		d := pick(t, "dom", worldDomains...)
		c.Domain = &d
	}
	for n := intR(t, "nreqs", 1, 6); n > 0; n-- {
		var rs []request
		for k := intR(t, "nreq", 0, 4); k > 0; k-- {
			rs = append(rs, genRequest(t, st.languages))
		}
		c.Reqs = append(c.Reqs, rs)
	}
	for n := intR(t, "nprobe", 1, 4); n > 0; n-- {
		c.Probe = append(c.Probe, pick(t, "probe", requestTags...))
	}
	return c
}

// oddMatcher answers by an arbitrary but fixed function of its arguments.
type oddMatcher struct {
	kind int
	tags []language.Tag
	args [][]language.Tag
}

func (m *oddMatcher) pickIndex(ts []language.Tag) (int, language.Confidence) {
	h := m.kind
	for _, t := range ts {
		for _, b := range []byte(t.String()) {
			h = h*31 + int(b)
		}
	}
	h &= 0xffff
	if len(m.tags) == 0 || h%4 == 0 {
		return 0, language.No
	}
	return h % len(m.tags), language.Confidence(1 + h%3)
}

func (m *oddMatcher) Match(ts ...language.Tag) (language.Tag, int, language.Confidence) {
	m.args = append(m.args, append([]language.Tag{}, ts...))
	i, c := m.pickIndex(ts)
	// the tag may carry extensions of the request
	return language.MustParse("de-u-co-phonebk"), i, c
}

func checkC03(c negotiateCase, ctx *engine.Ctx) error {
	var odd *oddMatcher
	builds := 0
	opts := c.World.options()
	if c.Matcher > 0 {
		opts = append(opts, spreak.WithLanguageMatcherBuilder(func(tags []language.Tag, _ ...language.MatchOption) language.Matcher {
			builds++
			odd = &oddMatcher{kind: c.Matcher, tags: append([]language.Tag{}, tags...)}
			return odd
		}))
	}
	b, err := spreak.NewBundle(opts...)
	st, ok := c.World.model()
	if ok != (err == nil) {
		return fmt.Errorf("bundle creation: error %v, expected success: %v", err, ok)
	}
	if err != nil {
		ctx.Label("creation rejected")
		return nil
	}
	var supported []language.Tag
	for _, l := range st.languages {
		supported = append(supported, language.MustParse(l))
	}
	if got, want := sortedTags(b.SupportedLanguages()), sortedTags(supported); !eqStrings(got, want) {
		return fmt.Errorf("SupportedLanguages = %v, want %v", got, want)
	}
	std := language.NewMatcher(supported)
	match := func(tags ...language.Tag) (int, bool) {
		if odd != nil {
			i, conf := odd.pickIndex(tags)
			return i, conf > language.No
		}
		_, i, conf := std.Match(tags...)
		return i, conf > language.No
	}
	if c.Matcher > 0 {
		if builds != 1 {
			return fmt.Errorf("the matcher builder was called %d times", builds)
		}
		if fmt.Sprint(odd.tags) != fmt.Sprint(supported) {
			return fmt.Errorf("the matcher builder got %v, loaded were %v", odd.tags, supported)
		}
	}
	for _, p := range c.Probe {
		tag := language.MustParse(p)
		if _, want := match(tag); b.IsLanguageSupported(tag) != want {
			return fmt.Errorf("IsLanguageSupported(%s) = %v with %v loaded", p, !want, supported)
		}
	}
	for _, rs := range c.Reqs {
		var req []any
		var tags []language.Tag
		parsed := 0
		for _, r := range rs {
			req = append(req, r.value())
			tags = append(tags, r.tags()...)
			ctx.Label("request " + r.Kind)
			if len(r.tags()) > 0 {
				parsed++
			}
		}
		lang, found := st.fallbackLang(), false
		if i, okM := match(tags...); okM {
			lang, found = st.languages[i], true
		}
		ctx.NonTrivialIf(len(st.languages) > 1 && len(tags) > 0)
		ctx.LabelIf(!found, "no language found")
		ctx.LabelIf(found && len(rs) > parsed, "junk skipped")
		var locs []*spreak.Localizer
		def := st.defaultDomain()
		if c.Domain != nil {
			def = *c.Domain
			locs = append(locs, spreak.NewLocalizerForDomain(b, def, req...), spreak.NewKeyLocalizerForDomain(b, def, req...).Localizer)
		} else {
			locs = append(locs, spreak.NewLocalizer(b, req...), spreak.NewKeyLocalizer(b, req...).Localizer)
		}
		for k, loc := range locs {
			what := fmt.Sprintf("requests %q with %v loaded (source %s, fallback %s), constructor %d", req, supported, st.source, st.fallback, k)
			if loc.Language().String() != lang {
				return fmt.Errorf("%s: language %s, want %s", what, loc.Language(), lang)
			}
			if loc.HasLocale() != found {
				return fmt.Errorf("%s: HasLocale %v, want %v", what, loc.HasLocale(), found)
			}
			if loc.DefaultDomain() != def {
				return fmt.Errorf("%s: default domain %q, want %q", what, loc.DefaultDomain(), def)
			}
			var doms []string
			for _, d := range c.World.Domains {
				if lang != st.source && c.World.spec(lang, d) != nil {
					doms = append(doms, d)
				}
			}
			if got := sortedCopy(loc.Domains()); !eqStrings(got, sortedCopy(doms)) {
				return fmt.Errorf("%s: domains %q, want %q", what, got, doms)
			}
			for _, d := range append([]string{"none"}, worldDomains...) {
				if want := contains(doms, d); loc.HasDomain(d) != want {
					return fmt.Errorf("%s: HasDomain(%q) = %v", what, d, !want)
				}
			}
			// the texts are those of the language
			for _, cat := range c.World.Cats {
				m := cat.Msgs[0]
				a := st.lookup(lang, cat.Domain, m.Ctx, m.ID, "", false, numVal{})
				if got := loc.DPGet(cat.Domain, m.Ctx, m.ID); got != a.Text {
					return fmt.Errorf("%s: DPGet(%q,%q,%q) = %q, want %q", what, cat.Domain, m.Ctx, m.ID, got, a.Text)
				}
				if got, err := loc.LocalizeWithError(&domMsg{localize.Message{Singular: m.ID, Context: m.Ctx}, cat.Domain}); got != a.Text || (err == nil) != (found && len(a.Misses) == 0) {
					return fmt.Errorf("%s: LocalizeWithError(%q,%q,%q) = %q, %v; language found: %v", what, cat.Domain, m.Ctx, m.ID, got, err, found)
				}
			}
		}
	}
	if odd != nil {
		// the matcher decides: it sees every list of languages as requested
		var want []string
		for _, rs := range c.Reqs {
			var tags []language.Tag
			for _, r := range rs {
				tags = append(tags, r.tags()...)
			}
			if len(tags) > 0 {
				want = append(want, fmt.Sprint(tags))
			}
		}
		var got []string
		for _, a := range odd.args {
			got = append(got, fmt.Sprint(a))
		}
		for _, w := range want {
			if !contains(got, w) {
				return fmt.Errorf("the matcher was asked for %v, but not for %s", got, w)
			}
		}
	}
	return nil
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C04

type printCase struct {
	Base    lookupCase `json:"base"`
	Printer string     `json:"printer,omitempty"` // "", printer, func
	// First: another printer given before the used one
	First bool `json:"first,omitempty"`
}

func genPrintCase(t *rapid.T) printCase {
	c := printCase{Base: genLookup(worldConf{formats: []string{"po", "mo", "json"}, missing: 20, fuzzy: 5}, 3, false)(t)}
	c.Printer = pick(t, "printer", "", "", "printer", "printer", "func")
	c.First = chance(t, "first", 15)
	// texts with verbs
	for _, cat := range c.Base.World.Cats {
		for _, m := range cat.Msgs {
			for _, i := range m.Forms() {
				if m.Strs[i] != "" && chance(t, "verbs", 60) {
					m.Strs[i] += pick(t, "verb", " %s", " %d", " 100%", "%%", " %[2]v %[1]v", " %v %v", " %!", " %5.2f", "%")
				}
			}
		}
	}
	for i := range c.Base.Ops {
		o := &c.Base.Ops[i]
		o.F = chance(t, "F", 60)
		if o.F {
			for n := intR(t, "nvars", 0, 3); n > 0; n-- {
				o.Vars = append(o.Vars, pick(t, "var", "x", "%d", "i:5", "i:1234567", "f:1234.5", "f:0.25", "nil:", "", "i:0"))
			}
		}
	}
	return c
}

type recPrinter struct {
	id    string
	inits [][]string
	early []string
}

func (p *recPrinter) Init(langs []language.Tag) { p.inits = append(p.inits, sortedTags(langs)) }
func (p *recPrinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	if len(p.inits) == 0 {
		p.early = append(p.early, lang.String())
	}
	l := lang.String()
	return func(str string, vars ...any) string { return recPrint(p.id+l, str, vars) }
}

func recPrint(l, str string, vars []any) string {
	return fmt.Sprintf("<%s|%s|%d%q>", l, str, len(vars), vars)
}

// generalMsg implements every method of Localizable by itself.
type generalMsg struct {
	o   op
	has bool
}

func (m *generalMsg) GetMsgID() string { return m.o.ID }
func (m *generalMsg) GetPluralID() string {
	if m.o.N {
		return m.o.Plural
	}
	return ""
}
func (m *generalMsg) GetContext() string {
	if m.o.P {
		return m.o.Ctx
	}
	return ""
}
func (m *generalMsg) GetVars() []any {
	if m.o.F {
		return m.o.vars()
	}
	return nil
}
func (m *generalMsg) GetCount() int     { return int(m.o.Num.V) }
func (m *generalMsg) HasDomain() bool   { return m.o.D }
func (m *generalMsg) GetDomain() string { return m.o.Domain }

var _ localize.Localizable = (*generalMsg)(nil)

func checkC04(c printCase, ctx *engine.Ctx) error {
	var opts []spreak.BundleOption
	p := &recPrinter{id: "p:"}
	other := &recPrinter{id: "other:"}
	if c.First {
		opts = append(opts, spreak.WithPrinter(other))
		if c.Printer == "" {
			opts = append(opts, spreak.WithPrinter(spreak.NewDefaultPrinter()))
		}
	}
	switch c.Printer {
	case "printer":
		opts = append(opts, spreak.WithPrinter(p))
	case "func":
		opts = append(opts, spreak.WithPrintFunction(func(str string, vars ...any) string { return recPrint("f", str, vars) }))
	}
	e, err := c.Base.open(opts...)
	if err != nil || e == nil {
		return err
	}
	ctx.Label("printer " + c.Printer)
	var langs []string
	langs = append(langs, e.st.languages...)
	if c.Printer == "printer" {
		if len(p.inits) != 1 {
			return fmt.Errorf("Init was called %d times", len(p.inits))
		}
		if !eqStrings(p.inits[0], sortedCopy(langs)) {
			return fmt.Errorf("Init got %v, loaded are %v", p.inits[0], langs)
		}
		if len(p.early) > 0 {
			return fmt.Errorf("print functions of %v were taken before Init", p.early)
		}
	}
	printed := func(lang, text string, vars []any) string {
		switch c.Printer {
		case "printer":
			return recPrint("p:"+lang, text, vars)
		case "func":
			return recPrint("f", text, vars)
		}
		if len(vars) == 0 {
			return text
		}
		return message.NewPrinter(language.MustParse(lang)).Sprintf(text, vars...)
	}
	loc := e.loc
	for _, o := range c.Base.Ops {
		a := e.want(o)
		var vars []any
		if o.F {
			vars = o.vars()
		}
		ctx.Label(o.name())
		ctx.NonTrivial()
		got, _, _ := o.call(loc)
		if want := printed(a.Lang, a.Text, vars); got != want {
			return fmt.Errorf("localizer %s (%s), printer %q: %s %+v gives %q, want %q", c.Base.Lang, e.lang, c.Printer, o.name(), o, got, want)
		}
		// the general method with the defaults filled in
		domain, cx, id, plural, isPlural := o.effective(e.st)
		n := o.Num.any()
		if o.Via == "localize" {
			n = int(o.Num.V)
		}
		var general string
		if isPlural {
			general = loc.DNPGetf(domain, cx, id, plural, n, vars...)
		} else {
			general = loc.DPGetf(domain, cx, id, vars...)
		}
		if got != general {
			return fmt.Errorf("localizer %s: %s %+v gives %q, the general method %q", e.lang, o.name(), o, got, general)
		}
		// the same as a message
		if _, isInt := n.(int); isInt && (!isPlural || plural != "") {
			m := &generalMsg{o: op{ID: id, Plural: plural, N: isPlural, P: true, Ctx: cx, D: o.D, Domain: domain, F: o.F, Vars: o.Vars, Num: o.Num}}
			ctx.Label("as message")
			if !o.D {
				m.o.Domain = "none" // not used: HasDomain is false
			}
			s, errL := loc.LocalizeWithError(m)
			if s != got {
				return fmt.Errorf("localizer %s: %s %+v gives %q, but the message %+v gives %q", e.lang, o.name(), o, got, *m, s)
			}
			if (errL == nil) != (e.found && len(a.Misses) == 0) {
				return fmt.Errorf("localizer %s: message %+v gives error %v, the misses are %v", e.lang, *m, errL, a.Misses)
			}
			if s2 := loc.Localize(m); s2 != s {
				return fmt.Errorf("localizer %s: message %+v: Localize %q, LocalizeWithError %q", e.lang, *m, s2, s)
			}
		}
		if got, want := loc.Print(a.Text, vars...), printed(e.lang, a.Text, vars); got != want {
			return fmt.Errorf("localizer %s: Print(%q, %q) = %q, want %q", e.lang, a.Text, vars, got, want)
		}
	}
	if s, err := loc.LocalizeWithError(nil); err == nil || s == "" {
		return fmt.Errorf("LocalizeWithError(nil) = %q, %v", s, err)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C03", QuickTimes: 5, ThoroughTimes: 8,
		Rule: "random bundle (see C01) with the default or an arbitrary custom matcher and lists of requests: tags, strings, Accept-Language headers with q-values, unparsable strings, foreign types; non-trivial: at least two languages loaded and at least one parsable request",
		Assumptions: []string{
			"the default matcher is golang.org/x/text/language.NewMatcher over the languages in load order; it is taken as correct",
			"a header is either parsable or not: headers with single broken entries are not generated",
		},
		Parts: []*engine.Part{engine.Gen("negotiate", 8000, 300000, genNegotiate, checkC03)},
	})
	engine.Register(&engine.Prop{
		ID: "C04", QuickTimes: 5, ThoroughTimes: 8,
		Rule: "random bundle (see C01) with the default printer, a recording printer or a print function, texts with verbs and percent signs, random arguments; every operation is compared with the model, with the general method and with the equivalent message; non-trivial: every case with operations",
		Assumptions: []string{
			"texts without arguments are verbatim with the default printer; other printers get every text",
			"message.Printer of golang.org/x/text is taken as correct",
		},
		Parts: []*engine.Part{engine.Gen("print", 8000, 300000, genPrintCase, checkC04)},
	})
}
