package props

import (
	"bytes"
	"encoding/json"
	"fmt"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"

	"verif/harness/engine"
)

// ---------------------------------------------------------------- C21

type isoCase struct {
	Spec   *catSpec `json:"spec"`
	Counts []int64  `json:"counts"`
	Acts   []int    `json:"acts"`
}

func genIso(t *rapid.T) isoCase {
	c := isoCase{Spec: genRichSpec(t, pick(t, "format", "po", "mo")), Counts: genCounts(t)}
	if chance(t, "flagged", 30) {
		for _, m := range c.Spec.Msgs {
			if chance(t, "fuzzy", 30) {
				m.Flags = []string{"fuzzy"}
			}
		}
	}
	for n := intR(t, "nacts", 1, 8); n > 0; n-- {
		c.Acts = append(c.Acts, intR(t, "act", 0, 7))
	}
	return c
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 'X'
	}
}

func checkIso(c isoCase, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	ctx.Label(c.Spec.Format)
	tag := language.MustParse(c.Spec.Lang)
	data := c.Spec.file()
	cat, err := c.Spec.decoder().Decode(tag, c.Spec.Domain, data)
	if err != nil {
		return fmt.Errorf("Decode: %v", err)
	}
	scribble(data)
	g, ok := cat.(*catalog.GettextCatalog)
	if !ok {
		return fmt.Errorf("catalog is a %T", cat)
	}
	var kept []catalog.PoLookupMap
	check := func(what string) error {
		if err := compareCatalog(c.Spec, cat, c.Counts, what); err != nil {
			return err
		}
		if err := compareMessages(c.Spec, cat, c.Spec.Format == "mo"); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	if err := check("after changing the decoded buffer"); err != nil {
		return err
	}
	for _, a := range c.Acts {
		msgs := g.Messages()
		what := ""
		switch a {
		case 0:
			what = "deleting contexts from Messages()"
			for cx := range msgs {
				delete(msgs, cx)
			}
		case 1:
			what = "deleting entries from Messages()"
			for cx := range msgs {
				for id := range msgs[cx] {
					delete(msgs[cx], id)
				}
			}
		case 2:
			what = "changing Translations() of Messages()"
			for cx := range msgs {
				for id := range msgs[cx] {
					tr := msgs[cx][id].Translations()
					for i := 0; i < 6; i++ {
						tr[i] = "changed"
					}
					if got := msgs[cx][id].Translations()[0]; got == "changed" {
						return fmt.Errorf("Translations() gives the inner map")
					}
				}
			}
		case 3:
			what = "overwriting messages in Messages()"
			for cx := range msgs {
				for id := range msgs[cx] {
					*msgs[cx][id] = catalog.GettextMessage{}
				}
			}
		case 4:
			what = "changing clones"
			for cx := range msgs {
				for id := range msgs[cx] {
					before := msgs[cx][id].Translations()
					cl := msgs[cx][id].Clone()
					if fmt.Sprint(cl.Translations()) != fmt.Sprint(before) {
						return fmt.Errorf("Clone() of (%q, %q) has %v, want %v", cx, id, cl.Translations(), before)
					}
					for i := range cl.Translations() {
						delete(cl.Translations(), i)
					}
					*cl = catalog.GettextMessage{}
					if fmt.Sprint(msgs[cx][id].Translations()) != fmt.Sprint(before) {
						return fmt.Errorf("changing the clone of (%q, %q) changes the message", cx, id)
					}
				}
			}
		case 5:
			what = "adding to Messages()"
			msgs["new"] = map[string]*catalog.GettextMessage{"a": {}}
			for cx := range msgs {
				msgs[cx]["new"] = &catalog.GettextMessage{}
			}
		case 6:
			what = "decoding another catalog"
			other := *c.Spec
			other.Msgs = nil
			for _, m := range c.Spec.Msgs {
				o := *m
				o.Strs = map[int]string{}
				for i := range m.Strs {
					o.Strs[i] = "other"
				}
				o.Flags = nil
				other.Msgs = append(other.Msgs, &o)
			}
			if _, err := other.decoder().Decode(tag, c.Spec.Domain, other.file()); err != nil {
				return fmt.Errorf("Decode: %v", err)
			}
		case 7:
			what = "changing the rule set of the language"
			if set, _ := cldrplural.ForLanguage(tag); set != nil {
				for i := range set.Categories {
					set.Categories[i] = cldrplural.Many
				}
				set.FormFunc = nil
			}
		}
		kept = append(kept, msgs)
		if err := check("after " + what); err != nil {
			return err
		}
	}
	_ = kept
	return nil
}

type isoJSONCase struct {
	JSON jsonCase `json:"json"`
	Doc  bool     `json:"doc,omitempty"`
	Acts []int    `json:"acts"`
}

func genIsoJSON(t *rapid.T) isoJSONCase {
	c := isoJSONCase{Doc: chance(t, "doc", 50)}
	c.JSON = genJSONCase(0, true, c.Doc)(t)
	for n := intR(t, "nacts", 1, 8); n > 0; n-- {
		c.Acts = append(c.Acts, intR(t, "act", 0, 7))
	}
	return c
}

func checkIsoJSON(c isoJSONCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.JSON.Lang)
	var cat catalog.JSONCatalog
	input := c.JSON.messages()
	ctx.NonTrivialIf(len(input) > 0)
	snapshot := func(m *catalog.JSONMessage) string {
		return fmt.Sprintf("%q %q %v", m.Comment, m.Context, m.Translations)
	}
	before := map[string]string{}
	for k, m := range input {
		before[k] = snapshot(m)
	}
	if c.Doc {
		data := c.JSON.document()
		got, err := catalog.NewJSONDecoder().Decode(tag, "dom", data)
		if err != nil {
			if len(input) == 0 {
				return nil
			}
			return fmt.Errorf("Decode: %v", err)
		}
		scribble(data)
		cat = got.(catalog.JSONCatalog)
	} else {
		got, err := catalog.NewJSONCatalogWithMessages(tag, "dom", input)
		if err != nil {
			return fmt.Errorf("NewJSONCatalogWithMessages: %v", err)
		}
		cat = got
		for k, m := range input {
			if s := snapshot(m); s != before[k] {
				return fmt.Errorf("creating the catalog changes the message given: %s, before %s", s, before[k])
			}
		}
		// the caller goes on using its messages
		for k, m := range input {
			m.Context, m.Comment = "changed", "changed"
			for _, i := range cldrCats {
				if m.Translations != nil {
					m.Translations[i] = "changed"
				}
			}
			input[k] = nil
		}
	}
	if err := c.JSON.checkJSON(cat, "after changing the input"); err != nil {
		return err
	}
	for _, a := range c.Acts {
		msgs := cat.Messages()
		what := ""
		switch a {
		case 0:
			what = "deleting from Messages()"
			for k := range msgs {
				delete(msgs, k)
			}
		case 1:
			what = "changing texts of Messages()"
			for _, m := range msgs {
				for _, i := range cldrCats {
					m.Translations[i] = "changed"
				}
			}
		case 2:
			what = "changing fields of Messages()"
			for _, m := range msgs {
				m.Context, m.Comment, m.Translations = "x", "y", nil
			}
		case 3:
			what = "changing clones"
			for k, m := range msgs {
				b := snapshot(m)
				cl := m.Clone()
				if s := snapshot(cl); s != b {
					return fmt.Errorf("Clone() of %q is %s, want %s", k, s, b)
				}
				for _, i := range cldrCats {
					cl.Translations[i] = "changed"
				}
				cl.Context = "changed"
				if s := snapshot(m); s != b {
					return fmt.Errorf("changing the clone of %q changes the message", k)
				}
			}
		case 4:
			what = "encoding"
			var buf bytes.Buffer
			if err := catalog.NewJSONEncoder(&buf).Encode(cat); err != nil {
				return fmt.Errorf("Encode: %v", err)
			}
			scribble(buf.Bytes())
		case 5:
			what = "applying the categories of another language to Messages()"
			for _, m := range msgs {
				catalog.ApplyPluralCategoriesToJSONMessage(language.Arabic, m)
				catalog.ApplyPluralCategoriesToJSONMessage(language.Japanese, m)
			}
		case 6:
			what = "changing the rule set of the language"
			set, _ := cldrplural.ForLanguage(tag)
			for i := range set.Categories {
				set.Categories[i] = cldrplural.Zero
			}
			set.FormFunc = nil
		case 7:
			what = "marshalling and building another catalog from Messages()"
			if _, err := json.Marshal(msgs); err != nil {
				return fmt.Errorf("Marshal: %v", err)
			}
			second, err := catalog.NewJSONCatalogWithMessages(tag, "dom", msgs)
			if err != nil {
				return fmt.Errorf("NewJSONCatalogWithMessages of Messages(): %v", err)
			}
			for _, m := range msgs {
				m.Translations[cldrplural.Other] = "changed"
			}
			if err := c.JSON.checkJSON(second, "the second catalog"); err != nil {
				return err
			}
		}
		if err := c.JSON.checkJSON(cat, "after "+what); err != nil {
			return err
		}
	}
	return nil
}

type isoBundleCase struct {
	Base lookupCase `json:"base"`
	Reqs []string   `json:"reqs"`
}

func genIsoBundle(t *rapid.T) isoBundleCase {
	c := isoBundleCase{Base: genLookup(worldConf{formats: []string{"po", "mo", "json"}, missing: 15}, 0, true)(t)}
	for n := intR(t, "nreqs", 1, 5); n > 0; n-- {
		c.Reqs = append(c.Reqs, pick(t, "req", requestTags...))
	}
	return c
}

// greedyPrinter changes what it is given.
type greedyPrinter struct {
	spreak.Printer
	langs []language.Tag
}

func (p *greedyPrinter) Init(langs []language.Tag) {
	p.Printer.Init(append([]language.Tag{}, langs...))
	p.langs = langs
	for i, j := 0, len(langs)-1; i < j; i, j = i+1, j-1 {
		langs[i], langs[j] = langs[j], langs[i]
	}
}

func overwriteTags(tags []language.Tag) {
	for i := range tags {
		tags[i] = language.MustParse("tlh")
	}
}

func checkIsoBundle(c isoBundleCase, ctx *engine.Ctx) error {
	p := &greedyPrinter{Printer: spreak.NewDefaultPrinter()}
	var given []language.Tag
	builder := func(tags []language.Tag, o ...language.MatchOption) language.Matcher {
		m := language.NewMatcher(append([]language.Tag{}, tags...), o...)
		given = tags
		for i, j := 0, len(tags)-1; i < j; i, j = i+1, j-1 {
			tags[i], tags[j] = tags[j], tags[i]
		}
		return m
	}
	e, b, err := c.Base.openBundle(spreak.WithPrinter(p), spreak.WithLanguageMatcherBuilder(builder))
	if err != nil || e == nil {
		return err
	}
	ctx.NonTrivialIf(len(e.st.languages) > 1)
	langs := e.st.languages
	doms := sortedKeys(e.st.domains)
	check := func(what string) error {
		if got := sortedTags(b.SupportedLanguages()); !eqStrings(got, sortedCopy(langs)) {
			return fmt.Errorf("%s: SupportedLanguages %v, want %v", what, got, langs)
		}
		if got := sortedCopy(b.Domains()); !eqStrings(got, doms) {
			return fmt.Errorf("%s: Domains %q, want %q", what, got, doms)
		}
		for _, o := range c.Base.Ops {
			vars := o.vars()
			a := e.want(o)
			got, _, _ := o.call(e.loc)
			if want := e.format(a, o); got != want {
				return fmt.Errorf("%s: %s %+v gives %q, want %q", what, o.name(), o, got, want)
			}
			if fmt.Sprintf("%q", vars) != fmt.Sprintf("%q", o.vars()) {
				return fmt.Errorf("%s: the arguments changed", what)
			}
		}
		for _, r := range append(append([]string{}, c.Reqs...), langs...) {
			want, found := e.st.match([]language.Tag{language.MustParse(r)})
			loc := spreak.NewLocalizer(b, language.MustParse(r))
			if loc.Language().String() != want || loc.HasLocale() != found {
				return fmt.Errorf("%s: request %s gives language %s (%v), want %s (%v)", what, r, loc.Language(), loc.HasLocale(), want, found)
			}
			var ds []string
			for _, d := range c.Base.World.Domains {
				if want != e.st.source && c.Base.World.spec(want, d) != nil {
					ds = append(ds, d)
				}
			}
			got := loc.Domains()
			if !eqStrings(sortedCopy(got), sortedCopy(ds)) {
				return fmt.Errorf("%s: request %s: Domains %q, want %q", what, r, got, ds)
			}
			for i := range got {
				got[i] = "changed"
			}
		}
		return nil
	}
	if err := check("new bundle"); err != nil {
		return err
	}
	for _, s := range [][]language.Tag{b.SupportedLanguages(), given, p.langs} {
		overwriteTags(s)
		_ = append(s[:0], language.MustParse("tlh"))
	}
	d := b.Domains()
	for i := range d {
		d[i] = "changed"
	}
	_ = append(d[:0], "x")
	if err := check("after changing lists"); err != nil {
		return err
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C21",
		QuickTimes: 4, ThoroughTimes: 4,
		Rule: "gettext catalogs, JSON catalogs and bundles; buffers, returned maps, messages, clones, lists, rule sets and the lists given to printers and matchers are changed in random order, and after every change all lookups, messages, languages and domains are compared with the model; non-trivial: at least one message (catalogs) or two languages (bundles)",
		Assumptions: []string{
			"the PO editing structures (package po) are meant to be shared and changed; they are not covered",
		},
		Parts: []*engine.Part{
			engine.Gen("gettext", 4000, 150000, genIso, checkIso),
			engine.Gen("json", 4000, 150000, genIsoJSON, checkIsoJSON),
			engine.Gen("bundle", 4000, 150000, genIsoBundle, checkIsoBundle),
		},
	})
}
