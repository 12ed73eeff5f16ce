package props

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/localize"

	"verif/harness/engine"
)

// ---------------------------------------------------------------- C22

// action is one call of a concurrent program.
type action struct {
	Kind string  `json:"kind"`
	I    int     `json:"i,omitempty"` // which shared object
	N    int64   `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Op   *op     `json:"op,omitempty"`
	Num  *numVal `json:"num,omitempty"`
}

type concCase struct {
	Base  *lookupCase `json:"base"`
	Langs []string    `json:"langs"` // of the shared localizers
	Rules []string    `json:"rules"` // languages of the shared plural rules
	Hum   []string    `json:"hum,omitempty"`
	Progs [][]action  `json:"progs"`
}

// concEnv holds the shared objects.
type concEnv struct {
	c     *concCase
	b     *spreak.Bundle
	locs  []*spreak.Localizer
	keys  []*spreak.KeyLocalizer
	cats  []catalog.Catalog
	sets  []*cldrplural.RuleSet
	rules []*poplural.Rule
	funcs []poplural.PluralFunc
	coll  *humanize.Collection
	data  []*humanize.LocaleData
	hums  []*humanize.Humanizer
	opts  []humanize.TimeOption // shared argument slices, with room for more
	vars  []any
}

var humLangs = []string{"de", "pl", "ar", "fr", "mr", "lt", "pt-BR", "hu"}

func genConc(t *rapid.T) concCase {
	format := pick(t, "format", "po", "mo", "json")
	base := genLookup(worldConf{formats: []string{"po", "mo", "json"}, missing: 15}, 5, true)(t)
	c := concCase{Base: &base}
	for n := intR(t, "nlocs", 1, 3); n > 0; n-- {
		if st, _ := base.World.model(); len(st.languages) > 0 && chance(t, "loaded", 80) {
			c.Langs = append(c.Langs, pick(t, "lang", st.languages...))
		} else {
			c.Langs = append(c.Langs, pick(t, "other", "de-CH", "is", "en-US"))
		}
	}
	_ = format
	c.Rules = subset(t, "rules", 30, []string{"pl", "ar", "en", "ru", "lv", "cy", "mt", "fr"})
	if chance(t, "humanize", 35) {
		c.Hum = subset(t, "hum", 25, humLangs)
	}
	kinds := []string{"op", "op", "op", "newop", "newop", "info", "bundle"}
	if len(base.World.Cats) > 0 {
		kinds = append(kinds, "cat", "cat", "messages")
	}
	if len(c.Rules) > 0 {
		kinds = append(kinds, "cldr", "po")
	}
	kinds = append(kinds, "forlang", "create", "print", "error")
	if len(c.Hum) > 0 {
		kinds = append(kinds, "hum", "hum", "hum", "hum", "newhum", "newcoll")
	}
	same := chance(t, "same", 40) // all run the same program
	var prog []action
	for g := intR(t, "goroutines", 2, 6); g > 0; g-- {
		if !same || prog == nil {
			prog = nil
			for n := intR(t, "len", 1, 8); n > 0; n-- {
				a := action{Kind: pick(t, "kind", kinds...), I: intR(t, "i", 0, 7), N: genCount(t)}
				switch a.Kind {
				case "op", "newop", "create", "error":
					o := pick(t, "known", base.Ops...)
					if chance(t, "fresh", 30) {
						o = genOp(t, base.World, 5)
					}
					a.Op = &o
				case "cldr", "po":
					v := genNumVal(t, 5)
					a.Num = &v
				case "hum", "newhum", "newcoll":
					a.S = pick(t, "helper", "intcomma", "intword", "ap", "ordinal", "filesize", "since", "format", "day", "natural", "name")
				case "forlang", "bundle", "info":
					a.S = pick(t, "l", "de", "pl", "ar", "en", "ja", "lv", "is", "tlh", "pt-PT")
				}
				prog = append(prog, a)
			}
		}
		c.Progs = append(c.Progs, prog)
	}
	return c
}

func (c *concCase) build() (*concEnv, error) {
	e := &concEnv{c: c}
	var mu sync.Mutex
	n := 0
	_, b, err := c.Base.openBundle(spreak.WithMissingTranslationCallback(func(error) { mu.Lock(); n++; mu.Unlock() }))
	if err != nil || b == nil {
		return nil, err
	}
	e.b = b
	e.opts = append(make([]humanize.TimeOption, 0, 8), humanize.WithDepth(3))
	e.vars = append(make([]any, 0, 8), int64(7), "x")
	for _, l := range c.Langs {
		e.locs = append(e.locs, spreak.NewLocalizer(b, language.MustParse(l)))
		e.keys = append(e.keys, spreak.NewKeyLocalizer(b, l))
	}
	for _, s := range c.Base.World.Cats {
		cat, err := s.decoder().Decode(language.MustParse(s.Lang), s.Domain, s.file())
		if err != nil {
			return nil, fmt.Errorf("Decode: %v", err)
		}
		e.cats = append(e.cats, cat)
	}
	for _, l := range c.Rules {
		tag := language.MustParse(l)
		set, _ := cldrplural.ForLanguage(tag)
		f, _ := poplural.ForLanguage(tag)
		pf, raw, _ := gettextFor(tag)
		if set == nil || f == nil || pf == nil {
			return nil, fmt.Errorf("no plural rules for %s", l)
		}
		rule, err := poplural.Parse(raw)
		if err != nil {
			return nil, fmt.Errorf("Parse(%q): %v", raw, err)
		}
		e.sets, e.funcs, e.rules = append(e.sets, set), append(e.funcs, f), append(e.rules, rule)
	}
	if len(c.Hum) > 0 {
		var data []*humanize.LocaleData
		for _, d := range shipped() {
			if contains(c.Hum, d.Lang.String()) {
				data = append(data, d)
			}
		}
		if e.coll, err = humanize.New(humanize.WithLocale(data...)); err != nil {
			return nil, fmt.Errorf("humanize.New: %v", err)
		}
		for _, l := range c.Hum {
			e.hums = append(e.hums, e.coll.CreateHumanizer(l))
		}
		for i, d := range data { // not yet used for a collection
			x := *d
			switch {
			case i%3 == 0:
				x.Format = nil
			case i%3 == 1 && d.Format != nil:
				x.Format = &humanize.FormatData{DateFormat: d.Format.DateFormat}
			}
			e.data = append(e.data, &x)
		}
	}
	return e, nil
}

func at[T any](xs []T, i int) T { return xs[i%len(xs)] }

// run executes one action and shows its result.
func (e *concEnv) run(a action) string {
	switch a.Kind {
	case "op":
		s, err, _ := a.Op.call(at(e.locs, a.I))
		return fmt.Sprint(s, err)
	case "newop":
		s, err, _ := a.Op.call(spreak.NewLocalizer(e.b, at(e.c.Langs, a.I)))
		return fmt.Sprint(s, err)
	case "error":
		l := at(e.locs, a.I)
		return fmt.Sprint(l.LocalizeError(catalog.NewErrMissingContext(language.German, a.Op.Domain, a.Op.ID)), at(e.keys, a.I).Get(a.Op.ID))
	case "info":
		l := at(e.locs, a.I)
		d := l.Domains()
		sort.Strings(d)
		if len(d) > 0 {
			d[0] += "x"
		}
		return fmt.Sprint(l.Language(), l.HasLocale(), l.DefaultDomain(), d, l.HasDomain(a.S), l.HasDomain("app"))
	case "bundle":
		d := e.b.Domains()
		sort.Strings(d)
		l := e.b.SupportedLanguages()
		s := fmt.Sprint(sortedTags(l), d, e.b.CanLocalize(), e.b.IsLanguageSupported(language.MustParse(a.S)))
		overwriteTags(l)
		return s
	case "print":
		l := at(e.locs, a.I)
		m := &localize.Message{Singular: "%d %s", Plural: "%d %ss", Count: int(a.N), Vars: e.vars}
		return l.Print("%d %.2f %s", a.N, float64(a.N)/3, "x") + l.Print("%d %s", e.vars...) + l.Getf("%d %s", e.vars...) +
			l.NPGetf("c", "%d %s", "%d %ss", a.N, e.vars...) + l.Localize(m)
	case "create":
		_, b, err := e.c.Base.openBundle()
		if err != nil {
			return err.Error()
		}
		s, err, _ := a.Op.call(spreak.NewLocalizer(b, at(e.c.Langs, a.I)))
		return fmt.Sprint(s, err)
	case "cat":
		i := a.I % len(e.cats)
		cat, out := e.cats[i], ""
		for _, m := range e.c.Base.World.Cats[i].Msgs {
			t1, err1 := cat.Lookup(m.Ctx, m.ID)
			t2, err2 := cat.LookupPlural(m.Ctx, m.ID, a.N)
			out += fmt.Sprintln(t1, err1, t2, err2)
		}
		return out
	case "messages":
		switch cat := at(e.cats, a.I).(type) {
		case *catalog.GettextCatalog:
			msgs := cat.Messages()
			out := ""
			for _, cx := range sortedKeys(msgs) {
				for _, id := range sortedKeys(msgs[cx]) {
					out += fmt.Sprintln(cx, id, msgs[cx][id].Translations())
				}
				delete(msgs, cx)
			}
			return out
		case catalog.JSONCatalog:
			msgs := cat.Messages()
			b, err := json.Marshal(msgs)
			for _, m := range msgs {
				m.Translations[cldrplural.Other] = "changed"
			}
			var buf strings.Builder
			return fmt.Sprint(string(b), err, catalog.NewJSONEncoder(&buf).Encode(cat), buf.String())
		}
		return ""
	case "cldr":
		cat, err := at(e.sets, a.I).Evaluate(a.Num.any())
		return fmt.Sprint(cat, err)
	case "po":
		f, err := at(e.rules, a.I).Evaluate(a.Num.any())
		g, err2 := at(e.funcs, a.I)(a.Num.any())
		return fmt.Sprint(f, err, g, err2)
	case "forlang":
		tag := language.MustParse(a.S)
		set, ok := cldrplural.ForLanguage(tag)
		out := fmt.Sprint(ok)
		if set != nil {
			cat, err := set.Evaluate(a.N)
			out += fmt.Sprint(cat, err, set.Categories)
		}
		f, ok := poplural.ForLanguage(tag)
		if f != nil {
			n, err := f(a.N)
			out += fmt.Sprint(ok, n, err)
		}
		m := &catalog.JSONMessage{Translations: map[cldrplural.Category]string{cldrplural.Other: "o"}}
		catalog.ApplyPluralCategoriesToJSONMessage(tag, m)
		return out + fmt.Sprintf("%+v %v", *m, spreak.ExpandLanguage(tag))
	case "newcoll":
		coll, err := humanize.New(humanize.WithLocale(e.data...))
		if err != nil {
			return err.Error()
		}
		return e.humanize(coll.CreateHumanizer(e.request(a)...), a)
	case "hum", "newhum":
		h := at(e.hums, a.I)
		if a.Kind == "newhum" {
			h = e.coll.CreateHumanizer(e.request(a)...)
		}
		return h.Language().String() + " " + e.humanize(h, a)
	}
	panic("unknown action " + a.Kind)
}

// request is the list of languages of a new humanizer, also without a loaded one.
func (e *concEnv) request(a action) []any {
	switch a.N % 5 {
	case 0:
		return []any{"tlh"}
	case 1:
		return []any{language.English}
	case 2:
		return nil
	}
	return []any{"tlh", at(e.c.Hum, a.I)}
}

func (e *concEnv) humanize(h *humanize.Humanizer, a action) string {
	t := time.Unix(a.N%4e9, 0).UTC()
	switch a.S {
	case "intcomma":
		return h.Intcomma(a.N)
	case "intword":
		return h.Intword(math.Abs(float64(a.N)) * 1e6)
	case "ap":
		return h.Apnumber(a.N % 12)
	case "ordinal":
		return h.Ordinal(a.N)
	case "filesize":
		return h.FilesizeFormat(a.N)
	case "since":
		return h.TimeSinceFrom(t, time.Unix(2e9+a.N%3000, 0), e.opts...) + h.TimeUntilFrom(t, time.Unix(1e9-a.N%3000, 0), e.opts...) +
			h.TimeUntil(t, append([]humanize.TimeOption{humanize.WithNow(t.Add(time.Hour))}, e.opts...)...) + h.TimeSince(time.Now(), e.opts...)
	case "format":
		out := ""
		for _, k := range append([]string{"D d M Y H:i e O c r P"}, keywords...) {
			out += h.FormatTime(t, k) + "\n"
		}
		return out
	case "day":
		return h.NaturalDay(t)
	case "natural":
		return h.NaturalTime(time.Now().Add(-210 * time.Minute))
	case "name":
		return h.LanguageName("German") + h.LanguageNameByCode("fr")
	}
	panic("unknown helper " + a.S)
}

func checkConc(c concCase, ctx *engine.Ctx) error {
	kinds := map[string]bool{}
	for _, p := range c.Progs {
		for _, a := range p {
			kinds[a.Kind] = true
		}
	}
	// concurrently, on new objects
	results := make([][]string, len(c.Progs))
	before := races()
	e, err := c.build()
	if err != nil {
		return err
	}
	if e == nil {
		return nil
	}
	ctx.NonTrivialIf(len(c.Progs) > 1)
	for k := range kinds {
		ctx.Label(k)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	panics := make(chan string, len(c.Progs))
	for i, p := range c.Progs {
		results[i] = make([]string, len(p))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					panics <- fmt.Sprintf("goroutine %d panics: %v", i, r)
				}
			}()
			<-start
			for k, a := range p {
				results[i][k] = e.run(a)
			}
		}()
	}
	close(start)
	wg.Wait()
	if n := races() - before; n > 0 {
		return fmt.Errorf("%d data races among concurrent calls (the report is on the standard error of the replay)", n)
	}
	select {
	case p := <-panics:
		return fmt.Errorf("%s", p)
	default:
	}
	// alone, on other objects
	e, err = c.build()
	if err != nil || e == nil {
		return fmt.Errorf("second creation: %v", err)
	}
	for i, p := range c.Progs {
		for k, a := range p {
			if want := e.run(a); results[i][k] != want {
				return fmt.Errorf("goroutine %d: %s %+v gives %q concurrently, but %q alone", i, a.Kind, a, results[i][k], want)
			}
		}
	}
	return nil
}

// concPoCase: independent parsing, decoding and encoding in parallel.
type concPoCase struct {
	Texts []string `json:"texts"`
	Fmt   []string `json:"fmt"`
}

func genConcPo(t *rapid.T) concPoCase {
	c := concPoCase{}
	for n := intR(t, "n", 2, 4); n > 0; n-- {
		if chance(t, "shipped", 30) {
			c.Texts = append(c.Texts, "shipped:"+pick(t, "l", humLangs...))
			continue
		}
		s := genRichSpec(t, "po")
		c.Texts = append(c.Texts, string(s.file()))
	}
	return c
}

func checkConcPo(c concPoCase, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	var data [][]byte
	for _, s := range c.Texts {
		if l, ok := strings.CutPrefix(s, "shipped:"); ok {
			for _, d := range shipped() {
				if d.Lang.String() == l {
					b, err := fs.ReadFile(d.Fs, "django.po")
					if err != nil {
						return err
					}
					s = string(b[:min(len(b), 3000)])
				}
			}
		}
		data = append(data, []byte(s))
	}
	dec := catalog.NewPoDecoder()
	work := func(b []byte) string {
		f, err := po.Parse(b)
		if err != nil {
			return "error " + err.Error()
		}
		var out strings.Builder
		enc := po.NewEncoder(&out)
		enc.SetWrapWidth(30)
		err = enc.Encode(f)
		cat, err2 := dec.Decode(language.Polish, "d", b)
		s := ""
		if err2 == nil {
			s, _ = cat.LookupPlural("", "a", 3)
		}
		return fmt.Sprint(out.String(), err, err2, s)
	}
	before := races()
	got := make([]string, len(data))
	var wg sync.WaitGroup
	for i, b := range data {
		wg.Add(1)
		go func() { defer wg.Done(); got[i] = work(b) }()
	}
	wg.Wait()
	if n := races() - before; n > 0 {
		return fmt.Errorf("%d data races among independent parsers, encoders and decodings", n)
	}
	for i, b := range data {
		if want := work(b); got[i] != want {
			return fmt.Errorf("concurrently %q, alone %q", got[i], want)
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C22",
		QuickTimes: 1, ThoroughTimes: 1,
		Race: true,
		Rule: "random bundles, catalogs, plural rules and humanizers shared by 2 to 6 goroutines that run random programs of lookups, localizer creation, queries, plural evaluation, inspection, bundle creation and formatting; run with the race detector on new objects and compared with the results of the same calls made alone; independent parsing, encoding and decoding in parallel; non-trivial: at least two goroutines",
		Assumptions: []string{
			"callbacks given by the caller are safe for concurrent use",
			"the race detector sees the schedules that happened",
		},
		Parts: []*engine.Part{
			concurrent(engine.Gen("programs", 1600, 40000, genConc, checkConc)),
			concurrent(engine.Gen("files", 800, 20000, genConcPo, checkConcPo)),
		},
	})
}

func concurrent(p *engine.Part) *engine.Part {
	p.NoMemLimit = true
	return p
}
