package props

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/humanize"

	"verif/harness/engine"
)

// ---------------------------------------------------------------- C35

// collLocale is the data of one locale given to humanize.New.
type collLocale struct {
	Lang   string               `json:"lang"`
	File   string               `json:"file"`            // ok, missing, other (another domain), corrupt, formula, empty, denied, invalid (open errors), broken (read error)
	Has    []string             `json:"has,omitempty"`   // the messages in the file
	Rule   int                  `json:"rule,omitempty"`  // plural rule of the file
	Format *humanize.FormatData `json:"format"`          // nil: defaults
	Again  bool                 `json:"again,omitempty"` // the same pointer is passed once more
}

type collCase struct {
	Locales  []collLocale `json:"locales"`
	Split    int          `json:"split"` // locales in the first WithLocale
	Fallback string       `json:"fallback,omitempty"`
	Matcher  bool         `json:"matcher,omitempty"` // a matcher that always takes the last language
	Callback bool         `json:"callback,omitempty"`
	Requests [][]string   `json:"requests"`
	Time     timeSpec     `json:"time"`
	Days     int          `json:"days"`
	Mutate   bool         `json:"mutate,omitempty"` // change the data after New
	Parallel bool         `json:"parallel,omitempty"`
}

var collLangs = []string{"de", "de-AT", "fr", "es", "es-MX", "pt", "pt-BR", "pl", "sr-Latn", "sr", "tlh", "en", "en-GB", "zu", "nb"}

var collMsgs = []string{"one", "two", "three", "days", "midnight", "noon"}

type collRule struct {
	header string
	form   func(n int) int
}

var collRules = []collRule{
	{"nplurals=2; plural=n!=1;", func(n int) int {
		if n != 1 {
			return 1
		}
		return 0
	}},
	{"nplurals=3; plural=n%3;", func(n int) int { return n % 3 }},
	{"nplurals=1; plural=0;", func(int) int { return 0 }},
	{"nplurals=2; plural=n>4;", func(n int) int {
		if n > 4 {
			return 1
		}
		return 0
	}},
}

func genCollCase(t *rapid.T) collCase {
	c := collCase{Time: genTimeSpec(t), Days: pick(t, "days", 1, 1, 2, 3, 4, 5, 6)}
	bad := pick(t, "bad", 0, 0, 0, 0, 15)
	for n := intR(t, "nlocales", 0, 5); n > 0; n-- {
		l := collLocale{Lang: pick(t, "lang", collLangs...), File: "ok", Rule: intR(t, "rule", 0, len(collRules)-1)}
		if chance(t, "noFile", 15) {
			l.File = pick(t, "noFileKind", "missing", "other")
		}
		if chance(t, "badFile", bad) {
			l.File = pick(t, "badKind", "corrupt", "formula", "denied", "invalid", "empty", "broken")
		}
		for _, m := range collMsgs {
			if chance(t, "has", 65) {
				l.Has = append(l.Has, m)
			}
		}
		if chance(t, "hasFormat", 75) {
			f := &humanize.FormatData{}
			for i, p := range formatFields(f) {
				if chance(t, "set", 60) {
					*p = fmt.Sprintf("[%d%d] ", len(c.Locales), i) + pick(t, "fmt", "j", "Y", "H:i", "d/m", "a", "y z")
				}
			}
			if chance(t, "sameFormats", 10) { // one format for several purposes
				p := formatFields(f)
				*p[intR(t, "sameTo", 0, len(p)-1)] = *p[intR(t, "sameFrom", 0, len(p)-1)]
			}
			c.Locales = append(c.Locales, l)
			c.Locales[len(c.Locales)-1].Format = f
		} else {
			c.Locales = append(c.Locales, l)
		}
		c.Locales[len(c.Locales)-1].Again = chance(t, "again", 8)
	}
	c.Split = intR(t, "split", 0, len(c.Locales))
	var given []string
	for _, l := range c.Locales {
		given = append(given, l.Lang)
	}
	if chance(t, "fallback", 30) {
		if len(given) > 0 && chance(t, "given", 80) {
			c.Fallback = pick(t, "fb", given...)
		} else {
			c.Fallback = pick(t, "fb2", collLangs...)
		}
	}
	c.Matcher = chance(t, "matcher", 10)
	c.Callback = chance(t, "callback", 20)
	for n := intR(t, "nreq", 1, 4); n > 0; n-- {
		var r []string
		for k := intR(t, "nlang", 0, 2); k > 0; k-- {
			if len(given) > 0 && chance(t, "known", 60) {
				r = append(r, pick(t, "req", given...))
			} else {
				r = append(r, pick(t, "req2", "de-CH", "fr-CA", "ko", "pt-PT", "es-AR", "zu", "sr", "en", "no", "xx-invalid-tag", "de;q=0.3,fr"))
			}
		}
		c.Requests = append(c.Requests, r)
	}
	c.Mutate = chance(t, "mutate", 50)
	c.Parallel = chance(t, "parallel", 25)
	return c
}

func formatFields(f *humanize.FormatData) []*string {
	return []*string{&f.DateFormat, &f.TimeFormat, &f.DateTimeFormat, &f.YearMonthFormat, &f.MonthDayFormat, &f.ShortDateFormat, &f.ShortDatetimeFormat}
}

// text is what message m is in the file of locale i, with form f.
func collText(m string, i, f int) string {
	if m == "days" {
		return fmt.Sprintf("%%[1]v D%d-%d", i, f)
	}
	return fmt.Sprintf("%s-%d", m, i)
}

func (l collLocale) has(m string) bool {
	if l.File != "ok" {
		return false
	}
	for _, h := range l.Has {
		if h == m {
			return true
		}
	}
	return false
}

func (l collLocale) po(i int) string {
	r := collRules[l.Rule]
	var b strings.Builder
	header := r.header
	if l.File == "formula" {
		header = "nplurals=2; plural=n+;"
	}
	fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: %s\\n\"\n\n", header)
	for _, m := range l.Has {
		if m != "days" {
			fmt.Fprintf(&b, "msgid %q\nmsgstr %q\n\n", m, collText(m, i, 0))
			continue
		}
		b.WriteString("msgid \"%[1]v day\"\nmsgid_plural \"%[1]v days\"\n")
		for f := 0; f < 3; f++ {
			if f < int(r.header[len("nplurals=")]-'0') {
				fmt.Fprintf(&b, "msgstr[%d] %q\n", f, collText(m, i, f))
			}
		}
		b.WriteString("\n")
	}
	if l.File == "corrupt" {
		b.WriteString("msgid \"x\nmsgstr \"y\"\n")
	}
	return b.String()
}

// files is a new file system of the locale.
func (l collLocale) files(i int) fs.FS {
	data := []byte(l.po(i))
	m := fstest.MapFS{"django.po": &fstest.MapFile{Data: data}}
	switch l.File {
	case "missing":
		return fstest.MapFS{"readme": &fstest.MapFile{}}
	case "other":
		return fstest.MapFS{"other.po": &fstest.MapFile{Data: data}}
	case "denied":
		return openOnly{&faultFS{MapFS: m, name: "django.po", at: -1, open: fs.ErrPermission}}
	case "invalid":
		return openOnly{&faultFS{MapFS: m, name: "django.po", at: -1, open: fs.ErrInvalid}}
	case "empty":
		return fstest.MapFS{"django.po": &fstest.MapFile{}}
	case "broken":
		return openOnly{&faultFS{MapFS: m, name: "django.po", at: len(data) / 2, err: errInjected, chunk: 7}}
	}
	return m
}

// openOnly hides the other methods of a file system.
type openOnly struct{ fs.FS }

type collLoader map[language.Tag]bool

func (l collLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if !l[lang] {
		return nil, spreak.NewErrNotFound(lang, "test", "domain=%q", domain)
	}
	return catalog.NewPoDecoder().Decode(lang, domain, []byte("msgid \"x\"\nmsgstr \"y\"\n"))
}

// lastMatcher prefers the last language.
type lastMatcher struct{ tags []language.Tag }

func (m lastMatcher) Match(...language.Tag) (language.Tag, int, language.Confidence) {
	if len(m.tags) == 0 {
		return language.Und, 0, language.No
	}
	return m.tags[len(m.tags)-1], len(m.tags) - 1, language.High
}

func (c collCase) bundleOptions(missing func(error)) []spreak.BundleOption {
	var opts []spreak.BundleOption
	if c.Fallback != "" {
		opts = append(opts, spreak.WithFallbackLanguage(c.Fallback))
	}
	if c.Matcher {
		opts = append(opts, spreak.WithLanguageMatcherBuilder(func(t []language.Tag, _ ...language.MatchOption) language.Matcher { return lastMatcher{t} }))
	}
	if c.Callback {
		opts = append(opts, spreak.WithMissingTranslationCallback(missing))
	}
	return opts
}

func checkColl(c collCase, ctx *engine.Ctx) error {
	first := map[string]int{} // language -> first locale with it
	last := map[string]int{}
	supported := collLoader{}
	var order []any
	bad := false
	for i, l := range c.Locales {
		if _, ok := first[l.Lang]; !ok {
			first[l.Lang] = i
			order = append(order, language.MustParse(l.Lang))
		}
		last[l.Lang] = i
	}
	for lang := range first {
		if first[lang] != last[lang] {
			// which data of two for one language is used is open, but both
			// parts must come from the same one; only usable data is compared
			ctx.Label("language given twice")
			for i, l := range c.Locales {
				if l.Lang == lang && c.Locales[i].File != "ok" {
					return nil
				}
			}
		}
	}
	ctx.NonTrivialIf(len(first) > 0)
	var data []*humanize.LocaleData
	var given []*humanize.LocaleData
	for i, l := range c.Locales {
		d := &humanize.LocaleData{Lang: language.MustParse(l.Lang), Fs: l.files(i)}
		if l.Format != nil {
			f := *l.Format
			d.Format = &f
		}
		data = append(data, d)
		given = append(given, d)
		switch l.File {
		case "ok":
			supported[d.Lang] = true
		case "missing", "other":
			ctx.Label("locale without catalog")
		default:
			if l.Lang != "en" {
				bad = true
				ctx.Label("bad catalog " + l.File)
			}
		}
	}
	for i, l := range c.Locales {
		if l.Again && first[l.Lang] == last[l.Lang] {
			given = append(given, data[i])
		}
	}
	missed := 0
	var mu sync.Mutex
	build := func() (*humanize.Collection, error) {
		opts := []humanize.Option{humanize.WithLocale(given[:min(c.Split, len(given))]...), humanize.WithLocale(given[min(c.Split, len(given)):]...)}
		for _, o := range c.bundleOptions(func(error) { mu.Lock(); missed++; mu.Unlock() }) {
			opts = append(opts, humanize.WithBundleOption(o))
		}
		return humanize.New(opts...)
	}
	opts := append(c.bundleOptions(func(error) {}), spreak.WithSourceLanguage(language.English), spreak.WithDefaultDomain("django"),
		spreak.WithDomainLoader("django", supported), spreak.WithLanguage(order...))
	bundle, wantErr := spreak.NewBundle(opts...)

	var coll *humanize.Collection
	var err error
	if c.Parallel {
		// the same data used for several collections at once
		ctx.Label("several collections")
		colls, errs := make([]*humanize.Collection, 4), make([]error, 4)
		var wg sync.WaitGroup
		for i := range colls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				colls[i], errs[i] = build()
			}()
		}
		wg.Wait()
		coll, err = colls[3], errs[3]
		for i := range errs {
			if (errs[i] == nil) != (err == nil) {
				return fmt.Errorf("one collection of the same data is created (%v), another one not (%v)", errs[i], err)
			}
		}
	} else {
		coll, err = build()
	}
	for i, l := range c.Locales {
		d := data[i]
		same := d.Lang == language.MustParse(l.Lang) && (d.Format == nil) == (l.Format == nil)
		if same && d.Format != nil {
			same = *d.Format == *l.Format
		}
		if !same {
			return engine.Keyf("locale-data-modified", "New changed the data of locale %s: formats %+v, given %+v", l.Lang, d.Format, l.Format)
		}
	}
	if bad || wantErr != nil {
		ctx.Label("creation fails")
		if err == nil {
			return fmt.Errorf("New succeeds although a catalog cannot be read or a needed language is missing (%v)", wantErr)
		}
		for _, l := range c.Locales {
			if l.File == "broken" && len(c.Locales) == 1 && wantErr == nil && l.Lang != "en" && !errors.Is(err, errInjected) {
				return fmt.Errorf("the error of reading the catalog is not passed on: %v", err)
			}
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("New: %v", err)
	}
	if c.Mutate {
		for _, d := range data {
			if d.Format == nil {
				d.Format = &humanize.FormatData{}
			}
			for _, p := range formatFields(d.Format) {
				*p = "changed"
			}
			if m, ok := d.Fs.(fstest.MapFS); ok {
				clear(m)
			}
			d.Lang = language.Korean
		}
		ctx.Label("data changed after New")
	}
	tm := c.Time.time()
	for _, r := range c.Requests {
		var langs []any
		for _, l := range r {
			langs = append(langs, l)
		}
		loc := spreak.NewLocalizer(bundle, langs...)
		own := loc.Language().String()
		h := coll.CreateHumanizer(langs...)
		// Each candidate is a choice of the data of the languages given twice
		var errFirst error
		okAny := false
		for _, choose := range []map[string]int{last, first} {
			err := c.compare(h, own, choose, tm)
			if err == nil {
				okAny = true
				break
			}
			if errFirst == nil {
				errFirst = err
			}
		}
		if !okAny {
			return fmt.Errorf("humanizer for %v (language %s): %w", r, own, errFirst)
		}
		ctx.LabelIf(len(r) > 0 && own != "en", "served in a given language")
	}
	return nil
}

// compare checks the texts and formats of a humanizer for language own.
func (c collCase) compare(h *humanize.Humanizer, own string, choose map[string]int, tm time.Time) error {
	var chain []int
	for _, lang := range []string{own, c.Fallback} {
		if i, ok := choose[lang]; ok && lang != "en" {
			chain = append(chain, i)
		}
		if lang == "en" { // the source language
			break
		}
	}
	find := func(m string) (int, bool) {
		for _, i := range chain {
			if c.Locales[i].has(m) {
				return i, true
			}
		}
		return 0, false
	}
	for n, m := range map[int]string{1: "one", 2: "two", 3: "three"} {
		want := m
		if i, ok := find(m); ok {
			want = collText(m, i, 0)
		}
		if got := h.Apnumber(n); got != want {
			return fmt.Errorf("Apnumber(%d) gives %q, want %q", n, got, want)
		}
	}
	want := "%[1]v days"
	if c.Days == 1 {
		want = "%[1]v day"
	}
	if i, ok := find("days"); ok {
		want = collText("days", i, collRules[c.Locales[i].Rule].form(c.Days))
	}
	want = strings.ReplaceAll(want, "%[1]v", fmt.Sprint(c.Days))
	base := time.Unix(1700000000, 0).UTC()
	if got := nbsp(h.TimeSinceFrom(base, base.AddDate(0, 0, c.Days))); got != nbsp(want) {
		return fmt.Errorf("TimeSinceFrom of %d days gives %q, want %q", c.Days, got, want)
	}
	var f *humanize.FormatData
	if i, ok := choose[own]; ok {
		f = c.Locales[i].Format
	}
	ref := *refEnglish()
	for _, k := range keywords {
		layout := named(withDefaults(f))[k]
		got := h.FormatTime(tm, k)
		if strings.ContainsAny(strings.ReplaceAll(layout, "\\", ""), "aAPNMFbDlE") {
			continue // names, which are texts of the catalog
		}
		if want := ref.format(tm, layout); got != want {
			return fmt.Errorf("%s gives %q, want %q (format %q)", k, got, want, layout)
		}
	}
	for _, x := range []struct {
		hour int
		msg  string
	}{{0, "midnight"}, {12, "noon"}} {
		want := x.msg
		if i, ok := find(x.msg); ok {
			want = collText(x.msg, i, 0)
		}
		if got := h.FormatTime(time.Date(2024, 5, 6, x.hour, 0, 0, 0, time.UTC), "P"); got != want {
			return fmt.Errorf("format P at %d gives %q, want %q", x.hour, got, want)
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C35",
		QuickTimes: 8, ThoroughTimes: 40,
		Rule: "random sets of custom locales (own catalog with marked texts and one of four plural rules, missing, unreadable or corrupt catalog, own or default formats, one language given twice), random bundle options passed on and random requests; texts, plural forms and named formats compared with the data given for the language a bundle with the same languages selects; data changed afterwards or used for several collections at once; non-trivial: at least one locale",
		Assumptions: []string{
			"the language a request selects is taken from a spreak bundle with the same languages (C03)",
			"English is the source language: its texts are not loaded; of two data for one language either may be used",
		},
		Parts: []*engine.Part{engine.Gen("collections", 8000, 100000, genCollCase, checkColl)},
	})
}
