package props

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C18

type langItem struct {
	Tag  string `json:"tag,omitempty"`
	Form string `json:"form,omitempty"` // tag, str, posix, list, at, space, invalid, int, nil, ptr
	Text string `json:"text,omitempty"` // for invalid
}

func (l langItem) value() any {
	switch l.Form {
	case "str":
		return l.Tag
	case "posix":
		return strings.ReplaceAll(l.Tag, "-", "_") + ".UTF-8"
	case "list":
		return l.Tag + ":en:C"
	case "at":
		return l.Tag + "@euro"
	case "both":
		return l.Tag + ".UTF-8@euro"
	case "space":
		return "  " + l.Tag + " "
	case "invalid":
		return l.Text
	case "int":
		return 5
	case "nil":
		return nil
	case "ptr":
		t := language.MustParse(l.Tag)
		return &t
	case "strings":
		return []string{l.Tag}
	}
	return language.MustParse(l.Tag)
}

func (l langItem) ok() bool {
	switch l.Form {
	case "invalid", "int", "nil", "ptr", "strings":
		return false
	}
	return true
}

type bundleOpt struct {
	Kind   string     `json:"kind"`
	Langs  []langItem `json:"langs,omitempty"`
	Domain string     `json:"domain,omitempty"`
	Arg    string     `json:"arg,omitempty"`
}

type bundleCase struct {
	Opts []bundleOpt `json:"opts"`
	// Load tells what (language, domain) gives: ok (default), missing, wrapped, error, notexist
	Load map[string]string `json:"load,omitempty"`
	// Quiet leaves the missing callback out.
	Quiet bool `json:"quiet,omitempty"`
}

var bundleLangs = []string{"de", "en", "fr", "de-AT", "zh-Hant", "sr-Latn", "pl", "en-GB"}
var bundleDomains = []string{"", "app", "web", "x"}

func genLangItem(t *rapid.T, bad int) langItem {
	l := langItem{Tag: pick(t, "lang", bundleLangs...)}
	if chance(t, "und", 2) {
		l.Tag = "und"
	}
	if chance(t, "bad", bad) {
		l.Form = pick(t, "badForm", "invalid", "int", "nil", "ptr", "strings")
		l.Text = pick(t, "text", "", "C", "POSIX.UTF-8", "not a language", "123", "@euro", ".UTF-8", ":de", "de--AT", "deutschland")
		return l
	}
	l.Form = pick(t, "form", "tag", "tag", "str", "str", "posix", "list", "at", "both", "space")
	return l
}

func genBundle(t *rapid.T) bundleCase {
	c := bundleCase{Load: map[string]string{}}
	bad := pick(t, "badPercent", 0, 0, 0, 0, 0, 3)
	add := func(o bundleOpt) { c.Opts = append(c.Opts, o) }
	doms := subset(t, "dom", 55, bundleDomains)
	if len(doms) == 0 && chance(t, "someDomain", 90) {
		doms = []string{"app"}
	}
	for _, d := range doms {
		add(bundleOpt{Kind: pick(t, "loaderKind", "loader", "loader", "loader", "fs", "domainfs"), Domain: d})
	}
	if chance(t, "hasSource", 55) {
		add(bundleOpt{Kind: "source", Langs: []langItem{{Tag: pick(t, "source", bundleLangs...)}}})
	}
	if chance(t, "hasFallback", 35) {
		add(bundleOpt{Kind: "fallback", Langs: []langItem{genLangItem(t, bad)}})
	}
	for n := intR(t, "nlang", 0, 3); n > 0; n-- {
		o := bundleOpt{Kind: pick(t, "langKind", "lang", "lang", "lang", "req")}
		for k := intR(t, "nitems", 0, 4); k > 0; k-- {
			o.Langs = append(o.Langs, genLangItem(t, bad))
		}
		if o.Kind == "req" && len(o.Langs) > 2 {
			o.Langs = o.Langs[:2]
		}
		add(o)
	}
	for n := intR(t, "nmisc", 0, 3); n > 0; n-- {
		add(bundleOpt{Kind: pick(t, "misc", "default", "errctx", "printer", "printfunc", "matcher"), Arg: pick(t, "arg", "", "app", "none")})
	}
	if chance(t, "wrong", 12) {
		switch k := pick(t, "wrongKind", "nilopt", "nilloader", "nilfs", "nilfs2", "nilprinter", "nilprintfunc", "nilmatcher", "dup", "dup", "dupfs", "badfs", "nilfsopt", "source2"); k {
		case "dup", "dupfs":
			if len(doms) > 0 {
				add(bundleOpt{Kind: map[string]string{"dup": "loader", "dupfs": "fs"}[k], Domain: pick(t, "dupDom", doms...)})
			}
		case "source2":
			add(bundleOpt{Kind: "source", Langs: []langItem{{Tag: pick(t, "source", bundleLangs...)}}})
		default:
			add(bundleOpt{Kind: k, Domain: "extra"})
		}
	}
	p := perm(t, "order", len(c.Opts))
	opts := make([]bundleOpt, len(c.Opts))
	for i, j := range p {
		opts[i] = c.Opts[j]
	}
	c.Opts = opts
	missing := pick(t, "missing", 0, 10, 30, 60, 90)
	failing := pick(t, "failing", 0, 0, 0, 5)
	for _, l := range append([]string{"und"}, bundleLangs...) {
		for _, d := range bundleDomains {
			if chance(t, "miss", missing) {
				c.Load[l+"/"+d] = pick(t, "missKind", "missing", "missing", "wrapped")
			}
			if chance(t, "fail", failing) {
				c.Load[l+"/"+d] = pick(t, "failKind", "error", "notexist")
			}
		}
	}
	c.Quiet = chance(t, "quiet", 30)
	return c
}

var errLoad = errors.New("load failed")

// stubCatalog answers every lookup with its own name.
type stubCatalog struct {
	lang language.Tag
	name string
}

func (s *stubCatalog) Lookup(_, msgID string) (string, error) { return s.name, nil }
func (s *stubCatalog) LookupPlural(_, msgID string, _ any) (string, error) {
	return s.name, nil
}
func (s *stubCatalog) Language() language.Tag { return s.lang }

type bundleModel struct {
	optErr    bool
	fail      bool
	loadErr   error // the error must be this one
	badType   bool
	missing   bool // the failure is a missing required catalog
	source    string
	fallback  string
	langs     []string
	has       map[string]bool // lang/domain
	domains   map[string]bool
	notFound  map[string]int // lang -> reports
	noLang    map[string]int
	loads     map[string]int
	failsWith string
}

func (c *bundleCase) model() *bundleModel {
	m := &bundleModel{source: "und", fallback: "und", has: map[string]bool{}, domains: map[string]bool{}, notFound: map[string]int{}, noLang: map[string]int{}, loads: map[string]int{}}
	doms := map[string]string{} // domain -> kind
	var setup []bundleOpt
	for _, o := range c.Opts {
		switch o.Kind {
		case "nilopt", "nilloader", "nilfs", "nilfs2", "nilprinter", "nilprintfunc", "nilmatcher", "badfs", "nilfsopt":
			m.optErr, m.fail, m.failsWith = true, true, o.Kind
			return m
		case "loader", "fs", "domainfs":
			if _, dup := doms[o.Domain]; dup {
				m.optErr, m.fail, m.failsWith = true, true, "duplicate domain"
				return m
			}
			doms[o.Domain] = o.Kind
		case "source":
			m.source = o.Langs[0].Tag
			setup = append(setup, o)
		case "fallback":
			if !o.Langs[0].ok() {
				m.fail, m.failsWith = true, "invalid fallback"
				m.badType = o.Langs[0].Form != "invalid"
				return m
			}
			m.fallback = o.Langs[0].Tag
			setup = append(setup, o)
		case "lang", "req":
			setup = append(setup, o)
		}
	}
	loaded, partial := map[string]bool{}, map[string]bool{} // partial: catalogs are missing
	for _, o := range setup {
		required := o.Kind != "lang"
		for _, l := range o.Langs {
			if !l.ok() {
				m.fail, m.failsWith = true, "invalid language"
				m.badType = l.Form != "invalid"
				return m
			}
			tag := l.Tag
			if tag == "und" {
				if required {
					m.fail, m.missing, m.failsWith = true, true, "und required"
					return m
				}
				m.noLang[tag]++
				continue
			}
			if loaded[tag] {
				if required && partial[tag] {
					m.fail, m.missing, m.failsWith = true, true, "required language incomplete, optional before"
					return m
				}
				continue
			}
			if tag == m.source {
				loaded[tag] = true
				m.langs = append(m.langs, tag)
				continue
			}
			var found, miss []string
			var hardErr bool
			for d, kind := range doms {
				m.loads[tag+"/"+d]++
				switch r := c.Load[tag+"/"+d]; {
				case r == "":
					found = append(found, d)
				case kind != "loader", r == "missing", r == "wrapped":
					miss = append(miss, d)
				default:
					hardErr = true
					m.loadErr = errLoad
					if r == "notexist" {
						m.loadErr = os.ErrNotExist
					}
				}
			}
			if hardErr {
				m.fail, m.failsWith = true, "load error"
				if len(miss) > 0 && required {
					m.loadErr = nil // either of the two
				}
				for d := range doms {
					if r := c.Load[tag+"/"+d]; r == "notexist" && m.loadErr == errLoad || r == "error" && m.loadErr == os.ErrNotExist {
						m.loadErr = nil
					}
				}
				return m
			}
			if len(found) == 0 || required && len(miss) > 0 {
				if required {
					m.fail, m.missing, m.failsWith = true, true, "required language incomplete"
					return m
				}
				m.notFound[tag] += len(miss)
				m.noLang[tag]++
				continue
			}
			m.notFound[tag] += len(miss)
			for _, d := range found {
				m.domains[d] = true
				m.has[tag+"/"+d] = true
			}
			loaded[tag], partial[tag] = true, len(miss) > 0
			m.langs = append(m.langs, tag)
		}
	}
	return m
}

func (c *bundleCase) options(calls map[string]int, report func(error)) []spreak.BundleOption {
	var opts []spreak.BundleOption
	if !c.Quiet {
		opts = append(opts, spreak.WithMissingTranslationCallback(func(error) { panic("replaced callback called") }))
		opts = append(opts, spreak.WithMissingTranslationCallback(report))
	}
	for _, o := range c.Opts {
		var langs []any
		for _, l := range o.Langs {
			langs = append(langs, l.value())
		}
		fsys := fstest.MapFS{"unrelated.txt": {Data: []byte("x")}}
		for _, l := range bundleLangs {
			if c.Load[l+"/"+o.Domain] == "" {
				name := l + ".json"
				if o.Domain != "" {
					name = l + "/" + o.Domain + ".json"
				}
				fsys[name] = &fstest.MapFile{Data: []byte(fmt.Sprintf(`{"who":%q}`, l+"/"+o.Domain))}
			}
		}
		switch o.Kind {
		case "loader":
			opts = append(opts, spreak.WithDomainLoader(o.Domain, loaderFunc(func(lang language.Tag, domain string) (catalog.Catalog, error) {
				key := lang.String() + "/" + domain
				calls[key]++
				var left catalog.Catalog // a catalog beside an error does not count
				if len(key)%2 == 0 {
					left = &stubCatalog{lang, "left over"}
				}
				switch c.Load[key] {
				case "missing":
					return left, spreak.NewErrNotFound(lang, "test", "%s", domain)
				case "wrapped":
					return left, fmt.Errorf("wrapped: %w", spreak.NewErrNotFound(lang, "test", "%s", domain))
				case "error":
					return left, fmt.Errorf("%s: %w", key, errLoad)
				case "notexist":
					return left, fmt.Errorf("%s: %w", key, os.ErrNotExist)
				}
				return &stubCatalog{lang, key}, nil
			})))
		case "fs":
			opts = append(opts, spreak.WithFilesystemLoader(o.Domain, spreak.WithFs(fsys)))
		case "domainfs":
			opts = append(opts, spreak.WithDomainFs(o.Domain, fsys))
		case "source":
			opts = append(opts, spreak.WithSourceLanguage(language.MustParse(o.Langs[0].Tag)))
		case "fallback":
			opts = append(opts, spreak.WithFallbackLanguage(langs[0]))
		case "lang":
			opts = append(opts, spreak.WithLanguage(langs...))
		case "req":
			opts = append(opts, spreak.WithRequiredLanguage(langs...))
		case "default":
			opts = append(opts, spreak.WithDefaultDomain(o.Arg))
		case "errctx":
			opts = append(opts, spreak.WithErrorContext(o.Arg))
		case "printer":
			opts = append(opts, spreak.WithPrinter(spreak.NewDefaultPrinter()))
		case "printfunc":
			opts = append(opts, spreak.WithPrintFunction(func(s string, _ ...any) string { return s }))
		case "matcher":
			opts = append(opts, spreak.WithLanguageMatcherBuilder(language.NewMatcher))
		case "nilopt":
			opts = append(opts, nil)
		case "nilloader":
			opts = append(opts, spreak.WithDomainLoader(o.Domain, nil))
		case "nilfs":
			opts = append(opts, spreak.WithDomainFs(o.Domain, nil))
		case "nilfs2":
			opts = append(opts, spreak.WithFilesystemLoader(o.Domain))
		case "nilprinter":
			opts = append(opts, spreak.WithPrinter(nil))
		case "nilprintfunc":
			opts = append(opts, spreak.WithPrintFunction(nil))
		case "nilmatcher":
			opts = append(opts, spreak.WithLanguageMatcherBuilder(nil))
		case "badfs":
			opts = append(opts, spreak.WithFilesystemLoader(o.Domain, spreak.WithFs(fsys), spreak.WithFs(fsys)))
		case "nilfsopt":
			opts = append(opts, spreak.WithFilesystemLoader(o.Domain, spreak.WithFs(fsys), nil))
		}
	}
	return opts
}

func checkC18(c bundleCase, ctx *engine.Ctx) error {
	usesFS := false
	for _, o := range c.Opts {
		usesFS = usesFS || o.Kind == "fs" || o.Kind == "domainfs"
	}
	if usesFS {
		// de-AT also finds the files of de, and so on: make related
		// languages available together
		load := map[string]string{}
		for k, v := range c.Load {
			load[k] = v
		}
		for _, d := range bundleDomains {
			for _, l := range bundleLangs {
				base, _, isSub := strings.Cut(l, "-")
				if isSub && load[l+"/"+d] != "" && load[base+"/"+d] == "" {
					load[base+"/"+d] = load[l+"/"+d]
				}
			}
		}
		c.Load = load
	}
	m := c.model()
	calls := map[string]int{}
	notFound, noLang := map[string]int{}, map[string]int{}
	var strange []error
	report := func(err error) {
		var nf *spreak.ErrNotFound
		var nl *spreak.ErrMissingLanguage
		switch {
		case errors.As(err, &nf):
			notFound[nf.Language.String()]++
		case errors.As(err, &nl):
			noLang[nl.Language.String()]++
		default:
			strange = append(strange, err)
		}
	}
	var b *spreak.Bundle
	var err error
	if perr := engine.Protect("NewBundle", func() { b, err = spreak.NewBundle(c.options(calls, report)...) }); perr != nil {
		return perr
	}
	if m.fail != (err != nil) {
		return fmt.Errorf("NewBundle: error %v, want failure: %v (%s)", err, m.fail, m.failsWith)
	}
	asked := map[string]bool{}
	for _, o := range c.Opts {
		for _, l := range o.Langs {
			if l.ok() {
				asked[l.Tag] = true
			}
		}
	}
	for k := range calls {
		l, _, _ := strings.Cut(k, "/")
		if !asked[l] || l == "und" || l == m.source {
			return fmt.Errorf("the loader was asked for %s; source is %s, asked were %v", k, m.source, sortedKeys(asked))
		}
	}
	if len(strange) > 0 {
		return fmt.Errorf("the missing callback got %v", strange)
	}
	if m.fail {
		ctx.Label("fails: " + m.failsWith)
		ctx.NonTrivial()
		if b != nil {
			return fmt.Errorf("NewBundle returns a bundle together with error %v", err)
		}
		var nf *spreak.ErrNotFound
		var nl *spreak.ErrMissingLanguage
		switch {
		case m.loadErr != nil && !errors.Is(err, m.loadErr):
			return fmt.Errorf("NewBundle: error %v, want the one of the loader (%v)", err, m.loadErr)
		case m.badType && !errors.Is(err, spreak.ErrRequireStringTag):
			return fmt.Errorf("NewBundle: error %v, want %v", err, spreak.ErrRequireStringTag)
		case m.missing && !errors.As(err, &nf) && !errors.As(err, &nl):
			return fmt.Errorf("NewBundle: error %v does not tell what is missing (%s)", err, m.failsWith)
		}
		return nil
	}
	ctx.NonTrivialIf(len(m.langs) > 0 && len(m.domains) > 0)
	ctx.LabelIf(len(m.noLang) > 0, "optional language skipped")
	ctx.LabelIf(len(m.langs) == 0, "no language")
	if got := sortedTags(b.SupportedLanguages()); !eqStrings(got, sortedCopy(m.langs)) {
		return fmt.Errorf("SupportedLanguages %v, want %v", got, m.langs)
	}
	if got := sortedCopy(b.Domains()); !eqStrings(got, sortedKeys(m.domains)) {
		return fmt.Errorf("Domains %q, want %q", got, sortedKeys(m.domains))
	}
	if want := len(m.langs) > 0 && len(m.domains) > 0; b.CanLocalize() != want {
		return fmt.Errorf("CanLocalize %v with languages %v and domains %v", !want, m.langs, sortedKeys(m.domains))
	}
	if c.Quiet {
		m.notFound, m.noLang = nil, nil
	}
	if err := eqCounts("ErrNotFound reports", notFound, m.notFound); err != nil {
		return err
	}
	if err := eqCounts("ErrMissingLanguage reports", noLang, m.noLang); err != nil {
		return err
	}
	for k, n := range calls {
		if m.loads[k] != n {
			return fmt.Errorf("%s was loaded %d times, want %d", k, n, m.loads[k])
		}
	}
	for _, l := range m.langs {
		tag := language.MustParse(l)
		if !b.IsLanguageSupported(tag) {
			return fmt.Errorf("%s is loaded but not supported", l)
		}
		loc := spreak.NewLocalizer(b, tag)
		got := loc.Language().String()
		if !loc.HasLocale() || !contains(m.langs, got) {
			return fmt.Errorf("the localizer for %s has language %s", l, got)
		}
		for _, d := range append([]string{"extra"}, bundleDomains...) {
			want := m.has[got+"/"+d]
			if loc.HasDomain(d) != want {
				return fmt.Errorf("localizer %s: HasDomain(%q) = %v", got, d, !want)
			}
			text := "who"
			if want {
				text = got + "/" + d
			} else if m.fallback != "und" && got != m.source && m.has[m.fallback+"/"+d] {
				text = m.fallback + "/" + d
			}
			if s := loc.DGet(d, "who"); s != text {
				return fmt.Errorf("localizer %s: DGet(%q) = %q, want %q", got, d, s, text)
			}
		}
	}
	none := spreak.NewLocalizer(b)
	if none.HasLocale() {
		return fmt.Errorf("a localizer without languages has a locale")
	}
	want := m.source
	if m.fallback != "und" {
		want = m.fallback
	}
	if got := none.Language().String(); got != want {
		return fmt.Errorf("a localizer without languages uses %s, want %s", got, want)
	}
	return nil
}

func eqCounts(what string, got, want map[string]int) error {
	for k, n := range want {
		if n != got[k] {
			return fmt.Errorf("%s: %v, want %v", what, got, want)
		}
	}
	for k, n := range got {
		if n != want[k] {
			return fmt.Errorf("%s: %v, want %v", what, got, want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C20

// expand is the documented expansion.
func expand(tag language.Tag) []string {
	set := map[string]bool{tag.String(): true}
	base, bc := tag.Base()
	region, rc := tag.Region()
	script, sc := tag.Script()
	if bc > language.No {
		set[base.String()] = true
		set[base.ISO3()] = true
		for _, sep := range []string{"-", "_"} {
			if rc > language.No {
				set[base.String()+sep+region.String()] = true
			}
			if sc > language.No {
				set[base.String()+sep+script.String()] = true
			}
		}
	}
	out := sortedKeys(set)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) > len(out[j]) })
	return out
}

type tagCase struct {
	Tag string `json:"tag"`
}

var tagBases = []string{"de", "en", "zh", "sr", "pt", "nb", "no", "fil", "gsw", "ast", "art", "mul", "und", "iw", "he", "in", "id", "mo", "ro", "sh", "yue", "tlh", "haw", "qaa", "az", "uz", "pa", "ku", "tt", "mn", "es", "fr", "x", "cmn", "ji", "lzh", "root"}
var tagScripts = []string{"", "", "Latn", "Cyrl", "Hans", "Hant", "Arab", "Zzzz", "Deva", "Thai"}
var tagRegions = []string{"", "", "DE", "US", "GB", "CN", "TW", "HK", "419", "001", "RS", "BR", "PT", "AT", "ZZ", "150"}
var tagVariants = []string{"", "", "", "1996", "scouse", "rozaj-biske", "valencia", "oxendict"}
var tagExts = []string{"", "", "", "u-co-phonebk", "u-nu-latn-ca-gregory", "t-en", "a-foo"}
var tagPrivate = []string{"", "", "", "x-twain", "x-a1-b2"}

func genTag(t *rapid.T) tagCase {
	for try := 0; ; try++ {
		var parts []string
		b := pick(t, "base", tagBases...)
		if b == "x" {
			return tagCase{"x-" + pick(t, "private", "foo", "a1-b2", "de")}
		}
		if chance(t, "any", 40) {
			b = pick(t, "cldr", append(append([]string{}, cldrLangs...), gettextLangs...)...)
		}
		parts = append(parts, b)
		for _, p := range []string{pick(t, "script", tagScripts...), pick(t, "region", tagRegions...), pick(t, "variant", tagVariants...), pick(t, "ext", tagExts...), pick(t, "private", tagPrivate...)} {
			if p != "" {
				parts = append(parts, p)
			}
		}
		s := strings.Join(parts, pick(t, "sep", "-", "_"))
		if _, err := language.Parse(s); err == nil {
			return tagCase{s}
		}
		if try > 20 {
			return tagCase{"de"}
		}
	}
}

func checkC20(c tagCase, ctx *engine.Ctx) error {
	tag, err := language.Parse(c.Tag)
	if err != nil {
		return nil
	}
	got := spreak.ExpandLanguage(tag)
	want := expand(tag)
	ctx.NonTrivialIf(len(want) > 2)
	ctx.Label(fmt.Sprintf("%d names", len(want)))
	if !eqStrings(got, want) {
		return fmt.Errorf("ExpandLanguage(%s) = %q, want %q", tag, got, want)
	}
	got[0] = "changed"
	if again := spreak.ExpandLanguage(tag); !eqStrings(again, want) {
		return fmt.Errorf("ExpandLanguage(%s) the second time = %q, want %q", tag, again, want)
	}
	// the same tag built from its parts
	if tag2, err := language.Parse(tag.String()); err == nil && tag2.String() == tag.String() {
		if again := spreak.ExpandLanguage(tag2); !eqStrings(again, want) {
			return fmt.Errorf("ExpandLanguage(%s) of the reparsed tag = %q, want %q", tag, again, want)
		}
	}
	return nil
}

func allTags(string) []tagCase {
	var out []tagCase
	seen := map[string]bool{}
	for _, b := range append(append(append([]string{}, tagBases...), cldrLangs...), gettextLangs...) {
		for _, s := range []string{"", "-Latn", "-Hant", "-Arab"} {
			for _, r := range []string{"", "-DE", "-TW", "-419"} {
				if _, err := language.Parse(b + s + r); err == nil && !seen[b+s+r] {
					seen[b+s+r] = true
					out = append(out, tagCase{b + s + r})
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- C19

type decSpec struct {
	Ext  string `json:"ext"`
	V2   bool   `json:"v2,omitempty"`
	Bad  bool   `json:"bad,omitempty"`  // decoding fails
	Gone bool   `json:"gone,omitempty"` // with an error that is also os.ErrNotExist
}

type loaderCase struct {
	Lang     string    `json:"lang"`
	Domain   string    `json:"domain"`
	Category *string   `json:"category,omitempty"`
	NoSearch bool      `json:"noSearch,omitempty"`
	Resolver string    `json:"resolver,omitempty"` // "" none given, default, custom
	Decoders []decSpec `json:"decoders,omitempty"` // empty: the default ones
	Files    []string  `json:"files"`
	// OpenErr are files that cannot be opened.
	OpenErr []string `json:"openErr,omitempty"`
	// Custom maps extensions to results of the custom resolver.
	Custom map[string]string `json:"custom,omitempty"`
	Via    string            `json:"via,omitempty"` // fs, path, system, bundle, short path, short fs
}

var loaderTags = []string{"de", "de-AT", "zh-Hant", "zh-TW", "sr-Latn-RS", "en", "pt-BR", "fil", "es-419", "en-US-x-twain", "und", "art-x-a2", "ja"}
var loaderDomains = []string{"", "app", "de", "LC_MESSAGES", "sub/app", "cat", "a.b", "zho"}

func (c *loaderCase) decoders() []decSpec {
	if len(c.Decoders) > 0 {
		return c.Decoders
	}
	return []decSpec{{Ext: ".po"}, {Ext: ".mo"}, {Ext: ".json"}}
}

// candidates are the paths in order for one extension.
func (c *loaderCase) candidates(ext string) []string {
	cat := ""
	if c.Category != nil && c.Resolver == "default" {
		cat = *c.Category
	}
	var out []string
	for _, l := range expand(language.MustParse(c.Lang)) {
		if c.Domain != "" {
			out = append(out, path.Join(l, cat, c.Domain+ext))
		}
		if c.NoSearch && c.Resolver == "default" {
			continue
		}
		if c.Domain != "" {
			out = append(out, path.Join(l, "LC_MESSAGES", c.Domain+ext), path.Join(l, c.Domain+ext), path.Join(c.Domain, l+ext))
		}
		out = append(out, l+ext)
		if cat != "" {
			out = append(out, path.Join(cat, l+ext))
		}
		out = append(out, path.Join("LC_MESSAGES", l+ext))
	}
	return out
}

func genLoader(t *rapid.T) loaderCase {
	c := loaderCase{Lang: pick(t, "lang", loaderTags...), Domain: pick(t, "domain", loaderDomains...)}
	c.Resolver = pick(t, "resolver", "", "default", "default", "default", "custom")
	if c.Resolver == "default" {
		if chance(t, "hasCat", 60) {
			s := pick(t, "cat", "", "LC_MESSAGES", "cat", "app", "a/b", c.Lang)
			c.Category = &s
		}
		c.NoSearch = chance(t, "noSearch", 25)
	}
	if chance(t, "decoders", 75) {
		for n := intR(t, "ndec", 1, 4); n > 0; n-- {
			c.Decoders = append(c.Decoders, decSpec{Ext: pick(t, "ext", ".po", ".mo", ".json", ".x", ".tar.po", "po", ""), V2: chance(t, "v2", 50), Bad: chance(t, "badDec", 8), Gone: chance(t, "gone", 40)})
		}
	}
	c.Via = pick(t, "via", "fs", "fs", "fs", "fs", "bundle", "bundle", "path", "short path", "short fs")
	if c.Resolver == "custom" && chance(t, "system", 40) {
		c.Via = "system"
	}
	var all []string
	seen := map[string]bool{}
	for _, d := range c.decoders() {
		for _, p := range c.candidates(d.Ext) {
			if !seen[p] {
				seen[p] = true
				all = append(all, p)
			}
		}
	}
	presence := pick(t, "presence", "none", "one", "few", "few", "half")
	if len(all) == 0 {
		presence = "none"
	}
	switch presence {
	case "one":
		c.Files = []string{pick(t, "file", all...)}
	case "few":
		c.Files = subset(t, "file", 12, all)
	case "half":
		c.Files = subset(t, "file", 40, all)
	}
	// files that are no candidates
	for n := intR(t, "nnoise", 0, 5); n > 0; n-- {
		l := pick(t, "noiseLang", append([]string{"fr", "deu_x", "DE", "messages", "LC_MESSAGES"}, expand(language.MustParse(c.Lang))...)...)
		f := path.Join(pick(t, "noiseDir", "", "LC_TIME", "cat", "app", l), pick(t, "noiseDom", "other", "app", l)+pick(t, "noiseExt", ".txt", ".po~", ".po", ".mo", ".json", ".x"))
		if !seen[f] {
			c.Files = append(c.Files, f)
		}
	}
	if chance(t, "openErr", 15) && len(c.Files) > 0 {
		c.OpenErr = append(c.OpenErr, pick(t, "openErrFile", c.Files...))
	}
	// no file is a directory of another
	var files []string
	have := map[string]bool{}
	for _, f := range c.Files {
		ok := !have[f] && f != "" && f != "."
		for g := range have {
			ok = ok && !strings.HasPrefix(f, g+"/") && !strings.HasPrefix(g, f+"/")
		}
		if ok {
			have[f] = true
			files = append(files, f)
		}
	}
	c.Files = files
	if c.Resolver == "custom" {
		c.Custom = map[string]string{}
		for _, d := range c.decoders() {
			var files []string
			for _, f := range c.Files {
				if len(c.Decoders) > 0 || strings.HasSuffix(f, d.Ext) {
					files = append(files, f)
				}
			}
			c.Custom[d.Ext] = pick(t, "custom", append([]string{"notexist", "notexist", "error", "gone/file"}, files...)...)
		}
	}
	return c
}

var errDecode = errors.New("cannot decode")
var errOpen = errors.New("cannot open")
var errResolve = errors.New("cannot resolve")

type decLog struct{ calls []string }

type recDecoder struct {
	i    int
	log  *decLog
	bad  bool
	gone bool
}

func (d *recDecoder) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	d.log.calls = append(d.log.calls, fmt.Sprintf("%d:%s:%s:%s", d.i, lang, domain, data))
	if d.bad {
		var left catalog.Catalog // a catalog beside an error does not count
		if len(data)%2 == 0 {
			left = &stubCatalog{lang, "left over"}
		}
		if d.gone {
			return left, fmt.Errorf("%w: %w", errDecode, os.ErrNotExist)
		}
		return left, errDecode
	}
	return &stubCatalog{lang, fmt.Sprintf("%d:%s", d.i, data)}, nil
}

type recDecoder2 struct{ recDecoder }

func (d *recDecoder2) Decode(language.Tag, string, []byte) (catalog.Catalog, error) {
	return nil, errors.New("Decode must not be used")
}

func (d *recDecoder2) DecodeReader(lang language.Tag, domain string, r io.Reader) (catalog.Catalog, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.recDecoder.Decode(lang, domain, data)
}

type openFS struct {
	fs.FS
	bad    map[string]bool
	opened map[string]int
	closed map[string]int
}

type closeFile struct {
	fs.File
	name string
	f    *openFS
}

func (c *closeFile) Close() error {
	c.f.closed[c.name]++
	return c.File.Close()
}

func (o *openFS) Open(name string) (fs.File, error) {
	if o.bad[name] {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errOpen}
	}
	f, err := o.FS.Open(name)
	if err != nil {
		return nil, err
	}
	o.opened[name]++
	return &closeFile{f, name, o}, nil
}

func (o *openFS) Stat(name string) (fs.FileInfo, error) { return fs.Stat(o.FS, name) }

type customResolver struct {
	c     *loaderCase
	root  string
	calls []string
}

func (r *customResolver) Resolve(_ fs.FS, ext string, lang language.Tag, domain string) (string, error) {
	r.calls = append(r.calls, ext+":"+lang.String()+":"+domain)
	switch p := r.c.Custom[ext]; p {
	case "notexist":
		return "", fmt.Errorf("resolver: %w", os.ErrNotExist)
	case "error":
		return "", errResolve
	default:
		return path.Join(r.root, p), nil
	}
}

// fileContent is what a file of the default decoders holds.
func fileContent(name string) string {
	switch path.Ext(name) {
	case ".po":
		return "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\nmsgid \"who\"\nmsgstr \"" + name + "\"\n"
	case ".mo":
		return string((&catSpec{Lang: "en", Format: "mo", Msgs: whoMsg(name)}).file())
	}
	return fmt.Sprintf(`{"who":%q}`, name)
}

func checkC19(c loaderCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Lang)
	custom := len(c.Decoders) > 0
	present := map[string]bool{}
	mapfs := fstest.MapFS{}
	for _, f := range c.Files {
		present[f] = true
		content := f
		if !custom {
			content = fileContent(f)
		}
		mapfs[f] = &fstest.MapFile{Data: []byte(content)}
	}
	bad := map[string]bool{}
	for _, f := range c.OpenErr {
		bad[f] = true
	}
	// the model
	var file string
	var idx int
	var wantErr error
	dir := func(p string) bool { // a directory in the way
		for _, f := range c.Files {
			if strings.HasPrefix(f, p+"/") {
				return true
			}
		}
		return false
	}
	decs := c.decoders()
	var asked []string
search:
	for i, d := range decs {
		if c.Resolver == "custom" {
			asked = append(asked, d.Ext+":"+tag.String()+":"+c.Domain)
			switch p := c.Custom[d.Ext]; {
			case p == "notexist", p == "gone/file", !present[p] && p != "error" && !dir(p):
				continue
			case p == "error":
				wantErr = errResolve
			case dir(p):
				return nil
			default:
				file, idx = p, i
			}
			break search
		}
		for _, p := range c.candidates(d.Ext) {
			if dir(p) {
				ctx.Label("directory in the way")
				return nil
			}
			if present[p] {
				file, idx = p, i
				break search
			}
		}
	}
	if file != "" && bad[file] && c.Via != "path" && c.Via != "system" && c.Via != "short path" {
		wantErr = errOpen
	}
	if file != "" && wantErr == nil && custom && decs[idx].Bad {
		wantErr = errDecode
	}
	// the loader
	log := &decLog{}
	var opts []spreak.FsOption
	for i, d := range c.Decoders {
		rd := recDecoder{i, log, d.Bad, d.Gone}
		if d.V2 {
			opts = append(opts, spreak.WithDecoder(d.Ext, &recDecoder2{rd}))
		} else {
			opts = append(opts, spreak.WithDecoder(d.Ext, &rd))
		}
	}
	of := &openFS{FS: mapfs, bad: bad, opened: map[string]int{}, closed: map[string]int{}}
	cr := &customResolver{c: &c}
	var fsOpt spreak.FsOption
	onDisk := ""
	switch c.Via {
	case "path", "system", "short path":
		root, err := os.MkdirTemp("", "loader")
		if err != nil {
			return err
		}
		defer os.RemoveAll(root)
		onDisk = root
		for f, mf := range mapfs {
			p := filepath.Join(root, filepath.FromSlash(f))
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(p, mf.Data, 0o644); err != nil {
				return err
			}
		}
		fsOpt = spreak.WithPath(root)
		if c.Via == "system" {
			fsOpt = spreak.WithSystemFs()
			cr.root = strings.TrimPrefix(filepath.ToSlash(root), "/")
		}
	default:
		fsOpt = spreak.WithFs(of)
	}
	at := 0
	if len(opts) > 0 {
		at = len(c.Lang) % (len(opts) + 1)
	}
	opts = append(opts[:at:at], append([]spreak.FsOption{fsOpt}, opts[at:]...)...)
	switch c.Resolver {
	case "default":
		var ro []spreak.ResolverOption
		if c.NoSearch {
			ro = append(ro, spreak.WithDisabledSearch())
		}
		if c.Category != nil {
			ro = append(ro, spreak.WithCategory(*c.Category))
		}
		r, err := spreak.NewDefaultResolver(ro...)
		if err != nil {
			return err
		}
		opts = append(opts, spreak.WithResolver(r))
	case "custom":
		opts = append(opts, spreak.WithResolver(cr))
	}
	what := fmt.Sprintf("language %s (%v), domain %q", c.Lang, expand(tag), c.Domain)
	var who string
	var err error
	var cat catalog.Catalog
	viaBundle := c.Via != "fs" && c.Via != "path" && c.Via != "system" && tag != language.Und
	if viaBundle {
		// a language is only reported as not found if it is required
		src := spreak.WithFilesystemLoader(c.Domain, opts...)
		if len(opts) == 1 && c.Via == "short path" {
			src = spreak.WithDomainPath(c.Domain, onDisk)
		} else if len(opts) == 1 && c.Via == "short fs" {
			src = spreak.WithDomainFs(c.Domain, of)
		}
		b, errB := spreak.NewBundle(src, spreak.WithRequiredLanguage(tag))
		err = errB
		if errB == nil {
			who = spreak.NewLocalizer(b, tag).DGet(c.Domain, "who")
		}
	} else {
		l, errL := spreak.NewFilesystemLoader(opts...)
		if errL != nil {
			return fmt.Errorf("NewFilesystemLoader: %v", errL)
		}
		cat, err = l.Load(tag, c.Domain)
		if err == nil {
			if cat == nil {
				return fmt.Errorf("%s: neither catalog nor error", what)
			}
			if cat.Language() != tag {
				return fmt.Errorf("%s: the catalog has language %s", what, cat.Language())
			}
			who, _ = cat.Lookup("", "who")
		}
	}
	for f, n := range of.opened {
		if of.closed[f] != n {
			return fmt.Errorf("%s: file %s was opened %d times and closed %d times", what, f, n, of.closed[f])
		}
		if f != file {
			return fmt.Errorf("%s: file %s was opened, want only %q", what, f, file)
		}
	}
	if c.Resolver == "custom" && !eqStrings(cr.calls, asked) {
		return fmt.Errorf("%s: the resolver was asked for %q, want %q", what, cr.calls, asked)
	}
	switch {
	case file == "" && wantErr == nil:
		ctx.Label("not found")
		var nf *spreak.ErrNotFound
		if err == nil {
			return fmt.Errorf("%s: %q was loaded, want not found; files %q", what, who, c.Files)
		}
		if !errors.As(err, &nf) || nf.Language != tag {
			return fmt.Errorf("%s: error %v, want not found for the language", what, err)
		}
		if len(log.calls) > 0 {
			return fmt.Errorf("%s: not found but decoded: %q", what, log.calls)
		}
		ctx.NonTrivialIf(len(c.Files) > 0)
		return nil
	case wantErr != nil:
		ctx.NonTrivial()
		ctx.Label("error")
		var nf *spreak.ErrNotFound
		if !errors.Is(err, wantErr) || errors.As(err, &nf) {
			return fmt.Errorf("%s: error %v, want %v (file %q)", what, err, wantErr, file)
		}
		return nil
	}
	ctx.NonTrivial()
	n := 0
	for _, d := range decs {
		for _, p := range c.candidates(d.Ext) {
			if present[p] {
				n++
			}
		}
	}
	ctx.LabelIf(n > 1, "several candidates")
	ctx.LabelIf(n <= 1, "one candidate")
	ctx.LabelIf(onDisk != "", "on disk")
	if err != nil {
		return fmt.Errorf("%s: error %v, want file %q of %q", what, err, file, c.Files)
	}
	want := file
	if custom {
		want = fmt.Sprintf("%d:%s", idx, file)
		if wl := []string{fmt.Sprintf("%d:%s:%s:%s", idx, tag, c.Domain, file)}; !eqStrings(log.calls, wl) {
			return fmt.Errorf("%s: decoded %q, want %q; files %q", what, log.calls, wl, c.Files)
		}
	}
	if viaBundle {
		// the localizer may be of another language only if the matcher says so
		want = strings.TrimSpace(want)
	}
	if who != want {
		return fmt.Errorf("%s: served %q, want %q; files %q", what, who, want, c.Files)
	}
	return nil
}

// loaderStep asks the loader of file system FS, after Add appeared and Del
// disappeared there.
type loaderStep struct {
	FS     int      `json:"fs"`
	Lang   string   `json:"lang"`
	Domain string   `json:"domain"`
	Add    []string `json:"add,omitempty"`
	Del    []string `json:"del,omitempty"`
}

// loaderHistory is a resolver that serves two file systems, and both loaders
// serve many requests.
type loaderHistory struct {
	Category *string      `json:"category,omitempty"`
	NoSearch bool         `json:"noSearch,omitempty"`
	Own      bool         `json:"own,omitempty"` // no resolver is given
	Exts     []string     `json:"exts"`
	Files    [2][]string  `json:"files"`
	Steps    []loaderStep `json:"steps"`
}

func (c *loaderHistory) spec(lang, domain string) *loaderCase {
	l := &loaderCase{Lang: lang, Domain: domain, Category: c.Category, NoSearch: c.NoSearch, Resolver: "default"}
	if c.Own {
		l.Resolver = ""
	}
	for _, e := range c.Exts {
		l.Decoders = append(l.Decoders, decSpec{Ext: e})
	}
	return l
}

func genLoaderHistory(t *rapid.T) loaderHistory {
	c := loaderHistory{Own: chance(t, "own", 25), NoSearch: chance(t, "noSearch", 10)}
	if !c.Own && chance(t, "hasCat", 60) {
		s := pick(t, "cat", "", "LC_MESSAGES", "cat", "a/b")
		c.Category = &s
	}
	c.Exts = pick(t, "exts", []string{".po"}, []string{".mo", ".po"}, []string{".po", ".json", ".mo"})
	langs := pick(t, "langs", []string{"de", "de-AT"}, []string{"zh-Hant", "zh-TW", "zh"}, []string{"sr", "sr-Latn", "fr"})
	domains := pick(t, "domains", []string{"app", "lib"}, []string{"", "app"}, []string{"app", "de"})
	var all []string
	for _, l := range langs {
		for _, d := range domains {
			for _, e := range c.Exts {
				all = append(all, c.spec(l, d).candidates(e)...)
			}
		}
	}
	for i := range c.Files {
		c.Files[i] = subset(t, "file", pick(t, "density", 5, 20, 45), all)
	}
	for n := intR(t, "nsteps", 2, 8); n > 0; n-- {
		st := loaderStep{FS: intR(t, "fs", 0, 1), Lang: pick(t, "lang", langs...), Domain: pick(t, "domain", domains...)}
		if chance(t, "changes", 35) {
			for k := intR(t, "nadd", 0, 3); k > 0; k-- {
				st.Add = append(st.Add, pick(t, "add", all...))
			}
			for k := intR(t, "ndel", 0, 3); k > 0; k-- {
				st.Del = append(st.Del, pick(t, "del", all...))
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func checkLoaderHistory(c loaderHistory, ctx *engine.Ctx) error {
	log := &decLog{}
	var loaders [2]*spreak.FilesystemLoader
	var files [2]fstest.MapFS
	var res spreak.Resolver
	if !c.Own {
		var ro []spreak.ResolverOption
		if c.NoSearch {
			ro = append(ro, spreak.WithDisabledSearch())
		}
		if c.Category != nil {
			ro = append(ro, spreak.WithCategory(*c.Category))
		}
		r, err := spreak.NewDefaultResolver(ro...)
		if err != nil {
			return err
		}
		res = r
	}
	name := func(i int, f string) string { return fmt.Sprintf("fs%d/%s", i, f) }
	for i := range loaders {
		files[i] = fstest.MapFS{}
		for _, f := range c.Files[i] {
			files[i][f] = &fstest.MapFile{Data: []byte(name(i, f))}
		}
		opts := []spreak.FsOption{spreak.WithFs(files[i])}
		if res != nil {
			opts = append(opts, spreak.WithResolver(res))
		}
		for k, e := range c.Exts {
			opts = append(opts, spreak.WithDecoder(e, &recDecoder{k, log, false, false}))
		}
		l, err := spreak.NewFilesystemLoader(opts...)
		if err != nil {
			return err
		}
		loaders[i] = l
	}
	found := 0
	for n, st := range c.Steps {
		fsys := files[st.FS]
		for _, f := range st.Del {
			delete(fsys, f)
		}
		for _, f := range st.Add {
			fsys[f] = &fstest.MapFile{Data: []byte(name(st.FS, f))}
		}
		want := ""
		spec := c.spec(st.Lang, st.Domain)
	search:
		for k, e := range c.Exts {
			for _, p := range spec.candidates(e) {
				if fsys[p] != nil {
					want = fmt.Sprintf("%d:%s:%s:%s", k, st.Lang, st.Domain, name(st.FS, p))
					break search
				}
			}
		}
		log.calls = nil
		_, err := loaders[st.FS].Load(language.MustParse(st.Lang), st.Domain)
		if want == "" {
			if err == nil || len(log.calls) > 0 {
				return fmt.Errorf("step %d: %s domain %q: error %v, decoded %q, want not found", n, st.Lang, st.Domain, err, log.calls)
			}
			continue
		}
		found++
		if err != nil || len(log.calls) != 1 || log.calls[0] != want {
			return fmt.Errorf("step %d: %s domain %q: decoded %q, error %v, want %s", n, st.Lang, st.Domain, log.calls, err, want)
		}
	}
	ctx.NonTrivialIf(found > 1)
	ctx.LabelIf(res != nil, "shared resolver")
	return nil
}

type loaderConfCase struct {
	Opts []string `json:"opts"`
}

func genLoaderConf(t *rapid.T) loaderConfCase {
	var c loaderConfCase
	for n := intR(t, "n", 0, 4); n > 0; n-- {
		c.Opts = append(c.Opts, pick(t, "opt", "fs", "fs", "path", "system", "resolver", "po", "mo", "json", "decoder", "nil"))
	}
	return c
}

func checkLoaderConf(c loaderConfCase, ctx *engine.Ctx) error {
	var opts []spreak.FsOption
	fss, res, nils := 0, 0, 0
	for _, o := range c.Opts {
		switch o {
		case "fs":
			fss++
			opts = append(opts, spreak.WithFs(fstest.MapFS{}))
		case "path":
			fss++
			opts = append(opts, spreak.WithPath("/nonexistent"))
		case "system":
			fss++
			opts = append(opts, spreak.WithSystemFs())
		case "resolver":
			res++
			r, _ := spreak.NewDefaultResolver()
			opts = append(opts, spreak.WithResolver(r))
		case "po":
			opts = append(opts, spreak.WithPoDecoder())
		case "mo":
			opts = append(opts, spreak.WithMoDecoder())
		case "json":
			opts = append(opts, spreak.WithJSONDecoder())
		case "decoder":
			opts = append(opts, spreak.WithDecoder(".x", catalog.NewPoDecoder()))
		case "nil":
			nils++
			opts = append(opts, nil)
		}
	}
	ok := fss == 1 && res <= 1 && nils == 0
	ctx.NonTrivial()
	ctx.LabelIf(ok, "valid")
	ctx.LabelIf(!ok, "invalid")
	l, err := spreak.NewFilesystemLoader(opts...)
	if ok != (err == nil) {
		return fmt.Errorf("NewFilesystemLoader(%v): error %v, want success: %v", c.Opts, err, ok)
	}
	if !ok && l != nil {
		return fmt.Errorf("NewFilesystemLoader(%v): a loader together with error %v", c.Opts, err)
	}
	_, errB := spreak.NewBundle(spreak.WithFilesystemLoader("d", opts...))
	if ok != (errB == nil) {
		return fmt.Errorf("WithFilesystemLoader(%v): error %v, want success: %v", c.Opts, errB, ok)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C18",
		QuickTimes: 8, ThoroughTimes: 10,
		Rule: "random option lists in random order over 8 languages and 4 domains with a random matrix of existing, missing and failing catalogs, language values in all notations and some invalid ones, some nil or duplicate options; the outcome is compared with a model; non-trivial: creation fails for a modelled reason, or at least one language and domain is loaded",
		Assumptions: []string{
			"loader errors are ErrNotFound (plain or wrapped) or unrelated errors",
			"which of several failing catalogs of one language is reported is left open",
		},
		Parts: []*engine.Part{engine.Gen("options", 15000, 500000, genBundle, checkC18)},
	})
	engine.Register(&engine.Prop{
		ID:         "C19",
		QuickTimes: 4, ThoroughTimes: 4,
		Rule: "random sets of candidate and other files for a language, domain, category, search mode and list of decoders (recording ones, with reader and byte interface, or the default ones), loaded from a file system, a directory, the system root or through a bundle, default and custom resolvers, files that cannot be opened or decoded; and sequences of requests to two loaders that share a resolver while files appear and disappear; non-trivial: files are present",
		Assumptions: []string{
			"candidates are regular files; a failing Stat counts as 'does not exist'",
		},
		Parts: []*engine.Part{
			engine.Gen("files", 12000, 400000, genLoader, checkC19),
			engine.Gen("history", 4000, 150000, genLoaderHistory, checkLoaderHistory),
			engine.Gen("config", 2000, 20000, genLoaderConf, checkLoaderConf),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C20",
		QuickTimes: 8, ThoroughTimes: 20,
		Rule: "all languages of the plural tables x scripts x regions, and random tags with variants, extensions and private use; compared with the expansion computed from the subtags; non-trivial: more than two names",
		Assumptions: []string{
			"subtags and their confidences are those of golang.org/x/text/language",
		},
		Parts: []*engine.Part{
			engine.List("tables", allTags, checkC20),
			engine.Gen("tags", 20000, 500000, genTag, checkC20),
		},
	})
}

func whoMsg(text string) []*ref.Msg { return []*ref.Msg{{ID: "who", Strs: map[int]string{0: text}}} }
