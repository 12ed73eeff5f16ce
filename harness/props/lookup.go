package props

import (
	"errors"
	"fmt"

	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/localize"

	"verif/harness/engine"
)

type lookupCase struct {
	World *world `json:"world"`
	// Lang is requested; "" requests nothing.
	Lang string `json:"lang"`
	Ops  []op   `json:"ops"`
	// Dom, if set, is the localizer's own default domain.
	Dom *string `json:"dom,omitempty"`
	// Quiet leaves the missing callback out.
	Quiet bool `json:"quiet,omitempty"`
}

func genLookup(conf worldConf, bad int, useVars bool) func(t *rapid.T) lookupCase {
	return func(t *rapid.T) lookupCase {
		c := lookupCase{World: genWorld(t, conf)}
		st, _ := c.World.model()
		if len(st.languages) > 0 && chance(t, "loadedLang", 90) {
			c.Lang = pick(t, "lang", st.languages...)
		} else {
			c.Lang = pick(t, "lang", "", "is", "mt", "de-CH", "en-US")
		}
		if chance(t, "ownDomain", 20) {
			d := pick(t, "dom", worldDomains...)
			c.Dom = &d
		}
		for n := intR(t, "nops", 1, 12); n > 0; n-- {
			o := genOp(t, c.World, bad)
			if useVars && o.F {
				o.Vars = subset(t, "v", 60, []string{"x", "5", "%d"})
			}
			c.Ops = append(c.Ops, o)
		}
		c.Quiet = chance(t, "quiet", 30)
		return c
	}
}

type lookupEnv struct {
	st    *state
	lang  string
	found bool
	loc   *spreak.Localizer
	rec   *rec
}

// open builds bundle and localizer.
func (c *lookupCase) open(extra ...spreak.BundleOption) (*lookupEnv, error) {
	e, _, err := c.openBundle(extra...)
	return e, err
}

func (c *lookupCase) openBundle(extra ...spreak.BundleOption) (*lookupEnv, *spreak.Bundle, error) {
	e := &lookupEnv{rec: &rec{}}
	opts := c.World.options()
	if !c.Quiet {
		opts = append(opts, spreak.WithMissingTranslationCallback(e.rec.cb))
	}
	opts = append(opts, extra...)
	b, err := spreak.NewBundle(opts...)
	st, ok := c.World.model()
	if ok != (err == nil) {
		return nil, nil, fmt.Errorf("bundle creation: error %v, expected success: %v", err, ok)
	}
	if err != nil {
		return nil, nil, nil
	}
	e.st = st
	var req []any
	var tags []language.Tag
	if c.Lang != "" {
		req = append(req, language.MustParse(c.Lang))
		tags = append(tags, language.MustParse(c.Lang))
	}
	e.lang, e.found = st.match(tags)
	if c.Dom != nil {
		e.loc = spreak.NewLocalizerForDomain(b, *c.Dom, req...)
		st.w = cloneDefault(c.World, *c.Dom)
	} else {
		e.loc = spreak.NewLocalizer(b, req...)
	}
	e.rec.errs = nil
	return e, b, nil
}

func cloneDefault(w *world, d string) *world {
	c := *w
	c.Default = &d
	return &c
}

func (e *lookupEnv) want(o op) answer {
	domain, ctx, id, plural, isPlural := o.effective(e.st)
	n := o.Num
	if o.Via == "localize" {
		n.Rep = "int"
	}
	return e.st.lookup(e.lang, domain, ctx, id, plural, isPlural, n)
}

func (e *lookupEnv) format(a answer, o op) string {
	vars := o.vars()
	if !o.F || len(vars) == 0 {
		return a.Text
	}
	return message.NewPrinter(language.MustParse(a.Lang)).Sprintf(a.Text, vars...)
}

// checkTexts compares the texts of all operations; the filter selects the
// operations a property is about.
func checkTexts(filter func(a answer, e *lookupEnv) bool) func(c lookupCase, ctx *engine.Ctx) error {
	return func(c lookupCase, ctx *engine.Ctx) error {
		e, err := c.open()
		if err != nil {
			return err
		}
		if e == nil {
			ctx.Label("creation rejected")
			return nil
		}
		for _, o := range c.Ops {
			a := e.want(o)
			got, _, _ := o.call(e.loc)
			if !filter(a, e) {
				if other := e.otherEntry(o, got); (a.Source || a.Lang != e.lang) && other != "" && got != e.format(a, o) {
					return fmt.Errorf("localizer %s (%s): %s %+v has no translation, but gives %q, the text of %s", c.Lang, e.lang, o.name(), o, got, other)
				}
				continue
			}
			ctx.NonTrivial()
			ctx.Label(o.name())
			switch {
			case a.Source:
				ctx.Label("text of source")
			case a.Lang != e.lang:
				ctx.Label("text of fallback")
			default:
				ctx.Label("text of language, " + e.st.w.spec(a.Lang, domainOf(o, e)).Format)
			}
			if want := e.format(a, o); got != want {
				return fmt.Errorf("localizer %s (%s): %s %+v gives %q, want %q (misses %v)", c.Lang, e.lang, o.name(), o, got, want, a.Misses)
			}
			if got == "" && o.ID != "" {
				return fmt.Errorf("localizer %s: %s %+v gives an empty text", c.Lang, o.name(), o)
			}
		}
		return nil
	}
}

// otherEntry names an entry of the localizer's language with another domain,
// context or id whose text is got.
func (e *lookupEnv) otherEntry(o op, got string) string {
	domain, ctx, id, _, _ := o.effective(e.st)
	for _, d := range e.st.w.Domains {
		s := e.st.w.spec(e.lang, d)
		if s == nil || got == "" {
			continue
		}
		for _, m := range s.Msgs {
			if d == domain && m.Ctx == ctx && m.ID == id || m.Ctx == "" && m.ID == "" {
				continue
			}
			for f, text := range m.Strs {
				if text == got {
					return fmt.Sprintf("%q %q %q form %d", d, m.Ctx, m.ID, f)
				}
			}
		}
	}
	return ""
}

func domainOf(o op, e *lookupEnv) string {
	d, _, _, _, _ := o.effective(e.st)
	return d
}

// ---------------------------------------------------------------- C31

func checkC31(c lookupCase, ctx *engine.Ctx) error {
	c.Quiet = false
	e, err := c.open()
	if err != nil || e == nil {
		return err
	}
	for _, o := range c.Ops {
		if o.Num.bad() {
			continue
		}
		a := e.want(o)
		e.rec.errs = nil
		_, gotErr, hasErr := o.call(e.loc)
		got := e.rec.errs
		if o.Via == "localize" {
			// called twice
			if len(got)%2 != 0 {
				return fmt.Errorf("%s %+v twice reports %v, want twice %v", o.name(), o, got, a.Misses)
			}
			got = got[:len(got)/2]
		}
		ctx.NonTrivialIf(len(a.Misses) > 0)
		ctx.LabelIf(len(a.Misses) == 0, "no miss")
		if len(got) != len(a.Misses) {
			return fmt.Errorf("localizer %s (%s): %s %+v reports %v, want %v", c.Lang, e.lang, o.name(), o, got, a.Misses)
		}
		for i, m := range a.Misses {
			ctx.Label(m.Kind)
			if !m.matches(got[i]) {
				return fmt.Errorf("localizer %s (%s): %s %+v: report %d is %T %v, want %v", c.Lang, e.lang, o.name(), o, i, got[i], got[i], m)
			}
		}
		if hasErr {
			switch {
			case len(a.Misses) > 0:
				if !a.Misses[0].matches(gotErr) {
					return fmt.Errorf("localizer %s (%s): %s %+v: error %v, want %v", c.Lang, e.lang, o.name(), o, gotErr, a.Misses[0])
				}
			case e.found && gotErr != nil:
				return fmt.Errorf("localizer %s (%s): %s %+v: error %v, want none", c.Lang, e.lang, o.name(), o, gotErr)
			case !e.found && gotErr == nil:
				return fmt.Errorf("localizer %s (%s): %s %+v: no error although no language matched", c.Lang, e.lang, o.name(), o)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C30

type errSpec struct {
	Kind  string `json:"kind"` // plain, wrapped, typed, loc, dom
	Text  string `json:"text"`
	Op    op     `json:"op"`
	Depth int    `json:"depth"`
	Inner string `json:"inner,omitempty"` // what a localizable error wraps
}

type errCase struct {
	Base lookupCase `json:"base"`
	Errs []errSpec  `json:"errs"`
}

type typedErr struct{ text string }

func (e *typedErr) Error() string { return e.text }

type locErr struct {
	localize.Message
	text  string
	inner error
}

func (e *locErr) Error() string { return e.text }
func (e *locErr) Unwrap() error { return e.inner }

type locDomErr struct {
	domMsg
	text  string
	inner error
}

func (e *locDomErr) Error() string { return e.text }
func (e *locDomErr) Unwrap() error { return e.inner }

var errSentinel = errors.New("sentinel")

type sentinelErr struct {
	text string
}

func (e *sentinelErr) Error() string        { return e.text }
func (e *sentinelErr) Is(target error) bool { return target == errSentinel }

func (s errSpec) build() error {
	var err error
	switch s.Kind {
	case "plain":
		err = errors.New(s.Text)
	case "typed":
		err = &typedErr{s.Text}
	case "sentinel":
		err = &sentinelErr{s.Text}
	case "loc":
		var inner error
		switch s.Inner {
		case "typed":
			inner = &typedErr{s.Text}
		case "sentinel":
			inner = errSentinel
		case "loc":
			inner = &locErr{text: s.Text, Message: localize.Message{Singular: s.Text}}
		}
		m := s.Op.message()
		if d, ok := m.(*domMsg); ok {
			return &locDomErr{*d, s.Text, inner}
		}
		return &locErr{*(m.(*localize.Message)), s.Text, inner}
	case "wrapLoc", "joinLoc":
		// not localizable itself
		inner := &locErr{text: ""}
		if m, ok := s.Op.message().(*localize.Message); ok {
			inner.Message = *m
		}
		if s.Kind == "joinLoc" {
			inner.text = s.Text
			return errors.Join(nil, inner)
		}
		err = fmt.Errorf("%s%w", s.Text, inner)
	case "wrapped":
		err = fmt.Errorf("%s%w", s.Text, errSentinel)
	case "localized": // as another localizer returns it
		err = &localize.Error{Translation: s.Text, Wrapped: errSentinel}
	case "wrapLocalized":
		err = fmt.Errorf("%s%w", s.Text, &localize.Error{Wrapped: errSentinel})
	}
	return err
}

func genErrCase(t *rapid.T) errCase {
	c := errCase{Base: genLookup(worldConf{formats: []string{"po", "mo", "json"}, missing: 25}, 0, false)(t)}
	c.Base.Ops = nil
	st, _ := c.Base.World.model()
	// error texts under the error context
	for _, cat := range c.Base.World.Cats {
		if cat.Domain != st.defaultDomain() && (c.Base.Dom == nil || cat.Domain != *c.Base.Dom) {
			continue
		}
		for _, m := range cat.Msgs {
			if chance(t, "toErrCtx", 50) {
				dup := false
				for _, o := range cat.Msgs {
					dup = dup || o != m && o.ID == m.ID && o.Ctx == st.errCtx()
					dup = dup || cat.Format == "json" && o != m && jsonKey(o.ID, o.Ctx) == jsonKey(m.ID, st.errCtx())
				}
				if !dup {
					m.Ctx = st.errCtx()
				}
			}
		}
	}
	for n := intR(t, "nerrs", 1, 6); n > 0; n-- {
		s := errSpec{Kind: pick(t, "kind", "plain", "typed", "sentinel", "loc", "loc", "wrapped", "wrapLoc", "joinLoc", "localized", "wrapLocalized"), Text: pick(t, "text", worldIDs...), Op: genOp(t, c.Base.World, 0)}
		if cats := c.Base.World.Cats; len(cats) > 0 && chance(t, "ofCatalog", 25) {
			if msgs := cats[intR(t, "cat", 0, len(cats)-1)].Msgs; len(msgs) > 0 {
				s.Text = msgs[intR(t, "msg", 0, len(msgs)-1)].ID
			}
		}
		if chance(t, "padded", 6) {
			s.Text = padText(t, s.Text)
		}
		s.Op.Via, s.Op.Key, s.Op.F = "localize", false, false
		if s.Kind == "loc" {
			s.Inner = pick(t, "inner", "", "", "typed", "sentinel", "loc")
		}
		c.Errs = append(c.Errs, s)
	}
	return c
}

func jsonKey(id, ctx string) string {
	if ctx == "" {
		return id
	}
	return id + "_" + ctx
}

func checkC30(c errCase, ctx *engine.Ctx) error {
	e, err := c.Base.open()
	if err != nil || e == nil {
		return err
	}
	if got := e.loc.LocalizeError(nil); got != nil {
		return fmt.Errorf("LocalizeError(nil) = %v", got)
	}
	for _, s := range c.Errs {
		orig := s.build()
		var a answer
		if s.Kind == "loc" {
			a = e.want(s.Op)
		} else {
			a = e.st.lookup(e.lang, e.st.defaultDomain(), e.st.errCtx(), orig.Error(), "", false, numVal{})
		}
		got := e.loc.LocalizeError(orig)
		kl := &spreak.KeyLocalizer{Localizer: e.loc}
		if k := kl.LocalizeError(orig); (k == orig) != (got == orig) || k.Error() != got.Error() {
			return fmt.Errorf("the key localizer gives %v, the localizer %v", k, got)
		}
		ctx.Label(s.Kind)
		if got == nil {
			return fmt.Errorf("LocalizeError(%v) = nil", orig)
		}
		if len(a.Misses) > 0 || !e.found {
			if got != orig {
				return fmt.Errorf("localizer %s: %s error %q has no translation (%v) but becomes %T %q", e.lang, s.Kind, orig, a.Misses, got, got)
			}
			ctx.Label("unchanged")
			continue
		}
		ctx.NonTrivial()
		ctx.LabelIf(!a.Source, "translated")
		if got.Error() != a.Text {
			return fmt.Errorf("localizer %s: %s error %q becomes %q, want %q", e.lang, s.Kind, orig, got, a.Text)
		}
		if fmt.Sprint(got) != a.Text {
			return fmt.Errorf("localizer %s: %s error %q prints %q, want %q", e.lang, s.Kind, orig, fmt.Sprint(got), a.Text)
		}
		if errors.Unwrap(got) != orig && got != orig {
			return fmt.Errorf("localizer %s: the error of %q unwraps to %v", e.lang, orig, errors.Unwrap(got))
		}
		if !errors.Is(got, orig) {
			return fmt.Errorf("localizer %s: errors.Is is lost for %q", e.lang, orig)
		}
		if errors.Is(got, errSentinel) != errors.Is(orig, errSentinel) {
			return fmt.Errorf("localizer %s: errors.Is(sentinel) differs for %q", e.lang, orig)
		}
		var te, te0 *typedErr
		if errors.As(got, &te) != errors.As(orig, &te0) || te != te0 {
			return fmt.Errorf("localizer %s: errors.As differs for %q", e.lang, orig)
		}
		var le *locErr
		if l, ok := orig.(*locErr); ok && (!errors.As(got, &le) || le != l) {
			return fmt.Errorf("localizer %s: errors.As is lost for %q", e.lang, orig)
		}
		// the localized error is an error like any other
		again := e.loc.LocalizeError(got)
		if again == nil || !errors.Is(again, orig) {
			return fmt.Errorf("localizer %s: localising twice loses %q", e.lang, orig)
		}
	}
	return nil
}

func init() {
	all := []string{"po", "mo", "json"}
	worldRule := "random bundle: languages, domains, default domain, source and fallback language, PO/MO/JSON catalogs over small colliding sets of domains, contexts and ids, custom plural formulas or CLDR rules, loaded from a file system or a loader; then random lookups (existing entries and near misses) through all methods; "
	engine.Register(&engine.Prop{
		ID: "C01", QuickTimes: 5, ThoroughTimes: 8,
		Rule:        worldRule + "non-trivial: at least one lookup whose entry exists in the localizer's language",
		Assumptions: []string{"plural counts are integers up to 5 million here (C05-C08 cover all numbers)"},
		Parts: []*engine.Part{engine.Gen("lookup", 12000, 400000, genLookup(worldConf{formats: all, missing: 10, hostile: true, fuzzy: 5}, 0, true),
			checkTexts(func(a answer, e *lookupEnv) bool { return !a.Source && a.Lang == e.lang }))},
	})
	engine.Register(&engine.Prop{
		ID: "C02", QuickTimes: 5, ThoroughTimes: 8,
		Rule:        worldRule + "non-trivial: at least one lookup that falls back to the fallback language or the source text (also for counts that are no numbers)",
		Assumptions: []string{"plural counts are integers up to 5 million or no numbers"},
		Parts: []*engine.Part{engine.Gen("fallback", 12000, 400000, genLookup(worldConf{formats: all, missing: 50, fuzzy: 20}, 5, true),
			checkTexts(func(a answer, e *lookupEnv) bool { return a.Source || a.Lang != e.lang }))},
	})
	engine.Register(&engine.Prop{
		ID: "C30", QuickTimes: 5, ThoroughTimes: 8,
		Rule: worldRule + "errors of several kinds (plain, typed, with Is method, wrapping, localizable with and without domain and plural) are localised; non-trivial: at least one error with a translation",
		Assumptions: []string{
			"a translation is one in the localizer's own language (the source language counts with its own text)",
		},
		Parts: []*engine.Part{engine.Gen("errors", 12000, 400000, genErrCase, checkC30)},
	})
	engine.Register(&engine.Prop{
		ID: "C31", QuickTimes: 5, ThoroughTimes: 8,
		Rule:        worldRule + "the errors given to the missing callback and returned by LocalizeWithError are compared with the failing steps of the model; non-trivial: at least one failing step",
		Assumptions: []string{"JSON catalogs may report the key with its context suffix as message id", "counts are numbers"},
		Parts:       []*engine.Part{engine.Gen("missing", 12000, 400000, genLookup(worldConf{formats: all, missing: 45, fuzzy: 15}, 0, true), checkC31)},
	})
}
