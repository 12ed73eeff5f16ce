package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"

	"verif/harness/engine"
	"verif/harness/ref"
)

// jmsg is one JSON message in the model; forms by category index.
type jmsg struct {
	Key     string         `json:"key"`
	Ctx     string         `json:"ctx,omitempty"`
	Comment string         `json:"comment,omitempty"`
	Forms   map[int]string `json:"forms"`
	Nil     bool           `json:"nil,omitempty"`
	// rendering
	AsString bool     `json:"asString,omitempty"`
	Names    []string `json:"names,omitempty"` // spelling of the category names
	Raw      string   `json:"raw,omitempty"`   // written instead (invalid)
	Extra    bool     `json:"extra,omitempty"` // an unknown member
}

var cldrCats = []cldrplural.Category{cldrplural.Zero, cldrplural.One, cldrplural.Two, cldrplural.Few, cldrplural.Many, cldrplural.Other}

func (m *jmsg) message() *catalog.JSONMessage {
	if m.Nil {
		return nil
	}
	jm := &catalog.JSONMessage{Comment: m.Comment, Context: m.Ctx}
	for i, s := range m.Forms {
		if jm.Translations == nil {
			jm.Translations = map[cldrplural.Category]string{}
		}
		jm.Translations[cldrCats[i]] = s
	}
	return jm
}

// valid is the documented validation.
func (m *jmsg) valid() bool {
	if m.Key == "" || m.Nil || m.Raw != "" {
		return false
	}
	if m.Ctx != "" && !strings.HasSuffix(m.Key, "_"+m.Ctx) {
		return false
	}
	_, ok := m.Forms[5]
	return ok
}

// id is the key without the context suffix.
func (m *jmsg) id() string {
	if m.Ctx == "" {
		return m.Key
	}
	return strings.TrimSuffix(m.Key, "_"+m.Ctx)
}

// normal gives the forms the catalog must hold.
func (m *jmsg) normal(g *ref.CldrGroup) map[int]string {
	out := map[int]string{}
	if _, ok := m.Forms[5]; ok && len(m.Forms) == 1 {
		out[5] = m.Forms[5]
		return out
	}
	for _, c := range g.Cats {
		i := ref.CatIndex(c)
		out[i] = m.Forms[i]
	}
	return out
}

type jsonCase struct {
	Lang string   `json:"lang"`
	Msgs []*jmsg  `json:"msgs"`
	Nums []string `json:"nums"`
	Seed int      `json:"seed"`
}

var jkeys = []string{"a", "a_ctx", "a_b", "b", "app.title", "x_ctx_ctx", "_ctx", "Hello %s", "日本", "other", "one", "comment", "context", "with space", "q\"uote", "back\\slash", "<b>", "é"}
var jctxs = []string{"", "", "", "ctx", "b", "title", "context", "ctx_ctx", "other", "comment", "one"}

func genJmsg(t *rapid.T, bad int, hostile bool) *jmsg {
	m := &jmsg{Key: pick(t, "key", jkeys...), Forms: map[int]string{}}
	if hostile && chance(t, "hostileKey", 30) {
		m.Key = genNonEmpty(t, "hkey", 5)
	}
	m.Ctx = pick(t, "ctx", jctxs...)
	if hostile && m.Ctx != "" && chance(t, "hostileCtx", 20) {
		m.Ctx = genNonEmpty(t, "hctx", 3)
	}
	switch {
	case m.Ctx == "":
	case !chance(t, "badSuffix", bad):
		m.Key += "_" + m.Ctx
	case chance(t, "nearSuffix", 60): // the context is there, but not as the suffix
		m.Key = pick(t, "near", m.Key+"_"+m.Ctx+"_x", m.Key+"_"+m.Ctx+" ", m.Key+m.Ctx, m.Ctx+"_"+m.Key, m.Key+"_"+strings.ToUpper(m.Ctx), m.Key+"-"+m.Ctx, "_"+m.Ctx+"_", m.Key+"_"+string([]rune(m.Ctx)[1:]), m.Ctx, m.Key+"__"+m.Ctx)
	}
	if chance(t, "hasComment", 30) {
		m.Comment = genText(t, "comment", 4)
	}
	text := func(i int) string {
		if hostile && chance(t, "hostileText", 40) {
			return genText(t, "text", 6)
		}
		if chance(t, "emptyText", 12) {
			return ""
		}
		return fmt.Sprintf("%s=%s", ref.CatNames[i], m.Key)
	}
	if chance(t, "onlyOther", 30) {
		m.Forms[5] = text(5)
	} else {
		for i := 0; i < 6; i++ {
			p := 45
			if i == 5 {
				p = 100 - bad
			}
			if chance(t, "form", p) {
				m.Forms[i] = text(i)
			}
		}
	}
	return m
}

func genJSONCase(bad int, hostile, render bool) func(t *rapid.T) jsonCase {
	return func(t *rapid.T) jsonCase {
		c := jsonCase{Lang: genVariant(t, cldrLangs)}
		if _, ok := parseTag(c.Lang); !ok || chance(t, "common", 20) {
			c.Lang = pick(t, "lang", "en", "de", "ar", "pl", "ru", "cy", "ja", "fr", "lv", "br", "ga", "mt")
		}
		seen := map[string]bool{}
		for n := intR(t, "nmsgs", 1, 6); n > 0; n-- {
			m := genJmsg(t, bad, hostile)
			if seen[m.Key] {
				continue
			}
			seen[m.Key] = true
			if render {
				m.AsString = chance(t, "asString", 70)
				for i := 0; i < 8; i++ {
					m.Names = append(m.Names, pick(t, "spelling", "lower", "lower", "title", "upper"))
				}
				m.Extra = chance(t, "extra", 10)
			}
			if bad > 0 && chance(t, "bad", bad) {
				switch intR(t, "badKind", 0, 2) {
				case 0:
					m.Key = ""
				case 1:
					m.Nil = true
				case 2:
					if render {
						m.Raw = pick(t, "raw", "null", "5", "true", "[]", `["a"]`, `{"other": 5}`, `{"other": {"a":"b"}}`, `{"one": "x"}`, `{}`, `{"other": ["x"]}`, `{"Others": "x"}`)
					}
				}
			}
			c.Msgs = append(c.Msgs, m)
		}
		for n := intR(t, "nnums", 3, 8); n > 0; n-- {
			if chance(t, "dec", 40) {
				c.Nums = append(c.Nums, genDecimal(t))
			} else {
				c.Nums = append(c.Nums, fmt.Sprint(genCount(t)))
			}
		}
		return c
	}
}

func jstr(s string) string {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSpace(buf.String())
}

func spell(s, how string) string {
	switch how {
	case "title":
		return strings.ToUpper(s[:1]) + s[1:]
	case "upper":
		return strings.ToUpper(s)
	}
	return s
}

// document renders the messages as JSON text.
func (c *jsonCase) document() []byte {
	var parts []string
	for _, m := range c.Msgs {
		var v string
		_, hasOther := m.Forms[5]
		switch {
		case m.Raw != "":
			v = m.Raw
		case m.Nil:
			v = "null"
		case m.AsString && hasOther && len(m.Forms) == 1 && m.Ctx == "" && m.Comment == "":
			v = jstr(m.Forms[5])
		default:
			var f []string
			if m.Comment != "" {
				f = append(f, jstr(spell("comment", m.Names[6]))+": "+jstr(m.Comment))
			}
			for i := 5; i >= 0; i-- {
				if s, ok := m.Forms[i]; ok {
					f = append(f, jstr(spell(ref.CatNames[i], m.Names[i]))+":"+jstr(s))
				}
			}
			if m.Ctx != "" {
				f = append(f, jstr(spell("context", m.Names[7]))+" : "+jstr(m.Ctx))
			}
			if m.Extra {
				f = append(f, `"description": "ignored"`)
			}
			v = "{" + strings.Join(f, ",\n") + "}"
		}
		parts = append(parts, jstr(m.Key)+": "+v)
	}
	return []byte(" {" + strings.Join(parts, ", ") + "}\n")
}

func (c *jsonCase) messages() catalog.JSONMessages {
	msgs := catalog.JSONMessages{}
	for _, m := range c.Msgs {
		msgs[m.Key] = m.message()
	}
	return msgs
}

// checkJSON compares a JSON catalog with the model.
func (c *jsonCase) checkJSON(cat catalog.Catalog, what string) error {
	tag := language.MustParse(c.Lang)
	g, _ := cldrFor(tag)
	jc, ok := cat.(catalog.JSONCatalog)
	if !ok {
		return fmt.Errorf("%s: %T is no JSON catalog", what, cat)
	}
	if jc.Language() != tag || jc.Domain() != "dom" {
		return fmt.Errorf("%s: language %s domain %q", what, jc.Language(), jc.Domain())
	}
	msgs := jc.Messages()
	if len(msgs) != len(c.Msgs) {
		return fmt.Errorf("%s: %d messages, want %d", what, len(msgs), len(c.Msgs))
	}
	for _, m := range c.Msgs {
		got := msgs[m.Key]
		if got == nil {
			return fmt.Errorf("%s: message %q lost", what, m.Key)
		}
		if got.Context != m.Ctx || got.Comment != m.Comment {
			return fmt.Errorf("%s: message %q has context %q comment %q, want %q %q", what, m.Key, got.Context, got.Comment, m.Ctx, m.Comment)
		}
		want := m.normal(g)
		if err := sameForms(got, want); err != nil {
			return fmt.Errorf("%s: message %q (%s): %w", what, m.Key, c.Lang, err)
		}
		lookup := func(text string, err error, form int, call string) error {
			w := want[form]
			switch {
			case w == "" && err == nil:
				return fmt.Errorf("%s: %s gives %q, want an error (%s)", what, call, text, c.Lang)
			case w == "":
				ms := miss{Kind: "translation", Lang: tag.String(), Domain: "dom", Ctx: m.Ctx, ID: m.id(), JSON: true}
				if !ms.matches(err) {
					return fmt.Errorf("%s: %s gives error %v, want %v", what, call, err, ms)
				}
			case err != nil || text != w:
				return fmt.Errorf("%s: %s gives %q %v, want %q (%s)", what, call, text, err, w, c.Lang)
			}
			return nil
		}
		text, err := cat.Lookup(m.Ctx, m.id())
		if err := lookup(text, err, 5, fmt.Sprintf("Lookup(%q, %q)", m.Ctx, m.id())); err != nil {
			return err
		}
		for _, s := range c.Nums {
			o, _ := ref.OperandsOf(s)
			text, err := cat.LookupPlural(m.Ctx, m.id(), s)
			if err := lookup(text, err, ref.CatIndex(g.Category(o)), fmt.Sprintf("LookupPlural(%q, %q, %s)", m.Ctx, m.id(), s)); err != nil {
				return err
			}
		}
		// near misses
		for _, p := range [][2]string{{"nope", m.id()}, {m.Ctx, m.id() + "?"}, {"", m.id()}, {m.Ctx, m.Key}} {
			hit := false
			for _, o := range c.Msgs {
				hit = hit || o.Ctx == p[0] && o.id() == p[1]
			}
			if hit {
				continue
			}
			if text, err := cat.Lookup(p[0], p[1]); err == nil {
				return fmt.Errorf("%s: Lookup(%q, %q) gives %q, there is no such message", what, p[0], p[1], text)
			}
			if text, err := cat.LookupPlural(p[0], p[1], 1); err == nil {
				return fmt.Errorf("%s: LookupPlural(%q, %q, 1) gives %q, there is no such message", what, p[0], p[1], text)
			}
		}
	}
	return nil
}

func sameForms(got *catalog.JSONMessage, want map[int]string) error {
	if len(got.Translations) != len(want) {
		return fmt.Errorf("forms %v, want %v", got.Translations, want)
	}
	for i, s := range want {
		if v, ok := got.Translations[cldrCats[i]]; !ok || v != s {
			return fmt.Errorf("forms %v, want %v", got.Translations, want)
		}
	}
	return nil
}

func checkC16(c jsonCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Lang)
	g, _ := cldrFor(tag)
	valid := true
	docValid := true
	for _, m := range c.Msgs {
		valid = valid && m.valid()
		docValid = docValid && m.valid()
	}
	if len(c.Msgs) == 0 {
		docValid = false
	}
	multi := 0
	for _, m := range c.Msgs {
		if len(m.Forms) > 1 {
			multi++
		}
		ctx.LabelIf(m.Ctx != "", "with context")
	}
	ctx.LabelIf(!valid, "invalid message")
	ctx.NonTrivialIf(multi > 0 || !valid)

	doc := c.document()
	cat, err := catalog.NewJSONDecoder().Decode(tag, "dom", doc)
	if (err == nil) != docValid {
		return fmt.Errorf("decoding gives %v, want success %v: %s", err, docValid, doc)
	}
	if err == nil {
		if err := c.checkJSON(cat, "decoded"); err != nil {
			return fmt.Errorf("%w: %s", err, doc)
		}
	}
	hasRaw := false
	for _, m := range c.Msgs {
		hasRaw = hasRaw || m.Raw != ""
	}
	if !hasRaw {
		jc, err := catalog.NewJSONCatalogWithMessages(tag, "dom", c.messages())
		if (err == nil) != valid {
			return fmt.Errorf("NewJSONCatalogWithMessages gives %v, want success %v: %s", err, valid, doc)
		}
		if err == nil {
			if err := c.checkJSON(jc, "from messages"); err != nil {
				return fmt.Errorf("%w: %s", err, doc)
			}
		}
	}
	for _, m := range c.Msgs {
		jm := m.message()
		catalog.ApplyPluralCategoriesToJSONMessage(tag, jm)
		if jm == nil || jm.Translations == nil {
			continue
		}
		if err := sameForms(jm, m.normal(g)); err != nil {
			return fmt.Errorf("ApplyPluralCategoriesToJSONMessage(%s, %q): %w", c.Lang, m.Key, err)
		}
	}
	return nil
}

func checkC15(c jsonCase, ctx *engine.Ctx) error {
	tag := language.MustParse(c.Lang)
	for _, m := range c.Msgs {
		if !m.valid() {
			return nil
		}
		ctx.NonTrivialIf(len(m.Forms) > 1 || m.Ctx != "" || m.Comment != "")
		ctx.LabelIf(strings.ContainsAny(m.Key, "\"\\\n\t<>&\u2028"), "escaped key")
	}
	first, err := catalog.NewJSONCatalogWithMessages(tag, "dom", c.messages())
	if err != nil {
		return err
	}
	enc := func(cat catalog.JSONCatalog) (string, error) {
		var buf bytes.Buffer
		err := catalog.NewJSONEncoder(&buf).Encode(cat)
		return buf.String(), err
	}
	out, err := enc(first)
	if err != nil {
		return fmt.Errorf("encoding: %w", err)
	}
	if !json.Valid([]byte(out)) {
		return fmt.Errorf("the output is no valid JSON: %s", out)
	}
	for i := 0; i < 4; i++ {
		again, _ := catalog.NewJSONCatalogWithMessages(tag, "dom", c.messages())
		for _, cat := range []catalog.JSONCatalog{first, again} {
			if o, err := enc(cat); err != nil || o != out {
				return fmt.Errorf("encoding again gives %s (%v), first %s", o, err, out)
			}
		}
	}
	// sorted keys
	dec := json.NewDecoder(strings.NewReader(out))
	if _, err := dec.Token(); err != nil {
		return err
	}
	last := ""
	for n := 0; dec.More(); n++ {
		tok, err := dec.Token()
		if err != nil {
			return err
		}
		key, ok := tok.(string)
		if !ok {
			return fmt.Errorf("no key but %v: %s", tok, out)
		}
		if n > 0 && key <= last {
			return fmt.Errorf("key %q after %q: %s", key, last, out)
		}
		last = key
		var v any
		if err := dec.Decode(&v); err != nil {
			return err
		}
	}
	second, err := catalog.NewJSONDecoder().Decode(tag, "dom", []byte(out))
	if err != nil {
		return fmt.Errorf("decoding %s: %w", out, err)
	}
	for i, cat := range []catalog.Catalog{first, second} {
		if err := c.checkJSON(cat, []string{"before", "after the round trip"}[i]); err != nil {
			return fmt.Errorf("%w: %s", err, out)
		}
	}
	if o, err := enc(second.(catalog.JSONCatalog)); err != nil || o != out {
		return fmt.Errorf("re-encoding gives %s (%v), want %s", o, err, out)
	}
	// single messages
	for k, m := range first.Messages() {
		b, err := json.Marshal(m)
		if err != nil {
			return fmt.Errorf("message %q: %w", k, err)
		}
		var back catalog.JSONMessage
		if err := json.Unmarshal(b, &back); err != nil {
			return fmt.Errorf("message %q: %s: %w", k, b, err)
		}
		if back.Comment != m.Comment || back.Context != m.Context || fmt.Sprint(back.Translations) != fmt.Sprint(m.Translations) {
			return fmt.Errorf("message %q: %s decodes to %+v, want %+v", k, b, back, *m)
		}
	}
	return nil
}

// spellCase is a document whose members may repeat in different case, and the
// message structs of the same content.
type spellCase struct {
	Lang string     `json:"lang"`
	Msgs []spellMsg `json:"msgs"`
}

type spellMsg struct {
	Key     string      `json:"key"`
	Members [][2]string `json:"members"`
	Comment string      `json:"comment,omitempty"`
	Ctx     string      `json:"ctx,omitempty"`
	Forms   []int       `json:"forms,omitempty"`
	Empty   bool        `json:"empty,omitempty"` // an empty map instead of none
}

func genSpell(t *rapid.T) spellCase {
	c := spellCase{Lang: pick(t, "lang", "de", "pl", "ar", "ja", "fr", "lv")}
	for n := intR(t, "n", 1, 3); n > 0; n-- {
		m := spellMsg{Key: fmt.Sprint(pick(t, "key", "a", "A", "b", "x_ctx"), n)}
		for k := intR(t, "members", 1, 8); k > 0; k-- {
			name := pick(t, "name", "other", "other", "one", "few", "comment", "context", "unknown")
			name = spell(name, pick(t, "spelling", "lower", "title", "upper"))
			val := fmt.Sprint("v", k)
			if strings.EqualFold(name, "context") {
				val = pick(t, "ctx", "", "ctx")
			}
			m.Members = append(m.Members, [2]string{name, val})
		}
		m.Comment, m.Ctx = pick(t, "comment", "", "note"), pick(t, "sctx", "", "ctx")
		m.Forms = subset(t, "form", 30, []int{0, 1, 2, 3, 4})
		m.Empty = chance(t, "empty", 50)
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

func checkSpell(c spellCase, ctx *engine.Ctx) error {
	var docs []string
	for _, m := range c.Msgs {
		seen := map[string]bool{}
		var parts []string
		for _, kv := range m.Members {
			low := strings.ToLower(kv[0])
			ctx.NonTrivialIf(seen[low])
			seen[low] = true
			parts = append(parts, jstr(kv[0])+":"+jstr(kv[1]))
		}
		key := m.Key
		docs = append(docs, jstr(key)+":{"+strings.Join(parts, ",")+"}")
	}
	doc := "{" + strings.Join(docs, ",") + "}"
	first := ""
	for i := 0; i < 8; i++ {
		got := "rejected"
		cat, err := catalog.NewJSONDecoder().Decode(language.MustParse(c.Lang), "dom", []byte(doc))
		if err == nil {
			var buf bytes.Buffer
			if err := catalog.NewJSONEncoder(&buf).Encode(cat.(catalog.JSONCatalog)); err != nil {
				return err
			}
			got = buf.String()
		}
		if i == 0 {
			first = got
			ctx.LabelIf(err != nil, "rejected")
		} else if got != first {
			return fmt.Errorf("decoding %s gives %s, then %s", doc, first, got)
		}
	}
	// the structs
	msgs := catalog.JSONMessages{}
	want := map[string]string{}
	show := func(m *catalog.JSONMessage) string {
		return fmt.Sprintf("%q %q %d %v", m.Comment, m.Context, len(m.Translations), m.Translations)
	}
	for _, m := range c.Msgs {
		jm := &catalog.JSONMessage{Comment: m.Comment, Context: m.Ctx}
		if len(m.Forms) > 0 || m.Empty {
			jm.Translations = map[cldrplural.Category]string{}
		}
		if len(m.Forms) > 0 {
			jm.Translations[cldrplural.Other] = "o" + m.Key
		}
		for _, f := range m.Forms {
			jm.Translations[cldrCats[f]] = fmt.Sprint(f, m.Key)
		}
		msgs[m.Key] = jm
		want[m.Key] = show(jm)
	}
	out, err := json.Marshal(msgs)
	if err != nil {
		return fmt.Errorf("encoding messages: %v", err)
	}
	var back catalog.JSONMessages
	if err := json.Unmarshal(out, &back); err != nil || len(back) != len(msgs) {
		return fmt.Errorf("decoding %s: %v, %d messages", out, err, len(back))
	}
	for k, m := range msgs {
		if got := show(m); got != want[k] {
			return fmt.Errorf("encoding changes message %q: %s, before %s", k, got, want[k])
		}
		if b := back[k]; b == nil || b.Comment != m.Comment || b.Context != m.Context || len(m.Translations) > 0 && show(b) != show(m) {
			return fmt.Errorf("message %q is %+v after the round trip, want %+v: %s", k, b, *m, out)
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C16",
		QuickTimes: 6, ThoroughTimes: 8,
		Rule: "random JSON catalogs (as document in any member order and case of the category names, and as message structs), with foreign and missing categories, contexts, comments and invalid messages, for any language; all lookups for integers, decimals and compact numbers; non-trivial: a message with several forms, or an invalid one",
		Assumptions: []string{
			"category members of one message do not repeat in different case",
		},
		Parts: []*engine.Part{
			engine.Gen("valid", 8000, 250000, genJSONCase(0, false, true), checkC16),
			engine.Gen("invalid", 6000, 200000, genJSONCase(12, true, true), checkC16),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C15",
		QuickTimes: 6, ThoroughTimes: 8,
		Rule: "random valid messages with arbitrary Unicode keys, contexts, comments and texts, encoded repeatedly, decoded and encoded again; non-trivial: a message with several forms, a context or a comment",
		Assumptions: []string{
			"the empty catalog is not round-tripped: a document without messages is rejected when decoding",
		},
		Parts: []*engine.Part{
			engine.Gen("roundtrip", 8000, 250000, genJSONCase(0, true, false), checkC15),
			engine.Gen("members", 2000, 50000, genSpell, checkSpell),
		},
	})
}
