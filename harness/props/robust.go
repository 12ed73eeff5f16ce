package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"runtime"
	"strings"
	"testing/fstest"
	"time"
	"unicode/utf8"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C13

type bytesCase struct {
	Parser string `json:"parser"` // po, mo, json, plural, cldr, number
	Data   []byte `json:"data"`
	Lang   string `json:"lang,omitempty"`
	How    string `json:"how,omitempty"`
}

var robustTags = []string{"de", "ar", "pl", "en", "tlh", "und", "fr", "pt-PT"}

// anyValues are counts of all kinds for accepted results.
func anyValues(data []byte) []any {
	s := string(data)
	if len(s) > 40 {
		s = s[:40]
	}
	one := 1
	var np *int
	return []any{0, 1, 2, 5, 21, -1, 1.5, "1.50", "1c3", math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300,
		"1e400", "", "x", nil, struct{}{}, []int{1}, map[string]int{}, func() {}, &one, np, complex(1, 2), s, strings.Repeat("9", 400), "0." + strings.Repeat("0", 400) + "1", "1c999999999999", "-", "1.", ".5", true}
}

func useCatalog(cat catalog.Catalog, ids [][2]string, vals []any) {
	for _, p := range ids {
		_, _ = cat.Lookup(p[0], p[1])
		for _, v := range vals {
			_, _ = cat.LookupPlural(p[0], p[1], v)
		}
	}
	_ = cat.Language().String()
}

// feed gives the bytes to the parser and uses an accepted result; it reports
// whether the input was accepted.
func feed(parser string, data []byte, lang string) (accepted bool, err error) {
	tag := language.Und
	if lang != "" && lang != "und" {
		tag = language.MustParse(lang)
	}
	vals := anyValues(data)
	if len(data) > 100000 {
		vals = vals[:4]
	}
	ids := [][2]string{{"", "a"}, {"", ""}, {"ctx", "a"}, {"", "car"}}
	decode := func(d catalog.Decoder) (catalog.Catalog, error) {
		cat, err := d.Decode(tag, "dom", data)
		if (cat == nil) != (err != nil) {
			return nil, fmt.Errorf("%T gives catalog %v and error %v", d, cat, err)
		}
		if err != nil {
			_ = err.Error()
			return nil, nil
		}
		return cat, nil
	}
	switch parser {
	case "po":
		for _, ignore := range []bool{false, true} {
			p := po.NewParser()
			p.SetIgnoreComments(ignore)
			f, err := p.Parse(bytes.NewReader(data))
			if (f == nil) != (err != nil) {
				return false, fmt.Errorf("the PO parser gives file %v and error %v", f, err)
			}
			if err != nil {
				_ = err.Error()
				continue
			}
			accepted = true
			for _, byID := range f.Messages {
				for _, m := range byID {
					if len(ids) < 12 {
						ids = append(ids, [2]string{m.Context, m.ID})
					}
				}
			}
			if len(data) < 20000 {
				for _, w := range []int{-1, 0, 1, 20, 80} {
					enc := po.NewEncoder(io.Discard)
					enc.SetWrapWidth(w)
					_ = enc.Encode(f)
				}
				_ = f.String()
			}
		}
		for _, d := range []catalog.Decoder{catalog.NewPoDecoder(), catalog.NewPoCLDRDecoder()} {
			cat, err := decode(d)
			if err != nil {
				return false, err
			}
			if cat != nil {
				useCatalog(cat, ids, vals)
				for _, byID := range cat.(*catalog.GettextCatalog).Messages() {
					for _, m := range byID {
						m.Translations()
					}
				}
			}
		}
	case "po-fast":
		p := po.NewParser()
		p.SetIgnoreComments(true)
		f, err := p.Parse(bytes.NewReader(data))
		if (f == nil) != (err != nil) {
			return false, fmt.Errorf("the PO parser gives file %v and error %v", f, err)
		}
		cat, err := decode(catalog.NewPoDecoder())
		if cat != nil {
			useCatalog(cat, ids, vals)
		}
		return cat != nil, err
	case "mo":
		for _, d := range []catalog.Decoder{catalog.NewMoDecoder(), catalog.NewMoCLDRDecoder()} {
			cat, err := decode(d)
			if err != nil {
				return false, err
			}
			if cat != nil {
				accepted = true
				for ctx, byID := range cat.(*catalog.GettextCatalog).Messages() {
					for id := range byID {
						if len(ids) < 12 {
							ids = append(ids, [2]string{ctx, id})
						}
					}
				}
				useCatalog(cat, ids, vals)
			}
		}
	case "json":
		cat, err := decode(catalog.NewJSONDecoder())
		if err != nil {
			return false, err
		}
		if cat != nil {
			accepted = true
			jc := cat.(catalog.JSONCatalog)
			for k, m := range jc.Messages() {
				if len(ids) < 12 {
					ids = append(ids, [2]string{m.Context, strings.TrimSuffix(k, "_"+m.Context)})
				}
			}
			useCatalog(cat, ids, vals)
			if err := catalog.NewJSONEncoder(io.Discard).Encode(jc); err != nil {
				return true, fmt.Errorf("an accepted JSON catalog cannot be encoded: %w", err)
			}
		}
		var m catalog.JSONMessage
		if json.Unmarshal(data, &m) == nil {
			catalog.ApplyPluralCategoriesToJSONMessage(tag, &m)
			_, _ = json.Marshal(m)
			_ = m.Clone()
		}
	case "plural":
		rule, err := poplural.Parse(string(data))
		if (rule == nil) != (err != nil) {
			return false, fmt.Errorf("the plural parser gives rule %v and error %v", rule, err)
		}
		if must := panics(func() { poplural.MustParse(string(data)) }); must != (err != nil) {
			return false, fmt.Errorf("MustParse panics: %v, but the error of Parse is %v", must, err)
		}
		if err == nil {
			accepted = true
			for _, v := range vals {
				_, _ = rule.Evaluate(v)
			}
		}
	case "cldr":
		for _, raw := range []map[cldrplural.Category]string{{cldrplural.One: string(data)}, {cldrplural.Other: string(data)}, {cldrplural.Zero: "n = 0", cldrplural.Many: string(data), cldrplural.Other: "@integer 1"}} {
			rs, err := cldrplural.ParseRules(raw)
			if (rs == nil) != (err != nil) {
				return false, fmt.Errorf("the CLDR parser gives rules %v and error %v", rs, err)
			}
			if must := panics(func() { cldrplural.MustParseRules(raw) }); must != (err != nil) {
				return false, fmt.Errorf("MustParseRules panics: %v, but the error of ParseRules is %v", must, err)
			}
			if err == nil {
				accepted = true
				for _, v := range vals {
					_, _ = rs.Evaluate(v)
				}
			}
		}
	case "number":
		s := string(data)
		rs, _ := cldrplural.ForLanguage(tag)
		fn, _ := poplural.ForLanguage(tag)
		for _, v := range []any{s, &s, json.Number(s)} {
			if _, err := rs.Evaluate(v); err == nil {
				accepted = true
			}
			_, _ = fn(v)
			_, err := cldrplural.NewOperands(v)
			if must := panics(func() { cldrplural.MustNewOperands(v) }); must != (err != nil) {
				return false, fmt.Errorf("MustNewOperands(%q) panics: %v, but the error of NewOperands is %v", s, must, err)
			}
		}
	case "literal":
		s := string(data)
		_ = po.DecodePoString(s)
		for _, w := range []int{-1, 0, 1, 2, 10, 80} {
			if len(s) > 20000 && w > 0 && w < 80 {
				continue
			}
			_ = po.EncodePoString(s, w)
		}
		accepted = true
	default:
		return false, fmt.Errorf("unknown parser %q", parser)
	}
	return accepted, nil
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// budget is the amount of memory, in total, that parsing and using an input
// may allocate; generous, but proportional to the input.
func budget(parser string, n int) uint64 {
	per := uint64(3000)
	switch parser {
	case "mo":
		per = 600
	case "number":
		per = 20000
	}
	return 24<<20 + per*uint64(n)
}

func checkBytes(c bytesCase, ctx *engine.Ctx) error {
	ctx.Label(c.Parser + " " + c.How)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := time.Now()
	ok, err := feed(c.Parser, c.Data, c.Lang)
	if err != nil {
		return err
	}
	el := time.Since(start)
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	if used > budget(c.Parser, len(c.Data)) {
		return fmt.Errorf("the %s parser allocates %d MB for %d bytes: %.300q", c.Parser, used>>20, len(c.Data), c.Data)
	}
	_ = el
	if ok {
		ctx.Label(c.Parser + " accepted")
	}
	ctx.NonTrivial()
	return nil
}

var soup = map[string][]string{
	"po": {"msgid ", "msgid \"a\"\n", "msgstr ", "msgstr \"x\"\n", "msgid_plural \"as\"\n", "msgstr[0] \"x\"\n", "msgstr[1] \"y\"\n", "msgstr[", "msgstr[99999999999999999999] \"z\"\n", "msgstr[3000000] \"z\"\n", "msgid \"p\"\nmsgid_plural \"q\"\nmsgstr[00003000001] \"z\"\n", "\"Plural-Forms: nplurals=3000000; plural=n;\\n\"\n", "#: a:3000000\n", "msgstr[-1] \"q\"\n", "msgctxt \"ctx\"\n",
		"\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n", "msgid \"\"\nmsgstr \"\"\n", "\"", "\n", "\n\n", "\r", "\\", "\\x", "\\777", "#", "#~ ", "#| ", "#, fuzzy\n", "#: a.go:1\n", "#. x\n", "# t\n", " ", "\t", "\x00", "\xff", "é", "\ufeff",
		"#~ msgid \"old\"\n#~ msgstr \"alt\"\n", "\"X-spreak-use-CLDR: true\\n\"\n", "domain \"x\"\n", "#|msgid \"a\"\n", "#:\n", "#,\n", "#~", "\"\\n\"\n", "#: a:99999999999999999999999\n", "#: :1 b:\n"},
	"json":    {"{", "}", "[", "]", "\"a\"", ":", ",", "null", "\"other\"", "\"one\"", "\"context\"", "\"comment\"", "1", "true", "\"\\ud800\"", "\"", "\\", " ", "{\"a\":", "\"a_ctx\"", "\"x\"", "-", "1e999"},
	"plural":  {"nplurals=", "plural=", "nplurals=2; plural=", ";", "n", "0", "1", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", ":", "(", ")", " ", "!", "=", "10", "99999999999999999999", "-", "+", "m", "\n", "é", "\x00", "nplurals=99999999999; ", "3000000", "nplurals=3000000; plural=n"},
	"cldr":    {"n", "i", "v", "w", "f", "t", "c", "e", " ", " = ", " != ", " % ", " mod ", " and ", " or ", " in ", " not in ", " within ", " is ", "..", ",", "~", "@integer ", "@decimal ", "…", "...", "0", "1", "100", "99999999999999999999", "1.5", "x", "é", "\x00", "(", "n = 1", "n % 10 = 1..3", "0..3000000", "@integer 0~3000000", "@decimal 0.0~300000.5", "3000000", "n = 0..3000000 "},
	"number":  {"0", "1", "9", ".", "-", "+", "c", "e", "E", "99999999999999999999", " ", "c5", "c-5", "x", "_", ",", "0000000000", "é", "\x00", "1e9", "3000000", "c3000000", "inf", "nan", "0x1"},
	"literal": {"\"", "\\", "\\n", "n", "\n", "a", " ", "\\\"", "\\x", "\\x4", "\\777", "\\u", "é", "\xff", "日", "\r", "\t", "\x00", "longword", "\\\n"},
}

// mutate changes some bytes.
func mutate(t *rapid.T, data []byte, tokens []string) []byte {
	out := append([]byte{}, data...)
	for n := intR(t, "nmut", 1, 5); n > 0; n-- {
		if len(out) == 0 {
			return []byte(pick(t, "token", tokens...))
		}
		at := intR(t, "at", 0, len(out))
		end := at + intR(t, "span", 0, 12)
		if end > len(out) {
			end = len(out)
		}
		switch intR(t, "mut", 0, 6) {
		case 0: // delete
			out = append(out[:at:at], out[end:]...)
		case 1: // duplicate
			out = append(out[:end:end], out[at:]...)
		case 2: // insert a token
			out = append(append(out[:at:at], pick(t, "token", tokens...)...), out[at:]...)
		case 3: // replace by a token
			out = append(append(out[:at:at], pick(t, "token", tokens...)...), out[end:]...)
		case 4: // set a byte
			if at < len(out) {
				out[at] = byte(intR(t, "byte", 0, 255))
			}
		case 5: // cut off
			out = out[:at]
		case 6: // move
			seg := append([]byte{}, out[at:end]...)
			out = append(out[:at:at], out[end:]...)
			to := intR(t, "to", 0, len(out))
			out = append(append(out[:to:to], seg...), out[to:]...)
		}
	}
	return out
}

func genSoup(t *rapid.T, tokens []string) []byte {
	var b bytes.Buffer
	for n := intR(t, "ntok", 0, 40); n > 0; n-- {
		b.WriteString(pick(t, "tok", tokens...))
	}
	return b.Bytes()
}

func genBytes(t *rapid.T) bytesCase {
	c := bytesCase{Parser: pick(t, "parser", "po", "po", "mo", "mo", "json", "plural", "cldr", "number", "literal"), Lang: pick(t, "lang", robustTags...)}
	kind := intR(t, "how", 0, 3)
	if c.Parser == "mo" {
		return genMoBytes(t, c)
	}
	switch {
	case kind == 0:
		c.How = "random"
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data")
	case kind == 1:
		c.How = "tokens"
		c.Data = genSoup(t, soup[c.Parser])
	default:
		c.How = "mutated"
		var base []byte
		switch c.Parser {
		case "po":
			base = genFuzzy(t).Text
		case "json":
			jc := genJSONCase(3, true, true)(t)
			base = jc.document()
		case "plural":
			base = []byte(ref.GettextByLang[pick(t, "ofLang", gettextLangs...)])
		case "cldr":
			base = []byte(renderRule(genCldrOr(t), func(n int) int { return intR(t, "style", 0, n-1) }))
		case "number":
			base = []byte(genDecimal(t))
		case "literal":
			base = []byte(ref.Quote(genText(t, "text", 20)))
		}
		c.Data = mutate(t, base, soup[c.Parser])
	}
	return c
}

func genCldrOr(t *rapid.T) [][]ref.Relation {
	c := genRuleCase(t)
	for _, cat := range ref.CatNames {
		if or, ok := c.Rules[cat]; ok {
			return or
		}
	}
	return [][]ref.Relation{}
}

func genMoBytes(t *rapid.T, c bytesCase) bytesCase {
	mc := genMO(t)
	data := mc.Data
	var bo binary.ByteOrder = binary.LittleEndian
	if len(data) > 3 && data[0] == 0x95 {
		bo = binary.BigEndian
	}
	switch intR(t, "moHow", 0, 4) {
	case 0:
		c.How = "bytes changed"
		c.Data = mutate(t, data, []string{"\x00", "\x04", "\x00\x00\x00\x00", "\xff\xff\xff\xff", "a\x00b", "\x00\x00\x00\x80"})
	case 1, 2:
		c.How = "fields changed"
		c.Data = append([]byte{}, data...)
		for n := intR(t, "nfields", 1, 4); n > 0; n-- {
			at := 4 * intR(t, "field", 0, min(len(data)/4-1, 60))
			v := pick(t, "val", uint32(0), 1, 2, 27, 28, 29, uint32(len(data)-1), uint32(len(data)), uint32(len(data)+1), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 1<<29, 1<<26, 100000000, 20000000, 0x10000, uint32(len(data)/2))
			bo.PutUint32(c.Data[at:], v)
		}
	case 3:
		c.How = "random"
		c.Data = append([]byte{0xde, 0x12, 0x04, 0x95, 0, 0, 0, 0}, rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "data")...)
	case 4:
		c.How = "cut off"
		c.Data = append([]byte{}, data[:intR(t, "cut", 0, len(data))]...)
	}
	return c
}

// bigCase is a large input in compact form.
type bigCase struct {
	Parser string  `json:"parser"`
	Pieces []piece `json:"pieces"`
	MO     *bigMO  `json:"mo,omitempty"`
	Lang   string  `json:"lang"`
}

type piece struct {
	S string `json:"s"`
	N int    `json:"n"`
}

// bigMO is a MO file with many entries that share one text.
type bigMO struct {
	Entries int  `json:"entries"`
	Text    int  `json:"text"`
	IDs     bool `json:"ids"` // the ids are the shared text, too
}

func (b *bigMO) data() []byte {
	n := b.Entries
	out := make([]byte, 28+16*n, 28+16*n+b.Text+8*n)
	u := func(at int, v int) { binary.LittleEndian.PutUint32(out[at:], uint32(v)) }
	u(0, 0x950412de)
	u(8, n)
	u(12, 28)
	u(16, 28+8*n)
	textAt := len(out)
	for i := 0; i < b.Text; i++ {
		out = append(out, 'a'+byte(i%26))
	}
	out = append(out, 0)
	for i := 0; i < n; i++ {
		if b.IDs {
			l := b.Text - i
			if l < 1 {
				l = 1
			}
			u(28+8*i, l)
			u(28+8*i+4, textAt)
		} else {
			id := fmt.Sprintf("%06d\x00", i)
			u(28+8*i, len(id)-1)
			u(28+8*i+4, len(out))
			out = append(out, id...)
		}
		u(28+8*n+8*i, b.Text)
		u(28+8*n+8*i+4, textAt)
	}
	return out
}

func (c *bigCase) data() []byte {
	if c.MO != nil {
		return c.MO.data()
	}
	var b bytes.Buffer
	for _, p := range c.Pieces {
		b.WriteString(strings.Repeat(p.S, p.N))
	}
	return b.Bytes()
}

var bigUnits = map[string][]string{
	"po":      {"# c\n", "#\n", "#.\n", "#,\n", "#: a\n", "#|\n", "#~\n", "#~| x\n", "\n", "\"a\"\n", "#~ msgid \"x\"\n", "#, fuzzy\n", "msgid \"", "\\", "\"", "#: a.go:1\n", "msgstr[0] \"x\"\n", "#. x\n\n", "#| msgid \"x\"\n", " ", "a", "\r", "#"},
	"json":    {"[", "{\"a\":", "\"", "\\u0000", " ", "{\"other\":\"x\"},", "9"},
	"plural":  {"(", "n?", "n ? n : ", "n||", "n?n||(", "!", "-", " ", "9", "n %", "n==", ")", "n?n:(", "((n)) && "},
	"cldr":    {"n = 1 or ", "n = 1 and ", "1,", "n % ", " ", "9", "n = ", "~", "@integer 1, ", "@integer ", "0~1, ", "1..2,", "("},
	"number":  {"9", "0", ".", "c9", "-", "1e"},
	"literal": {"a", " ", "\\", "\\n", "\n", "é", "\"", "a ", "\\\""},
}

var bigPrefixes = map[string][]string{
	"po": {"", "msgid \"a\"\n", "msgid \"", "msgid \"a\"\nmsgstr \"x\"\n", "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural="}, "json": {"", "{\"a\":\"", "{\"a\":", "{"},
	"plural": {"", "nplurals=2; plural=", "nplurals="}, "cldr": {"", "n = ", "n = 1 ", "n % "}, "number": {"", "1", "1.", "0.", "1c", "-"}, "literal": {"", "\""},
}

// listDeep repeats every unit so often that recursion per unit would exhaust the stack.
func listDeep(tier string) []bigCase {
	var out []bigCase
	for _, p := range []struct {
		parser string
		size   int
	}{{"plural", 24 << 20}, {"cldr", 12 << 20}, {"po", 12 << 20}, {"json", 6 << 20}, {"literal", 2 << 20}, {"number", 1 << 20}} {
		for i, u := range bigUnits[p.parser] {
			for j, pre := range bigPrefixes[p.parser] {
				if tier != "thorough" && p.parser != "plural" && (i+j)%2 == 1 && pre != "" {
					continue
				}
				if p.parser == "po" && strings.HasPrefix(u, "#") && len(u) > 1 {
					// A few megabytes of comments take the parser very long if it keeps them
					out = append(out, bigCase{Parser: "po-fast", Lang: "de", Pieces: []piece{{pre, 1}, {u, p.size / len(u)}}})
				}
				size := p.size
				if p.parser == "po" {
					size = 300000
				}
				out = append(out, bigCase{Parser: p.parser, Lang: "de", Pieces: []piece{{pre, 1}, {u, size / len(u)}}})
			}
		}
	}
	return out
}

func genBig(t *rapid.T) bigCase {
	c := bigCase{Parser: pick(t, "parser", "po", "po", "mo", "json", "plural", "cldr", "number", "literal"), Lang: pick(t, "lang", robustTags...)}
	if c.Parser == "mo" {
		c.MO = &bigMO{Entries: intR(t, "entries", 1, 12000), Text: pick(t, "text", 0, 10, 5000, 100000, 200000), IDs: chance(t, "ids", 50)}
		return c
	}
	total := pick(t, "total", 30000, 100000, 300000)
	deep := false
	unit, prefix := bigUnits[c.Parser], bigPrefixes[c.Parser]
	switch c.Parser {
	case "plural":
		deep = chance(t, "deep", 30)
	case "number":
		total = 20000
	case "literal":
		total = 60000
	}
	if deep {
		total = 4000000
	}
	suffix := map[string][]string{
		"po": {"", "msgid \"z\"\nmsgstr \"y\"\n", "\"\n", "\\n\"\n"}, "json": {"", "\"}", "}"}, "plural": {"", "n;", "1;", "n"}, "cldr": {"", "n = 1", "1"}, "number": {"", "1", "c3"}, "literal": {"", "\""},
	}[c.Parser]
	c.Pieces = append(c.Pieces, piece{pick(t, "prefix", prefix...), 1})
	u := pick(t, "unit", unit...)
	c.Pieces = append(c.Pieces, piece{u, total / len(u)})
	if chance(t, "second", 30) {
		u := pick(t, "unit2", unit...)
		c.Pieces = append(c.Pieces, piece{u, total / len(u) / 2})
	}
	c.Pieces = append(c.Pieces, piece{pick(t, "suffix", suffix...), 1})
	return c
}

func checkBig(c bigCase, ctx *engine.Ctx) error {
	data := c.data()
	ctx.Label(c.Parser)
	ctx.NonTrivialIf(len(data) > 5000)
	done := make(chan struct{})
	var peak uint64
	stop := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if v := m.HeapAlloc + m.StackInuse; v > peak {
					peak = v
				}
			}
		}
	}()
	runtime.GC()
	var before runtime.MemStats
	runtime.ReadMemStats(&before)
	start := time.Now()
	var err error
	perr := engine.Protect("the "+c.Parser+" parser", func() { _, err = feed(c.Parser, data, c.Lang) })
	el := time.Since(start)
	var after runtime.MemStats
	runtime.ReadMemStats(&after)
	close(stop)
	<-done
	if perr != nil {
		return perr
	}
	if err != nil {
		return err
	}
	desc := fmt.Sprintf("%d bytes %+v", len(data), c.Pieces)
	if c.MO != nil {
		desc = fmt.Sprintf("%d bytes %+v", len(data), *c.MO)
		if used := after.TotalAlloc - before.TotalAlloc; used > budget("mo", len(data)) {
			return fmt.Errorf("the MO parser allocates %d MB for %s", used>>20, desc)
		}
	}
	_ = el
	base := before.HeapAlloc + before.StackInuse
	if limit := base + 256<<20 + 600*uint64(len(data)); peak > limit {
		return fmt.Errorf("the %s parser needs %d MB for %s", c.Parser, (peak-base)>>20, desc)
	}
	return nil
}

// ---------------------------------------------------------------- C14

type faultCase struct {
	Spec   *catSpec  `json:"spec,omitempty"`
	JSON   *jsonCase `json:"json,omitempty"`
	Format string    `json:"format"`
	Data   []byte    `json:"data"`
	Long   int       `json:"long,omitempty"` // a text of this length is added
	Chunk  int       `json:"chunk"`
	Counts []int64   `json:"counts"`
	Kind   string    `json:"kind"`
	Points []int     `json:"points"` // for sampled positions
}

var errInjected = errors.New("injected read failure")

// faultReader delivers data[:at] and then fails.
type faultReader struct {
	data  []byte
	at    int
	pos   int
	chunk int
	with  bool // the error comes together with the last bytes
	err   error
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.pos >= r.at {
		return 0, r.err
	}
	n := min(len(p), r.chunk, r.at-r.pos)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.with && r.pos >= r.at {
		return n, r.err
	}
	return n, nil
}

// faultSeeker is a seekable file in which reading from position at on fails.
type faultSeeker struct {
	data    []byte
	at, pos int
	err     error
	failed  bool
}

func (r *faultSeeker) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.pos >= r.at {
		r.failed = true
		return 0, r.err
	}
	n := copy(p, r.data[r.pos:r.at])
	r.pos += n
	return n, nil
}

func (r *faultSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	r.pos = int(off)
	return off, nil
}

// faultFS serves one file and injects failures.
type faultFS struct {
	fstest.MapFS
	name  string
	open  error
	close error
	at    int // -1: no read failure
	err   error
	chunk int
	seek  bool
}

type faultFile struct {
	fs.File
	r     io.Reader
	close error
}

func (f *faultFile) Read(p []byte) (int, error) { return f.r.Read(p) }
func (f *faultFile) Close() error {
	err := f.File.Close()
	if f.close != nil {
		return f.close
	}
	return err
}

type seekFile struct {
	faultFile
	s io.Seeker
}

func (f *seekFile) Seek(off int64, whence int) (int64, error) { return f.s.Seek(off, whence) }

// Stat keeps Open out of the search for the file.
func (f *faultFS) Stat(name string) (fs.FileInfo, error) { return f.MapFS.Stat(name) }

func (f *faultFS) Open(name string) (fs.File, error) {
	file, err := f.MapFS.Open(name)
	if err != nil || name != f.name {
		return file, err
	}
	if f.open != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: f.open}
	}
	data := f.MapFS[name].Data
	at := len(data)
	var end error = io.EOF
	if f.at >= 0 {
		at, end = f.at, f.err
	}
	ff := faultFile{File: file, close: f.close}
	if f.seek {
		if f.at < 0 {
			at = len(data) + 1
		}
		s := &faultSeeker{data: data, at: at, err: f.err}
		ff.r = s
		return &seekFile{ff, s}, nil
	}
	ff.r = &faultReader{data: data, at: at, chunk: f.chunk, err: end}
	return &ff, nil
}

func genFault(t *rapid.T) faultCase {
	c := faultCase{Format: pick(t, "format", "po", "mo", "mo", "json"), Chunk: pick(t, "chunk", 1, 2, 3, 6, 7, 64, 512, 4096, 1<<20), Counts: []int64{0, 1, 2, 5}}
	c.Kind = pick(t, "kind", "reader", "reader", "loader", "truncate")
	switch c.Format {
	case "json":
		jc := genJSONCase(0, true, true)(t)
		if len(jc.Msgs) > 3 {
			jc.Msgs = jc.Msgs[:3]
		}
		jc.Nums = jc.Nums[:2]
		c.JSON = &jc
		c.Data = jc.document()
	default:
		c.Spec = genRichSpec(t, c.Format)
		if len(c.Spec.Msgs) > 4 {
			c.Spec.Msgs = c.Spec.Msgs[:4]
		}
		var hdr *ref.Msg
		if !c.Spec.NoHdr {
			hdr = ref.HeaderMsg(c.Spec.headerFields())
		}
		if c.Format == "mo" {
			l := ref.MoLayout{Big: chance(t, "big", 40), Sorted: chance(t, "sorted", 60), Shuffle: chance(t, "shuffle", 40), Hash: chance(t, "hash", 40), Share: chance(t, "share", 30), C: chooser(t)}
			c.Data = ref.WriteMO(ref.MoEntries(hdr, c.Spec.Msgs), l)
		} else {
			lay := &ref.Layout{C: chooser(t), Plain: chance(t, "plain", 60)}
			c.Data = []byte(lay.Render(hdr, c.Spec.Msgs))
		}
	}
	for n := 14; n > 0; n-- {
		c.Points = append(c.Points, intR(t, "point", 0, len(c.Data)))
	}
	return c
}

func (c *faultCase) tag() language.Tag {
	if c.JSON != nil {
		return language.MustParse(c.JSON.Lang)
	}
	return language.MustParse(c.Spec.Lang)
}

func (c *faultCase) decoder() catalog.Decoder {
	if c.JSON != nil {
		return catalog.NewJSONDecoder()
	}
	return c.Spec.decoder()
}

func (c *faultCase) domain() string {
	if c.JSON != nil {
		return "dom"
	}
	return c.Spec.Domain
}

// complete tells whether the catalog has everything.
func (c *faultCase) complete(cat catalog.Catalog) error {
	if c.JSON != nil {
		return c.JSON.checkJSON(cat, "catalog")
	}
	return compareCatalog(c.Spec, cat, c.Counts, "catalog")
}

func checkC14(c faultCase, ctx *engine.Ctx) error {
	ctx.Label(c.Kind + " " + c.Format)
	tag, dec, dom := c.tag(), c.decoder(), c.domain()
	v2, _ := dec.(catalog.DecoderV2)
	cat, err := dec.Decode(tag, dom, bytes.Clone(c.Data))
	if err != nil {
		return fmt.Errorf("the intact file is rejected: %w", err)
	}
	if err := c.complete(cat); err != nil {
		return fmt.Errorf("intact file: %w", err)
	}
	ctx.NonTrivialIf(len(c.Data) > 20)
	mustFail := func(cat catalog.Catalog, err error, what string) error {
		if err == nil {
			return fmt.Errorf("%s gives a catalog (%s file of %d bytes)", what, c.Format, len(c.Data))
		}
		if cat != nil {
			return fmt.Errorf("%s gives error %v and a catalog", what, err)
		}
		return nil
	}
	switch c.Kind {
	case "truncate":
		if c.Format == "po" {
			// a literal cut in the middle can be seen (if the last character
			// is not an escaped quote, which is tolerated as the end)
			for at := range c.Data {
				cut := c.Data[:at]
				line := cut[bytes.LastIndexByte(cut, '\n')+1:]
				line = bytes.TrimSpace(line)
				if bytes.HasPrefix(line, []byte("#")) || bytes.HasSuffix(line, []byte(`"`)) || !openLiteral(string(line)) {
					continue
				}
				cat, err := dec.Decode(tag, dom, bytes.Clone(cut))
				if err := mustFail(cat, err, fmt.Sprintf("PO file cut in the literal at byte %d", at)); err != nil {
					return err
				}
			}
			return nil
		}
		for at := 0; at < len(c.Data); at++ {
			cat, err := dec.Decode(tag, dom, bytes.Clone(c.Data[:at]))
			if err != nil {
				if cat != nil {
					return fmt.Errorf("file cut at byte %d of %d gives error %v and a catalog", at, len(c.Data), err)
				}
				continue
			}
			if c.Format == "json" && len(bytes.TrimSpace(c.Data[at:])) > 0 {
				return fmt.Errorf("JSON file cut at byte %d of %d is accepted", at, len(c.Data))
			}
			if err := c.complete(cat); err != nil {
				return fmt.Errorf("file cut at byte %d of %d: %w", at, len(c.Data), err)
			}
		}
	case "reader":
		if v2 == nil {
			return nil
		}
		for at := 0; at <= len(c.Data); at++ {
			for _, with := range []bool{false, true} {
				if with && at == 0 {
					continue
				}
				cat, err := v2.DecodeReader(tag, dom, &faultReader{data: c.Data, at: at, chunk: c.Chunk, with: with, err: errInjected})
				if err := mustFail(cat, err, fmt.Sprintf("reader failing at byte %d", at)); err != nil {
					return err
				}
			}
			s := &faultSeeker{data: c.Data, at: at, err: errInjected}
			cat, err := v2.DecodeReader(tag, dom, s)
			if s.failed {
				if err := mustFail(cat, err, fmt.Sprintf("file failing at byte %d", at)); err != nil {
					return err
				}
			} else if err == nil {
				if err := c.complete(cat); err != nil {
					return fmt.Errorf("file with bad end at byte %d: %w", at, err)
				}
			}
			// a reader that ends early without error
			if c.Format == "mo" {
				cat, err := v2.DecodeReader(tag, dom, &faultReader{data: c.Data, at: at, chunk: c.Chunk, err: io.ErrUnexpectedEOF})
				if err := mustFail(cat, err, fmt.Sprintf("reader ending at byte %d", at)); err != nil {
					return err
				}
			}
		}
	case "loader":
		if tag == language.Und { // the source language: nothing is loaded
			return nil
		}
		name := tag.String() + "." + c.Format
		good := &fstest.MapFile{Data: []byte("msgid \"good\"\nmsgstr \"gut\"\n")}
		try := func(f *faultFS) (*spreak.Bundle, error) {
			f.MapFS = fstest.MapFS{name: &fstest.MapFile{Data: c.Data}}
			f.name = name
			f.chunk = c.Chunk
			opts := []spreak.BundleOption{
				spreak.WithFilesystemLoader(dom, spreak.WithFs(f), spreak.WithDecoder("."+c.Format, dec)),
				spreak.WithLanguage(tag),
			}
			// Another file could be used instead of the bad one
			switch c.Chunk % 3 {
			case 0, 1:
				f.MapFS[tag.String()+".po2"] = good
				f.MapFS["LC_MESSAGES/"+name] = &fstest.MapFile{Data: c.Data}
				if base, _ := tag.Base(); base.String() != tag.String() {
					f.MapFS[base.String()+"."+c.Format] = &fstest.MapFile{Data: c.Data}
				}
				opts[0] = spreak.WithFilesystemLoader(dom, spreak.WithFs(f), spreak.WithDecoder("."+c.Format, dec), spreak.WithDecoder(".po2", catalog.NewPoDecoder()))
			}
			if c.Chunk%2 == 1 {
				// a language without files
				second := "eo"
				if base, _ := tag.Base(); base.String() == second {
					second = "ia"
				}
				opts = append(opts, spreak.WithDomainFs(dom+"-second", fstest.MapFS{tag.String() + ".po": good}), spreak.WithLanguage(second))
			}
			return spreak.NewBundle(opts...)
		}
		if b, err := try(&faultFS{at: -1}); err != nil || len(b.SupportedLanguages()) != 1 {
			return fmt.Errorf("the intact file gives %v", err)
		}
		bad := []*faultFS{{at: -1, open: fs.ErrPermission}, {at: -1, open: errInjected}, {at: -1, open: errInjected, seek: true}, {at: -1, close: errInjected}}
		for _, at := range c.Points {
			bad = append(bad, &faultFS{at: at, err: errInjected}, &faultFS{at: at, err: fs.ErrPermission}, &faultFS{at: at, err: io.ErrUnexpectedEOF}, &faultFS{at: at, err: fs.ErrNotExist})
		}
		for _, f := range bad {
			if f.close != nil {
				continue // what a failing Close means is not specified
			}
			if _, err := try(f); err == nil {
				return fmt.Errorf("bundle creation succeeds although %s fails (open %v, read at %d of %d: %v)", name, f.open, f.at, len(c.Data), f.err)
			}
		}
		if c.Format == "mo" {
			for _, at := range c.Points {
				b, err := try(&faultFS{at: at, err: errInjected, seek: true})
				if err != nil {
					continue
				}
				l := spreak.NewLocalizerForDomain(b, dom, tag)
				for _, m := range c.Spec.Msgs {
					want, ms := c.Spec.find(m.Ctx, m.ID, false, numVal{})
					if got := l.DPGet(dom, m.Ctx, m.ID); ms == nil && got != want {
						return fmt.Errorf("file failing at byte %d: %q instead of %q", at, got, want)
					}
				}
			}
		}
	}
	return nil
}

// openLiteral tells whether the line ends inside a literal.
func openLiteral(line string) bool {
	open, esc := false, false
	for _, r := range line {
		switch {
		case !open:
			open = r == '"'
		case esc:
			esc = false
		case r == '\\':
			esc = true
		case r == '"':
			open = false
		}
	}
	return open
}

type longCase struct {
	Lens  []int  `json:"lens"`
	Where string `json:"where"`
	Char  string `json:"char"`
	CRLF  bool   `json:"crlf"`
}

func genLong(t *rapid.T) longCase {
	c := longCase{Where: pick(t, "where", "msgid", "msgstr", "plural", "comment", "refs", "continuation", "obsolete", "ctx"), Char: pick(t, "char", "x", "é", "x ", "\\n", "日"), CRLF: chance(t, "crlf", 30)}
	for n := intR(t, "n", 1, 3); n > 0; n-- {
		c.Lens = append(c.Lens, pick(t, "len", 10, 4000, 4096, 65530, 65535, 65536, 65537, 131072, 300000, 1<<20)+intR(t, "delta", -20, 20))
	}
	return c
}

func checkLong(c longCase, ctx *engine.Ctx) error {
	var b strings.Builder
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	want := map[string]string{}
	longest := 0
	line := func(s string) {
		longest = max(longest, len(s))
		b.WriteString(s + nl)
	}
	msg := func(ctx, id, str string) {
		if ctx != "" {
			line(`msgctxt "` + ctx + `"`)
		}
		line(`msgid "` + id + `"`)
		line(`msgstr "` + str + `"`)
		b.WriteString(nl)
	}
	real := strings.ReplaceAll
	msg("", "first", "1")
	want["\x04first"] = "1"
	for i, n := range c.Lens {
		if n < 1 {
			n = 1
		}
		text := strings.Repeat(c.Char, n/len(c.Char)+1)
		plain := real(text, `\n`, "\n")
		id := fmt.Sprintf("m%d", i)
		switch c.Where {
		case "msgid":
			msg("", id+text, "x")
			want["\x04"+id+plain] = "x"
		case "msgstr":
			msg("", id, text)
			want["\x04"+id] = plain
		case "ctx":
			msg(id+text, "c", "x")
			want[id+plain+"\x04c"] = "x"
		case "plural":
			line(`msgid "` + id + `"`)
			line(`msgid_plural "` + text + `"`)
			line(`msgstr[0] "` + text + `"`)
			line(`msgstr[1] "p"`)
			b.WriteString(nl)
			want["\x04"+id] = plain
		case "continuation":
			line(`msgid "` + id + `"`)
			line(`msgstr ""`)
			line(`"` + text + `"`)
			line(`"` + text + `"`)
			b.WriteString(nl)
			want["\x04"+id] = plain + plain
		case "comment":
			line("# " + text)
			msg("", id, "x")
			want["\x04"+id] = "x"
		case "refs":
			line("#: " + strings.Repeat("file.go:1 ", n/10+1))
			msg("", id, "x")
			want["\x04"+id] = "x"
		case "obsolete":
			line(`#~ msgid "` + text + `"`)
			line(`#~ msgstr "` + text + `"`)
			b.WriteString(nl)
			msg("", id, "x")
			want["\x04"+id] = "x"
		}
	}
	msg("", "last", "2")
	want["\x04last"] = "2"
	ctx.Label(c.Where)
	ctx.NonTrivialIf(longest > 60000)
	f, err := po.Parse([]byte(b.String()))
	if err != nil {
		return nil // rejecting is allowed
	}
	ctx.Label("accepted")
	cat, err := catalog.NewPoDecoder().Decode(language.German, "", []byte(b.String()))
	if err != nil {
		return fmt.Errorf("parsed but not decoded: %w", err)
	}
	n := 0
	for _, byID := range f.Messages {
		n += len(byID)
	}
	if n != len(want) {
		return fmt.Errorf("%d messages of %d (longest line %d, %s)", n, len(want), longest, c.Where)
	}
	for k, w := range want {
		ctx, id, _ := strings.Cut(k, "\x04")
		m := f.GetMessage(ctx, id)
		if m == nil || m.Str[0] != w {
			return fmt.Errorf("message %q lost or changed (longest line %d, %s)", clip(id, 30), longest, c.Where)
		}
		if got, err := cat.Lookup(ctx, id); err != nil || got != w {
			return fmt.Errorf("catalog gives %q %v for %q (longest line %d, %s)", clip(got, 30), err, clip(id, 30), longest, c.Where)
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C13",
		QuickTimes: 2, ThoroughTimes: 2,
		Rule: "random, token-based, mutated (valid file or rule with edits) and large repetitive inputs to every parser; accepted results are used (lookups, evaluation of values of all kinds, encoding); memory is compared with a budget proportional to the input, time by the watchdog; non-trivial: every input (large part: above 5 KB)",
		Assumptions: []string{
			"proportional means: at most 3000 bytes of allocations in total per input byte (MO 600) plus 24 MB; large inputs: a peak of 600 bytes per input byte plus 256 MB",
		},
		Parts: []*engine.Part{
			engine.Gen("bytes", 24000, 1200000, genBytes, checkBytes),
			engine.Gen("large", 240, 6000, genBig, checkBig),
			engine.List("deep", listDeep, checkBig),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C14",
		QuickTimes: 2, ThoroughTimes: 3,
		Rule: "random PO, MO and JSON catalogs read through a reader or file failing at every byte, cut at every length (MO, JSON; PO inside literals), loaded by a bundle from a failing file system, and PO files with very long lines; oracle: an error or the complete catalog; non-trivial: file above 20 bytes (long lines: a line above 60000 bytes)",
		Assumptions: []string{
			"a PO text cut between entries or lines is a complete shorter PO file",
			"a seekable MO file is only read where its tables point to, a failure elsewhere does no harm",
		},
		Parts: []*engine.Part{
			engine.Gen("faults", 1600, 50000, genFault, checkC14),
			engine.Gen("long lines", 240, 4000, genLong, checkLong),
		},
	})
}

var _ = utf8.ValidString
