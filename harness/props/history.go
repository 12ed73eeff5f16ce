package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/humanize"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C36

// hop is one use of a parser, encoder, decoder, rule or helper.
type hop struct {
	Kind   string      `json:"kind"`
	Text   []byte      `json:"text,omitempty"`
	Ignore bool        `json:"ignore,omitempty"` // parser: skip comments
	Fail   int         `json:"fail,omitempty"`   // the reader or writer fails after Fail-1 bytes
	File   *poFileCase `json:"file,omitempty"`
	Lang   string      `json:"lang,omitempty"`
	S      string      `json:"s,omitempty"`
	Vals   []string    `json:"vals,omitempty"`
	Rules  []string    `json:"rules,omitempty"` // of zero, one, two, few, many
}

type histCase struct {
	Ops   []hop `json:"ops"`
	Order []int `json:"order"` // another order
}

// Languages that share the base, the region or the script.
var histTags = []string{"pt", "pt-PT", "pt-BR", "zh", "zh-Hant", "zh-TW", "sr", "sr-Latn", "sr-Cyrl", "sr-Latn-RS", "en", "en-GB", "en-US", "de", "de-AT", "de-CH", "ar", "ar-EG", "pl", "fr", "fr-CA", "lv", "tlh", "is", "he", "iw", "und"}
var histVals = []string{"0", "1", "1.0", "1.00", "1c3", "1c6", "2", "2.5", "3", "5", "11", "21", "21.0", "100", "101", "1000000", "1000000.0", "-1", "x", ""}
var histForms = []string{
	"nplurals=2; plural=(n != 1);", "nplurals=2; plural=(n == 1);", "nplurals=2; plural=(n > 1);", "nplurals=2; plural=(n>=1);", "nplurals=3; plural=(n > 1);",
	"nplurals=2; plural=n%10;", "nplurals=2; plural=n%2;", "nplurals=3; plural=n==1?0:n==2?1:2;", "nplurals=3; plural=n==1?0:n==2?2:1;", "nplurals=2; plural=(n ! 1);", "nplurals=2; plural=n +;", "",
}

func genHop(t *rapid.T) hop {
	o := hop{Kind: pick(t, "kind", "parse", "parse", "parse", "encode", "encode", "decode", "decode", "json", "plural", "plural", "gettext", "cldr", "cldr", "rules", "operands", "expand", "hum", "literal")}
	fail := func(n int) {
		if chance(t, "fails", 25) {
			o.Fail = intR(t, "failAt", 0, n) + 1
		}
	}
	damage := func() {
		if !chance(t, "damage", 35) || len(o.Text) == 0 {
			return
		}
		at := intR(t, "at", 0, len(o.Text))
		switch intR(t, "damageKind", 0, 4) {
		case 0:
			o.Text = append(bytes.Clone(o.Text[:at]), "\njunk\n"+string(o.Text[at:])...)
		case 1:
			o.Text = bytes.Clone(o.Text[:at])
		case 2: // twice the same entries
			o.Text = append(bytes.Clone(o.Text), "\n"+string(o.Text)...)
		case 3:
			o.Text = append(bytes.Clone(o.Text[:at]), pick(t, "token", "\"", "\\", "msgid \"a\"\n", "msgctxt \"c\"\n", "#, fuzzy\n", "#~ msgid \"x\"\n", "\n\n", "msgstr[1] \"x\"\n", "{", "}")+string(o.Text[at:])...)
		case 4: // an entry twice, the second one without a blank line before it
			o.Text = append(bytes.Clone(o.Text), "\nmsgid \"q\"\nmsgstr \"1\"\n\nmsgid \"q\"\nmsgstr \"2\"\nmsgid \"r\"\nmsgstr \"3\"\n"...)
		}
	}
	vals := func() {
		for n := intR(t, "nvals", 1, 4); n > 0; n-- {
			o.Vals = append(o.Vals, pick(t, "val", histVals...))
		}
	}
	switch o.Kind {
	case "parse":
		c := genRichSpec(t, "po")
		var hdr *ref.Msg
		if !c.NoHdr {
			hdr = ref.HeaderMsg(c.headerFields())
		}
		o.Text = []byte((&ref.Layout{C: chooser(t), Plain: chance(t, "plain", 30)}).Render(hdr, c.Msgs))
		damage()
		fail(len(o.Text))
		o.Ignore = chance(t, "ignore", 40)
	case "encode":
		f := genPoFile(t)
		f.NoSort = false // the order of maps
		o.File = &f
		if chance(t, "fails", 25) {
			o.Fail = intR(t, "failAt", 1, 300)
		}
	case "decode":
		o.S = pick(t, "decoder", "po", "poC", "mo", "moC", "json")
		var c *catSpec
		if o.S == "json" {
			c = genCat(t, worldConf{formats: []string{"json"}, missing: 10}, pick(t, "lang", histTags[:25]...), "")
		} else {
			c = genRichSpec(t, o.S[:2])
			c.Header = pick(t, "formula", histForms...)
			if c.Header == "" {
				c.NoHdr = true
			}
		}
		o.Lang = pick(t, "lang", histTags...)
		o.Text = c.file()
		damage()
		vals()
	case "json":
		c := genCat(t, worldConf{formats: []string{"json"}, missing: 10}, pick(t, "lang", histTags[:25]...), "")
		o.Lang = c.Lang
		o.Text = c.file()
		if chance(t, "fails", 25) {
			o.Fail = intR(t, "failAt", 1, 60)
		}
	case "plural":
		o.S = pick(t, "formula", histForms...)
		vals()
	case "gettext", "cldr", "expand":
		o.Lang = pick(t, "lang", histTags...)
		vals()
	case "rules":
		for i := 0; i < 5; i++ {
			o.Rules = append(o.Rules, pick(t, "rule", "", "", "n = 1", "n = 1 ", "i = 1 and v = 0", "n % 10 = 1", "n % 100 = 1", "n = 0..1", "n != 0..1", "n = ", "i = 1"))
		}
		vals()
	case "operands":
		vals()
	case "hum":
		o.Lang = pick(t, "lang", histHum...)
		for chance(t, "more", 35) && len(o.Rules) < 3 { // further languages of the request
			o.Rules = append(o.Rules, pick(t, "lang", append([]string{"ja", "de-CH", "pt-PT"}, histHum...)...))
		}
		o.S = pick(t, "helper", "intcomma", "intword", "ap", "ordinal", "filesize", "since", "until", "format", "name", "day")
		o.Fail = intR(t, "n", 1, 3000) * pick(t, "times", 1, 1, 60, 3600, 86400, 1000000)
	case "literal":
		o.S = genText(t, "text", 8)
		o.Fail = intR(t, "width", 1, 30)
	}
	return o
}

// vary makes an operation that is almost the same.
func vary(t *rapid.T, o hop) hop {
	change := func(b []byte) []byte {
		b = bytes.Clone(b)
		if len(b) == 0 {
			return b
		}
		at := intR(t, "varyAt", 0, len(b)-1)
		switch intR(t, "vary", 0, 5) {
		case 0:
			return append(b[:at], b[at+1:]...)
		case 1:
			return append(b[:at], append([]byte(" "), b[at:]...)...)
		case 2:
			if b[at] >= '0' && b[at] <= '8' || b[at] >= 'a' && b[at] < 'z' {
				b[at]++
			}
			return b
		case 3: // another case
			if b[at] >= 'a' && b[at] <= 'z' {
				b[at] -= 32
			}
			return b
		case 4: // without white space
			return bytes.ReplaceAll(b, []byte(" "), nil)
		default:
			i := bytes.IndexAny(b, "0123456789")
			if i >= 0 {
				b[i] = byte('0' + intR(t, "digit", 0, 9))
			}
			return b
		}
	}
	o.Vals, o.Rules = append([]string(nil), o.Vals...), append([]string(nil), o.Rules...)
	switch o.Kind {
	case "parse", "decode", "json":
		switch intR(t, "what", 0, 3) {
		case 0:
			o.Ignore = !o.Ignore
		case 1:
			if o.Lang != "" {
				o.Lang = pick(t, "lang", histTags...)
			}
		default:
			o.Text = change(o.Text)
		}
	case "encode":
		f := *o.File
		f.Width = pick(t, "width", -1, 1, 20, 80)
		f.NoRefs, f.NoHeader, f.NoEmpty = chance(t, "norefs", 50), chance(t, "nohdr", 50), chance(t, "noempty", 50)
		o.File = &f
		o.Fail = 0
	case "plural", "literal":
		o.S = string(change([]byte(o.S)))
	case "gettext", "cldr", "expand":
		o.Lang = pick(t, "lang", histTags...)
	case "rules":
		i := intR(t, "rule", 0, len(o.Rules)-1)
		o.Rules[i] = string(change([]byte(o.Rules[i])))
	case "operands":
		i := intR(t, "val", 0, len(o.Vals)-1)
		o.Vals[i] += pick(t, "more", "0", ".0", " ", "0.0", "c3", "e3")
	case "hum":
		if len(o.Rules) > 0 && chance(t, "further", 50) {
			o.Rules[0] = pick(t, "lang", histHum...)
		} else if chance(t, "lang", 60) {
			o.Lang = pick(t, "lang", histHum...)
		} else {
			o.Fail = intR(t, "n", 1, 3000)
		}
	}
	return o
}

var histHum = []string{"de", "pl", "ar", "fr", "pt-BR", "pt", "en", "tlh", "de-AT"}

func genHist(min, max int) func(t *rapid.T) histCase {
	return func(t *rapid.T) histCase {
		var c histCase
		for n := intR(t, "nops", min, max); n > 0; n-- {
			if len(c.Ops) > 0 && chance(t, "again", 35) {
				o := pick(t, "same", c.Ops...)
				if chance(t, "variant", 75) {
					o = vary(t, o)
				}
				c.Ops = append(c.Ops, o)
				continue
			}
			c.Ops = append(c.Ops, genHop(t))
		}
		c.Order = perm(t, "order", len(c.Ops))
		return c
	}
}

// histEnv holds the objects that are used again and again. A nil field is
// created on first use.
type histEnv struct {
	scribble bool // write into what is returned
	parser   *po.Parser
	out      *switchWriter
	enc      *po.Encoder
	jsonEnc  *catalog.JSONEncoder
	decoders map[string]catalog.Decoder
	coll     *humanize.Collection
}

// switchWriter fails after left bytes, if left is not negative.
type switchWriter struct {
	buf  bytes.Buffer
	left int
}

func (w *switchWriter) Write(p []byte) (int, error) {
	if w.left < 0 {
		return w.buf.Write(p)
	}
	n := min(w.left, len(p))
	w.buf.Write(p[:n])
	w.left -= n
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

var histColl = sync.OnceValue(func() *humanize.Collection {
	return humanize.MustNew(humanize.WithLocale(histData()...))
})

func histData() []*humanize.LocaleData {
	var data []*humanize.LocaleData
	for _, d := range shipped() {
		if contains(histHum, d.Lang.String()) {
			data = append(data, d)
		}
	}
	return data
}

func newHistEnv() *histEnv {
	e := &histEnv{parser: po.NewParser(), out: &switchWriter{left: -1}}
	e.enc, e.jsonEnc = po.NewEncoder(e.out), catalog.NewJSONEncoder(e.out)
	e.decoders = map[string]catalog.Decoder{
		"po": catalog.NewPoDecoder(), "poC": catalog.NewPoCLDRDecoder(), "mo": catalog.NewMoDecoder(), "moC": catalog.NewMoCLDRDecoder(), "json": catalog.NewJSONDecoder(),
	}
	return e
}

func dumpPO(f *po.File) string {
	if f == nil {
		return "nil"
	}
	b, err := json.Marshal(f)
	if err != nil {
		return err.Error()
	}
	s := string(b)
	if f.Header != nil {
		for _, k := range []string{"Plural-Forms", "Content-Type", "X-spreak-use-CLDR", "Language"} {
			s += "\n" + k + ": " + f.Header.Get(k)
		}
	}
	return s
}

func dumpCatalog(cat catalog.Catalog, vals []string) string {
	var out strings.Builder
	fmt.Fprintln(&out, cat.Language())
	one := func(cx, id string) {
		s, err := cat.Lookup(cx, id)
		fmt.Fprintf(&out, "%q %q: %q %v\n", cx, id, s, err)
		for _, v := range vals {
			s, err := cat.LookupPlural(cx, id, v)
			fmt.Fprintf(&out, "%q %q %s: %q %v\n", cx, id, v, s, err)
		}
	}
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		msgs := x.Messages()
		for _, cx := range sortedKeys(msgs) {
			for _, id := range sortedKeys(msgs[cx]) {
				fmt.Fprintln(&out, msgs[cx][id].Translations())
				one(cx, id)
			}
		}
	case catalog.JSONCatalog:
		msgs := x.Messages()
		for _, id := range sortedKeys(msgs) {
			fmt.Fprintf(&out, "%q: %+v\n", id, *msgs[id])
			one(msgs[id].Context, strings.TrimSuffix(id, "_"+msgs[id].Context))
		}
	}
	return out.String()
}

// run executes one operation. The second result shows the produced object
// again, later.
func (e *histEnv) run(o hop) (string, func() string) {
	none := func() string { return "" }
	failed := func(err error) string { return fmt.Sprintf("error %v", err != nil) }
	tag := language.Und
	if o.Lang != "" {
		tag = language.MustParse(o.Lang)
	}
	switch o.Kind {
	case "parse":
		var r io.Reader = bytes.NewReader(o.Text)
		if o.Fail > 0 {
			r = io.MultiReader(bytes.NewReader(o.Text[:min(o.Fail-1, len(o.Text))]), failingReader{})
		}
		e.parser.SetIgnoreComments(o.Ignore)
		f, err := e.parser.Parse(r)
		again := func() string { return dumpPO(f) }
		s := failed(err) + again()
		if e.scribble && f != nil {
			if f.Header != nil {
				f.Header.Set("Language", "scribble")
				f.Header.Set("X-Scribble", "scribble")
			}
			for _, msgs := range f.Messages {
				for id, m := range msgs {
					m.Str[0] = "scribble"
					if m.Comment != nil {
						m.Comment.AddFlag("scribble")
					}
					delete(msgs, id)
				}
			}
		}
		return s, again
	case "encode":
		c := o.File
		e.enc.SetWrapWidth(c.Width)
		e.enc.SetWriteReferences(!c.NoRefs)
		e.enc.SetWriteHeader(!c.NoHeader)
		e.enc.SetWriteEmptyHeader(!c.NoEmpty)
		e.out.buf.Reset()
		e.out.left = o.Fail - 1
		f := c.build()
		err := e.enc.Encode(f)
		s := e.out.buf.String()
		return failed(err) + s, func() string { return dumpPO(f) }
	case "decode":
		cat, err := e.decoders[o.S].Decode(tag, "dom", bytes.Clone(o.Text))
		if err != nil {
			return "rejected", none
		}
		again := func() string { return dumpCatalog(cat, o.Vals) }
		s := again()
		if e.scribble {
			switch x := cat.(type) {
			case *catalog.GettextCatalog:
				for _, msgs := range x.Messages() {
					for id, m := range msgs {
						for i := range m.Translations() {
							m.Translations()[i] = "scribble"
						}
						delete(msgs, id)
					}
				}
			case catalog.JSONCatalog:
				for id, m := range x.Messages() {
					m.Translations[cldrplural.Other] = "scribble"
					delete(x.Messages(), id)
				}
			}
		}
		return s, again
	case "json":
		cat, err := e.decoders["json"].Decode(tag, "dom", bytes.Clone(o.Text))
		if err != nil {
			return "rejected", none
		}
		e.out.buf.Reset()
		e.out.left = o.Fail - 1
		err = e.jsonEnc.Encode(cat.(catalog.JSONCatalog))
		return failed(err) + e.out.buf.String(), func() string { return dumpCatalog(cat, nil) }
	case "plural":
		r, err := poplural.Parse(o.S)
		if err != nil {
			return "rejected", none
		}
		if e.scribble {
			defer func() { r.NPlurals, r.FormFunc = 1, func(int64) int { return 0 } }()
		}
		again := func() string {
			s := fmt.Sprint(r.NPlurals)
			for _, v := range o.Vals {
				f, err := r.Evaluate(v)
				s += fmt.Sprint(" ", f, err)
			}
			return s
		}
		return again(), again
	case "gettext":
		f, ok := poplural.ForLanguage(tag)
		again := func() string {
			s := fmt.Sprint(ok)
			for _, v := range o.Vals {
				n, err := f(v)
				s += fmt.Sprint(" ", n, err)
			}
			return s
		}
		return again(), again
	case "cldr", "rules":
		var set *cldrplural.RuleSet
		ok := true
		if o.Kind == "cldr" {
			set, ok = cldrplural.ForLanguage(tag)
		} else {
			raw := map[cldrplural.Category]string{}
			for i, r := range o.Rules {
				if r != "" {
					raw[cldrplural.Category(i)] = r
				}
			}
			var err error
			if set, err = cldrplural.ParseRules(raw); err != nil {
				return "rejected", none
			}
		}
		again := func() string {
			s := fmt.Sprint(ok, set.Categories)
			for _, v := range o.Vals {
				cat, err := set.Evaluate(v)
				s += fmt.Sprint(" ", cat, err)
			}
			return s
		}
		s := again()
		if e.scribble && len(set.Categories) > 1 {
			set.Categories[0] = cldrplural.Other
			set.FormFunc = func(*cldrplural.Operands) cldrplural.Category { return cldrplural.Two }
		}
		return s, again
	case "operands":
		s := ""
		for _, v := range o.Vals {
			ops, err := cldrplural.NewOperands(v)
			s += fmt.Sprintf("%+v %v\n", ops, err)
			if e.scribble && ops != nil {
				*ops = cldrplural.Operands{N: 77, I: 77, V: 7, W: 7, F: 77, T: 77}
			}
		}
		return s, none
	case "expand":
		names := spreak.ExpandLanguage(tag)
		again := func() string { return fmt.Sprint(names) }
		s := again()
		for i := range names {
			if e.scribble {
				names[i] = "scribble"
			}
		}
		return s, again
	case "literal":
		s := po.EncodePoString(o.S, o.Fail-1)
		return s + po.DecodePoString(s), none
	case "hum":
		if e.coll == nil {
			e.coll = histColl()
		}
		langs := []any{o.Lang}
		for _, l := range o.Rules {
			langs = append(langs, l)
		}
		h := e.coll.CreateHumanizer(langs...)
		n := int64(o.Fail)
		t := time.Unix(n*1000, 0).UTC()
		s := h.Language().String() + " "
		switch o.S {
		case "intcomma":
			s += h.Intcomma(n)
		case "intword":
			s += h.Intword(n * 1000)
		case "ap":
			s += h.Apnumber(n % 12)
		case "ordinal":
			s += h.Ordinal(n)
		case "filesize":
			s += h.FilesizeFormat(n)
		case "since":
			s += h.TimeSinceFrom(t, t.Add(time.Duration(n)*time.Minute), humanize.WithDepth(int(n%4)))
		case "until":
			s += h.TimeUntilFrom(t, t.Add(-time.Duration(n)*time.Second), humanize.WithoutAdjacentCheck())
		case "format":
			for _, k := range append([]string{"D d M Y H:i e O c r P"}, keywords...) {
				s += h.FormatTime(t, k) + "\n"
			}
		case "day":
			s += h.NaturalDay(t)
		case "name":
			s += h.LanguageName("German") + h.LanguageNameByCode("fr")
		}
		return s, none
	}
	panic("unknown operation " + o.Kind)
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errInjected }

func checkHist(c histCase, ctx *engine.Ctx) error {
	ctx.NonTrivialIf(len(c.Ops) > 2)
	want := make([]string, len(c.Ops))
	again := make([]func() string, len(c.Ops))
	shown := make([]string, len(c.Ops))
	// every operation with new objects
	for i, o := range c.Ops {
		ctx.Label(o.Kind)
		want[i], _ = newHistEnv().run(o)
	}
	// one after the other, with the same objects
	e := newHistEnv()
	for i, o := range c.Ops {
		got, later := e.run(o)
		if got != want[i] {
			return fmt.Errorf("operation %d (%s) gives %s\nafter the operations before it, but %s\nwith new objects", i, o.Kind, clip(got, 1500), clip(want[i], 1500))
		}
		again[i], shown[i] = later, later()
	}
	// what was produced stays as it is
	for i, o := range c.Ops {
		if s := again[i](); s != shown[i] {
			return fmt.Errorf("the result of operation %d (%s) was %s\nand is %s\nafter the operations after it", i, o.Kind, clip(shown[i], 1500), clip(s, 1500))
		}
	}
	// in another order, what is returned is overwritten
	e = newHistEnv()
	e.scribble = true
	for _, i := range c.Order {
		if got, _ := e.run(c.Ops[i]); got != want[i] {
			return fmt.Errorf("operation %d (%s) gives %s\nin the order %v, but %s\nwith new objects", i, c.Ops[i].Kind, clip(got, 1500), c.Order, clip(want[i], 1500))
		}
	}
	return nil
}

// Apart runs operations in a process of its own, in the given order, and
// writes their results.
func Apart(r io.Reader, w io.Writer) error {
	var c histCase
	if err := json.NewDecoder(r).Decode(&c); err != nil {
		return err
	}
	e := newHistEnv()
	out := make([]string, len(c.Ops))
	for _, i := range c.Order {
		out[i], _ = e.run(c.Ops[i])
	}
	return json.NewEncoder(w).Encode(out)
}

func apart(c histCase, order []int) ([]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	in, err := json.Marshal(histCase{Ops: c.Ops, Order: order})
	if err != nil {
		return nil, err
	}
	cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, exe, "apart")
	cmd.Stdin = bytes.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		if strings.Contains(stderr.String(), "panic:") {
			return nil, fmt.Errorf("the process panics: %s", clip(stderr.String(), 1500))
		}
		return nil, nil // the machine could not run it
	}
	var out []string
	if err := json.Unmarshal(stdout.Bytes(), &out); err != nil || len(out) != len(c.Ops) {
		return nil, errors.New("the process gave no results")
	}
	return out, nil
}

// checkHistProcess compares two orders in two processes: nothing that was
// used before can be left over from other cases.
func checkHistProcess(c histCase, ctx *engine.Ctx) error {
	first := make([]int, len(c.Ops))
	for i := range first {
		first[i] = i
	}
	a, err := apart(c, first)
	if err != nil {
		return err
	}
	b, err := apart(c, c.Order)
	if err != nil {
		return err
	}
	if a == nil || b == nil {
		ctx.Label("not run")
		return nil
	}
	ctx.NonTrivial()
	for i := range c.Ops {
		if a[i] != b[i] {
			return fmt.Errorf("operation %d (%s %s %s) gives %s\nif the program runs the operations in order, but %s\nin the order %v", i, c.Ops[i].Kind, c.Ops[i].Lang, c.Ops[i].S, clip(a[i], 1500), clip(b[i], 1500), c.Order)
		}
	}
	return nil
}

// histObjects is a program on one bundle, its localizers, catalogs and
// humanizers.
type histObjects struct {
	Conc  concCase `json:"conc"`
	Order []int    `json:"order"`
}

func genHistObjects(t *rapid.T) histObjects {
	c := histObjects{Conc: genConc(t)}
	var all []action
	for _, p := range c.Conc.Progs {
		all = append(all, p...)
	}
	c.Conc.Progs = [][]action{all}
	c.Order = perm(t, "order", len(all))
	return c
}

func checkHistObjects(c histObjects, ctx *engine.Ctx) error {
	prog := c.Conc.Progs[0]
	var res [3][]string
	for k := range res {
		res[k] = make([]string, len(prog))
		e, err := c.Conc.build()
		if err != nil {
			return err
		}
		if e == nil {
			return nil
		}
		for j := range prog {
			i := j
			if k > 0 {
				i = c.Order[j]
			}
			if k == 2 { // every third one with new objects
				if j%3 != 0 {
					res[k][i] = res[0][i]
					continue
				}
				if e, err = c.Conc.build(); err != nil || e == nil {
					return fmt.Errorf("third creation: %v", err)
				}
			}
			res[k][i] = e.run(prog[i])
		}
	}
	ctx.NonTrivialIf(len(prog) > 2)
	for i, a := range prog {
		ctx.Label(a.Kind)
		if res[0][i] != res[1][i] {
			return fmt.Errorf("call %d (%+v) gives %q in order, but %q in the order %v", i, a, res[0][i], res[1][i], c.Order)
		}
		if res[0][i] != res[2][i] {
			return fmt.Errorf("call %d (%+v) gives %q after other calls, but %q on new objects", i, a, res[0][i], res[2][i])
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C36",
		QuickTimes: 4, ThoroughTimes: 20,
		Rule: "sequences of 2-12 operations (parsing valid, damaged and failing PO texts, encoding to working and failing writers with changing options, decoding, JSON, plural formulas and rules, operands, language names, literals, humanizers) on the same parser, encoders, decoders and collection, compared with each operation on new objects and with another order, results kept and shown again at the end; programs of calls on a bundle, localizers, catalogs and rules in two orders and on new objects; lists of 30-80 operations in two orders in two processes; non-trivial: more than two operations",
		Assumptions: []string{
			"of an error only its presence is compared where the message may depend on the order of a map",
		},
		Parts: []*engine.Part{
			engine.Gen("sequences", 5000, 100000, genHist(2, 12), checkHist),
			engine.Gen("objects", 1500, 20000, genHistObjects, checkHistObjects),
			engine.Gen("processes", 40, 400, genHist(30, 80), checkHistProcess),
		},
	})
}
