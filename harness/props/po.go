package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing/iotest"
	"unicode"

	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog/po"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C09

type poFileCase struct {
	Fields    []ref.Field `json:"fields"`
	HasHeader bool        `json:"hasHeader"`
	Header    *ref.Msg    `json:"header"`
	Msgs      []*ref.Msg  `json:"msgs"`
	Width     int         `json:"width"`
	NoRefs    bool        `json:"noRefs,omitempty"`
	NoHeader  bool        `json:"noHeader,omitempty"`
	NoEmpty   bool        `json:"noEmpty,omitempty"`
	NoSort    bool        `json:"noSort,omitempty"`
	Indented  bool        `json:"indented,omitempty"` // comments with indentation and empty lines
}

func (c poFileCase) build() *po.File {
	f := po.NewFile()
	f.Header = nil
	if c.HasHeader {
		f.Header = &po.Header{}
		for _, fl := range c.Fields {
			f.Header.Set(fl.Key, fl.Val)
		}
		if c.Header != nil {
			f.Header.Comment = toComment(c.Header)
		}
	}
	for _, m := range c.Msgs {
		f.AddMessage(toPO(m))
	}
	return f
}

func (c poFileCase) encode(f *po.File) (string, error) {
	var buf bytes.Buffer
	enc := po.NewEncoder(&buf)
	enc.SetWrapWidth(c.Width)
	enc.SetWriteReferences(!c.NoRefs)
	enc.SetWriteHeader(!c.NoHeader)
	enc.SetWriteEmptyHeader(!c.NoEmpty)
	if c.NoSort {
		enc.SetSortFunction(nil)
	}
	err := enc.Encode(f)
	return buf.String(), err
}

// ---- the header template of a new file

type templateCase struct {
	Names [3]string  `json:"names"`
	Msgs  []*ref.Msg `json:"msgs"`
	Width int        `json:"width"`
}

func genTemplate(t *rapid.T) templateCase {
	c := templateCase{Msgs: genMsgs(t, 0, 2, true), Width: genWidth(t)}
	for i := range c.Names {
		c.Names[i] = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"spreak", "1.0", "Jürgen", "O\"Neil", "a\\n", "%s", "%d%%", "<info@example.org>", "日本", "#", "msgid", "~", ":"}), 0, 4).Draw(t, "name"), " ")
	}
	return c
}

func checkTemplate(c templateCase, ctx *engine.Ctx) error {
	ctx.NonTrivialIf(c.Names[0] != "" && c.Names[1] != "")
	h := po.PlaceholderHeader(c.Names[0], c.Names[1], c.Names[2])
	if h.ProjectIDVersion != c.Names[0] || h.ReportMsgidBugsTo != c.Names[2] || !strings.Contains(h.Comment.Translator, c.Names[0]) || !strings.Contains(h.Comment.Translator, c.Names[1]) {
		return fmt.Errorf("the header template lacks one of the names %q: %+v, comment %q", c.Names, *h, h.Comment.Translator)
	}
	pf := poFileCase{Msgs: c.Msgs, Width: c.Width}
	f := pf.build()
	f.Header = h
	text, err := pf.encode(f)
	if err != nil {
		return fmt.Errorf("encode: %v", err)
	}
	got, err := po.ParseString(text)
	if err != nil {
		return fmt.Errorf("encoded file does not parse: %v\n%s", err, clip(text, 1500))
	}
	if err := diffMessages(c.Msgs, got, true, c.Width > 0, true); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(text, 1500))
	}
	a, b := *h, *got.Header
	if a.Comment == nil || b.Comment == nil {
		return fmt.Errorf("the comment of the header is lost:\n%s", clip(text, 1500))
	}
	words, words2 := strings.Fields(a.Comment.Translator), strings.Fields(b.Comment.Translator)
	if !eqStrings(words, words2) || !eqStrings(a.Comment.Flags, b.Comment.Flags) {
		return fmt.Errorf("comment %q %q becomes %q %q:\n%s", a.Comment.Translator, a.Comment.Flags, b.Comment.Translator, b.Comment.Flags, clip(text, 1500))
	}
	a.Comment, b.Comment, a.UnknownFields, b.UnknownFields = nil, nil, nil, nil
	if !reflect.DeepEqual(a, b) || len(got.Header.UnknownFields) > 0 {
		return fmt.Errorf("header %+v becomes %+v:\n%s", a, b, clip(text, 1500))
	}
	return nil
}

func genWidth(t *rapid.T) int {
	switch intR(t, "widthKind", 0, 4) {
	case 0:
		return -1
	case 1:
		return pick(t, "width", 0, 1, 2, 3, 5, 76, 78, 80, 120)
	}
	if chance(t, "sourceWidth", 5) {
		return int(sourceInt(t, "width", 300))
	}
	return intR(t, "width", 1, 100)
}

func genPoFile(t *rapid.T) poFileCase {
	c := poFileCase{HasHeader: chance(t, "hasHeader", 80), Width: genWidth(t)}
	if c.HasHeader {
		c.Fields = genFields(t)
		if chance(t, "headerComment", 50) {
			c.Header = &ref.Msg{}
			genComments(t, c.Header, true)
			c.Header.PrevID, c.Header.PrevCtx = "", ""
		}
	}
	min := 0
	if !c.HasHeader {
		min = 1
	}
	c.Msgs = genMsgs(t, min, 5, true)
	if chance(t, "options", 25) {
		c.NoRefs = chance(t, "noRefs", 40)
		c.NoHeader = chance(t, "noHeader", 30)
		c.NoEmpty = chance(t, "noEmpty", 40)
		c.NoSort = chance(t, "noSort", 30)
	}
	if len(c.Msgs) == 0 {
		c.NoHeader, c.NoEmpty = false, false
	}
	if chance(t, "indented", 15) {
		c.Indented = true
		for _, m := range append([]*ref.Msg{c.Header}, c.Msgs...) {
			if m != nil {
				m.Tr, m.Ex = genIndent(t, m.Tr), genIndent(t, m.Ex)
			}
		}
	}
	return c
}

func genIndent(t *rapid.T, lines []string) []string {
	var out []string
	for _, l := range lines {
		for chance(t, "emptyLine", 15) {
			out = append(out, pick(t, "blank", "", " ", "\t"))
		}
		out = append(out, pick(t, "indent", "", " ", "  ", "\t", "    ")+l+pick(t, "trail", "", "", " ", "  "))
	}
	return out
}

func (c poFileCase) classes(ctx *engine.Ctx) {
	ctx.LabelIf(c.Width > 0, "wrapped")
	for _, m := range c.Msgs {
		ctx.LabelIf(m.HasPlural(), "plural")
		ctx.LabelIf(m.Ctx != "", "context")
		ctx.LabelIf(len(m.Tr)+len(m.Ex)+len(m.Refs)+len(m.Flags) > 0, "comments")
		ctx.LabelIf(m.PrevID != "" || m.PrevCtx != "", "previous")
	}
	ctx.LabelIf(c.HasHeader, "header")
	ctx.LabelIf(c.Indented, "indented comments")
	ctx.LabelIf(c.NoRefs || c.NoHeader || c.NoEmpty || c.NoSort, "options")
}

func checkC09(c poFileCase, ctx *engine.Ctx) error {
	c.classes(ctx)
	ctx.NonTrivialIf(len(c.Msgs) > 0)
	f := c.build()
	text, err := c.encode(f)
	if err != nil {
		return fmt.Errorf("encode: %v", err)
	}
	got, err := po.ParseString(text)
	if err != nil {
		return fmt.Errorf("encoded file does not parse: %v\n%s", err, clip(text, 1500))
	}
	if err := diffMessages(c.Msgs, got, true, c.Width > 0, !c.NoRefs); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(text, 1500))
	}
	var fields []ref.Field
	written := c.HasHeader && !c.NoHeader
	if written {
		fields = c.Fields
	}
	if got.Header == nil {
		got.Header = &po.Header{}
	}
	if err := diffFields(fields, got.Header); err != nil {
		return fmt.Errorf("%v\n%s", err, clip(text, 1500))
	}
	if written && c.NoEmpty {
		written = false
		for _, fl := range c.Fields {
			written = written || fl.Val != ""
		}
	}
	if c.Header != nil && written {
		if err := diffComment(c.Header, got.Header.Comment, c.Width > 0, !c.NoRefs); err != nil {
			return fmt.Errorf("header: %v\n%s", err, clip(text, 1500))
		}
	}
	if c.Width <= 0 && !c.NoSort {
		again, err := c.encode(got)
		if err != nil {
			return fmt.Errorf("encode again: %v", err)
		}
		if c.HasHeader && !c.NoRefs && (written || c.NoHeader) && !c.Indented && again != text {
			return fmt.Errorf("encoding the parsed file gives other bytes:\n%s\n--- first\n%s", clip(again, 1500), clip(text, 1500))
		}
		third, err := po.ParseString(again)
		if err != nil {
			return fmt.Errorf("encoded file does not parse: %v\n%s", err, clip(again, 1500))
		}
		if last, err := c.encode(third); err != nil || last != again {
			return fmt.Errorf("encoding the parsed file gives other bytes (%v):\n%s\n--- first\n%s", err, clip(last, 1500), clip(again, 1500))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C10

type litCase struct {
	Text  string `json:"text"`
	Width int    `json:"width"`
}

var escapes = map[byte]byte{'"': '"', '\\': '\\', 'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}

// scanLiteral decodes one complete literal line.
func scanLiteral(line string) (string, error) {
	if len(line) < 2 || line[0] != '"' || line[len(line)-1] != '"' {
		return "", fmt.Errorf("%q is not enclosed in quotes", line)
	}
	body := line[1 : len(line)-1]
	var out []byte
	for i := 0; i < len(body); i++ {
		switch b := body[i]; {
		case b == '"':
			return "", fmt.Errorf("%q has an unescaped quote", line)
		case b == '\n' || b == '\r' && i == len(body)-1:
			return "", fmt.Errorf("%q contains a line end", line)
		case b != '\\':
			out = append(out, b)
		default:
			i++
			if i >= len(body) {
				return "", fmt.Errorf("%q ends within an escape sequence", line)
			}
			if body[i] == 'x' {
				var v byte
				if i+2 >= len(body)+0 && i+2 > len(body)-1 {
					return "", fmt.Errorf("%q ends within an escape sequence", line)
				}
				if _, err := fmt.Sscanf(body[i+1:i+3], "%02x", &v); err != nil {
					return "", fmt.Errorf("%q has a bad escape sequence", line)
				}
				out = append(out, v)
				i += 2
				continue
			}
			v, ok := escapes[body[i]]
			if !ok {
				return "", fmt.Errorf("%q has the unknown escape sequence \\%c", line, body[i])
			}
			out = append(out, v)
		}
	}
	return string(out), nil
}

func checkC10(c litCase, ctx *engine.Ctx) error {
	enc := po.EncodePoString(c.Text, c.Width)
	lines := strings.Split(enc, "\n")
	ctx.NonTrivialIf(len(lines) > 1 || strings.ContainsAny(c.Text, "\"\\\n\t\r\a\b\f\v\x01\x1b\u00a0"))
	ctx.LabelIf(len(lines) > 1, "several lines")
	ctx.LabelIf(c.Width > 0, "wrapped")
	if got := po.DecodePoString(enc); got != c.Text {
		return fmt.Errorf("text %q width %d: encoded as\n%s\ndecodes to %q", c.Text, c.Width, enc, got)
	}
	var all strings.Builder
	for i, l := range lines {
		s, err := scanLiteral(l)
		if err != nil {
			return fmt.Errorf("text %q width %d: line %d: %v", c.Text, c.Width, i, err)
		}
		// the library decodes every line on its own to the same text
		if got := po.DecodePoString(l); got != s {
			return fmt.Errorf("text %q width %d: line %s decodes to %q, want %q", c.Text, c.Width, l, got, s)
		}
		if all.Len() > 0 {
			prev := []rune(all.String())
			if last := prev[len(prev)-1]; s != "" && !unicode.IsSpace(last) {
				return fmt.Errorf("text %q width %d: broken after %q, not at white space:\n%s", c.Text, c.Width, string(last), enc)
			}
			if c.Width <= 0 && s != "" && prev[len(prev)-1] != '\n' {
				return fmt.Errorf("text %q without wrapping is broken within a line:\n%s", c.Text, enc)
			}
		}
		all.WriteString(s)
	}
	if all.String() != c.Text {
		return fmt.Errorf("text %q width %d: the literals %s mean %q", c.Text, c.Width, enc, all.String())
	}
	// as part of a file
	f, err := po.ParseString("msgid " + enc + "\nmsgstr \"x\"\n")
	if c.Text == "" {
		return nil
	}
	if err != nil || f.GetMessage("", c.Text) == nil {
		return fmt.Errorf("text %q width %d: the file with the id\n%s\nis not parsed: %v", c.Text, c.Width, enc, err)
	}
	return nil
}

type escCase struct {
	Parts []string `json:"parts"` // pieces of a literal: plain text or escape sequences
}

var escAtoms = []string{`\"`, `\\`, `\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, "a", "n", "x", "t", "7", " ", "é", "日", "0", "b", "\t", "/", "'"}

func checkC10esc(c escCase, ctx *engine.Ctx) error {
	lit := `"` + strings.Join(c.Parts, "") + `"`
	want, err := scanLiteral(lit)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	ctx.NonTrivialIf(strings.Contains(lit, `\`))
	if got := po.DecodePoString(lit); got != want {
		return fmt.Errorf("literal %s decodes to %q, want %q", lit, got, want)
	}
	f, err := po.ParseString("msgid \"k\"\nmsgstr " + lit + "\n")
	if err != nil {
		return fmt.Errorf("literal %s in a file: %v", lit, err)
	}
	if got := f.GetMessage("", "k").Str[0]; got != want {
		return fmt.Errorf("literal %s in a file is read as %q, want %q", lit, got, want)
	}
	return nil
}

// ---------------------------------------------------------------- C11

type layoutCase struct {
	Fields []ref.Field `json:"fields"`
	HasHdr bool        `json:"hasHdr"`
	Msgs   []*ref.Msg  `json:"msgs"`
	Hdr    *ref.Msg    `json:"hdr,omitempty"`
	A      string      `json:"a"`
	B      string      `json:"b"`
	Chunk  int         `json:"chunk"`
}

func genLayout(t *rapid.T) layoutCase {
	c := layoutCase{HasHdr: chance(t, "hasHdr", 60)}
	min := 1
	if c.HasHdr {
		min = 0
		c.Fields = genFields(t)
		for i := range c.Fields {
			if strings.EqualFold(c.Fields[i].Key, "Plural-Forms") {
				c.Fields[i].Val = "nplurals=2; plural=(n != 1);"
			}
			if strings.EqualFold(c.Fields[i].Key, "X-spreak-use-CLDR") {
				c.Fields[i].Val = "no"
			}
			if chance(t, "sep", 20) {
				c.Fields[i].Sep = pick(t, "separator", ":", ":  ", ":\t", " : ")
			}
		}
		c.Hdr = ref.HeaderMsg(c.Fields)
		if len(c.Fields) == 0 {
			c.Hdr.Strs[0] = "\n"
		}
		genComments(t, c.Hdr, chance(t, "hdrComment", 40))
	}
	c.Msgs = genMsgs(t, min, 5, true)
	// obsolete and detached texts of the layout must not be ids by chance: they may, that is the point
	c.A = (&ref.Layout{C: chooser(t)}).Render(c.Hdr, c.Msgs)
	c.B = (&ref.Layout{C: chooser(t)}).Render(c.Hdr, c.Msgs)
	c.Chunk = intR(t, "chunk", 0, 2)
	return c
}

func parsePO(text string, skip bool, chunk int) (*po.File, error) {
	p := po.NewParser()
	p.SetIgnoreComments(skip)
	r := strings.NewReader(text)
	switch chunk {
	case 1:
		return p.Parse(iotest.OneByteReader(r))
	case 2:
		return p.Parse(iotest.DataErrReader(iotest.HalfReader(r)))
	}
	return p.Parse(r)
}

func checkC11(c layoutCase, ctx *engine.Ctx) error {
	ctx.NonTrivialIf(len(c.Msgs) > 1 && c.A != c.B)
	for _, text := range []string{c.A, c.B} {
		ctx.LabelIf(strings.Contains(text, "\r\n"), "crlf")
		ctx.LabelIf(strings.Contains(text, "#~"), "obsolete")
		ctx.LabelIf(strings.Contains(text, "\n\"") || strings.Contains(text, "\n \""), "continuation")
		ctx.LabelIf(strings.Contains(text, "fuzzy"), "fuzzy")
		ctx.LabelIf(strings.Contains(text, "\" \""), "several literals on a line")
		full, err := parsePO(text, false, c.Chunk)
		if err != nil {
			return fmt.Errorf("full parsing: %v\n%s", err, clip(text, 2000))
		}
		if err := diffMessages(c.Msgs, full, true, false, true); err != nil {
			return fmt.Errorf("full parsing: %v\n%s", err, clip(text, 2000))
		}
		if err := diffFields(c.Fields, full.Header); err != nil {
			return fmt.Errorf("full parsing: %v\n%s", err, clip(text, 2000))
		}
		if c.Hdr != nil {
			if err := diffComment(c.Hdr, full.Header.Comment, false, true); err != nil {
				return fmt.Errorf("full parsing: header: %v\n%s", err, clip(text, 2000))
			}
		}
		fast, err := parsePO(text, true, c.Chunk)
		if err != nil {
			return fmt.Errorf("parsing without comments: %v\n%s", err, clip(text, 2000))
		}
		if err := diffMessages(c.Msgs, fast, false, false, false); err != nil {
			return fmt.Errorf("parsing without comments: %v\n%s", err, clip(text, 2000))
		}
		if err := diffFields(c.Fields, fast.Header); err != nil {
			return fmt.Errorf("parsing without comments: %v\n%s", err, clip(text, 2000))
		}
		for _, m := range c.Msgs {
			got := fast.GetMessage(m.Ctx, m.ID)
			if a, b := sortedCopy(got.Comment.Flags), sortedCopy(m.Flags); !eqStrings(a, b) {
				return fmt.Errorf("parsing without comments: (%q, %q) has flags %q, want %q\n%s", m.Ctx, m.ID, a, b, clip(text, 2000))
			}
		}
	}
	return nil
}

// dupCase is a file with two entries for one message that differ in their translations: whichever of them were kept,
// the other would be lost, and which one depends on the order of the entries.
type dupCase struct {
	Msgs []*ref.Msg `json:"msgs"`
	Dup  *ref.Msg   `json:"dup"` // second entry for one of Msgs
	A    string     `json:"a"`
	B    string     `json:"b"`
}

func genDup(t *rapid.T) dupCase {
	c := dupCase{Msgs: genMsgs(t, 1, 4, chance(t, "rich", 40))}
	hdr := ref.HeaderMsg([]ref.Field{{Key: "Language", Val: "de"}})
	first := c.Msgs[intR(t, "which", 0, len(c.Msgs)-1)]
	c.Dup = &ref.Msg{Ctx: first.Ctx, ID: first.ID}
	if first.Plural != "" && chance(t, "samePlural", 70) || first.Plural == "" && chance(t, "newPlural", 15) {
		c.Dup.Plural = first.Plural
		if c.Dup.Plural == "" {
			c.Dup.Plural = genNonEmpty(t, "plural", 6)
		}
	}
	c.Dup.Strs = genStrs(t, c.Dup.Plural != "", func(name string) string { return genText(t, name, 8) })
	genComments(t, c.Dup, chance(t, "dupComment", 40))
	all := append(append([]*ref.Msg{}, c.Msgs...), c.Dup)
	c.A = (&ref.Layout{C: chooser(t)}).Render(hdr, all)
	c.B = (&ref.Layout{C: chooser(t)}).Render(hdr, all)
	return c
}

func checkDup(c dupCase, ctx *engine.Ctx) error {
	var first *ref.Msg
	for _, m := range c.Msgs {
		if m.Ctx == c.Dup.Ctx && m.ID == c.Dup.ID {
			first = m
		}
	}
	same := true
	for i := 0; i < 20; i++ {
		same = same && first.Strs[i] == c.Dup.Strs[i]
	}
	if same {
		return nil // nothing is lost, whether it is accepted or not
	}
	ctx.NonTrivial()
	ctx.LabelIf(first.Strs[0] == "" || c.Dup.Strs[0] == "", "one of them without translation")
	for _, text := range []string{c.A, c.B} {
		for _, skip := range []bool{false, true} {
			f, err := parsePO(text, skip, 0)
			if err == nil {
				return fmt.Errorf("two entries for (%q, %q) with the translations %q and %q are accepted (comments skipped: %t), one is lost: %q is kept\n%s",
					c.Dup.Ctx, c.Dup.ID, first.Strs, c.Dup.Strs, skip, f.GetMessage(c.Dup.Ctx, c.Dup.ID).Str, clip(text, 2000))
			}
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C09",
		QuickTimes: 8, ThoroughTimes: 12,
		Rule: "random PO file (header fields, comments, references, flags, previous texts, contexts, plural forms, hostile texts), encoded at a random wrap width with random encoder options and parsed again; the header template of a new file with random names; non-trivial: at least one message",
		Assumptions: []string{
			"texts are valid UTF-8; comment lines are not blank and not surrounded by white space; flags contain no comma or space; reference paths contain no white space and do not end in a number after a colon; columns are not part of the PO format",
			"an empty translation form equals a missing one; header values are single-line and trimmed",
		},
		Parts: []*engine.Part{engine.Gen("roundtrip", 20000, 600000, genPoFile, checkC09),
			engine.Gen("template", 3000, 60000, genTemplate, checkTemplate)},
	})
	engine.Register(&engine.Prop{
		ID: "C10", QuickTimes: 8, ThoroughTimes: 20,
		Rule:        "random text of words, white space of all kinds, quotes, backslashes, control and non-ASCII characters, with a random wrap width; random sequences of escapes; non-trivial: more than one line or characters that need escaping",
		Assumptions: []string{"texts are valid UTF-8"},
		Parts: []*engine.Part{
			engine.Gen("text", 250000, 2000000, func(t *rapid.T) litCase {
				c := litCase{Width: genWidth(t)}
				if chance(t, "any", 30) {
					c.Text = strings.ToValidUTF8(rapid.StringN(0, 80, -1).Draw(t, "text"), "?")
				} else {
					c.Text = genText(t, "text", 40)
					if chance(t, "nul", 5) {
						c.Text += "\x00\x04"
					}
				}
				return c
			}, checkC10),
			engine.Gen("escapes", 20000, 600000, func(t *rapid.T) escCase {
				var c escCase
				for n := intR(t, "n", 0, 12); n > 0; n-- {
					c.Parts = append(c.Parts, pick(t, "part", escAtoms...))
				}
				return c
			}, checkC10esc),
		},
	})
	engine.Register(&engine.Prop{
		ID: "C11", QuickTimes: 6, ThoroughTimes: 6,
		Rule: "one random message set written in two random layouts (line ends, indentation, blank lines, order, splitting, obsolete entries, detached comments, interleaved comment kinds) and read in full and without comments, through readers of different chunking; files with two differing entries for one message; non-trivial: at least two messages and different layouts",
		Assumptions: []string{
			"a comment block followed by a blank line belongs to no entry (existing behaviour the encoder relies on)",
			"a keyword and its string are separated by blanks",
		},
		Parts: []*engine.Part{engine.Gen("layout", 16000, 500000, genLayout, checkC11),
			engine.Gen("duplicates", 4000, 80000, genDup, checkDup)},
	})
}
