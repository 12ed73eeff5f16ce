package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog/po"

	"verif/harness/ref"
)

func chooser(t *rapid.T) ref.Choose {
	return func(name string, lo, hi int) int { return intR(t, name, lo, hi) }
}

var textAtoms = []string{
	"a", "b", "car", "cars", "Hello", "World", " ", " ", " ", "  ", "\t", "\n", "\n", "\"", "\\", "\\n", "%s", "%d",
	"'", "{0}", "é", "ß", "日本語", "ß́", "\u00a0", "\u2028", "\u0085", "\ufeff", "😀", "#", "#,", "#~ ", "msgid ", "msgstr", ":", ";",
	"/", "\\\"", "\r", "\r\n", "\a", "\b", "\f", "\v", "\x01", "\x1b", "\x7f", "\\x", "\\x41", "\\u0041", "0f", "\u3000", "\u200b",
	"longwordwithoutanyspacesinside", "<b>&amp;</b>", "https://example.org/a/b?c=d", "\ufffd",
}

// genText draws a text of the atoms; without control characters that MO
// files use as separators.
func genText(t *rapid.T, name string, maxAtoms int) string {
	switch uniform(t, name+"Kind", 100) {
	case 98, 99:
		return sourceWord(t, name)
	case 97:
		return sizedText(t, name, int(sourceInt(t, name+"Size", 4200)))
	default:
		return genPlainText(t, name, maxAtoms)
	}
}

// sizedText has a given number of characters.
func sizedText(t *rapid.T, name string, n int) string {
	unit := pick(t, name+"Unit", "x", "word ", "ü", "a\n", "日本", "\"")
	s := []rune(strings.Repeat(unit, max(n, 1)))[:max(n, 1)]
	if chance(t, name+"Bytes", 50) && n < len(string(s)) { // in bytes
		for len(string(s)) > max(n, 1) {
			s = s[:len(s)-1]
		}
	}
	if len(s) == 0 {
		return "x"
	}
	return string(s)
}

func genPlainText(t *rapid.T, name string, maxAtoms int) string {
	switch intR(t, name+"Kind", 0, 5) {
	case 0, 1:
		return pick(t, name, "a", "b", "car", "Hello", "Hello World", "%d cars", "x y z")
	case 2:
		return clean(rapid.StringN(0, maxAtoms, -1).Draw(t, name))
	}
	var b strings.Builder
	n := intR(t, name+"Len", 0, maxAtoms)
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, name, textAtoms...))
	}
	return b.String()
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0 || r == 4 {
			return 'z'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

func genNonEmpty(t *rapid.T, name string, maxAtoms int) string {
	s := genText(t, name, maxAtoms)
	if s == "" {
		s = "e"
	}
	return s
}

var wordAtoms = []string{"fix", "the", "word", "TODO:", "don't", "ünï", "a", "http://x/y", "\"q\"", "\\n", ":", ",", "fuzzy", "longer-word-with-hyphens", "日本語", "~", "|", ".", "msgid"}

// genLine draws a trimmed non-empty comment line.
func genLine(t *rapid.T, name string) string {
	n := intR(t, name+"Words", 1, 7)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(t, name, wordAtoms...))
	}
	return strings.Join(w, pick(t, name+"Sep", " ", " ", "  ", "\u00a0"))
}

func genLines(t *rapid.T, name string, max int) []string {
	var out []string
	for n := intR(t, name+"N", 0, max); n > 0; n-- {
		out = append(out, genLine(t, name))
	}
	return out
}

var pathPool = []string{"main.go", "a/b.go", "a/b.go", "src/file.go", "C:/x/y.go", "z.go", "ünï/ß.go", "a", "a:b", "dir/very/long/path/name.html"}
var flagPool = []string{"fuzzy", "go-format", "c-format", "no-wrap", "range:0..10", "xspreak-format", "fuzzyx", "not-fuzzy", "Fuzzy"}

func genComments(t *rapid.T, m *ref.Msg, rich bool) {
	if !rich {
		return
	}
	if chance(t, "hasTr", 30) {
		m.Tr = genLines(t, "tr", 3)
	}
	if chance(t, "hasEx", 30) {
		m.Ex = genLines(t, "ex", 3)
	}
	if chance(t, "hasRefs", 40) {
		seen := map[ref.Ref]bool{}
		for n := intR(t, "nrefs", 1, 4); n > 0; n-- {
			r := ref.Ref{Path: pick(t, "path", pathPool...), Line: pick(t, "line", -1, 1, 2, 7, 10, 200)}
			if !seen[r] {
				seen[r] = true
				m.Refs = append(m.Refs, r)
			}
		}
	}
	if chance(t, "hasFlags", 40) {
		m.Flags = subset(t, "flag", 30, flagPool)
	}
	if chance(t, "hasPrev", 15) {
		m.PrevID = genText(t, "prevID", 6)
		if chance(t, "hasPrevCtx", 40) {
			m.PrevCtx = genText(t, "prevCtx", 4)
		}
	}
}

func genStrs(t *rapid.T, plural bool, text func(name string) string) map[int]string {
	strs := map[int]string{}
	if !plural {
		if chance(t, "hasStr", 85) {
			strs[0] = text("str")
		}
		return strs
	}
	n := intR(t, "nforms", 0, 4)
	if chance(t, "manyForms", 12) {
		n = intR(t, "nformsMany", 5, 12)
	}
	for i := 0; i < n; i++ {
		if chance(t, "hasForm", 90) {
			strs[i] = text("form")
		}
	}
	return strs
}

// genMsgs draws messages with distinct (context, id).
func genMsgs(t *rapid.T, min, max int, rich bool) []*ref.Msg {
	var out []*ref.Msg
	seen := map[string]bool{}
	if max > 2 && chance(t, "filled", 1) { // a large file
		for n := sourceInt(t, "filler", 300); n > 0; n-- {
			out = append(out, &ref.Msg{ID: fmt.Sprintf("filler-%d", n), Strs: map[int]string{0: fmt.Sprint("text ", n)}})
		}
	}
	for n := intR(t, "nmsgs", min, max); n > 0; n-- {
		m := &ref.Msg{ID: genNonEmpty(t, "id", 8)}
		if chance(t, "hasCtx", 35) {
			m.Ctx = genNonEmpty(t, "ctx", 4)
		}
		if seen[m.Ctx+"\x04"+m.ID] {
			continue
		}
		seen[m.Ctx+"\x04"+m.ID] = true
		plural := chance(t, "isPlural", 35)
		if plural {
			m.Plural = genNonEmpty(t, "plural", 6)
		}
		m.Strs = genStrs(t, plural, func(name string) string { return genText(t, name, 8) })
		genComments(t, m, rich)
		out = append(out, m)
	}
	return out
}

var stdHeaders = []string{po.HeaderProjectIDVersion, po.HeaderReportMsgIDBugsTo, po.HeaderPOTCreationDate, po.HeaderPORevisionDate, po.HeaderLastTranslator, po.HeaderLanguageTeam,
	po.HeaderLanguage, po.HeaderMIMEVersion, po.HeaderContentType, po.HeaderContentTransferEncoding, po.HeaderPluralForms, po.HeaderXGenerator}
var extraHeaders = []string{"X-Poedit-Basepath", "X-A", "X-spreak-use-CLDR", "Zeta", "X-b", "Plural", "Language-Code", "A"}

func genHeaderVal(t *rapid.T) string {
	s := pick(t, "hval", "", "1.0", "text/plain; charset=UTF-8", "nplurals=2; plural=(n != 1);", "Foo <a@b.c>", "say \"hi\"", "back\\slash \\n", "a: b: c", "日本語", "tab\tinside", "2024-01-02 03:04+0500", "x")
	return s
}

// genFields draws header fields, each name once (regardless of case).
func genFields(t *rapid.T) []ref.Field {
	var f []ref.Field
	for _, k := range subset(t, "std", 40, stdHeaders) {
		f = append(f, ref.Field{Key: k, Val: genHeaderVal(t)})
	}
	for _, k := range subset(t, "extra", 25, extraHeaders) {
		f = append(f, ref.Field{Key: k, Val: genHeaderVal(t)})
	}
	return f
}

// toPO builds the library's message.
func toPO(m *ref.Msg) *po.Message {
	pm := po.NewMessage()
	pm.Context, pm.ID, pm.IDPlural = m.Ctx, m.ID, m.Plural
	for i, s := range m.Strs {
		pm.Str[i] = s
	}
	pm.Comment = toComment(m)
	return pm
}

func toComment(m *ref.Msg) *po.Comment {
	c := po.NewComment()
	c.Translator = strings.Join(m.Tr, "\n")
	c.Extracted = strings.Join(m.Ex, "\n")
	for _, r := range m.Refs {
		c.References = append(c.References, &po.Reference{Path: r.Path, Line: r.Line})
	}
	c.Flags = append(c.Flags, m.Flags...)
	c.PrevMsgContext, c.PrevMsgID = m.PrevCtx, m.PrevID
	return c
}

// diffTrans compares the translation content of a parsed message.
func diffTrans(want *ref.Msg, got *po.Message) error {
	if got.Context != want.Ctx || got.ID != want.ID || got.IDPlural != want.Plural {
		return fmt.Errorf("message is (%q, %q, %q), want (%q, %q, %q)", got.Context, got.ID, got.IDPlural, want.Ctx, want.ID, want.Plural)
	}
	for i, s := range want.Strs {
		if got.Str[i] != s {
			return fmt.Errorf("message (%q, %q) form %d is %q, want %q", want.Ctx, want.ID, i, got.Str[i], s)
		}
	}
	for i, s := range got.Str {
		if s != "" && want.Strs[i] == "" {
			return fmt.Errorf("message (%q, %q) has unexpected form %d %q", want.Ctx, want.ID, i, s)
		}
	}
	return nil
}

func normLines(s string, fields bool) string {
	if fields {
		return strings.Join(strings.Fields(s), " ")
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func refStrings(refs []*po.Reference, max int) []string {
	var out []string
	for _, r := range refs {
		l := r.Line
		if l <= 0 {
			l = -1
		}
		out = append(out, fmt.Sprintf("%s:%d", r.Path, l))
	}
	sort.Strings(out)
	return out
}

// diffComment compares comments, references and flags; order of references
// and flags aside.
func diffComment(want *ref.Msg, c *po.Comment, onlyFields, withRefs bool) error {
	if c == nil {
		c = po.NewComment()
	}
	if a, b := normLines(c.Translator, onlyFields), normLines(strings.Join(want.Tr, "\n"), onlyFields); a != b {
		return fmt.Errorf("translator comment %q, want %q", a, b)
	}
	if a, b := normLines(c.Extracted, onlyFields), normLines(strings.Join(want.Ex, "\n"), onlyFields); a != b {
		return fmt.Errorf("extracted comment %q, want %q", a, b)
	}
	if a, b := sortedCopy(c.Flags), sortedCopy(want.Flags); !eqStrings(a, b) {
		return fmt.Errorf("flags %q, want %q", a, b)
	}
	if withRefs {
		var w []*po.Reference
		for _, r := range want.Refs {
			w = append(w, &po.Reference{Path: r.Path, Line: r.Line})
		}
		if a, b := refStrings(c.References, 0), refStrings(w, 0); !eqStrings(a, b) {
			return fmt.Errorf("references %q, want %q", a, b)
		}
	}
	if c.PrevMsgContext != want.PrevCtx || c.PrevMsgID != want.PrevID {
		return fmt.Errorf("previous (%q, %q), want (%q, %q)", c.PrevMsgContext, c.PrevMsgID, want.PrevCtx, want.PrevID)
	}
	return nil
}

// diffMessages compares a parsed message set with the model.
func diffMessages(want []*ref.Msg, f *po.File, comments, onlyFields, withRefs bool) error {
	n := 0
	for _, byID := range f.Messages {
		n += len(byID)
	}
	if n != len(want) {
		var got []string
		for ctx, byID := range f.Messages {
			for id := range byID {
				got = append(got, fmt.Sprintf("%q/%q", ctx, id))
			}
		}
		sort.Strings(got)
		return fmt.Errorf("%d messages %s, want %d", n, clip(strings.Join(got, " "), 400), len(want))
	}
	for _, m := range want {
		got := f.GetMessage(m.Ctx, m.ID)
		if got == nil {
			return fmt.Errorf("message (%q, %q) lost", m.Ctx, m.ID)
		}
		if err := diffTrans(m, got); err != nil {
			return err
		}
		if comments {
			if err := diffComment(m, got.Comment, onlyFields, withRefs); err != nil {
				return fmt.Errorf("message (%q, %q): %w", m.Ctx, m.ID, err)
			}
		}
	}
	return nil
}

func diffFields(fields []ref.Field, h *po.Header) error {
	want := map[string]string{}
	for _, f := range fields {
		want[strings.ToLower(f.Key)] = f.Val
	}
	for _, f := range fields {
		if v := h.Get(f.Key); v != f.Val {
			return fmt.Errorf("header %q is %q, want %q", f.Key, v, f.Val)
		}
	}
	for _, k := range stdHeaders {
		if v := h.Get(k); v != want[strings.ToLower(k)] {
			return fmt.Errorf("header %q is %q, want %q", k, v, want[strings.ToLower(k)])
		}
	}
	for k, v := range h.UnknownFields {
		if w, ok := want[strings.ToLower(k)]; v != w || !ok && v != "" {
			return fmt.Errorf("unexpected header %q: %q", k, v)
		}
	}
	return nil
}
