package ref

import (
	"fmt"
	"sort"
	"strings"
)

// Ref is a source reference of a PO message.
type Ref struct {
	Path string `json:"p"`
	Line int    `json:"l"`
}

// Msg is one catalog message.
type Msg struct {
	Ctx    string         `json:"ctx,omitempty"`
	ID     string         `json:"id"`
	Plural string         `json:"plural,omitempty"`
	Strs   map[int]string `json:"strs,omitempty"`

	Tr      []string `json:"tr,omitempty"` // translator comment lines
	Ex      []string `json:"ex,omitempty"` // extracted comment lines
	Refs    []Ref    `json:"refs,omitempty"`
	Flags   []string `json:"flags,omitempty"`
	PrevCtx string   `json:"prevCtx,omitempty"`
	PrevID  string   `json:"prevID,omitempty"`
}

// HasPlural tells whether the message must be written with numbered forms.
func (m *Msg) HasPlural() bool {
	if m.Plural != "" || len(m.Strs) > 1 {
		return true
	}
	for i := range m.Strs {
		if i != 0 {
			return true
		}
	}
	return false
}

// Fuzzy tells whether the message is flagged fuzzy.
func (m *Msg) Fuzzy() bool {
	for _, f := range m.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

// Forms are the indices of the message's forms in order.
func (m *Msg) Forms() []int {
	var idx []int
	for i := range m.Strs {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	return idx
}

// Field is one header line.
type Field struct {
	Key string `json:"k"`
	Val string `json:"v"`
	Sep string `json:"s,omitempty"` // colon with white space, default ": "
}

// Choose draws an integer of lo..hi.
type Choose func(name string, lo, hi int) int

// Quote writes a PO literal without breaking lines.
func Quote(s string) string { return `"` + escapeLit(s, nil) + `"` }

func escapeLit(s string, c Choose) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			if c != nil && c("rawTab", 0, 3) == 0 {
				b.WriteByte('\t')
			} else {
				b.WriteString(`\t`)
			}
		case '\a':
			b.WriteString(`\a`)
		case '\b':
			b.WriteString(`\b`)
		case '\f':
			b.WriteString(`\f`)
		case '\v':
			b.WriteString(`\v`)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Layout renders PO files in an arbitrary legal layout.
type Layout struct {
	C Choose
	// Plain turns every liberty off.
	Plain bool
	nl    int
	out   strings.Builder
}

func (l *Layout) ch(name string, lo, hi int) int {
	if l.Plain {
		return lo
	}
	return l.C(name, lo, hi)
}

var spaces = []string{"", " ", "\t", "   ", " \t "}

func (l *Layout) eol() {
	switch {
	case l.nl == 1, l.nl == 2 && l.ch("eol", 0, 1) == 1:
		l.out.WriteString("\r\n")
	default:
		l.out.WriteString("\n")
	}
}

// line writes one logical line with random surrounding white space.
func (l *Layout) line(s string) {
	if l.ch("indent", 0, 4) == 4 {
		l.out.WriteString(spaces[l.ch("ind", 0, 4)])
	}
	l.out.WriteString(s)
	if l.ch("trail", 0, 5) == 5 {
		l.out.WriteString(spaces[l.ch("tr", 0, 4)])
	}
	l.eol()
}

func (l *Layout) blank(n int) {
	for i := 0; i < n; i++ {
		if l.ch("blankKind", 0, 2) == 2 {
			l.out.WriteString(spaces[l.ch("bl", 0, 4)])
		}
		l.eol()
	}
}

// literal writes keyword and text, split over several lines.
func (l *Layout) literal(prefix, keyword, text string) {
	rs := []rune(text)
	var parts []string
	if l.ch("split", 0, 2) == 2 {
		if l.ch("emptyFirst", 0, 1) == 1 {
			parts = append(parts, "")
		}
		for len(rs) > 0 {
			n := l.ch("chunk", 1, 12)
			if n > len(rs) {
				n = len(rs)
			}
			parts = append(parts, string(rs[:n]))
			rs = rs[n:]
			if l.ch("emptyMid", 0, 9) == 9 {
				parts = append(parts, "")
			}
		}
	}
	if len(parts) == 0 {
		parts = []string{text}
	}
	sep := " "
	if l.ch("sep", 0, 5) == 5 {
		seps := []string{"  ", "\t", " \t", ""}
		n := 2
		if prefix == "" && strings.HasPrefix(keyword, "msgstr") {
			n = 3 // white space is optional here
		}
		sep = seps[l.ch("sepKind", 0, n)]
	}
	for i := 0; i < len(parts); i++ {
		lit := `"` + escapeLit(parts[i], l.escC()) + `"`
		if i == 0 {
			lit = keyword + sep + lit
		}
		// several literals on one line
		for i+1 < len(parts) && l.ch("sameLine", 0, 5) == 5 {
			i++
			lit += spaces[l.ch("between", 0, 4)] + `"` + escapeLit(parts[i], l.escC()) + `"`
		}
		l.line(prefix + lit)
	}
}

func (l *Layout) escC() Choose {
	if l.Plain {
		return nil
	}
	return l.C
}

var obsoleteTexts = []string{"old", "Hello", "a", "%d cars"}

// obsolete writes an obsolete entry with comments of its own.
func (l *Layout) obsolete() {
	if l.ch("obsComment", 0, 2) > 0 {
		switch l.ch("obsCommentKind", 0, 3) {
		case 0:
			l.line("# obsolete comment")
		case 1:
			l.line("#, fuzzy")
		case 2:
			l.line("#, fuzzy, c-format")
			l.line("#. gone")
		case 3:
			l.line("#: old.go:7")
		}
	}
	if l.ch("obsPrev", 0, 3) == 3 {
		l.line(`#~| msgid "older"`)
	}
	if l.ch("obsCtx", 0, 3) == 3 {
		l.line(`#~ msgctxt "ctx"`)
	}
	t := obsoleteTexts[l.ch("obsText", 0, 3)]
	l.line(`#~ msgid "` + t + `"`)
	if l.ch("obsPlural", 0, 3) == 3 {
		l.line(`#~ msgid_plural "` + t + `s"`)
		l.line(`#~ msgstr[0] "x"`)
		l.line(`#~ msgstr[1] "xs"`)
	} else {
		l.line(`#~ msgstr "alt"`)
	}
}

func (l *Layout) detached() {
	switch l.ch("detKind", 0, 4) {
	case 0:
		l.line("# detached")
	case 1:
		l.line("#, fuzzy")
	case 2:
		l.line("#")
	case 3:
		l.line("#: det.go:1")
		l.line("#. det")
	case 4:
		l.line("# a")
		l.line("#, fuzzy")
	}
}

func (l *Layout) comments(m *Msg) {
	type group []func()
	var tr, ex, refs, flags, prev group
	for _, c := range m.Tr {
		tr = append(tr, func() {
			if c == "" {
				l.line("#")
				return
			}
			if !strings.ContainsAny(c[:1], ".:,|~") && l.ch("tightTr", 0, 7) == 7 {
				l.line("#" + c)
				return
			}
			l.line("# " + c)
		})
	}
	for _, c := range m.Ex {
		ex = append(ex, func() {
			if l.ch("tightEx", 0, 7) == 7 {
				l.line("#." + c)
				return
			}
			l.line("#. " + c)
		})
	}
	var refStr []string
	for _, r := range m.Refs {
		s := r.Path
		if r.Line > 0 {
			s = fmt.Sprintf("%s:%d", r.Path, r.Line)
		}
		refStr = append(refStr, s)
	}
	for len(refStr) > 0 {
		n := l.ch("refsPerLine", 1, 3)
		if n > len(refStr) {
			n = len(refStr)
		}
		line := []string{"#: ", "#:", "#:\t"}[l.ch("refLead", 0, 8)%7%3] + strings.Join(refStr[:n], spaces[1+l.ch("refSep", 0, 1)*2])
		refs = append(refs, func() { l.line(line) })
		refStr = refStr[n:]
	}
	fl := append([]string{}, m.Flags...)
	for len(fl) > 0 {
		n := l.ch("flagsPerLine", 1, 3)
		if n > len(fl) {
			n = len(fl)
		}
		seps := []string{", ", ",", " , ", ",\t"}
		lead := []string{"#, ", "#,", "#,  ", "#,\t"}
		line := lead[l.ch("flagLead", 0, 3)] + strings.Join(fl[:n], seps[l.ch("flagSep", 0, 3)])
		flags = append(flags, func() { l.line(line) })
		fl = fl[n:]
	}
	if m.PrevCtx != "" {
		prev = append(prev, func() { l.literal("#| ", "msgctxt", m.PrevCtx) })
	}
	if m.PrevID != "" {
		prev = append(prev, func() { l.literal("#| ", "msgid", m.PrevID) })
		if l.ch("prevPlural", 0, 3) == 3 {
			// As msgmerge --previous writes it; a comment has no field for it
			prev = append(prev, func() { l.literal("#| ", "msgid_plural", m.PrevID+"s") })
		}
	}
	groups := []group{tr, ex, refs, flags, prev}
	// random interleaving that keeps the order within a group
	for {
		var open []int
		for i, g := range groups {
			if len(g) > 0 {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			return
		}
		g := open[l.ch("group", 0, len(open)-1)]
		groups[g][0]()
		groups[g] = groups[g][1:]
		if l.ch("emptySpecial", 0, 15) == 15 {
			l.line([]string{"#.", "#:", "#,"}[l.ch("emptySp", 0, 2)])
		}
	}
}

// inner may write blank lines within an entry.
func (l *Layout) inner() {
	if l.ch("inner", 0, 24) == 24 {
		l.blank(l.ch("nblank", 1, 2))
	}
}

func (l *Layout) entry(m *Msg) {
	l.comments(m)
	if m.Ctx != "" {
		l.literal("", "msgctxt", m.Ctx)
		l.inner()
	}
	l.literal("", "msgid", m.ID)
	l.inner()
	if !m.HasPlural() {
		kw := "msgstr"
		l.literal("", kw, m.Strs[0])
		return
	}
	l.literal("", "msgid_plural", m.Plural)
	l.inner()
	idx := m.Forms()
	if len(idx) == 0 {
		idx = []int{0, 1}
	}
	for len(idx) > 0 {
		k := l.ch("form", 0, len(idx)-1)
		i := idx[k]
		idx = append(append([]int{}, idx[:k]...), idx[k+1:]...)
		kw := fmt.Sprintf("msgstr[%d]", i)
		if l.ch("bracket", 0, 15) == 15 {
			kw = fmt.Sprintf("msgstr%s[%d]", spaces[1+l.ch("bracketSp", 0, 2)], i)
		}
		l.literal("", kw, m.Strs[i])
		if len(idx) > 0 {
			l.inner()
		}
	}
}

// HeaderMsg turns header fields into the message with empty id.
func HeaderMsg(fields []Field) *Msg {
	var b strings.Builder
	for _, f := range fields {
		if f.Key == "" { // a line that is not a field
			b.WriteString(f.Val + "\n")
			continue
		}
		sep := f.Sep
		if sep == "" {
			sep = ": "
		}
		b.WriteString(f.Key + sep + f.Val + "\n")
	}
	return &Msg{Strs: map[int]string{0: b.String()}}
}

// Render writes the entries in the given order. hdr may be nil.
func (l *Layout) Render(hdr *Msg, msgs []*Msg) string {
	l.out.Reset()
	l.nl = l.ch("nl", 0, 2)
	list := append([]*Msg{}, msgs...)
	if !l.Plain && len(list) > 1 && l.ch("shuffle", 0, 1) == 1 {
		for i := len(list) - 1; i > 0; i-- {
			j := l.ch("sh", 0, i)
			list[i], list[j] = list[j], list[i]
		}
	}
	if hdr != nil {
		at := 0
		if l.ch("hdrPos", 0, 5) == 5 {
			at = l.ch("hdrAt", 0, len(list))
		}
		list = append(list[:at:at], append([]*Msg{hdr}, list[at:]...)...)
	}
	if l.ch("leadBlank", 0, 5) == 5 {
		l.blank(l.ch("nblank", 1, 3))
	}
	for i, m := range list {
		if i > 0 {
			if l.Plain {
				l.blank(1)
			} else {
				switch l.ch("between", 0, 9) {
				case 0, 1:
				case 2:
					l.blank(l.ch("nblank", 2, 5))
				default:
					l.blank(1)
				}
			}
		}
		for l.ch("obs", 0, 6) == 6 {
			l.obsolete()
			if l.ch("obsBlank", 0, 2) > 0 {
				l.blank(1)
			}
		}
		if l.ch("detached", 0, 8) == 8 {
			l.detached()
			l.blank(l.ch("nblank", 1, 2))
		}
		l.entry(m)
	}
	switch l.ch("end", 0, 9) {
	case 7:
		l.blank(1)
		l.obsolete()
	case 8:
		l.detached()
	case 9:
		l.blank(3)
	}
	s := l.out.String()
	if l.ch("noEOL", 0, 5) == 5 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}
