package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unsafe"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"

	"verif/harness/dict"
	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C05

type exprCase struct {
	NPlurals int       `json:"nplurals"`
	Expr     *ref.Expr `json:"expr"`
	Kind     string    `json:"kind"`
	Pre      int8      `json:"pre"`
	Ns       []int64   `json:"ns"`
}

func (c exprCase) header() string {
	sp := []string{"", " ", "\t", "  "}
	s := sp[c.Pre&3]
	return fmt.Sprintf("nplurals%s=%s%d%s;%splural%s=%s%s%s;", s, s, c.NPlurals, s, sp[(c.Pre>>2)&3], s, s, c.Expr.Render(), s)
}

func genGaps(t *rapid.T) [4]int8 {
	if chance(t, "plainGaps", 50) {
		return [4]int8{1, 1, 1, 1}
	}
	var w [4]int8
	for i := range w {
		w[i] = int8(intR(t, "gap", 0, 3))
	}
	return w
}

var binOps = []string{"||", "&&", "==", "!=", "<", ">", "<=", ">=", "%"}

func genNum(t *rapid.T) int64 {
	switch intR(t, "numKind", 0, 4) {
	case 4:
		return sourceInt(t, "num", 1<<40)
	case 0:
		return int64(intR(t, "num", 0, 5))
	case 1:
		return pick(t, "num", int64(10), 100, 11, 14, 19, 20, 2, 4, 1000000)
	case 2:
		return int64(intR(t, "num", 0, 120))
	}
	return rapid.Int64Range(0, 1<<40).Draw(t, "num")
}

func genExpr(t *rapid.T, depth int) *ref.Expr {
	e := &ref.Expr{}
	k := intR(t, "exprKind", 0, 9)
	switch {
	case depth <= 0 || k <= 1:
		if chance(t, "isN", 60) {
			e.Op = "n"
		} else {
			e.Op, e.V = "num", genNum(t)
		}
	case k == 2:
		e.Op = "?:"
		e.A, e.B, e.C = genExpr(t, depth-1), genExpr(t, depth-1), genExpr(t, depth-1)
	case k <= 5:
		// a typical comparison
		e.Op = pick(t, "cmp", "==", "!=", "<", ">", "<=", ">=")
		l := &ref.Expr{Op: "n"}
		if chance(t, "mod", 50) {
			l = &ref.Expr{Op: "%", A: &ref.Expr{Op: "n"}, B: &ref.Expr{Op: "num", V: pick(t, "m", int64(10), 100, 1000, 2, 3)}, W: genGaps(t)}
		}
		e.A, e.B = l, &ref.Expr{Op: "num", V: int64(intR(t, "rhs", 0, 20))}
	default:
		e.Op = pick(t, "op", binOps...)
		e.A, e.B = genExpr(t, depth-1), genExpr(t, depth-1)
	}
	e.W = genGaps(t)
	if chance(t, "paren", 12) {
		e.P = 1 + intR(t, "parens", 0, 1)
	}
	return e
}

func cloneExpr(e *ref.Expr) *ref.Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.A, c.B, c.C = cloneExpr(e.A), cloneExpr(e.B), cloneExpr(e.C)
	return &c
}

func walkExpr(e *ref.Expr, f func(*ref.Expr)) {
	if e == nil {
		return
	}
	f(e)
	walkExpr(e.A, f)
	walkExpr(e.B, f)
	walkExpr(e.C, f)
}

// flatten lists operands and operators of a tree of binary operators.
func flatten(e *ref.Expr, operands *[]*ref.Expr, ops *[]string) {
	if e.Op == "n" || e.Op == "num" || e.Op == "?:" {
		*operands = append(*operands, e)
		return
	}
	flatten(e.A, operands, ops)
	*ops = append(*ops, e.Op)
	flatten(e.B, operands, ops)
}

func rebracket(t *rapid.T, operands []*ref.Expr, ops []string) *ref.Expr {
	if len(ops) == 0 {
		return operands[0]
	}
	k := intR(t, "split", 0, len(ops)-1)
	return &ref.Expr{Op: ops[k], A: rebracket(t, operands[:k+1], ops[:k]), B: rebracket(t, operands[k+1:], ops[k+1:]), W: [4]int8{1, 1, 1, 1}}
}

// rebracketSome gives one maximal binary subtree another bracketing.
func rebracketSome(t *rapid.T, e *ref.Expr) *ref.Expr {
	if e.Op == "?:" {
		switch intR(t, "branch", 0, 3) {
		case 0, 1:
			e.A = rebracketSome(t, e.A)
		case 2:
			e.B = rebracketSome(t, e.B)
		default:
			e.C = rebracketSome(t, e.C)
		}
		return e
	}
	var operands []*ref.Expr
	var ops []string
	flatten(e, &operands, &ops)
	return rebracket(t, operands, ops)
}

var formulaList []string

func init() {
	seen := map[string]bool{}
	for _, l := range sortedKeys(ref.GettextByLang) {
		f := ref.GettextByLang[l]
		if !seen[f] {
			seen[f] = true
			formulaList = append(formulaList, f)
		}
	}
	// widely used spellings (GNU gettext manual)
	for _, f := range []string{
		"nplurals=2; plural=n>1;",
		"nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2;",
		"nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;",
		"nplurals=3; plural=n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2;",
		"nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2;",
		"nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
		"nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;",
		"nplurals=3; plural=n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
		"nplurals=4; plural=n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3;",
		"nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5;",
		"nplurals=2; plural=(n > 1);",
		"nplurals=2; plural=n%10!=1 || n%100==11;",
		// as computed from the CLDR rules
		"nplurals=2; plural=(n == 0 || n == 1);",
		"nplurals=2; plural=(n <= 1 || n >= 11 && n <= 99);",
		"nplurals=2; plural=n % 10 == 1 && n % 100 != 11;",
		"nplurals=2; plural=(n % 10 != 1 || n % 100 == 11);",
		"nplurals=2; plural=((n == 1 || (n == 2 || n == 3)) || n % 10 != 4 && n % 10 != 6 && n % 10 != 9);",
		"nplurals=3; plural=n == 0 ? 0 : (n == 0 || n == 1) && n != 0 ? 1 : 2;",
		"nplurals=4; plural=n % 100 == 1 ? 0 : n % 100 == 2 ? 1 : n % 100 >= 3 && n % 100 <= 4 ? 2 : 3;",
		"nplurals=5; plural=n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91 ? 0 : n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92 ? 1 : (n % 10 >= 3 && n % 10 <= 4 || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99) ? 2 : n != 0 && n % 1000000 == 0 ? 3 : 4;",
	} {
		pf, err := ref.ParsePluralForms(f)
		if err != nil {
			panic(err)
		}
		if !seen[f] {
			seen[f] = true
			formulaList = append(formulaList, f)
			parsedForms[f] = pf
		}
	}
	// headers that the code under test knows
	for _, f := range dict.Loaded.StringsOf(2000) {
		if !strings.HasPrefix(strings.TrimSpace(f), "nplurals") || seen[f] {
			continue
		}
		if pf, err := ref.ParsePluralForms(f); err == nil && len(f) < 1500 {
			seen[f] = true
			formulaList = append(formulaList, f)
			dictForms = append(dictForms, f)
			parsedForms[f] = pf
		}
	}
}

var dictForms []string

func genExprCase(t *rapid.T) exprCase {
	c := exprCase{Pre: 4}
	switch intR(t, "caseKind", 0, 4) {
	case 0, 1:
		c.Kind = "random"
		c.NPlurals = intR(t, "nplurals", 1, 6)
		c.Expr = genExpr(t, intR(t, "depth", 0, 4))
	default:
		pf := parsedForms[pick(t, "formula", formulaList...)]
		c.NPlurals = pf.N
		c.Expr = cloneExpr(pf.E)
		c.Kind = "known-formula"
		walkExpr(c.Expr, func(e *ref.Expr) { e.W = [4]int8{1, 1, 1, 1} })
		switch intR(t, "mutate", 0, 3) {
		case 0:
			walkExpr(c.Expr, func(e *ref.Expr) {
				e.W = genGaps(t)
				if chance(t, "p", 15) {
					e.P = 1
				}
			})
		case 1:
			c.Kind = "known-rebracketed"
			c.Expr = rebracketSome(t, c.Expr)
		case 2:
			c.Kind = "known-mutated"
			var nodes []*ref.Expr
			walkExpr(c.Expr, func(e *ref.Expr) { nodes = append(nodes, e) })
			e := nodes[intR(t, "node", 0, len(nodes)-1)]
			switch e.Op {
			case "num":
				e.V += int64(intR(t, "delta", 0, 2))
			case "n":
				*e = ref.Expr{Op: "num", V: genNum(t)}
			case "?:":
				e.B, e.C = e.C, e.B
			default:
				e.Op = pick(t, "newOp", binOps...)
			}
		}
	}
	if chance(t, "oddSpacing", 25) {
		c.Pre = int8(intR(t, "pre", 0, 15))
	}
	for i := 0; i < 8; i++ {
		c.Ns = append(c.Ns, genCount(t))
	}
	return c
}

func checkExpr(c exprCase, ctx *engine.Ctx) error {
	h := c.header()
	ctx.Label(c.Kind)
	rule, err := poplural.Parse(h)
	if err != nil {
		return fmt.Errorf("header %q rejected: %v", h, err)
	}
	if rule.NPlurals != c.NPlurals {
		return fmt.Errorf("header %q: NPlurals %d", h, rule.NPlurals)
	}
	first, varies := int64(-1), false
	run := func(n int64) error {
		zero := false
		want := c.Expr.Eval(n, &zero)
		got, err := rule.Evaluate(n)
		if zero {
			return nil
		}
		if err != nil {
			return fmt.Errorf("header %q, n=%d: error %v", h, n, err)
		}
		if int64(got) != want {
			return fmt.Errorf("header %q, n=%d: form %d, C semantics give %d", h, n, got, want)
		}
		if first < 0 {
			first = want
		} else if want != first {
			varies = true
		}
		return nil
	}
	for n := int64(0); n < 130; n++ {
		if err := run(n); err != nil {
			return err
		}
	}
	for _, n := range c.Ns {
		if err := run(n); err != nil {
			return err
		}
	}
	ctx.NonTrivialIf(varies)
	return nil
}

// headerText is the text of a header, right or wrong.
type headerText struct {
	Text string  `json:"text"`
	Ns   []int64 `json:"ns"`
}

var headerTokens = regexp.MustCompile(`[A-Za-z]+|[0-9]+|\s+|[=!<>]=|&&|\|\||.`)

// genHeaderText edits the tokens and characters of a right header.
func genHeaderText(t *rapid.T) headerText {
	e := genExprCase(t)
	toks := headerTokens.FindAllString(e.header(), -1)
	for k := intR(t, "edits", 1, 3); k > 0 && len(toks) > 0; k-- {
		i := intR(t, "at", 0, len(toks)-1)
		if chance(t, "late", 50) { // in the formula
			i = len(toks) - 1 - i/2
		}
		tok := pick(t, "tok", "n", "0", "1", "2", "10", "=", "==", "!=", "!", "<", ">", "<=", ">=", "=>", "=<", "&", "&&", "|", "||", "%", "?", ":", ";", "(", ")", " ", "_", "+", "-", "*", "/", "plural", "nplurals", "N", "i", ".", ",", "1_0", "n n", "()", "? 1", ": 1", "\r", "\u00a0", "٣")
		switch pick(t, "edit", "delete", "delete", "delete", "insert", "insert", "replace", "double", "swap", "cut", "char") {
		case "delete":
			toks = append(toks[:i:i], toks[i+1:]...)
		case "insert":
			toks = append(toks[:i:i], append([]string{tok}, toks[i:]...)...)
		case "replace":
			toks[i] = tok
		case "double":
			toks[i] += toks[i]
		case "swap":
			j := intR(t, "with", 0, len(toks)-1)
			toks[i], toks[j] = toks[j], toks[i]
		case "cut":
			toks = toks[:i+1]
		case "char":
			if r := []rune(toks[i]); len(r) > 0 {
				toks[i] = string(r[:len(r)-1])
			}
		}
	}
	c := headerText{Text: strings.Join(toks, "")}
	for i := 0; i < 4; i++ {
		c.Ns = append(c.Ns, genCount(t))
	}
	return c
}

var headerShape = regexp.MustCompile(`(?is)^[ \t\n]*nplurals[ \t\n]*=[ \t\n]*([0-9]{1,18})[ \t\n]*;[ \t\n]*plural[ \t\n]*=([^;]*);[ \t\n]*$`)

// checkHeaderText: what is accepted is a formula and has its value.
func checkHeaderText(c headerText, ctx *engine.Ctx) error {
	var want *ref.Expr
	m := headerShape.FindStringSubmatch(c.Text)
	if m != nil {
		want, _ = ref.ParseExpr(strings.ReplaceAll(m[2], "N", "n"))
	}
	for _, num := range regexp.MustCompile(`[0-9]+`).FindAllString(c.Text, -1) {
		if len(num) > 18 {
			return nil
		}
	}
	rule, err := poplural.Parse(c.Text)
	ctx.NonTrivial()
	if want == nil {
		ctx.Label("no formula")
		if err == nil {
			return fmt.Errorf("header %q is accepted (1 gives form %d), but is not a formula", c.Text, rule.FormFunc(1))
		}
		return nil
	}
	ctx.Label("formula")
	if err != nil {
		if strings.ToLower(c.Text) != c.Text {
			return nil // upper case may be accepted or not
		}
		return fmt.Errorf("header %q is rejected: %v", c.Text, err)
	}
	if n, _ := strconv.Atoi(m[1]); rule.NPlurals != n {
		return fmt.Errorf("header %q: NPlurals %d", c.Text, rule.NPlurals)
	}
	for i := int64(0); i < 40+int64(len(c.Ns)); i++ {
		n := i
		if i >= 40 {
			n = c.Ns[i-40]
		}
		zero := false
		form := want.Eval(n, &zero)
		got, err := rule.Evaluate(n)
		if !zero && (err != nil || int64(got) != form) {
			return fmt.Errorf("header %q, n=%d: form %d (%v), C semantics give %d", c.Text, n, got, err, form)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

type catCase struct {
	Lang string `json:"lang"`
	Num  string `json:"num"`
}

func toCat(name string) cldrplural.Category { return cldrplural.Category(ref.CatIndex(name)) }

func catsOf(g *ref.CldrGroup) []cldrplural.Category {
	var out []cldrplural.Category
	for _, c := range g.Cats {
		out = append(out, toCat(c))
	}
	return out
}

func checkRuleSetMeta(tag language.Tag, g *ref.CldrGroup, found bool) (*cldrplural.RuleSet, error) {
	rs, ok := cldrplural.ForLanguage(tag)
	if ok != found {
		return nil, fmt.Errorf("ForLanguage(%s) found=%v, expected %v", tag, ok, found)
	}
	if rs == nil {
		return nil, fmt.Errorf("ForLanguage(%s): nil", tag)
	}
	if fmt.Sprint(rs.Categories) != fmt.Sprint(catsOf(g)) {
		return nil, fmt.Errorf("ForLanguage(%s): categories %v, rules define %v", tag, rs.Categories, g.Cats)
	}
	return rs, nil
}

func checkCat(c catCase, ctx *engine.Ctx) error {
	tag, ok := parseTag(c.Lang)
	if !ok {
		return nil
	}
	g, found := cldrFor(tag)
	rs, err := checkRuleSetMeta(tag, g, found)
	if err != nil {
		return err
	}
	op, err := ref.OperandsOf(c.Num)
	if err != nil {
		return err
	}
	want := g.Category(op)
	got, err := rs.Evaluate(c.Num)
	if err != nil {
		return fmt.Errorf("%s: Evaluate(%q): %v", c.Lang, c.Num, err)
	}
	if got != toCat(want) {
		return fmt.Errorf("%s: %q is %v, the published rules %v say %s", c.Lang, c.Num, got, g.Texts, want)
	}
	if i := op.I; op.V == 0 && op.C == 0 && i.IsInt() && i.Num().IsInt64() && i.Num().Int64() <= maxExact {
		got, err := rs.Evaluate(i.Num().Int64())
		if err != nil || got != toCat(want) {
			return fmt.Errorf("%s: int64 %s is %v (%v), expected %s", c.Lang, c.Num, got, err, want)
		}
	}
	ctx.NonTrivialIf(len(g.Cats) > 1 && found)
	ctx.Label("category-" + want)
	ctx.LabelIf(op.V > 0, "decimal")
	ctx.LabelIf(op.C > 0, "compact")
	return nil
}

type catSweep struct {
	Lang string `json:"lang"`
}

func sweepNums() []string {
	var out []string
	for n := 0; n <= 330; n++ {
		out = append(out, fmt.Sprint(n))
	}
	for _, b := range []int{1000, 2000, 10000, 20000, 40000, 60000, 80000, 100000, 200000, 1000000, 2000000, 1100000, 3000000} {
		for d := 0; d <= 23; d++ {
			out = append(out, fmt.Sprint(b+d))
		}
		out = append(out, fmt.Sprint(b-1))
	}
	for i := 0; i <= 25; i++ {
		for f := 0; f <= 99; f++ {
			if i > 3 && i != 11 && i != 21 && f > 25 {
				break
			}
			out = append(out, fmt.Sprintf("%d.%d", i, f), fmt.Sprintf("%d.%02d", i, f))
			if f < 25 {
				out = append(out, fmt.Sprintf("%d.%03d", i, f), fmt.Sprintf("%d.%d0", i, f), fmt.Sprintf("%d.1%02d", i, f))
			}
		}
	}
	for _, m := range []string{"1", "2", "3", "1.1", "1.5", "2.0", "1.23", "1.0000001"} {
		for _, c := range []string{"c1", "c2", "c3", "c5", "c6", "c7"} {
			out = append(out, m+c)
		}
	}
	for _, s := range []string{"1.0000001", "0.9999999", "11.0000001", "0.0000001", "2.0000001", "10.00000001", "1.000", "0.0000", "100.0", "1000000.0", "1000000.5"} {
		out = append(out, s)
	}
	return out
}

var sweep = sweepNums()

func checkCatSweep(c catSweep, ctx *engine.Ctx) error {
	for _, n := range sweep {
		if err := checkCat(catCase{c.Lang, n}, &engine.Ctx{}); err != nil {
			return err
		}
	}
	ctx.NonTrivial()
	ctx.Label(fmt.Sprintf("languages(x%d numbers)", len(sweep)))
	return nil
}

// ---------------------------------------------------------------- C07

type ruleCase struct {
	Rules map[string][][]ref.Relation `json:"rules"` // category -> or of and
	Other string                      `json:"other"` // "", "empty", "samples"
	Style []int8                      `json:"style"`
	Nums  []string                    `json:"nums"`
}

var sampleTexts = []string{
	"", " @integer 1", " @integer 0~15, 100, 1000, 10000, …", " @decimal 0.0~1.5, 10.0, …", " @integer 1, 2, 3 @decimal 1.0, 1.00",
	" @integer 3, 4, 5, … @decimal 0.1~0.9", " @integer 1c6, 2c6, 3c6, … @decimal 1.0000001c6, 1.1c6, …", " @integer 2~4, 22~24, …",
}

func genRelation(t *rapid.T) ref.Relation {
	r := ref.Relation{Op: pick(t, "operand", "n", "i", "v", "w", "f", "t", "c", "e", "n", "i", "n", "i")}
	max := 20
	if chance(t, "mod", 50) {
		r.Mod = pick(t, "m", int64(10), 100, 2, 3, 1000, 7, 1000000)
		max = int(r.Mod) + 3
		if max > 120 {
			max = 120
		}
	}
	r.Neg = chance(t, "neg", 30)
	large := chance(t, "large", 8) // values that do not fit into 32 bits
	if large && r.Mod != 0 {
		r.Mod = pick(t, "largeMod", int64(4294967297), 3000000000, 10000000000, 1000000000000)
	}
	for k := intR(t, "items", 1, 3); k > 0; k-- {
		a := int64(intR(t, "from", 0, max))
		if large {
			a += pick(t, "largeFrom", int64(0), 2147483640, 4294967290, 3000000000, 999999999990, 100000000000000)
		}
		b := a
		if chance(t, "range", 40) {
			b = a + int64(intR(t, "len", 0, 15))
		}
		r.Ranges = append(r.Ranges, [2]int64{a, b})
	}
	return r
}

func renderRule(or [][]ref.Relation, next func(n int) int) string {
	sp := func() string { return []string{" ", "  ", "\t"}[next(3)] }
	var ors []string
	for _, conj := range or {
		var ands []string
		for _, r := range conj {
			s := r.Op
			if r.Mod != 0 {
				s += sp() + []string{"%", "mod"}[next(2)] + sp() + fmt.Sprint(r.Mod)
			}
			eq := "="
			if r.Neg {
				eq = "!="
			}
			s += sp() + eq + sp()
			for i, rg := range r.Ranges {
				if i > 0 {
					s += []string{",", ", ", " , "}[next(3)]
				}
				if rg[0] == rg[1] && (rg[0] == 0 || next(4) != 0) {
					s += fmt.Sprint(rg[0])
				} else {
					s += fmt.Sprintf("%d..%d", rg[0], rg[1])
				}
			}
			ands = append(ands, s)
		}
		ors = append(ors, strings.Join(ands, sp()+"and"+sp()))
	}
	return strings.Join(ors, sp()+"or"+sp())
}

func genRuleCase(t *rapid.T) ruleCase {
	c := ruleCase{Rules: map[string][][]ref.Relation{}}
	for _, cat := range subset(t, "cat", 45, ref.CatNames[:5]) {
		var or [][]ref.Relation
		for i := intR(t, "ors", 1, 3); i > 0; i-- {
			var conj []ref.Relation
			for j := intR(t, "ands", 1, 3); j > 0; j-- {
				conj = append(conj, genRelation(t))
			}
			or = append(or, conj)
		}
		c.Rules[cat] = or
	}
	c.Other = pick(t, "other", "", "samples", "samples")
	for i := 0; i < 24; i++ {
		c.Style = append(c.Style, int8(intR(t, "style", 0, 11)))
	}
	for i := 0; i < 12; i++ {
		c.Nums = append(c.Nums, genDecimal(t))
	}
	// around the values of the rules
	var values []int64
	for _, cat := range ref.CatNames[:5] {
		for _, conj := range c.Rules[cat] {
			for _, r := range conj {
				for _, rg := range r.Ranges {
					values = append(values, rg[0], rg[1])
					if r.Mod != 0 {
						values = append(values, r.Mod+rg[0], r.Mod)
					}
				}
			}
		}
	}
	for i := 0; i < 4 && len(values) > 0; i++ {
		v := max(0, values[intR(t, "value", 0, len(values)-1)]+int64(intR(t, "near", -1, 1)))
		c.Nums = append(c.Nums, fmt.Sprint(v)+pick(t, "fraction", "", "", "", ".0", ".5"))
	}
	return c
}

func checkRuleCase(c ruleCase, ctx *engine.Ctx) error {
	k := 0
	next := func(n int) int {
		if len(c.Style) == 0 {
			return 0
		}
		v := int(c.Style[k%len(c.Style)]) % n
		k++
		return v
	}
	raw := map[cldrplural.Category]string{}
	want := map[string]bool{"other": true}
	for _, cat := range ref.CatNames[:5] {
		or, ok := c.Rules[cat]
		if !ok {
			continue
		}
		raw[toCat(cat)] = renderRule(or, next) + sampleTexts[next(len(sampleTexts))]
		want[cat] = true
	}
	if c.Other == "samples" {
		raw[cldrplural.Other] = sampleTexts[1+next(len(sampleTexts)-1)]
	}
	var wantCats []cldrplural.Category
	for i, n := range ref.CatNames {
		if want[n] {
			wantCats = append(wantCats, cldrplural.Category(i))
		}
	}
	nums := append([]string{"0", "1", "2", "3", "5", "11", "1.0", "1.5", "0.1", "2.50"}, c.Nums...)
	for pass := 0; pass < 3; pass++ {
		rs, err := cldrplural.ParseRules(raw)
		if err != nil {
			return fmt.Errorf("rules %q rejected: %v", raw, err)
		}
		if fmt.Sprint(rs.Categories) != fmt.Sprint(wantCats) {
			return fmt.Errorf("rules %q: categories %v, expected %v", raw, rs.Categories, wantCats)
		}
		for _, n := range nums {
			op, err := ref.OperandsOf(n)
			if err != nil {
				return err
			}
			var holds []string
			for _, cat := range ref.CatNames[:5] {
				if or, ok := c.Rules[cat]; ok && (ref.CldrRule{Or: or}).Holds(op) {
					holds = append(holds, cat)
				}
			}
			exp := "other"
			if len(holds) == 1 {
				exp = holds[0]
			}
			for rep := 0; rep < 2; rep++ {
				got, err := rs.Evaluate(n)
				if err != nil {
					return fmt.Errorf("rules %q: Evaluate(%q): %v", raw, n, err)
				}
				if len(holds) > 1 {
					continue // not mutually exclusive for this number
				}
				if got != toCat(exp) {
					return fmt.Errorf("rules %q: %q is %v, expected %s", raw, n, got, exp)
				}
			}
			if pass == 0 {
				ctx.NonTrivialIf(len(holds) == 1)
				ctx.LabelIf(len(holds) == 1, "number-with-category")
				ctx.LabelIf(len(holds) > 1, "number-ambiguous(skipped)")
				ctx.LabelIf(len(holds) == 0, "number-other")
			}
		}
	}
	return nil
}

// ruleText is the text of a rule that may be damaged.
type ruleText struct {
	Text string   `json:"text"`
	Nums []string `json:"nums"`
}

var ruleTokens = regexp.MustCompile(`@?[A-Za-z]+|[0-9]+|\s+|!=|\.\.\.?|.`)

func genRuleText(t *rapid.T) ruleText {
	var or [][]ref.Relation
	for i := intR(t, "ors", 1, 2); i > 0; i-- {
		var conj []ref.Relation
		for j := intR(t, "ands", 1, 2); j > 0; j-- {
			conj = append(conj, genRelation(t))
		}
		or = append(or, conj)
	}
	text := renderRule(or, func(n int) int { return intR(t, "style", 0, n-1) })
	if chance(t, "samples", 50) {
		text += pick(t, "which", sampleTexts...)
	}
	toks := ruleTokens.FindAllString(text, -1)
	for k := intR(t, "edits", 1, 3); k > 0 && len(toks) > 0; k-- {
		i := intR(t, "at", 0, len(toks)-1)
		tok := pick(t, "tok", "n", "i", "f", "x", "nn", "0", "1", "2", "10", " = ", "=", "!=", " != ", "==", "!", "<", " and ", " or ", "and", "or", " not ", " in ", " is ", " within ", "%", " % ", " mod ", "..", " .. ", "1..3", "3..1", "1..2..3", "..3", "1..", "~", "1~3", "1.5", "1c3", ".", "...", "\u2026", " \u2026 ", ",", ", ", " ", "\n", "@integer", " @integer ", " @decimal 1.0", "@", "-1", "+", "(", ")", "&&", "||", "\u0663", "\u00a0", "0x1", "1_0")
		switch pick(t, "edit", "delete", "delete", "delete", "insert", "insert", "replace", "replace", "double", "swap", "cut", "char") {
		case "delete":
			toks = append(toks[:i:i], toks[i+1:]...)
		case "insert":
			toks = append(toks[:i:i], append([]string{tok}, toks[i:]...)...)
		case "replace":
			toks[i] = tok
		case "double":
			toks[i] += " " + toks[i]
		case "swap":
			j := intR(t, "with", 0, len(toks)-1)
			toks[i], toks[j] = toks[j], toks[i]
		case "cut":
			toks = toks[:i+1]
		case "char":
			if r := []rune(toks[i]); len(r) > 0 {
				toks[i] = string(r[:len(r)-1])
			}
		}
	}
	c := ruleText{Text: strings.Join(toks, "")}
	for i := 0; i < 4; i++ {
		c.Nums = append(c.Nums, genDecimal(t))
	}
	return c
}

var (
	ruleRangeSpace = regexp.MustCompile(`[\s\p{Z},]+(\.\.|~)[\s\p{Z},]+`)
	ruleSample     = regexp.MustCompile(`^[0-9][0-9.c]*([~][0-9][0-9.c]*)?$`)
	ruleNumber     = regexp.MustCompile(`^[0-9]+$`)
	ruleRange      = regexp.MustCompile(`^([0-9]+)\.\.([0-9]+)$`)
)

// lenientRule reads a rule as generously as anyone could: white space and
// commas are the same, marks of omission are ignored. ok: it is a rule.
func lenientRule(text string) (rule ref.CldrRule, ok bool) {
	text = ruleRangeSpace.ReplaceAllString(text, "$1")
	var toks []string
	for _, f := range strings.FieldsFunc(strings.ToLower(text), func(r rune) bool { return unicode.IsSpace(r) || r == ',' }) {
		if f != "\u2026" && f != "..." && f != "." {
			toks = append(toks, f)
		}
	}
	for i, f := range toks {
		if f != "@integer" && f != "@decimal" {
			continue
		}
		for _, s := range toks[i+1:] {
			if s != "@integer" && s != "@decimal" && !ruleSample.MatchString(s) {
				return rule, false
			}
		}
		toks = toks[:i]
		break
	}
	if len(toks) == 0 {
		return rule, strings.Contains(text, "@")
	}
	at := func() string {
		if len(toks) == 0 {
			return ""
		}
		return toks[0]
	}
	var conj []ref.Relation
	for {
		var r ref.Relation
		if r.Op = at(); len(r.Op) != 1 || !strings.Contains("nivwftce", r.Op) {
			return rule, false
		}
		toks = toks[1:]
		if at() == "%" || at() == "mod" {
			toks = toks[1:]
			if r.Mod = 0; !ruleNumber.MatchString(at()) {
				return rule, false
			}
			if r.Mod, _ = strconv.ParseInt(at(), 10, 64); r.Mod == 0 {
				return rule, false
			}
			toks = toks[1:]
		}
		if at() != "=" && at() != "!=" {
			return rule, false
		}
		r.Neg = at() == "!="
		toks = toks[1:]
		for {
			lo, hi := at(), at()
			if m := ruleRange.FindStringSubmatch(at()); m != nil {
				lo, hi = m[1], m[2]
			} else if !ruleNumber.MatchString(at()) {
				break
			}
			a, _ := strconv.ParseInt(lo, 10, 64)
			b, _ := strconv.ParseInt(hi, 10, 64)
			if b < a {
				return rule, false
			}
			r.Ranges = append(r.Ranges, [2]int64{a, b})
			toks = toks[1:]
		}
		if len(r.Ranges) == 0 {
			return rule, false
		}
		conj = append(conj, r)
		w := at()
		if w == "or" || w == "" {
			rule.Or = append(rule.Or, conj)
			conj = nil
		}
		if w == "" {
			return rule, true
		}
		if w != "or" && w != "and" {
			return rule, false
		}
		toks = toks[1:]
	}
}

// checkRuleText: a text that is accepted is a rule, with the value of that rule.
func checkRuleText(c ruleText, ctx *engine.Ctx) error {
	for _, num := range regexp.MustCompile(`[0-9]+`).FindAllString(c.Text, -1) {
		if len(num) > 18 {
			return nil
		}
	}
	want, ok := lenientRule(c.Text)
	ctx.NonTrivial()
	rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{cldrplural.One: c.Text})
	if err != nil {
		ctx.Label("rejected")
		ctx.LabelIf(ok, "rejected although readable(not judged)")
		return nil
	}
	if !ok {
		return fmt.Errorf("the rule %q is accepted, but is not a rule", c.Text)
	}
	ctx.Label("accepted")
	// there are six categories
	bogus := []cldrplural.Category{-1, 6, 7, 1000}[len(c.Text)%4]
	if rs, err := cldrplural.ParseRules(map[cldrplural.Category]string{bogus: c.Text, cldrplural.Two: "n = 2"}); err == nil {
		cats := slices.Clone(rs.Categories)
		for _, n := range c.Nums {
			cat, err := rs.Evaluate(n)
			if err != nil {
				return fmt.Errorf("rule %q: Evaluate(%q): %v", c.Text, n, err)
			}
			cats = append(cats, cat)
		}
		for _, cat := range cats {
			if cat < cldrplural.Zero || cat > cldrplural.Other {
				return fmt.Errorf("the rule %q for the category %d is accepted and gives category %d", c.Text, bogus, cat)
			}
		}
	}
	for _, n := range append([]string{"0", "1", "2", "3", "10", "1.0", "1.5"}, c.Nums...) {
		op, err := ref.OperandsOf(n)
		if err != nil {
			return err
		}
		exp := cldrplural.Other
		if want.Holds(op) {
			exp = cldrplural.One
		}
		if got, err := rs.Evaluate(n); err != nil || got != exp {
			return fmt.Errorf("rule %q: %q is %v (%v), expected %v", c.Text, n, got, err, exp)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C08

type (
	namedInt    int
	namedInt8   int8
	namedUint64 uint64
	namedFloat  float64
	namedInt64  int64
)

type reprCase struct {
	Lang string `json:"lang"`
	N    int64  `json:"n"`
}

// representations lists the ways to write the integer n.
func representations(n int64) map[string]any {
	out := map[string]any{}
	i := int(n)
	pi := &i
	i64 := n
	f := float64(n)
	s := fmt.Sprint(n)
	out["int"], out["int64"], out["*int"], out["**int"], out["*int64"] = i, i64, pi, &pi, &i64
	out["namedInt"], out["namedInt64"] = namedInt(n), namedInt64(n)
	ni := namedInt(n)
	out["*namedInt"] = &ni
	out["Duration"] = time.Duration(n)
	out["float64"], out["*float64"], out["namedFloat"] = f, &f, namedFloat(f)
	out["string"], out["*string"], out["json.Number"] = s, &s, json.Number(s)
	if f32 := float32(n); int64(f32) == n {
		out["float32"] = f32
	}
	if n >= 0 {
		out["uint"], out["uint64"], out["namedUint64"] = uint(n), uint64(n), namedUint64(n)
		u := uint64(n)
		out["*uint64"] = &u
		out["uintptr"] = uintptr(n)
	}
	if n >= math.MinInt8 && n <= math.MaxInt8 {
		out["int8"], out["namedInt8"] = int8(n), namedInt8(n)
	}
	if n >= math.MinInt16 && n <= math.MaxInt16 {
		out["int16"] = int16(n)
	}
	if n >= math.MinInt32 && n <= math.MaxInt32 {
		out["int32"] = int32(n)
	}
	if n >= 0 && n <= math.MaxUint8 {
		out["uint8"] = uint8(n)
		out["Weekday"], out["Month"] = time.Weekday(n), time.Month(n)
	}
	if n >= 0 && n <= math.MaxUint16 {
		out["uint16"] = uint16(n)
	}
	if n >= 0 && n <= math.MaxUint32 {
		out["uint32"] = uint32(n)
	}
	return out
}

func checkRepr(c reprCase, ctx *engine.Ctx) error {
	tag, ok := parseTag(c.Lang)
	if !ok {
		return nil
	}
	g, _ := cldrFor(tag)
	abs := c.N
	if abs < 0 {
		abs = -abs
	}
	op, err := ref.OperandsOf(fmt.Sprint(abs))
	if err != nil {
		return err
	}
	wantCat := toCat(g.Category(op))
	rs, _ := cldrplural.ForLanguage(tag)
	pf, formula, _ := gettextFor(tag)
	z := false
	wantForm := int(pf.E.Eval(abs, &z))
	fn, _ := poplural.ForLanguage(tag)
	parsed, err := poplural.Parse(formula)
	if err != nil {
		return fmt.Errorf("%q: %v", formula, err)
	}
	custom, err := poplural.Parse("nplurals=7; plural=n % 7;")
	if err != nil {
		return err
	}
	reps := representations(c.N)
	for _, name := range sortedKeys(reps) {
		v := reps[name]
		got, err := rs.Evaluate(v)
		if err != nil || got != wantCat {
			return fmt.Errorf("%s: category of %s(%d) is %v (%v), expected %v", c.Lang, name, c.N, got, err, wantCat)
		}
		ops, err := cldrplural.NewOperands(v)
		if err != nil {
			return fmt.Errorf("NewOperands(%s(%d)): %v", name, c.N, err)
		}
		if ops.N != float64(abs) || ops.I != abs || ops.V != 0 || ops.W != 0 || ops.F != 0 || ops.T != 0 || ops.C != 0 {
			return fmt.Errorf("NewOperands(%s(%d)) = %+v", name, c.N, *ops)
		}
		if form, err := fn(v); err != nil || form != wantForm {
			return fmt.Errorf("%s: built-in form of %s(%d) is %v (%v), expected %d", c.Lang, name, c.N, form, err, wantForm)
		}
		if form, err := parsed.Evaluate(v); err != nil || form != wantForm {
			return fmt.Errorf("%q: form of %s(%d) is %v (%v), expected %d", formula, name, c.N, form, err, wantForm)
		}
		if form, err := custom.Evaluate(v); err != nil || int64(form) != abs%7 {
			return fmt.Errorf("n %% 7: form of %s(%d) is %v (%v), expected %d", name, c.N, form, err, abs%7)
		}
	}
	ctx.NonTrivialIf(len(g.Cats) > 1)
	ctx.LabelIf(c.N < 0, "negative")
	ctx.LabelIf(abs > 1<<31, "large")
	return nil
}

type operandCase struct {
	Num string `json:"num"`
}

func checkOperands(c operandCase, ctx *engine.Ctx) error {
	op, err := ref.OperandsOf(c.Num)
	if err != nil {
		return err
	}
	got, err := cldrplural.NewOperands(c.Num)
	if err != nil {
		return fmt.Errorf("NewOperands(%q): %v", c.Num, err)
	}
	n, _ := op.N.Float64()
	want := cldrplural.Operands{N: n, I: op.I.Num().Int64(), V: op.V, W: op.W, F: op.F.Num().Int64(), T: op.T.Num().Int64(), C: op.C}
	if *got != want {
		return fmt.Errorf("NewOperands(%q) = %+v, expected %+v", c.Num, *got, want)
	}
	ctx.NonTrivialIf(op.V > 0 || op.C > 0 || strings.HasPrefix(c.Num, "-"))
	ctx.LabelIf(op.C > 0, "compact")
	ctx.LabelIf(strings.HasPrefix(c.Num, "-"), "negative")
	// a float is the number with its shortest decimal digits
	if !strings.Contains(c.Num, "c") && op.V == op.W {
		v, err := strconv.ParseFloat(c.Num, 64)
		if err != nil {
			return err
		}
		gotF, err := cldrplural.NewOperands(v)
		if err != nil || *gotF != want {
			return fmt.Errorf("NewOperands(float64 %s) = %+v (%v), expected %+v", c.Num, gotF, err, want)
		}
		gotF, err = cldrplural.NewOperands(&v)
		if err != nil || *gotF != want {
			return fmt.Errorf("NewOperands(*float64 %s) = %+v (%v), expected %+v", c.Num, gotF, err, want)
		}
		f32 := float32(v)
		if short := strconv.FormatFloat(float64(f32), 'f', -1, 32); v != math.Trunc(v) && short == strconv.FormatFloat(v, 'f', -1, 64) {
			ctx.Label("float32")
			gotF, err = cldrplural.NewOperands(f32)
			if err != nil || *gotF != want {
				return fmt.Errorf("NewOperands(float32 %s) = %+v (%v), expected %+v", c.Num, gotF, err, want)
			}
		}
	}
	return nil
}

// genLongDecimal draws a decimal string with many digits or a large exponent.
func genLongDecimal(t *rapid.T) string {
	digits := func(name string, n int) string {
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(pick(t, name, "0", "0", "00", "000000", "1", "5", "9", "120", "987654321"))
		}
		return b.String()[:n]
	}
	s := pick(t, "sign", "", "", "", "-", "+")
	if chance(t, "compact", 30) {
		ip := pick(t, "first", "1", "2", "9", "12", "100")
		c := intR(t, "c", 8, 18-len(ip))
		s += ip
		if chance(t, "frac", 50) {
			s += "." + digits("f", intR(t, "nf", 1, 24))
		}
		return s + "c" + fmt.Sprint(c)
	}
	s += pick(t, "first", "0", "1", "2", "7", "10")
	if chance(t, "longInt", 40) {
		s = strings.TrimSuffix(s, "0") + "1" + digits("i", intR(t, "ni", 1, 16))
	}
	return s + "." + digits("f", intR(t, "nf", 14, 40))
}

// checkLongOperands: numbers of digits are always exact. The operands f and t are exact as far as an int64 can hold them,
// otherwise they are large and have the same last digits, which is what rules ask for.
func checkLongOperands(c operandCase, ctx *engine.Ctx) error {
	op, err := ref.OperandsOf(c.Num)
	if err != nil {
		return err
	}
	got, err := cldrplural.NewOperands(c.Num)
	if err != nil {
		return fmt.Errorf("NewOperands(%q): %v", c.Num, err)
	}
	n, _ := op.N.Float64()
	ctx.NonTrivial()
	ctx.LabelIf(op.C > 0, "compact")
	ctx.LabelIf(op.W > 18, "long fraction")
	if got.N != n || got.V != op.V || got.W != op.W || got.C != op.C || !op.I.Num().IsInt64() || got.I != op.I.Num().Int64() {
		return fmt.Errorf("NewOperands(%q) = %+v, expected n=%v i=%v v=%d w=%d c=%d", c.Num, *got, n, op.I.Num(), op.V, op.W, op.C)
	}
	for _, x := range []struct {
		name string
		got  int64
		want *big.Int
	}{{"f", got.F, op.F.Num()}, {"t", got.T, op.T.Num()}} {
		if x.want.IsInt64() && x.got == x.want.Int64() {
			continue
		}
		mod := big.NewInt(1_000_000_000)
		if x.want.IsInt64() || x.got < 1_000_000_000_000 || x.got%mod.Int64() != new(big.Int).Mod(x.want, mod).Int64() {
			return fmt.Errorf("NewOperands(%q): %s = %d, expected %v (or, if it is too large, its last digits)", c.Num, x.name, x.got, x.want)
		}
	}
	return nil
}

type floatCase struct {
	Bits uint64 `json:"bits"`
	Kind string `json:"kind"`
	Lang string `json:"lang"`
}

type structVal struct{ A int }

// checkAnyFloat: any float, of any size, gives a category of the language or
// (not a number) an error; never a panic, and the sign is irrelevant.
func checkAnyFloat(c floatCase, ctx *engine.Ctx) error {
	tag, ok := parseTag(c.Lang)
	if !ok {
		return nil
	}
	v := math.Float64frombits(c.Bits)
	rs, _ := cldrplural.ForLanguage(tag)
	fn, _ := poplural.ForLanguage(tag)
	pf, _, _ := gettextFor(tag)
	got, err := rs.Evaluate(v)
	neg, errN := rs.Evaluate(-v)
	form, errF := fn(v)
	formN, errFN := fn(-v)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		ctx.Label("not-finite")
		ctx.NonTrivial()
		if err == nil || errN == nil || errF == nil || errFN == nil {
			return fmt.Errorf("%s: %v is not a number but has category %v (%v) and form %d (%v)", c.Lang, v, got, err, form, errF)
		}
		return nil
	}
	ctx.NonTrivial()
	ctx.LabelIf(math.Abs(v) >= 1e18, "huge")
	ctx.LabelIf(math.Abs(v) < 1e-4 && v != 0, "tiny")
	if err != nil || errN != nil || errF != nil || errFN != nil {
		return fmt.Errorf("%s: float64 %v: errors %v %v %v %v", c.Lang, v, err, errN, errF, errFN)
	}
	if got != neg || form != formN {
		return fmt.Errorf("%s: %v gives %v/%d, its negative %v/%d", c.Lang, v, got, form, neg, formN)
	}
	if form < 0 || form >= pf.N {
		return fmt.Errorf("%s: form %d of %v is not one of %d", c.Lang, form, v, pf.N)
	}
	in := false
	for _, x := range rs.Categories {
		in = in || x == got
	}
	if !in {
		return fmt.Errorf("%s: category %v of %v is not one of %v", c.Lang, got, v, rs.Categories)
	}
	return nil
}

// hugeCase is an integer above 2^53.
type hugeCase struct {
	Lang string `json:"lang"`
	V    uint64 `json:"v"`
}

func genHuge(t *rapid.T) hugeCase {
	c := hugeCase{Lang: genVariant(t, cldrLangs)}
	switch intR(t, "kind", 0, 3) {
	case 0:
		c.V = rapid.Uint64Range(1<<53+1, math.MaxUint64).Draw(t, "v")
	case 1:
		c.V = math.MaxUint64 - uint64(sourceInt(t, "below", 3000))
	case 2:
		c.V = 1<<63 + uint64(intR(t, "around", -3000, 3000))
	default: // all digits are kept by a float64
		k := intR(t, "zeros", 4, 19)
		p10, p5 := uint64(1), uint64(1)
		for i := 0; i < k; i++ {
			p10, p5 = p10*10, p5*5
		}
		most := min(uint64(1<<53)/p5, math.MaxUint64/p10)
		c.V = p10 * rapid.Uint64Range(min(uint64(1<<53)/p10+1, most), most).Draw(t, "m")
	}
	return c
}

// checkHuge: integers that are larger than the integers of a float64 are still
// the same number in all representations, in size and, if a float64 has all
// their digits, in their last digits.
func checkHuge(c hugeCase, ctx *engine.Ctx) error {
	tag, ok := parseTag(c.Lang)
	if !ok || c.V <= 1<<53 {
		return nil
	}
	f := float64(c.V)
	dec := strconv.FormatUint(c.V, 10)
	exact := f < 1<<64 && uint64(f) == c.V && strconv.FormatFloat(f, 'f', -1, 64) == dec
	v := c.V
	reps := map[string]any{"uint64": v, "*uint64": &v, "namedUint64": namedUint64(v), "uint": uint(v), "uintptr": uintptr(v), "string": dec, "json.Number": json.Number(dec),
		"float64": f, "-float64": -f, "-string": "-" + dec, "namedFloat": namedFloat(f)}
	if c.V <= math.MaxInt64 {
		i := int64(c.V)
		reps["int64"], reps["int"], reps["-int64"], reps["Duration"] = i, int(i), -i, time.Duration(i)
	}
	g, _ := cldrFor(tag)
	rs, _ := cldrplural.ForLanguage(tag)
	pf, formula, _ := gettextFor(tag)
	fn, _ := poplural.ForLanguage(tag)
	parsed, err := poplural.Parse(formula)
	if err != nil {
		return fmt.Errorf("%q: %v", formula, err)
	}
	size, err := poplural.Parse("nplurals=5; plural=n == 0 ? 0 : n == 1 ? 1 : n < 1000000 ? 2 : n <= 2147483648 ? 3 : 4;")
	if err != nil {
		return err
	}
	var wantCat cldrplural.Category
	wantForm := 0
	if exact {
		op, err := ref.OperandsOf(dec)
		if err != nil {
			return err
		}
		wantCat = toCat(g.Category(op))
		n := c.V
		if n > math.MaxInt64 {
			n = 1e18 + n%1e18
		}
		z := false
		wantForm = int(pf.E.Eval(int64(n), &z))
	}
	ctx.NonTrivial()
	ctx.LabelIf(exact, "all digits")
	ctx.LabelIf(c.V > math.MaxInt64, "no int64")
	for _, name := range sortedKeys(reps) {
		rep := reps[name]
		ops, err := cldrplural.NewOperands(rep)
		if err != nil {
			return fmt.Errorf("NewOperands(%s(%s)): %v", name, dec, err)
		}
		if math.Abs(ops.N-f) > f*1e-12 || ops.I < 1<<53 || ops.V != 0 || ops.W != 0 || ops.F != 0 || ops.T != 0 || ops.C != 0 {
			return fmt.Errorf("NewOperands(%s(%s)) = %+v", name, dec, *ops)
		}
		cat, err := rs.Evaluate(rep)
		if err != nil || !slices.Contains(rs.Categories, cat) || exact && cat != wantCat {
			return fmt.Errorf("%s: category of %s(%s) is %v (%v), expected %v (%v)", c.Lang, name, dec, cat, err, wantCat, exact)
		}
		if form, err := size.Evaluate(rep); err != nil || form != 4 {
			return fmt.Errorf("the size of %s(%s) is %d (%v)", name, dec, form, err)
		}
		for _, eval := range []func(any) (int, error){fn, parsed.Evaluate} {
			form, err := eval(rep)
			if err != nil || form < 0 || form >= pf.N || exact && form != wantForm {
				return fmt.Errorf("%q: form of %s(%s) is %v (%v), expected %d (%v)", formula, name, dec, form, err, wantForm, exact)
			}
		}
	}
	return nil
}

type notNumCase struct {
	Kind int    `json:"kind"`
	S    string `json:"s"`
	Lang string `json:"lang"`
}

func notNumber(c notNumCase) (any, string) {
	var np *int
	var npp **int = &np
	switch c.Kind {
	case 0:
		return nil, "nil"
	case 1:
		return np, "nil *int"
	case 2:
		return npp, "**int to nil"
	case 3:
		return true, "bool"
	case 4:
		return structVal{5}, "struct"
	case 5:
		return []int{5}, "slice"
	case 6:
		return map[string]int{"a": 1}, "map"
	case 7:
		return func() {}, "func"
	case 8:
		return make(chan int), "chan"
	case 9:
		return &structVal{5}, "*struct"
	case 10:
		return [2]int{1, 2}, "array"
	case 11:
		var p *string
		return p, "nil *string"
	case 12:
		return math.NaN(), "NaN"
	case 13:
		return float32(math.Inf(1)), "Inf"
	case 14:
		return "NaN", "string NaN"
	case 15:
		return "-Inf", "string Inf"
	case 25:
		return unsafe.Pointer(new(int)), "unsafe.Pointer"
	case 26:
		ch := make(chan int)
		return &ch, "*chan"
	}
	return c.S, fmt.Sprintf("string %q", c.S)
}

func genNotNum(t *rapid.T) notNumCase {
	c := notNumCase{Kind: intR(t, "kind", 0, 26), Lang: pick(t, "lang", "en", "ar", "ru", "ja")}
	if c.Kind > 15 && c.Kind < 25 {
		c.S = rapid.OneOf(
			rapid.SampledFrom([]string{"", " ", "abc", "1,5", "five", "-", ".", "1.2.3", "--5", "c", "1c", "c5", "1cx", "5%", "1 000", "\x00", "١٢", "1..2", "n"}),
			rapid.StringMatching(`[a-bd-mo-z]{1,6}`),
			rapid.StringMatching(`[0-9]{1,3}[a-bg-hj-m ,;/]{1,2}[0-9]{0,3}`),
		).Draw(t, "s")
	}
	return c
}

func checkNotNum(c notNumCase, ctx *engine.Ctx) error {
	tag, _ := parseTag(c.Lang)
	v, name := notNumber(c)
	rs, _ := cldrplural.ForLanguage(tag)
	fn, _ := poplural.ForLanguage(tag)
	ctx.NonTrivial()
	ctx.Label(strings.Fields(name)[0])
	if got, err := rs.Evaluate(v); err == nil {
		return fmt.Errorf("%s is not a number but gets category %v", name, got)
	}
	if _, err := cldrplural.NewOperands(v); err == nil {
		return fmt.Errorf("NewOperands(%s): no error", name)
	}
	if got, err := fn(v); err == nil {
		return fmt.Errorf("%s is not a number but gets form %v", name, got)
	}
	return nil
}

// ---------------------------------------------------------------- C32

type formCase struct {
	Lang string `json:"lang"`
	N    int64  `json:"n"`
}

func checkForm(c formCase, ctx *engine.Ctx) error {
	tag, ok := parseTag(c.Lang)
	if !ok {
		return nil
	}
	pf, formula, found := gettextFor(tag)
	fn, ok := poplural.ForLanguage(tag)
	if ok != found {
		return fmt.Errorf("ForLanguage(%s): found=%v, expected %v", c.Lang, ok, found)
	}
	abs := c.N
	if abs < 0 {
		abs = -abs
	}
	z := false
	want := int(pf.E.Eval(abs, &z))
	got, err := fn(c.N)
	if err != nil {
		return fmt.Errorf("%s: form of %d: %v", c.Lang, c.N, err)
	}
	if got != want || got >= pf.N {
		return fmt.Errorf("%s: form of %d is %d, formula %q gives %d", c.Lang, c.N, got, formula, want)
	}
	rule, err := poplural.Parse(formula)
	if err != nil {
		return fmt.Errorf("formula %q: %v", formula, err)
	}
	if got, err := rule.Evaluate(c.N); err != nil || got != want || rule.NPlurals != pf.N {
		return fmt.Errorf("header %q: form of %d is %d (%v), expected %d; nplurals %d", formula, c.N, got, err, want, rule.NPlurals)
	}
	ctx.NonTrivialIf(pf.N > 1 && found)
	ctx.Label(fmt.Sprintf("form-%d", want))
	return nil
}

func checkFormSweep(c catSweep, ctx *engine.Ctx) error {
	for n := int64(0); n <= 1200; n++ {
		if err := checkForm(formCase{c.Lang, n}, &engine.Ctx{}); err != nil {
			return err
		}
	}
	for _, b := range []int64{10000, 20000, 40000, 60000, 80000, 99999, 100000, 200000, 999900, 1000000, 1100000, 2000000, 3000000, 1 << 31, 1 << 40, maxExact - 200} {
		for d := int64(0); d <= 130; d++ {
			if err := checkForm(formCase{c.Lang, b + d}, &engine.Ctx{}); err != nil {
				return err
			}
		}
	}
	for n := int64(-30); n < 0; n++ {
		if err := checkForm(formCase{c.Lang, n}, &engine.Ctx{}); err != nil {
			return err
		}
	}
	ctx.NonTrivial()
	ctx.Label("languages(x3300 numbers)")
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C05", QuickTimes: 8, ThoroughTimes: 8,
		Rule: "a case is a Plural-Forms header: a random expression tree, or a published formula respaced, rebracketed or mutated, rendered from the tree; " +
			"every n in 0..129 and 8 drawn n up to 2^53 are compared with a C evaluation of the tree (remainders by zero skipped). Non-trivial: the expected form is not the same for all n.",
		Assumptions: []string{"n up to 2^53", "header ends in ';' as the parser requires"},
		Parts: []*engine.Part{
			engine.Gen("expr", 60000, 3000000, genExprCase, checkExpr),
			engine.Gen("malformed", 40000, 1500000, genHeaderText, checkHeaderText),
			engine.List("known formulas", func(string) []exprCase {
				var out []exprCase
				for _, f := range formulaList {
					pf := parsedForms[f]
					c := exprCase{NPlurals: pf.N, Expr: cloneExpr(pf.E), Kind: "known-formula", Pre: 4}
					for n := int64(130); n < 1100; n++ {
						c.Ns = append(c.Ns, n)
					}
					for _, n := range dictInts {
						c.Ns = append(c.Ns, n, n-1, n+1)
					}
					walkExpr(c.Expr, func(e *ref.Expr) { e.W = [4]int8{1, 1, 1, 1} })
					out = append(out, c)
				}
				return out
			}, checkExpr),
		},
	})
	engine.Register(&engine.Prop{
		ID: "C06", QuickTimes: 5, ThoroughTimes: 12,
		Rule: "sweep: every language of the published table with about 2500 numbers; random: (language or a regional, script or unknown variant, decimal string) compared with an exact rational evaluation of the published rule text. " +
			"Non-trivial: the language has its own rules with more than one category (each sweep counts once).",
		Assumptions: []string{"published rules: frozen table harness/ref/data/cldr.json (CLDR rule texts)", "decimals of at most 15 significant digits"},
		Parts: []*engine.Part{
			engine.List("sweep", func(string) []catSweep {
				var out []catSweep
				for _, l := range cldrLangs {
					out = append(out, catSweep{l})
				}
				return out
			}, checkCatSweep),
			engine.Gen("random", 200000, 8000000, func(t *rapid.T) catCase { return catCase{genVariant(t, cldrLangs), genDecimal(t)} }, checkCat),
		},
	})
	engine.Register(&engine.Prop{
		ID: "C07", QuickTimes: 4, ThoroughTimes: 2,
		Rule:        "a case is a set of random rules (up to five categories, or/and of relations over all operands with modulo and range lists, random white space, samples) and 22 numbers; the parsed set is evaluated and compared with an exact evaluation of the rule trees, three parses per case. Numbers for which several rules hold are skipped. malformed: valid rules with up to three edits of their tokens; what is accepted must be a rule under a generous reading, with its value. Non-trivial: some number satisfies exactly one rule; every damaged text.",
		Assumptions: []string{"tokens separated by white space, as in the CLDR data"},
		Parts: []*engine.Part{engine.Gen("rules", 16000, 1500000, genRuleCase, checkRuleCase),
			engine.Gen("malformed", 60000, 4000000, genRuleText, checkRuleText)},
	})
	engine.Register(&engine.Prop{
		ID:         "C08",
		QuickTimes: 8, ThoroughTimes: 12,
		Rule: "repr: an integer in up to 30 Go representations; operands: decimal strings against exact operands (and the float of the same digits); longdigits: decimal strings with up to 40 fraction digits or exponents up to 17; floats: any float64; huge: integers from 2^53 to 2^64 in up to 15 representations, their size and, where a float64 has all digits, their category and form; notnum: values that are not numbers. Non-trivial: language with several categories; a number with fraction, exponent or sign; every float and non-number.",
		Assumptions: []string{
			"integers up to 2^53 (or with as many zeros at the end that a float64 has all digits), decimals up to 15 significant digits for exact operands (of longer fractions: the numbers of digits and the last digits); larger magnitudes only need a valid category and their size"},
		Parts: []*engine.Part{
			engine.Gen("repr", 15000, 500000, func(t *rapid.T) reprCase {
				n := genCount(t)
				if chance(t, "negative", 35) {
					n = -n
				}
				return reprCase{genVariant(t, cldrLangs), n}
			}, checkRepr),
			engine.Gen("operands", 100000, 4000000, func(t *rapid.T) operandCase { return operandCase{genDecimal(t)} }, checkOperands),
			engine.Gen("longdigits", 20000, 1000000, func(t *rapid.T) operandCase { return operandCase{genLongDecimal(t)} }, checkLongOperands),
			engine.Gen("floats", 60000, 2000000, func(t *rapid.T) floatCase {
				var v float64
				switch intR(t, "kind", 0, 3) {
				case 0:
					v = rapid.Float64().Draw(t, "f")
				case 1:
					v = math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
				case 2:
					v = pick(t, "special", math.NaN(), math.Inf(1), math.Inf(-1), 1e18, 9.2e18, 1e19, 1e20, 1e21, 1.5e21, 1e22, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-5, 1e-7, 1.5e-7, math.Copysign(0, -1), 0.1+0.2, 1.0/3)
				default:
					v = float64(intR(t, "m", 1, 999)) * math.Pow(10, float64(intR(t, "e", -30, 30)))
				}
				return floatCase{Bits: math.Float64bits(v), Lang: genVariant(t, cldrLangs)}
			}, checkAnyFloat),
			engine.Gen("huge", 8000, 400000, genHuge, checkHuge),
			engine.Gen("notnum", 10000, 200000, genNotNum, checkNotNum),
		},
	})
	engine.Register(&engine.Prop{
		ID: "C32", QuickTimes: 3, ThoroughTimes: 5,
		Rule: "sweep: every language of the published gettext table with about 3300 integers; random: (language or variant, integer). The form of ForLanguage and of the parsed formula are compared with a C evaluation of the published formula text. " +
			"Non-trivial: more than one form and own rule (each sweep counts once).",
		Assumptions: []string{"published formulas: frozen table harness/ref/data/gettext.json", "integers up to 2^53"},
		Parts: []*engine.Part{
			engine.List("sweep", func(string) []catSweep {
				var out []catSweep
				for _, l := range gettextLangs {
					out = append(out, catSweep{l})
				}
				return out
			}, checkFormSweep),
			engine.Gen("random", 150000, 6000000, func(t *rapid.T) formCase {
				n := genCount(t)
				if chance(t, "negative", 10) {
					n = -n
				}
				return formCase{genVariant(t, gettextLangs), n}
			}, checkForm),
		},
	})
}
