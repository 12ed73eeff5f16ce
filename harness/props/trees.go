package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	cldrast "github.com/vorlif/spreak/catalog/cldrplural/ast"
	poast "github.com/vorlif/spreak/catalog/poplural/ast"

	"verif/harness/engine"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C37
//
// Everything that is derived from the text of a plural rule has the meaning of
// the text: the exported trees, the canonical text, and the Go code that the
// generators of the built-in tables write.

// evalPoTree evaluates an exported gettext tree with C semantics.
func evalPoTree(node poast.Node, n int64, zero *bool) (int64, error) {
	switch v := node.(type) {
	case nil:
		return 0, nil
	case *poast.ValueExpr:
		return v.Value, nil
	case *poast.OperandExpr:
		return n, nil
	case *poast.QuestionMarkExpr:
		c, err := evalPoTree(v.Cond, n, zero)
		if err != nil {
			return 0, err
		}
		if c != 0 {
			return evalPoTree(v.T, n, zero)
		}
		return evalPoTree(v.F, n, zero)
	case *poast.BinaryExpr:
		a, err := evalPoTree(v.X, n, zero)
		if err != nil {
			return 0, err
		}
		bo := func(b bool) (int64, error) {
			if b {
				return 1, nil
			}
			return 0, nil
		}
		if v.Op == poast.LogicalAnd && a == 0 {
			return 0, nil
		}
		if v.Op == poast.LogicalOr && a != 0 {
			return 1, nil
		}
		b, err := evalPoTree(v.Y, n, zero)
		if err != nil {
			return 0, err
		}
		switch v.Op {
		case poast.LogicalAnd, poast.LogicalOr:
			return bo(b != 0)
		case poast.Equal:
			return bo(a == b)
		case poast.NotEqual:
			return bo(a != b)
		case poast.Greater:
			return bo(a > b)
		case poast.GreaterOrEqual:
			return bo(a >= b)
		case poast.Less:
			return bo(a < b)
		case poast.LessOrEqual:
			return bo(a <= b)
		case poast.Reminder:
			if b == 0 {
				*zero = true
				return 0, nil
			}
			return a % b, nil
		}
		return 0, fmt.Errorf("unknown operator %q in the tree", v.Op)
	}
	return 0, fmt.Errorf("unknown node %T in the tree", node)
}

// plainExpr is the expression with one blank around every operator.
func plainExpr(e *ref.Expr) *ref.Expr {
	c := cloneExpr(e)
	walkExpr(c, func(x *ref.Expr) { x.W = [4]int8{1, 1, 1, 1} })
	return c
}

func checkPoTree(c exprCase, ctx *engine.Ctx) error {
	h := c.header()
	ctx.Label(c.Kind)
	forms, err := poast.Parse(h)
	if err != nil {
		return fmt.Errorf("header %q rejected: %v", h, err)
	}
	if forms.NPlurals != c.NPlurals {
		return fmt.Errorf("header %q: NPlurals %d", h, forms.NPlurals)
	}
	text := poast.CompileToString(forms)
	again, err := poast.Parse(text)
	if err != nil {
		return fmt.Errorf("header %q: its canonical text %q is rejected: %v", h, text, err)
	}
	if again.NPlurals != c.NPlurals {
		return fmt.Errorf("header %q: canonical text %q has NPlurals %d", h, text, again.NPlurals)
	}
	if t2 := poast.CompileToString(forms); t2 != text {
		return fmt.Errorf("header %q: canonical text %q, and %q the second time", h, text, t2)
	}
	plain := exprCase{NPlurals: c.NPlurals, Expr: plainExpr(c.Expr), Pre: 4}
	pf, err := poast.Parse(plain.header())
	if err != nil {
		return fmt.Errorf("header %q rejected: %v", plain.header(), err)
	}
	if t2 := poast.CompileToString(pf); t2 != text {
		return fmt.Errorf("%q and %q differ in blanks only, but their canonical texts are %q and %q", h, plain.header(), text, t2)
	}
	// the canonical text read by the reference parser, too
	rf, err := ref.ParsePluralForms(text)
	if err != nil {
		return fmt.Errorf("header %q: canonical text %q is not a valid header: %v", h, text, err)
	}
	if rf.N != c.NPlurals {
		return fmt.Errorf("header %q: canonical text %q", h, text)
	}
	first, varies := int64(-1), false
	run := func(n int64) error {
		zero := false
		want := c.Expr.Eval(n, &zero)
		if zero {
			return nil
		}
		z := false
		for i, root := range []poast.Node{forms.Root, again.Root} {
			got, err := evalPoTree(root, n, &z)
			if err != nil {
				return fmt.Errorf("header %q: %v", h, err)
			}
			if got != want || z {
				return fmt.Errorf("header %q, n=%d: the tree of %s gives %d, C semantics give %d (canonical text %q)", h, n, []string{"the header", "the canonical text"}[i], got, want, text)
			}
		}
		if got := rf.E.Eval(n, &z); got != want || z {
			return fmt.Errorf("header %q, n=%d: canonical text %q means %d, the header %d", h, n, text, got, want)
		}
		if first < 0 {
			first = want
		} else if want != first {
			varies = true
		}
		return nil
	}
	for n := int64(0); n < 130; n++ {
		if err := run(n); err != nil {
			return err
		}
	}
	for _, n := range c.Ns {
		if err := run(n); err != nil {
			return err
		}
	}
	ctx.NonTrivialIf(varies)
	return nil
}

// ------------------------------------------------------------ CLDR trees

type sampleItem struct {
	From string `json:"from"`
	To   string `json:"to,omitempty"` // a range
	Gap  int8   `json:"gap"`
}

type cldrTreeCase struct {
	Or       [][]ref.Relation `json:"or"` // empty: the rule of "other"
	Style    []int8           `json:"style"`
	Integer  []sampleItem     `json:"integer"`
	Decimal  []sampleItem     `json:"decimal"`
	Ellipsis [2]string        `json:"ellipsis"`
	Stop     int              `json:"stop"` // Inspect does not descend below this node
}

func genSampleItem(t *rapid.T, decimal bool) sampleItem {
	it := sampleItem{Gap: int8(intR(t, "gap", 0, 5))}
	digits := 0
	if decimal {
		digits = intR(t, "digits", 1, 3)
	}
	from := int64(pick(t, "base", 0, 1, 2, 9, 10, 11, 99, 100, 995, 1000, 10000, 1000000) + intR(t, "plus", 0, 25))
	if chance(t, "compact", 10) {
		it.From = fmt.Sprintf("%dc%d", 1+from%9, intR(t, "exp", 1, 9))
		if decimal {
			it.From = fmt.Sprintf("%d.%dc%d", 1+from%9, from, intR(t, "exp", 1, 9))
		}
		return it
	}
	format := func(v int64) string {
		s := fmt.Sprintf("%0*d", digits+1, v)
		if digits == 0 {
			return s
		}
		return s[:len(s)-digits] + "." + s[len(s)-digits:]
	}
	it.From = format(from)
	if chance(t, "range", 50) {
		n := int64(intR(t, "len", 1, 30))
		if chance(t, "long", 15) {
			n = int64(intR(t, "len", 100, 900))
		}
		if chance(t, "huge", 3) {
			n = int64(intR(t, "len", 2000, 3000))
		}
		it.To = format(from + n)
	}
	return it
}

// expand lists the samples of an item: a range counts up in its last digit.
func (it sampleItem) expand() []string {
	if it.To == "" {
		return []string{it.From}
	}
	_, frac, has := strings.Cut(it.From, ".")
	a, _ := new(big.Int).SetString(strings.Replace(it.From, ".", "", 1), 10)
	b, _ := new(big.Int).SetString(strings.Replace(it.To, ".", "", 1), 10)
	var out []string
	for v := new(big.Int).Set(a); v.Cmp(b) <= 0; v.Add(v, big.NewInt(1)) {
		s := v.String()
		for len(s) < len(frac)+1 {
			s = "0" + s
		}
		if has {
			s = s[:len(s)-len(frac)] + "." + s[len(s)-len(frac):]
		}
		out = append(out, s)
	}
	return out
}

func genCldrTree(t *rapid.T) cldrTreeCase {
	c := cldrTreeCase{}
	if !chance(t, "noCondition", 10) {
		for i := intR(t, "ors", 1, 4); i > 0; i-- {
			var conj []ref.Relation
			for j := intR(t, "ands", 1, 4); j > 0; j-- {
				conj = append(conj, genRelation(t))
			}
			c.Or = append(c.Or, conj)
		}
	}
	for i := 0; i < 24; i++ {
		c.Style = append(c.Style, int8(intR(t, "style", 0, 11)))
	}
	for i := intR(t, "integers", 0, 4); i > 0; i-- {
		c.Integer = append(c.Integer, genSampleItem(t, false))
	}
	for i := intR(t, "decimals", 0, 3); i > 0; i-- {
		c.Decimal = append(c.Decimal, genSampleItem(t, true))
	}
	if len(c.Or) == 0 && len(c.Integer) == 0 && len(c.Decimal) == 0 {
		c.Integer = []sampleItem{{From: "1"}}
	}
	for i := range c.Ellipsis {
		c.Ellipsis[i] = pick(t, "ellipsis", "", ", …", ", ...")
	}
	c.Stop = intR(t, "stop", 0, 12)
	return c
}

func styler(style []int8) func(n int) int {
	k := 0
	return func(n int) int {
		if len(style) == 0 {
			return 0
		}
		v := int(style[k%len(style)]) % n
		k++
		return v
	}
}

func (c cldrTreeCase) text() string {
	s := renderRule(c.Or, styler(c.Style))
	list := func(kind string, items []sampleItem, ellipsis string) {
		if len(items) == 0 {
			return
		}
		if s != "" {
			s += " "
		}
		s += "@" + kind
		for i, it := range items {
			if i > 0 {
				s += ","
			}
			s += " " + it.From
			if it.To != "" {
				s += []string{"~", "~", "~", " ~ ", "~", "~"}[it.Gap%6] + it.To
			}
			if it.Gap == 4 {
				s += " "
			}
		}
		s += ellipsis
	}
	list("integer", c.Integer, c.Ellipsis[0])
	list("decimal", c.Decimal, c.Ellipsis[1])
	return s
}

// relations turns an exported tree into a list of alternatives. A tree in
// which an "and" stands above an "or" does not follow the grammar.
func relations(node cldrast.Node) ([][]ref.Relation, error) {
	switch v := node.(type) {
	case *cldrast.BinaryExpr:
		a, err := relations(v.X)
		if err != nil {
			return nil, err
		}
		b, err := relations(v.Y)
		if err != nil {
			return nil, err
		}
		switch v.Op {
		case cldrast.Or:
			return append(append([][]ref.Relation{}, a...), b...), nil
		case cldrast.And:
			if len(a) != 1 || len(b) != 1 {
				return nil, fmt.Errorf("an \"or\" below an \"and\"")
			}
			return [][]ref.Relation{append(append([]ref.Relation{}, a[0]...), b[0]...)}, nil
		}
		return nil, fmt.Errorf("operator %v", v.Op)
	case *cldrast.InRelationExpr:
		r := ref.Relation{}
		switch x := v.X.(type) {
		case *cldrast.OperandExpr:
			r.Op = x.Operand
		case *cldrast.ModuloExpr:
			if x.Op == nil || x.Value == 0 {
				return nil, fmt.Errorf("incomplete remainder")
			}
			r.Op, r.Mod = x.Op.Operand, x.Value
		default:
			return nil, fmt.Errorf("left side %T", v.X)
		}
		switch v.Op {
		case cldrast.Equal:
		case cldrast.NotEqual:
			r.Neg = true
		default:
			return nil, fmt.Errorf("relation %v", v.Op)
		}
		var items func(n cldrast.Node) error
		items = func(n cldrast.Node) error {
			switch x := n.(type) {
			case *cldrast.RangeListExpr:
				if err := items(x.X); err != nil || x.Y == nil {
					return err
				}
				return items(x.Y)
			case *cldrast.ValueExpr:
				r.Ranges = append(r.Ranges, [2]int64{x.Value, x.Value})
			case *cldrast.RangeExpr:
				r.Ranges = append(r.Ranges, [2]int64{x.From, x.To})
			default:
				return fmt.Errorf("range list contains %T", n)
			}
			return nil
		}
		if v.Y == nil {
			return nil, fmt.Errorf("no range list")
		}
		if err := items(v.Y); err != nil {
			return nil, err
		}
		return [][]ref.Relation{{r}}, nil
	}
	return nil, fmt.Errorf("node %T", node)
}

// children lists the direct children of a node.
func children(node cldrast.Node) []cldrast.Node {
	switch v := node.(type) {
	case *cldrast.BinaryExpr:
		return []cldrast.Node{v.X, v.Y}
	case *cldrast.InRelationExpr:
		return []cldrast.Node{v.X, v.Y}
	case *cldrast.ModuloExpr:
		return []cldrast.Node{v.Op}
	case *cldrast.RangeListExpr:
		if v.Y == nil {
			return []cldrast.Node{v.X}
		}
		return []cldrast.Node{v.X, v.Y}
	}
	return nil
}

type recorder struct {
	log *[]cldrast.Node
	cut cldrast.Node
}

func (r recorder) Visit(n cldrast.Node) cldrast.Visitor {
	*r.log = append(*r.log, n)
	if n != nil && n == r.cut {
		return nil
	}
	return r
}

func checkWalk(root cldrast.Node, stop int) error {
	var all []cldrast.Node
	var collect func(n cldrast.Node)
	collect = func(n cldrast.Node) {
		all = append(all, n)
		for _, ch := range children(n) {
			collect(ch)
		}
	}
	collect(root)
	cuts := []cldrast.Node{nil}
	if stop < len(all) {
		cuts = append(cuts, all[stop])
	}
	for _, cut := range cuts {
		var want []cldrast.Node
		var visit func(n cldrast.Node)
		visit = func(n cldrast.Node) {
			want = append(want, n)
			if n == cut {
				return
			}
			for _, ch := range children(n) {
				visit(ch)
			}
			want = append(want, nil)
		}
		visit(root)
		var walked, inspected []cldrast.Node
		cldrast.Walk(recorder{&walked, cut}, root)
		cldrast.Inspect(root, func(n cldrast.Node) bool {
			inspected = append(inspected, n)
			return n == nil || n != cut
		})
		for i, got := range [][]cldrast.Node{walked, inspected} {
			if len(got) != len(want) {
				return fmt.Errorf("%s: %d visits, expected %d", []string{"Walk", "Inspect"}[i], len(got), len(want))
			}
			for k := range got {
				if got[k] != want[k] {
					return fmt.Errorf("%s: visit %d is %T, expected %T", []string{"Walk", "Inspect"}[i], k, got[k], want[k])
				}
			}
		}
	}
	return nil
}

func checkCldrTree(c cldrTreeCase, ctx *engine.Ctx) error {
	text := c.text()
	rule, err := cldrast.Parse(text)
	if err != nil {
		return fmt.Errorf("rule %q rejected: %v", text, err)
	}
	var want []string
	huge := false
	for _, it := range append(append([]sampleItem{}, c.Integer...), c.Decimal...) {
		ex := it.expand()
		if len(ex) > 1001 {
			huge = true
			ex = []string{it.From, it.To}
		}
		want = append(want, ex...)
	}
	if strings.Join(rule.Samples, " ") != strings.Join(want, " ") || len(rule.Samples) != len(want) {
		return fmt.Errorf("rule %q: samples %s, expected %s", text, clip(fmt.Sprintf("%q", rule.Samples), 600), clip(fmt.Sprintf("%q", want), 600))
	}
	ctx.LabelIf(huge, "range-too-large-to-expand")
	ctx.LabelIf(len(want) > 0, "samples")
	if len(c.Or) == 0 {
		if rule.Root != nil {
			return fmt.Errorf("rule %q: it has no condition, but a tree", text)
		}
		ctx.Label("no-condition")
		return nil
	}
	got, err := relations(rule.Root)
	if err != nil {
		return fmt.Errorf("rule %q: tree: %v", text, err)
	}
	if fmt.Sprint(got) != fmt.Sprint(c.Or) {
		return fmt.Errorf("rule %q: the tree says %v, the text %v", text, got, c.Or)
	}
	if err := checkWalk(rule.Root, c.Stop); err != nil {
		return fmt.Errorf("rule %q: %v", text, err)
	}
	ctx.NonTrivialIf(len(c.Or) > 1 || len(c.Or[0]) > 1)
	ctx.LabelIf(len(c.Or) > 1, "alternatives")
	return nil
}

// ------------------------------------------------------------ generators

type (
	evalRequest struct {
		Kind string   `json:"kind"`
		Lang string   `json:"lang"`
		Nums []string `json:"nums"`
		Ns   []int64  `json:"ns"`
	}
	evalAnswer struct {
		Found   bool     `json:"found"`
		Error   string   `json:"error"`
		Cats    []string `json:"cats"`
		N       int      `json:"n"`
		Answers []string `json:"answers"`
	}
)

// generate runs a generator twice on the table and asks a program that is
// linked with its output.
func generate(which, table string, reqs []evalRequest) ([]evalAnswer, error) {
	work, src, harness := os.Getenv("PBT_BUILD"), os.Getenv("PBT_SRC"), os.Getenv("PBT_HARNESS")
	if work == "" || src == "" || harness == "" {
		return nil, fmt.Errorf("PBT_BUILD, PBT_SRC and PBT_HARNESS have to be set (see check.sh)")
	}
	src, err := filepath.Abs(src)
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "gen-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	overlay := map[string]string{}
	var first map[string]string
	for pass := 0; pass < 2; pass++ {
		base := filepath.Join(dir, fmt.Sprint("pass", pass))
		if err := os.MkdirAll(filepath.Join(base, "generator"), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(base, "generator", "plurals.json"), []byte(table), 0o644); err != nil {
			return nil, err
		}
		cmd := exec.CommandContext(cx, filepath.Join(work, "gen-"+which))
		cmd.Dir = filepath.Join(base, "generator")
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("the generator fails for the table\n%s\n%v: %s", table, err, clip(string(out), 2000))
		}
		files := map[string]string{}
		names, err := filepath.Glob(filepath.Join(base, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range names {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			files[filepath.Base(f)] = string(b)
			if !strings.HasSuffix(f, "_test.go") {
				overlay[filepath.Join(src, "catalog", which+"plural", filepath.Base(f))] = f
			}
		}
		if pass == 0 {
			first = files
			continue
		}
		for _, f := range sortedKeys(files) {
			if files[f] != first[f] {
				return nil, fmt.Errorf("two runs of the generator on the same table write different %s; the table is\n%s", f, table)
			}
		}
	}
	if len(overlay) == 0 {
		return nil, fmt.Errorf("the generator wrote no code")
	}
	ob, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ob, 0o644); err != nil {
		return nil, err
	}
	exe := filepath.Join(dir, "geneval")
	cmd := exec.CommandContext(cx, "go", "build", "-modfile", filepath.Join(work, "go.mod"), "-overlay", filepath.Join(dir, "overlay.json"), "-ldflags=-s -w", "-o", exe, "./cmd/geneval")
	cmd.Dir = harness
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("the generated code does not compile: %s\ntable:\n%s", clip(string(out), 2000), table)
	}
	in, _ := json.Marshal(reqs)
	cmd = exec.CommandContext(cx, exe)
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("program with the generated code: %v\ntable:\n%s", err, table)
	}
	var ans []evalAnswer
	if err := json.Unmarshal(out, &ans); err != nil {
		return nil, err
	}
	if len(ans) != len(reqs) {
		return nil, fmt.Errorf("%d answers to %d requests", len(ans), len(reqs))
	}
	return ans, nil
}

type cldrGroup struct {
	Langs []string                    `json:"langs"`
	Rules map[string][][]ref.Relation `json:"rules"`
	Texts map[string]string           `json:"texts,omitempty"` // instead of Rules
}

type cldrTableCase struct {
	Groups []cldrGroup `json:"groups"`
	Style  []int8      `json:"style"`
	Nums   []string    `json:"nums"`
}

// ruleLangs are the languages a table can be made for. No two of them have the
// same canonical tag; ruleAliases are other names of a tag.
var (
	ruleLangs   []string
	ruleAliases = map[string][]string{}
)

func init() {
	seen := map[string]bool{"en": true, "und": true}
	add := func(l string) {
		tag, err := language.Parse(l)
		if err != nil || strings.Contains(l, "_") {
			return
		}
		c := tag.String()
		if c != l {
			ruleAliases[c] = append(ruleAliases[c], l)
		}
		if !seen[c] {
			seen[c] = true
			ruleLangs = append(ruleLangs, c)
		}
	}
	for _, g := range ref.CldrGroups {
		for _, l := range g.Langs {
			add(l)
		}
	}
	for _, l := range sortedKeys(ref.GettextByLang) {
		add(l)
	}
	for _, l := range []string{"pt-PT", "es-419", "zh-Hant", "sr-Latn", "de-AT", "en-GB", "fr-CA", "in", "iw", "ji", "jw", "mo", "sh", "tl", "zh-hant", "pt-pt"} {
		add(l)
	}
}

// genRuleLangs draws languages, some of them under another name.
func genRuleLangs(t *rapid.T) []string {
	langs := append([]string{}, subset(t, "langs", 25, ruleLangs)...)
	for i, l := range langs {
		if a := ruleAliases[l]; len(a) > 0 && chance(t, "alias", 50) {
			langs[i] = a[intR(t, "which", 0, len(a)-1)]
		}
	}
	return langs
}

func cloneRules(m map[string][][]ref.Relation) map[string][][]ref.Relation {
	out := map[string][][]ref.Relation{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func genCldrTable(t *rapid.T) cldrTableCase {
	c := cldrTableCase{}
	langs := genRuleLangs(t)
	for len(langs) > 0 {
		k := min(len(langs), 1+intR(t, "share", 0, 2))
		g := cldrGroup{Langs: append([]string{}, langs[:k]...), Rules: map[string][][]ref.Relation{}}
		langs = langs[k:]
		if len(c.Groups) > 0 && chance(t, "like", 20) {
			// the rules of an earlier group, one of them for another category
			g.Rules = cloneRules(c.Groups[intR(t, "which", 0, len(c.Groups)-1)].Rules)
			from, to := pick(t, "from", ref.CatNames[:5]...), pick(t, "to", ref.CatNames[:5]...)
			if r, ok := g.Rules[from]; ok && g.Rules[to] == nil {
				delete(g.Rules, from)
				g.Rules[to] = r
			}
			c.Groups = append(c.Groups, g)
			continue
		}
		for _, cat := range subset(t, "cat", 45, ref.CatNames[:5]) {
			var or [][]ref.Relation
			for i := intR(t, "ors", 1, 3); i > 0; i-- {
				var conj []ref.Relation
				for j := intR(t, "ands", 1, 3); j > 0; j-- {
					conj = append(conj, genRelation(t))
				}
				or = append(or, conj)
			}
			g.Rules[cat] = or
		}
		c.Groups = append(c.Groups, g)
	}
	for i := 0; i < 24; i++ {
		c.Style = append(c.Style, int8(intR(t, "style", 0, 11)))
	}
	for i := 0; i < 30; i++ {
		c.Nums = append(c.Nums, genDecimal(t))
	}
	return c
}

// The English rules of every table use all helpers, so that the generated
// file needs its imports.
var anchorRules = map[string]string{"one": "n % 7 = 1", "many": "i % 7 = 2,3,5,6"}

func checkCldrTable(c cldrTableCase, ctx *engine.Ctx) error {
	next := styler(c.Style)
	groups := append([]cldrGroup{{Langs: []string{"en"}, Texts: anchorRules}}, c.Groups...)
	table := map[string]map[string]string{}
	// equal rules have to be spelled in the same way
	spelled := map[string]string{}
	for _, g := range groups {
		entry := map[string]string{}
		for cat, or := range g.Rules {
			key := fmt.Sprint(or)
			if spelled[key] == "" {
				spelled[key] = renderRule(or, next) + sampleTexts[1+next(len(sampleTexts)-1)]
			}
			entry["pluralRule-count-"+cat] = spelled[key]
		}
		for cat, text := range g.Texts {
			entry["pluralRule-count-"+cat] = strings.TrimSpace(text + " @integer 1")
		}
		if entry["pluralRule-count-other"] == "" {
			entry["pluralRule-count-other"] = " @integer 0~15, 100, 1000, 10000, …"
		}
		for _, l := range g.Langs {
			table[l] = entry
		}
	}
	tb, err := json.MarshalIndent(map[string]any{"supplemental": map[string]any{
		"version":               map[string]string{"_unicodeVersion": "15.1.0", "_cldrVersion": "45"},
		"plurals-type-cardinal": table,
	}}, "", " ")
	if err != nil {
		return err
	}
	nums := append([]string{"0", "1", "2", "3", "5", "7", "9", "11", "12", "20", "21", "100", "1.0", "1.5", "0.1", "2.50", "21.10", "1c6"}, c.Nums...)
	var reqs []evalRequest
	for _, g := range groups {
		for _, l := range g.Langs {
			reqs = append(reqs, evalRequest{Kind: "cldr", Lang: l, Nums: nums})
		}
	}
	ans, err := generate("cldr", string(tb), reqs)
	if err != nil {
		return err
	}
	k := 0
	for _, g := range groups {
		rules := map[string]ref.CldrRule{}
		for cat, or := range g.Rules {
			rules[cat] = ref.CldrRule{Or: or}
		}
		for cat, text := range g.Texts {
			if cat == "other" {
				continue
			}
			r, err := ref.ParseCldrRule(text)
			if err != nil {
				return err
			}
			rules[cat] = r
		}
		var cats []string
		for _, cat := range ref.CatNames[:5] {
			if _, ok := rules[cat]; ok {
				cats = append(cats, cat)
			}
		}
		cats = append(cats, "other")
		for _, l := range g.Langs {
			a := ans[k]
			k++
			if a.Error != "" || !a.Found {
				return fmt.Errorf("language %s: found %v, error %q\ntable entry %q", l, a.Found, a.Error, table[l])
			}
			if got := strings.ToLower(strings.Join(a.Cats, " ")); got != strings.Join(cats, " ") {
				return fmt.Errorf("language %s: the generated rule set has the categories %s, the table %v\nentry %q", l, got, cats, table[l])
			}
			for i, n := range nums {
				op, err := ref.OperandsOf(n)
				if err != nil {
					return err
				}
				var holds []string
				for _, cat := range cats[:len(cats)-1] {
					if rules[cat].Holds(op) {
						holds = append(holds, cat)
					}
				}
				if len(holds) > 1 {
					continue
				}
				want := "other"
				if len(holds) == 1 {
					want = holds[0]
					ctx.NonTrivial()
				}
				if got := strings.ToLower(a.Answers[i]); got != want {
					return fmt.Errorf("language %s: %s is %q with the generated rules, %q by the text %q", l, n, got, want, table[l])
				}
			}
		}
	}
	ctx.Label(fmt.Sprintf("groups-%d", min(len(c.Groups)/8*8, 32)))
	return nil
}

// realCldrTable is the published table.
func realCldrTable(string) []cldrTableCase {
	c := cldrTableCase{Nums: sweepNums()}
	for _, g := range ref.CldrGroups {
		gr := cldrGroup{Texts: map[string]string{}}
		for _, l := range g.Langs {
			if l != "en" && l != "und" {
				gr.Langs = append(gr.Langs, l)
			}
		}
		for cat, text := range g.Texts {
			if i := strings.IndexByte(text, '@'); i >= 0 {
				text = text[:i]
			}
			gr.Texts[cat] = strings.TrimSpace(text)
		}
		if len(gr.Langs) > 0 {
			c.Groups = append(c.Groups, gr)
		}
	}
	return []cldrTableCase{c}
}

// ---- gettext

type poEntry struct {
	Langs   []string  `json:"langs"`
	Plurals int       `json:"plurals"`
	Expr    *ref.Expr `json:"expr"`
}

type poTableCase struct {
	Entries []poEntry `json:"entries"`
	Ns      []int64   `json:"ns"`
}

func genPoTerm(t *rapid.T) *ref.Expr {
	w := [4]int8{1, 1, 1, 1}
	n := &ref.Expr{Op: "n", W: w}
	if chance(t, "mod", 60) {
		return &ref.Expr{Op: "%", A: n, B: &ref.Expr{Op: "num", V: pick(t, "m", int64(10), 100, 1000, 2, 3, 7, 1000000), W: w}, W: w}
	}
	return n
}

func genPoBool(t *rapid.T, depth int) *ref.Expr {
	w := [4]int8{1, 1, 1, 1}
	if depth > 0 && chance(t, "junction", 65) {
		e := &ref.Expr{Op: pick(t, "op", "&&", "||"), A: genPoBool(t, depth-1), B: genPoBool(t, depth-1), W: w}
		if chance(t, "p", 15) {
			e.P = 1
		}
		return e
	}
	e := &ref.Expr{Op: pick(t, "cmp", "==", "!=", "<", ">", "<=", ">="), A: genPoTerm(t), B: &ref.Expr{Op: "num", V: int64(intR(t, "rhs", 0, 20)), W: w}, W: w}
	if chance(t, "swap", 10) {
		e.A, e.B = e.B, e.A
	} else if chance(t, "two", 10) {
		e.B = genPoTerm(t)
	}
	return e
}

// genPoTable makes tables of the shape the generator is made for: a condition
// for two forms, a chain of conditions for more. Every formula contains a
// number of its own, so that no two are equal.
func genPoTable(t *rapid.T) poTableCase {
	c := poTableCase{}
	w := [4]int8{1, 1, 1, 1}
	langs := genRuleLangs(t)
	num := func(v int) *ref.Expr { return &ref.Expr{Op: "num", V: int64(v), W: w} }
	zero := false
	for id := 0; len(langs) > 0; id++ {
		k := min(len(langs), 1+intR(t, "share", 0, 2))
		e := poEntry{Langs: append([]string{}, langs[:k]...), Plurals: pick(t, "plurals", 1, 2, 2, 2, 3, 3, 4, 5, 6)}
		langs = langs[k:]
		mark := &ref.Expr{Op: pick(t, "markOp", "==", "<"), A: &ref.Expr{Op: "n", W: w}, B: num(200 + id*3), W: w}
		switch {
		case e.Plurals == 1:
			if zero {
				// all languages without plural forms share a formula
				for i := range c.Entries {
					if c.Entries[i].Plurals == 1 {
						c.Entries[i].Langs = append(c.Entries[i].Langs, e.Langs...)
					}
				}
				continue
			}
			zero = true
			e.Expr = num(0)
		case e.Plurals == 2:
			b := genPoBool(t, intR(t, "depth", 0, 3))
			e.Expr = &ref.Expr{Op: pick(t, "op", "&&", "||"), A: b, B: mark, W: w}
		default:
			e.Expr = num(e.Plurals - 1)
			forms := intR(t, "branches", 1, e.Plurals)
			for i := forms - 1; i >= 0; i-- {
				b := genPoBool(t, intR(t, "depth", 0, 3))
				if i == 0 {
					b = &ref.Expr{Op: "||", A: b, B: mark, W: w}
				}
				if chance(t, "p", 20) {
					b.P = 1
				}
				e.Expr = &ref.Expr{Op: "?:", A: b, B: num(intR(t, "form", 0, e.Plurals-1)), C: e.Expr, W: w}
			}
		}
		if n := len(langs); n > 0 && e.Plurals > 2 && e.Plurals < 6 && chance(t, "otherCount", 15) {
			// the same formula with another number of forms
			other := poEntry{Langs: append([]string{}, langs[:1]...), Plurals: e.Plurals + 1, Expr: e.Expr}
			langs = langs[1:]
			c.Entries = append(c.Entries, other)
		}
		c.Entries = append(c.Entries, e)
	}
	for i := 0; i < 12; i++ {
		c.Ns = append(c.Ns, genCount(t))
	}
	return c
}

func checkPoTable(c poTableCase, ctx *engine.Ctx) error {
	type entry struct {
		Language, Formula string
		Plurals           int
		Cases             []string
		Examples          map[string]string
	}
	w := [4]int8{1, 1, 1, 1}
	en := poEntry{Langs: []string{"en"}, Plurals: 2, Expr: &ref.Expr{Op: "!=", A: &ref.Expr{Op: "n", W: w}, B: &ref.Expr{Op: "num", V: 1, W: w}, W: w}}
	entries := append([]poEntry{en}, c.Entries...)
	table := map[string]entry{}
	var ns []int64
	for n := int64(0); n < 125; n++ {
		ns = append(ns, n)
	}
	for id := range entries {
		ns = append(ns, int64(199+3*id), int64(200+3*id), int64(201+3*id))
	}
	ns = append(ns, 999, 1000, 1001, 1011, 1000000, 1000001, 2000003)
	ns = append(ns, c.Ns...)
	var reqs []evalRequest
	headers := make([]string, len(entries))
	for i, e := range entries {
		headers[i] = fmt.Sprintf("nplurals=%d; plural=%s;", e.Plurals, e.Expr.Render())
		for _, l := range e.Langs {
			cases := append([]string{}, ref.CatNames[6-e.Plurals:]...)
			if e.Plurals > 6 {
				return fmt.Errorf("too many forms")
			}
			table[l] = entry{Language: l, Formula: e.Expr.Render(), Plurals: e.Plurals, Cases: cases, Examples: map[string]string{"other": "0, 2~16, 100, 1000, 10000, …"}}
			reqs = append(reqs, evalRequest{Kind: "po", Lang: l, Ns: ns})
		}
		reqs = append(reqs, evalRequest{Kind: "header", Lang: headers[i], Ns: ns})
	}
	tb, err := json.MarshalIndent(table, "", " ")
	if err != nil {
		return err
	}
	ans, err := generate("po", string(tb), reqs)
	if err != nil {
		return err
	}
	k := 0
	for i, e := range entries {
		for j := 0; j <= len(e.Langs); j++ {
			a, r := ans[k], reqs[k]
			k++
			if a.Error != "" || !a.Found {
				return fmt.Errorf("%s %q: found %v, error %q", r.Kind, r.Lang, a.Found, a.Error)
			}
			if r.Kind == "header" && a.N != e.Plurals {
				return fmt.Errorf("header %q: %d forms with the generated table", r.Lang, a.N)
			}
			for x, n := range ns {
				zero := false
				want := e.Expr.Eval(n, &zero)
				if zero {
					continue
				}
				if got := a.Answers[x]; got != fmt.Sprint(want) {
					return fmt.Errorf("%s %q: form %s for %d with the generated table, the formula %q gives %d", r.Kind, r.Lang, got, n, headers[i], want)
				}
				ctx.NonTrivialIf(want > 0)
			}
		}
	}
	ctx.Label(fmt.Sprintf("formulas-%d", min(len(c.Entries)/8*8, 32)))
	return nil
}

// realPoTable is the published table, as far as it has the expected shape.
func realPoTable(string) []poTableCase {
	c := poTableCase{}
	groups := map[string]int{}
	for _, l := range sortedKeys(ref.GettextByLang) {
		f := ref.GettextByLang[l]
		if tag, err := language.Parse(l); err != nil || l == "en" || l == "und" || tag.String() == "en" || strings.Contains(l, "_") {
			continue
		}
		pf, err := ref.ParsePluralForms(f)
		if err != nil {
			continue
		}
		if f == ref.GettextByLang["en"] {
			continue // belongs to the entry of English
		}
		key := f
		if i, ok := groups[key]; ok {
			c.Entries[i].Langs = append(c.Entries[i].Langs, l)
			continue
		}
		groups[key] = len(c.Entries)
		c.Entries = append(c.Entries, poEntry{Langs: []string{l}, Plurals: pf.N, Expr: pf.E})
	}
	return []poTableCase{c}
}

func init() {
	noLimit := func(p *engine.Part) *engine.Part {
		p.NoMemLimit = true
		return p
	}
	engine.Register(&engine.Prop{
		ID: "C37",
		Rule: "gettext-tree: random C expressions, published formulas, and mutated or rebracketed ones; the exported tree of the header and of its canonical text are evaluated node by node and compared with the reference evaluator, " +
			"the canonical text must not depend on blanks; non-trivial: the formula takes more than one value. " +
			"cldr-tree: random rules with samples in random spelling; the exported tree is turned back into relations, samples are expanded by the reference, Walk and Inspect visits are predicted; non-trivial: more than one relation. " +
			"generate-cldr, generate-po: random tables of languages and rules; the generator runs twice, its output is linked into a program (go build -overlay) whose answers are compared with the reference; non-trivial: a number outside of the last category.",
		Assumptions: []string{
			"tables for the gettext generator have the shape of the published one: a condition for two forms, a chain of conditions with numbers for more",
			"no two languages of a table have the same canonical tag, and no two formulas of a table the same meaning",
			"where more than one rule of a language holds for a number, the category is not judged",
		},
		Parts: []*engine.Part{
			engine.Gen("gettext-tree", 1500, 12000, genExprCase, checkPoTree),
			engine.Gen("cldr-tree", 1500, 12000, genCldrTree, checkCldrTree),
			noLimit(engine.Gen("generate-cldr", 20, 100, genCldrTable, checkCldrTable)),
			noLimit(engine.Gen("generate-po", 20, 100, genPoTable, checkPoTable)),
			noLimit(engine.List("real-cldr", realCldrTable, checkCldrTable)),
			noLimit(engine.List("real-po", realPoTable, checkPoTable)),
		},
	})
}
