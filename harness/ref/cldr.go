// Package ref holds independent reference models: CLDR plural rules, gettext
// plural expressions, PO and MO writers, and calendar arithmetic.
package ref

import (
	"embed"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"unicode"
)

//go:embed data/*.json
var data embed.FS

// CatNames lists the categories in their canonical order.
var CatNames = []string{"zero", "one", "two", "few", "many", "other"}

// CatIndex maps a category name to its canonical index.
func CatIndex(name string) int {
	for i, n := range CatNames {
		if n == name {
			return i
		}
	}
	return -1
}

// Operands are the exact CLDR plural operands of a decimal string.
type Operands struct {
	N, I, F, T *big.Rat // all but N are integers
	V, W, C    int64
}

// OperandsOf computes the operands of [+-]digits[.digits][c<exp>].
func OperandsOf(s string) (Operands, error) {
	orig := s
	s = strings.TrimLeft(s, "+-")
	var c int64
	if i := strings.IndexByte(s, 'c'); i >= 0 {
		if _, err := fmt.Sscanf(s[i+1:], "%d", &c); err != nil {
			return Operands{}, err
		}
		s = s[:i]
	}
	ip, fp, _ := strings.Cut(s, ".")
	for _, r := range ip + fp {
		if r < '0' || r > '9' {
			return Operands{}, fmt.Errorf("not a decimal: %q", orig)
		}
	}
	if ip == "" {
		ip = "0"
	}
	for k := int64(0); k < c; k++ {
		if fp == "" {
			ip += "0"
		} else {
			ip += fp[:1]
			fp = fp[1:]
		}
	}
	toRat := func(d string) *big.Rat {
		if d == "" {
			d = "0"
		}
		n, ok := new(big.Int).SetString(d, 10)
		if !ok {
			panic("bad digits " + d)
		}
		return new(big.Rat).SetInt(n)
	}
	nr := toRat(ip + fp)
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fp))), nil)
	nr.Quo(nr, new(big.Rat).SetInt(den))
	tz := strings.TrimRight(fp, "0")
	return Operands{N: nr, I: toRat(ip), F: toRat(fp), T: toRat(tz), V: int64(len(fp)), W: int64(len(tz)), C: c}, nil
}

func (o Operands) get(name byte) *big.Rat {
	switch name {
	case 'n':
		return o.N
	case 'i':
		return o.I
	case 'f':
		return o.F
	case 't':
		return o.T
	case 'v':
		return new(big.Rat).SetInt64(o.V)
	case 'w':
		return new(big.Rat).SetInt64(o.W)
	case 'c', 'e':
		return new(big.Rat).SetInt64(o.C)
	}
	panic("operand " + string(name))
}

// Relation is one relation of a plural rule.
type Relation struct {
	Op     string // n i v w f t c e
	Mod    int64  // 0: none
	Neg    bool
	Ranges [][2]int64
}

// CldrRule is a disjunction of conjunctions. No terms: the empty (other) rule.
type CldrRule struct {
	Or [][]Relation
}

func ratMod(a *big.Rat, m int64) *big.Rat {
	mm := new(big.Rat).SetInt64(m)
	q := new(big.Rat).Quo(a, mm)
	fl := new(big.Int).Quo(q.Num(), q.Denom()) // a is not negative
	return new(big.Rat).Sub(a, new(big.Rat).Mul(mm, new(big.Rat).SetInt(fl)))
}

// Holds tells whether the relation holds.
func (r Relation) Holds(o Operands) bool {
	x := o.get(r.Op[0])
	if r.Mod != 0 {
		x = ratMod(x, r.Mod)
	}
	in := false
	if x.IsInt() {
		for _, rg := range r.Ranges {
			if x.Cmp(new(big.Rat).SetInt64(rg[0])) >= 0 && x.Cmp(new(big.Rat).SetInt64(rg[1])) <= 0 {
				in = true
				break
			}
		}
	}
	return in != r.Neg
}

// Holds tells whether the rule's condition holds; an empty rule always does.
func (r CldrRule) Holds(o Operands) bool {
	if len(r.Or) == 0 {
		return true
	}
	for _, conj := range r.Or {
		ok := true
		for _, rel := range conj {
			if !rel.Holds(o) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ParseCldrRule parses the modern rule syntax (samples cut off).
func ParseCldrRule(text string) (CldrRule, error) {
	if i := strings.IndexByte(text, '@'); i >= 0 {
		text = text[:i]
	}
	text = strings.TrimSpace(text)
	if text == "" {
		return CldrRule{}, nil
	}
	var rule CldrRule
	for _, or := range splitWord(text, "or") {
		var conj []Relation
		for _, rel := range splitWord(or, "and") {
			r, err := parseRelation(rel)
			if err != nil {
				return CldrRule{}, err
			}
			conj = append(conj, r)
		}
		rule.Or = append(rule.Or, conj)
	}
	return rule, nil
}

func splitWord(s, w string) []string {
	var out []string
	var cur []string
	for _, f := range strings.Fields(s) {
		if f == w {
			out = append(out, strings.Join(cur, " "))
			cur = nil
			continue
		}
		cur = append(cur, f)
	}
	return append(out, strings.Join(cur, " "))
}

func parseRelation(s string) (Relation, error) {
	var r Relation
	s = strings.Map(func(c rune) rune {
		if unicode.IsSpace(c) {
			return -1
		}
		return c
	}, strings.ReplaceAll(s, "mod", "%"))
	var lhs, rhs string
	if i := strings.Index(s, "!="); i >= 0 {
		lhs, rhs, r.Neg = s[:i], s[i+2:], true
	} else if i := strings.IndexByte(s, '='); i >= 0 {
		lhs, rhs = s[:i], s[i+1:]
	} else {
		return r, fmt.Errorf("no relation in %q", s)
	}
	op, mod, has := strings.Cut(lhs, "%")
	r.Op = op
	if len(op) != 1 || !strings.Contains("nivwftce", op) {
		return r, fmt.Errorf("operand %q", op)
	}
	if has {
		if _, err := fmt.Sscanf(mod, "%d", &r.Mod); err != nil {
			return r, err
		}
	}
	for _, item := range strings.Split(rhs, ",") {
		a, b, isRange := strings.Cut(item, "..")
		if !isRange {
			b = a
		}
		var rg [2]int64
		if _, err := fmt.Sscanf(a, "%d", &rg[0]); err != nil {
			return r, err
		}
		if _, err := fmt.Sscanf(b, "%d", &rg[1]); err != nil {
			return r, err
		}
		r.Ranges = append(r.Ranges, rg)
	}
	return r, nil
}

// CldrGroup is the published rule set of some languages.
type CldrGroup struct {
	Langs []string
	Cats  []string // in canonical order
	Texts map[string]string
	rules map[string]CldrRule
}

// Category is the category the published rules assign.
func (g *CldrGroup) Category(o Operands) string {
	for _, c := range g.Cats {
		if c != "other" && g.rules[c].Holds(o) {
			return c
		}
	}
	return "other"
}

// Form is the index of the category of o in the category list.
func (g *CldrGroup) Form(o Operands) int {
	c := g.Category(o)
	for i, x := range g.Cats {
		if x == c {
			return i
		}
	}
	return 0
}

var cldrByLang = map[string]*CldrGroup{}

// CldrGroups lists the published rule sets.
var CldrGroups []*CldrGroup

// GettextByLang is the published formula of each language.
var GettextByLang map[string]string

func init() {
	b, _ := data.ReadFile("data/cldr.json")
	var raw []struct {
		Langs []string `json:"langs"`
		Rules []struct {
			Cat  string `json:"cat"`
			Rule string `json:"rule"`
		} `json:"rules"`
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		panic(err)
	}
	for _, g := range raw {
		grp := &CldrGroup{Langs: g.Langs, Texts: map[string]string{}, rules: map[string]CldrRule{}}
		for _, r := range g.Rules {
			cr, err := ParseCldrRule(r.Rule)
			if err != nil {
				panic(err)
			}
			grp.Texts[r.Cat] = r.Rule
			grp.rules[r.Cat] = cr
		}
		for _, c := range CatNames {
			if _, ok := grp.rules[c]; ok {
				grp.Cats = append(grp.Cats, c)
			}
		}
		CldrGroups = append(CldrGroups, grp)
		for _, l := range g.Langs {
			cldrByLang[l] = grp
		}
	}
	b, _ = data.ReadFile("data/gettext.json")
	if err := json.Unmarshal(b, &GettextByLang); err != nil {
		panic(err)
	}
}

// Cldr returns the published rule set of a language name of the table.
func Cldr(lang string) *CldrGroup { return cldrByLang[lang] }
