// Package props holds the executable form of the properties.
package props

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"unicode"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"verif/harness/dict"
	"verif/harness/ref"
)

// dictInts are numbers of the code under test.
var dictInts = dict.Loaded.IntsOf(1 << 53)

// sourceInt draws a number of the code under test or a neighbour, at most max
// (0 if there is none).
func sourceInt(t *rapid.T, name string, max int64) int64 {
	n := sort.Search(len(dictInts), func(i int) bool { return dictInts[i] > max })
	if n == 0 {
		return 0
	}
	v := dictInts[intR(t, name, 0, n-1)] + int64(pick(t, name+"Off", 0, 0, 0, 1, -1))
	return min(max, v)
}

// dictWords are short strings of the code under test.
var dictWords = func() []string {
	var out []string
	for _, s := range dict.Loaded.StringsOf(40, ".", "catalog", "catalog/po", "catalog/poplural", "catalog/poplural/ast", "catalog/cldrplural", "catalog/cldrplural/ast", "internal/mo", "internal/util", "internal/cast", "localize", "humanize") {
		out = append(out, clean(s))
	}
	return out
}()

// sourceWord draws a string of the code under test.
func sourceWord(t *rapid.T, name string) string {
	if len(dictWords) == 0 {
		return "word"
	}
	return dictWords[intR(t, name, 0, len(dictWords)-1)]
}

// uniform draws 0..n-1 with equal probability (rapid's own integer ranges
// prefer small and extreme values), shrinking towards 0.
func uniform(t *rapid.T, name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(uniformGen(n).Draw(t, name))
}

var uniformGens [257]atomic.Pointer[rapid.Generator[rune]]

func uniformGen(n int) *rapid.Generator[rune] {
	if g := uniformGens[n].Load(); g != nil {
		return g
	}
	var tables []*unicode.RangeTable
	for i := 0; i < n; i++ {
		tables = append(tables, &unicode.RangeTable{R16: []unicode.Range16{{Lo: uint16(i), Hi: uint16(i), Stride: 1}}})
	}
	g := rapid.RuneFrom(nil, tables...)
	uniformGens[n].Store(g)
	return g
}

func pick[T any](t *rapid.T, name string, xs ...T) T {
	return xs[intR(t, name, 0, len(xs)-1)]
}

func chance(t *rapid.T, name string, percent int) bool {
	if percent <= 0 {
		return false
	}
	return uniform(t, name, 100) >= 100-percent
}

// intR draws an integer of lo..hi, uniformly for short ranges.
func intR(t *rapid.T, name string, lo, hi int) int {
	if hi-lo < 256 {
		return lo + uniform(t, name, hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, name)
}

// subset draws a subset in order.
func subset[T any](t *rapid.T, name string, percent int, xs []T) []T {
	var out []T
	for i, x := range xs {
		if chance(t, fmt.Sprintf("%s%d", name, i), percent) {
			out = append(out, x)
		}
	}
	return out
}

// perm draws a permutation of 0..n-1.
func perm(t *rapid.T, name string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := intR(t, name, 0, i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedCopy(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// cldrFor is the documented resolution: the tag's own rules, else those of
// the base language, else English.
func cldrFor(tag language.Tag) (*ref.CldrGroup, bool) {
	if tag == language.Und {
		return ref.Cldr("en"), false
	}
	if g := ref.Cldr(tag.String()); g != nil {
		return g, true
	}
	base, conf := tag.Base()
	if conf >= language.High {
		if g := ref.Cldr(base.String()); g != nil {
			return g, true
		}
	}
	return ref.Cldr("en"), false
}

var parsedForms = map[string]*ref.PluralForms{}

func init() {
	for _, f := range ref.GettextByLang {
		if _, ok := parsedForms[f]; !ok {
			pf, err := ref.ParsePluralForms(f)
			if err != nil {
				panic(fmt.Sprintf("%s: %v", f, err))
			}
			parsedForms[f] = pf
		}
	}
}

func gettextFor(tag language.Tag) (*ref.PluralForms, string, bool) {
	if tag != language.Und {
		if f, ok := ref.GettextByLang[tag.String()]; ok {
			return parsedForms[f], f, true
		}
		base, conf := tag.Base()
		if conf >= language.High {
			if f, ok := ref.GettextByLang[base.String()]; ok {
				return parsedForms[f], f, true
			}
		}
	}
	f := ref.GettextByLang["en"]
	return parsedForms[f], f, false
}

// tableLangs are all languages of the published tables, canonical and parsable.
func tableLangs(names []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, n := range names {
		tag, err := language.Parse(n)
		if err != nil || seen[tag.String()] || tag == language.Und {
			continue
		}
		seen[tag.String()] = true
		out = append(out, tag.String())
	}
	sort.Strings(out)
	return out
}

var cldrLangs, gettextLangs []string

func init() {
	var names []string
	for _, g := range ref.CldrGroups {
		names = append(names, g.Langs...)
	}
	cldrLangs = tableLangs(names)
	gettextLangs = tableLangs(sortedKeys(ref.GettextByLang))
}

var regionPool = []string{"US", "GB", "DE", "AT", "BR", "PT", "RS", "TW", "CA", "IN", "RU", "EG", "419", "ME", "CH", "MX"}
var scriptPool = []string{"Latn", "Cyrl", "Arab", "Hans", "Hant", "Deva"}

// genVariant draws a language of the list, sometimes with a region or script.
func genVariant(t *rapid.T, langs []string) string {
	l := pick(t, "lang", langs...)
	if len(dictLangs) > 0 && chance(t, "sourceLang", 4) {
		return dictLangs[intR(t, "dictLang", 0, len(dictLangs)-1)]
	}
	switch intR(t, "variant", 0, 5) {
	case 0:
		return l + "-" + pick(t, "region", regionPool...)
	case 1:
		if !strings.Contains(l, "-") {
			return l + "-" + pick(t, "script", scriptPool...)
		}
	case 2:
		if !strings.Contains(l, "-") {
			return l + "-" + pick(t, "script", scriptPool...) + "-" + pick(t, "region", regionPool...)
		}
	case 3:
		return pick(t, "special", "pt-PT", "pt-BR", "sr-Latn", "sr-Cyrl", "zh-Hant-TW", "qaa", "tlh", "und", "en", "de", "ar-EG", "ro-MD", "es-419", "mo", "sh")
	}
	return l
}

// dictLangs are strings of the code under test that are language tags.
var dictLangs = func() []string {
	var out []string
	for _, s := range dict.Loaded.StringsOf(20) {
		if tag, err := language.Parse(s); err == nil && tag != language.Und && len(s) > 1 && !strings.Contains(s, "-u-") && !strings.Contains(s, "_") {
			out = append(out, s)
		}
	}
	return out
}()

func parseTag(s string) (language.Tag, bool) {
	tag, err := language.Parse(s)
	return tag, err == nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var maxExact = int64(1) << 53

// genCount draws integers that matter for plural rules.
func genCount(t *rapid.T) int64 {
	switch intR(t, "countKind", 0, 7) {
	case 7:
		return sourceInt(t, "n", maxExact)
	case 0:
		return int64(intR(t, "n", 0, 5))
	case 1:
		return int64(intR(t, "n", 0, 30))
	case 2:
		return int64(intR(t, "n", 0, 250))
	case 3:
		return int64(intR(t, "n", 0, 50))*100 + int64(intR(t, "r", 0, 25))
	case 4:
		return int64(intR(t, "n", 0, 400))*pick(t, "scale", int64(1000), 100000, 1000000) + int64(intR(t, "r", 0, 25))
	case 5:
		return rapid.Int64Range(0, maxExact).Draw(t, "n")
	}
	return pick(t, "n", int64(1000000), 100000, 10000, 1000, 999999, 1000001, 2000000, 1<<31, 1<<32+1, maxExact, maxExact-1)
}

// genDecimal draws decimal strings that matter for plural rules (at most 15
// significant digits).
func genDecimal(t *rapid.T) string {
	var ip string
	switch intR(t, "ipKind", 0, 4) {
	case 4:
		ip = fmt.Sprint(max(sourceInt(t, "ip", 99999999), 0))
	case 0:
		ip = fmt.Sprint(intR(t, "ip", 0, 5))
	case 1:
		ip = fmt.Sprint(intR(t, "ip", 0, 130))
	case 2:
		ip = fmt.Sprint(int64(intR(t, "ip", 0, 40)) * pick(t, "scale", int64(100), 1000, 100000, 1000000))
	default:
		ip = fmt.Sprint(rapid.Int64Range(0, 99999999).Draw(t, "ip"))
	}
	fp := ""
	if chance(t, "hasFrac", 65) {
		switch intR(t, "fpKind", 0, 4) {
		case 0:
			fp = strings.Repeat("0", intR(t, "z", 1, 4))
		case 1:
			fp = fmt.Sprint(intR(t, "f", 0, 120))
		case 2:
			fp = fmt.Sprintf("%0*d", intR(t, "w", 1, 6), intR(t, "f", 0, 21))
		case 3:
			fp = fmt.Sprintf("%0*d", intR(t, "w", 1, 7), intR(t, "f", 0, 21)) + strings.Repeat("0", intR(t, "z", 0, 3))
		default:
			fp = fmt.Sprint(intR(t, "f", 0, 999999))
		}
		if len(ip)+len(fp) > 15 {
			fp = fp[:15-len(ip)]
		}
	}
	s := ip
	if fp != "" {
		s += "." + fp
	}
	if chance(t, "compact", 12) {
		// only non-zero values have a compact form
		s += "c" + fmt.Sprint(intR(t, "c", 0, 7))
	}
	if chance(t, "neg", 8) {
		s = "-" + s
	}
	return s
}
