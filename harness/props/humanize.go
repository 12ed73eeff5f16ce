package props

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"
	"time"
	_ "time/tzdata"
	"unsafe"

	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"golang.org/x/text/number"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"

	"verif/harness/engine"
	"verif/harness/ref"
)

// nbsp makes the non-breaking spaces between numbers and units comparable.
func nbsp(s string) string { return strings.ReplaceAll(s, "\u00a0", " ") }

var english = sync.OnceValue(func() *humanize.Humanizer { return humanize.MustNew().CreateHumanizer() })

// ---------------------------------------------------------------- C25

// humNum is a number in one of its Go representations.
type humNum struct {
	Kind string `json:"kind"`
	S    string `json:"s"` // decimal
	Ptr  bool   `json:"ptr,omitempty"`
}

type namedUint8 uint8
type stringerNum struct{ s string }

func (s stringerNum) String() string { return s.s }

// value gives the argument and the number it stands for.
func (n humNum) value() (any, float64, bool) {
	v, f, ok := n.plain()
	if ok && n.Ptr {
		switch x := v.(type) {
		case int64:
			return &x, f, true
		case float64:
			return &x, f, true
		case string:
			p := &x
			return &p, f, true
		case namedInt:
			return &x, f, true
		}
	}
	return v, f, ok
}

func (n humNum) plain() (any, float64, bool) {
	i, errI := strconv.ParseInt(n.S, 10, 64)
	f, errF := strconv.ParseFloat(n.S, 64)
	if errF != nil {
		panic(errF)
	}
	if errI == nil {
		switch n.Kind {
		case "int":
			return int(i), float64(i), true
		case "int8":
			return int8(i), float64(int8(i)), true
		case "int16":
			return int16(i), float64(int16(i)), true
		case "int32":
			return int32(i), float64(int32(i)), true
		case "int64":
			return i, float64(i), true
		case "uint":
			return uint(i), float64(uint(i)), true
		case "uint8":
			return uint8(i), float64(uint8(i)), true
		case "uint16":
			return uint16(i), float64(uint16(i)), true
		case "uint32":
			return uint32(i), float64(uint32(i)), true
		case "uint64":
			return uint64(i), float64(uint64(i)), true
		case "namedInt":
			return namedInt(i), float64(i), true
		case "namedUint8":
			return namedUint8(i), float64(uint8(i)), true
		case "duration":
			return time.Duration(i), float64(i), true
		}
	}
	switch n.Kind {
	case "float32":
		if math.Abs(f) < math.MaxFloat32 || math.IsInf(f, 0) || math.IsNaN(f) {
			return float32(f), float64(float32(f)), true
		}
	case "namedFloat":
		return namedFloat(f), f, true
	case "complex128":
		return complex(f, 3), f, true
	case "string":
		return n.S, f, true
	case "jsonNumber":
		return json.Number(n.S), f, true
	case "stringer":
		return stringerNum{n.S}, f, true
	}
	return f, f, true
}

func genHumNum(t *rapid.T) humNum {
	n := humNum{Kind: pick(t, "kind", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float64", "float64", "float64", "float32",
		"namedInt", "namedUint8", "namedFloat", "complex128", "string", "string", "jsonNumber", "stringer", "duration"), Ptr: chance(t, "ptr", 10)}
	sign := ""
	if chance(t, "neg", 30) {
		sign = "-"
	}
	frac := ""
	if chance(t, "frac", 35) {
		frac = "." + pick(t, "fracDigits", "5", "05", "95", "949", "951", "999", "000001", "0000005", "9999995", "123456789", "25", "1")
	}
	switch intR(t, "mag", 0, 8) {
	case 8:
		n.S = sign + strconv.FormatInt(sourceInt(t, "source", 1<<62), 10) + frac
	case 0:
		n.S = sign + strconv.Itoa(intR(t, "small", 0, 130)) + frac
	case 1:
		n.S = sign + strconv.Itoa(intR(t, "mid", 0, 2000000)) + frac
	case 2: // around powers of two
		v := new(big.Int).Lsh(big.NewInt(1), uint(intR(t, "exp2", 0, 70)))
		v.Add(v, big.NewInt(int64(intR(t, "off", -2, 2))))
		n.S = v.String()
		if !strings.HasPrefix(n.S, "-") {
			n.S = sign + n.S + frac
		}
	case 3: // around powers of ten
		v := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(intR(t, "exp10", 0, 40))), nil)
		v.Mul(v, big.NewInt(int64(intR(t, "digit", 1, 20))))
		v.Add(v, big.NewInt(int64(intR(t, "off", -2, 2))))
		n.S = v.String()
		if !strings.HasPrefix(n.S, "-") {
			n.S = sign + n.S + frac
		}
	case 4: // multiples of units
		unit := pick(t, "unit", 1<<10, 1<<20, 1<<30, 1<<40, 1<<50, 1000, 1000000, 1000000000, 1000000000000)
		q := intR(t, "q", 0, 1100)
		part := unit / 20 * intR(t, "part", 0, 20)
		n.S = sign + strconv.FormatInt(int64(unit)*int64(q)+int64(part), 10)
	case 5: // any exponent
		n.S = fmt.Sprintf("%s%d.%de%d", sign, intR(t, "lead", 1, 9), intR(t, "rest", 0, 999999), intR(t, "exp", -20, 308))
		if _, err := strconv.ParseFloat(n.S, 64); err != nil {
			n.S = sign + "1e308"
		}
	case 6:
		n.S = sign + strconv.FormatInt(rapid.Int64Range(0, math.MaxInt64).Draw(t, "int64"), 10)
	case 7:
		n.S = pick(t, "special", "NaN", "Inf", "-Inf", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e100", "-1e100", "1e99", "9.99e102", "1e103", "1e36", "999999.9999", "999999", "1e6", "-0", "1.7976931348623157e308", "5e-324", "0.5", "-0.5", "1e35", "999.95e6", "1023.96", "1048575")
	}
	return n
}

var grouped = regexp.MustCompile(`^-?\d{1,3}(,\d{3})*(\.\d+)?$`)

// parseGrouped reads an English number.
func parseGrouped(s string, maxFrac int) (float64, error) {
	if !grouped.MatchString(s) {
		return 0, fmt.Errorf("%q is no number with a separator every three digits", s)
	}
	if i := strings.IndexByte(s, '.'); i >= 0 && len(s)-i-1 > maxFrac {
		return 0, fmt.Errorf("%q has more than %d decimals", s, maxFrac)
	}
	return strconv.ParseFloat(strings.ReplaceAll(s, ",", ""), 64)
}

// sameNumber checks that the text is v to the given number of decimals.
func sameNumber(s string, v float64, decimals int) error {
	switch {
	case math.IsNaN(v):
		if !strings.Contains(s, "NaN") {
			return fmt.Errorf("%q does not show NaN", s)
		}
		return nil
	case math.IsInf(v, 0):
		if !strings.Contains(s, "∞") || strings.HasPrefix(s, "-") != (v < 0) {
			return fmt.Errorf("%q does not show %v", s, v)
		}
		return nil
	}
	got, err := parseGrouped(s, decimals)
	if err != nil {
		return err
	}
	short := strconv.FormatFloat(v, 'f', -1, 64)
	if i := strings.IndexByte(short, '.'); i < 0 || len(short)-i-1 <= decimals {
		if got != v {
			return fmt.Errorf("%q is not %s", s, short)
		}
	}
	unit := math.Pow10(-decimals)
	if math.Abs(got-v) > unit/2*(1+1e-9)+math.Abs(v)*3e-16 {
		return fmt.Errorf("%q differs from %s by %g", s, short, got-v)
	}
	if neg := strings.HasPrefix(s, "-"); v > 0 && neg || v <= -unit && !neg {
		return fmt.Errorf("%q has not the sign of %s", s, short)
	}
	return nil
}

var intwords = []struct {
	exp  int
	word string
}{{6, "million"}, {9, "billion"}, {12, "trillion"}, {15, "quadrillion"}, {18, "quintillion"}, {21, "sextillion"}, {24, "septillion"}, {27, "octillion"}, {30, "nonillion"}, {33, "decillion"}, {100, "googol"}}

func checkIntword(s string, v float64) error {
	a := math.Abs(v)
	for _, w := range intwords {
		p := math.Pow10(w.exp)
		if a >= p && a < p*1000 {
			num, ok := strings.CutSuffix(nbsp(s), " "+w.word)
			if !ok {
				return fmt.Errorf("%q does not end with %s", s, w.word)
			}
			q := v / p
			got, err := parseGrouped(num, 1)
			if err != nil {
				return err
			}
			if math.Abs(got-q) > 0.05*(1+1e-9) || strings.HasPrefix(num, "-") != (v < 0) {
				return fmt.Errorf("%q is not %g %s", s, q, w.word)
			}
			return nil
		}
	}
	return sameNumber(s, v, 6)
}

var apWords = []string{"one", "two", "three", "four", "five", "six", "seven", "eight", "nine"}

func checkApnumber(s string, v float64) error {
	i := math.Trunc(v)
	if i >= 1 && i <= 9 {
		if s != apWords[int(i)-1] {
			return fmt.Errorf("%q, want %q", s, apWords[int(i)-1])
		}
		return nil
	}
	return sameNumber(s, i, 0)
}

func checkOrdinal(s string, v float64) error {
	i := math.Trunc(v)
	if !(i >= 0 && i < math.MaxInt64) || i == 0 && v < 0 {
		// negative numbers may be without separators
		if !math.IsNaN(i) && !math.IsInf(i, 0) && !strings.Contains(s, ",") {
			got, err := strconv.ParseFloat(s, 64)
			if err != nil || got != i {
				return fmt.Errorf("%q, want %.0f", s, i)
			}
			return nil
		}
		return sameNumber(s, i, 0)
	}
	n := int64(i)
	suffix := "th"
	if h := n % 100; h < 11 || h > 13 {
		switch n % 10 {
		case 1:
			suffix = "st"
		case 2:
			suffix = "nd"
		case 3:
			suffix = "rd"
		}
	}
	num, ok := strings.CutSuffix(s, suffix)
	if !ok {
		return fmt.Errorf("%q has not the suffix %s", s, suffix)
	}
	if digits := strings.ReplaceAll(num, ",", ""); digits != strconv.FormatInt(n, 10) {
		return fmt.Errorf("%q is not %d", s, n)
	}
	return nil
}

func checkFilesize(s string, v float64) error {
	if math.IsNaN(v) {
		if strings.HasPrefix(s, "%!(") { // no size
			return nil
		}
		return sameNumber(s, v, 0)
	}
	i := math.Trunc(v)
	a := math.Abs(i)
	s = nbsp(s)
	if a < 1024 {
		word := " bytes"
		if a == 1 {
			word = " byte"
		}
		num, ok := strings.CutSuffix(s, word)
		if !ok {
			return fmt.Errorf("%q does not end with %q", s, word)
		}
		return sameNumber(num, i, 0)
	}
	units := []string{" KB", " MB", " GB", " TB", " PB"}
	k := 0
	unit := 1024.0
	for k < 4 && a >= unit*1024 {
		k++
		unit *= 1024
	}
	num, ok := strings.CutSuffix(s, units[k])
	if !ok {
		return fmt.Errorf("%q does not end with %q", s, units[k])
	}
	return sameNumber(num, i/unit, 1)
}

type numberCase struct {
	N humNum `json:"n"`
}

func genNumberCase(t *rapid.T) numberCase { return numberCase{N: genHumNum(t)} }

func checkC25(c numberCase, ctx *engine.Ctx) error {
	arg, v, _ := c.N.value()
	ctx.NonTrivial()
	ctx.Label(c.N.Kind)
	ctx.LabelIf(v < 0, "negative")
	ctx.LabelIf(math.Abs(v) >= 1e18, "huge")
	ctx.LabelIf(v != math.Trunc(v), "fraction")
	h := english()
	for _, f := range []struct {
		name  string
		call  func(any) string
		check func(string, float64) error
	}{
		{"Intcomma", h.Intcomma, func(s string, v float64) error { return sameNumber(s, v, 6) }},
		{"Intword", h.Intword, checkIntword},
		{"Apnumber", h.Apnumber, checkApnumber},
		{"Ordinal", h.Ordinal, checkOrdinal},
		{"FilesizeFormat", h.FilesizeFormat, checkFilesize},
	} {
		s := f.call(arg)
		if err := f.check(s, v); err != nil {
			return fmt.Errorf("%s(%T %s): %w", f.name, arg, c.N.S, err)
		}
	}
	return nil
}

// checkOrdinals: the helpers for whole numbers, one after the other.
func listInts(tier string) []int64 {
	max := int64(3000)
	if tier == "thorough" {
		max = 60000
	}
	var out []int64
	for i := int64(-130); i < max; i++ {
		out = append(out, i)
	}
	return out
}

func checkInts(n int64, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	h := english()
	if err := checkOrdinal(h.Ordinal(n), float64(n)); err != nil {
		return fmt.Errorf("Ordinal(%d): %w", n, err)
	}
	if err := checkApnumber(h.Apnumber(n), float64(n)); err != nil {
		return fmt.Errorf("Apnumber(%d): %w", n, err)
	}
	if err := checkFilesize(h.FilesizeFormat(n), float64(n)); err != nil {
		return fmt.Errorf("FilesizeFormat(%d): %w", n, err)
	}
	if n >= 0 {
		if a, b := h.FilesizeFormat(make([]byte, n, n+n/3+7)), h.FilesizeFormat(n); a != b {
			return fmt.Errorf("FilesizeFormat of %d bytes is %q, of the number %q", n, a, b)
		}
	}
	return nil
}

type badNum struct {
	Kind string `json:"kind"`
	Text string `json:"text"`
	Lang string `json:"lang,omitempty"`
}

func (b badNum) value() any {
	switch b.Kind {
	case "string":
		return b.Text
	case "ptr":
		s := b.Text
		return &s
	case "struct":
		return struct{ A string }{b.Text}
	case "slice":
		return []string{b.Text}
	case "map":
		return map[string]string{"k": b.Text}
	case "nilPtr":
		return (*int)(nil)
	case "bool":
		return true
	case "ints":
		return []int{1, 2}
	case "error":
		return fmt.Errorf("%s", b.Text)
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	case "unsafe":
		return unsafe.Pointer(new(int))
	}
	return nil
}

func genBadNum(t *rapid.T) badNum {
	b := badNum{Kind: pick(t, "kind", "string", "string", "ptr", "struct", "slice", "map", "nilPtr", "bool", "ints", "error", "func", "chan", "unsafe", "nil")}
	b.Text = "x" + genText(t, "text", 4)
	if chance(t, "nearly", 40) {
		b.Text = pick(t, "nearlyText", "", "1,5", "1 000", "5 apples", "--1", "1e", "0x", "one", "1.2.3", " 5", "5 ", "%d", "½", "٥")
	}
	return b
}

func checkBadNum(b badNum, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	ctx.Label(b.Kind)
	h := english()
	v := b.value()
	shown := fmt.Sprintf("%v", v)
	for _, f := range []struct {
		name string
		call func(any) string
	}{{"Intcomma", h.Intcomma}, {"Intword", h.Intword}, {"Apnumber", h.Apnumber}, {"Ordinal", h.Ordinal}, {"FilesizeFormat", h.FilesizeFormat},
		{"NaturalDay", h.NaturalDay}, {"NaturalTime", h.NaturalTime},
		{"TimeSince", func(v any) string { return h.TimeSince(v) }}, {"TimeUntil", func(v any) string { return h.TimeUntil(v) }},
		{"TimeSinceFrom", func(v any) string { return h.TimeSinceFrom(v, time.Unix(1e9, 0)) }}, {"TimeUntilFrom", func(v any) string { return h.TimeUntilFrom(v, time.Unix(1e9, 0)) }}} {
		s := f.call(v)
		if v == nil {
			if s != "<nil>" && !strings.HasPrefix(s, "%!") {
				return fmt.Errorf("%s(nil) gives %q", f.name, s)
			}
			continue
		}
		if !strings.HasPrefix(s, "%!(") {
			return fmt.Errorf("%s(%T %q) gives %q, want an error text", f.name, v, shown, s)
		}
		if !strings.HasPrefix(shown, "0x") && !strings.Contains(s, shown) {
			return fmt.Errorf("%s(%T %q) gives %q, which does not name the value", f.name, v, shown, s)
		}
	}
	return nil
}

// ---------------------------------------------------------------- zones and times

type transition struct {
	In  int64 `json:"in"` // seconds from now
	Off int   `json:"off"`
	DST bool  `json:"dst,omitempty"`
}

// zoneSpec is a time zone: named, fixed, or with clock changes around now.
type zoneSpec struct {
	Name  string       `json:"name,omitempty"`
	Off   int          `json:"off,omitempty"`
	Trans []transition `json:"trans,omitempty"`
}

var zoneNames = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "Asia/Kathmandu", "Africa/Casablanca", "Pacific/Chatham",
	"America/St_Johns", "Asia/Tehran", "Pacific/Kiritimati", "Europe/London", "Africa/Cairo", "Asia/Beirut", "America/Havana", "Antarctica/Troll", "Europe/Moscow", "Pacific/Honolulu", "America/Santiago", "Asia/Gaza"}

func (z zoneSpec) location(now time.Time) *time.Location {
	switch {
	case len(z.Trans) > 0:
		data := tzif(z.Off, z.Trans, now)
		loc, err := time.LoadLocationFromTZData("Test/Zone", data)
		if err != nil {
			panic(err)
		}
		return loc
	case z.Name != "":
		loc, err := time.LoadLocation(z.Name)
		if err != nil {
			panic(err)
		}
		return loc
	}
	return time.FixedZone("FIX", z.Off)
}

// tzif writes time zone data (version 1).
func tzif(off int, trans []transition, now time.Time) []byte {
	var b []byte
	be := func(v int64) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	b = append(b, "TZif"...)
	b = append(b, make([]byte, 16)...)
	be(0)
	be(0)
	be(0)
	be(int64(len(trans)))
	be(int64(len(trans) + 1))
	be(8)
	for _, t := range trans {
		be(now.Unix() + t.In)
	}
	for i := range trans {
		b = append(b, byte(i+1))
	}
	be(int64(off))
	b = append(b, 0, 0)
	for _, t := range trans {
		be(int64(t.Off))
		if t.DST {
			b = append(b, 1, 4)
		} else {
			b = append(b, 0, 0)
		}
	}
	return append(b, "STD\x00DST\x00"...)
}

func genZone(t *rapid.T, changes bool) zoneSpec {
	if changes && chance(t, "changes", 50) {
		z := zoneSpec{Off: 1800 * intR(t, "off", -22, 24)}
		at := int64(-3 * 86400)
		off := z.Off
		for n := intR(t, "ntrans", 1, 3); n > 0; n-- {
			at += int64(intR(t, "at", 1, 4*48)) * 1800
			step := pick(t, "step", 3600, -3600, 1800, -1800, 7200, -7200)
			off += step
			z.Trans = append(z.Trans, transition{In: at, Off: off, DST: step > 0})
		}
		return z
	}
	if chance(t, "fixed", 30) {
		return zoneSpec{Off: pick(t, "fixedOff", 0, 3600, -3600, 19800, -12600, 45900, 50400, -43200, 20, -3599)}
	}
	return zoneSpec{Name: pick(t, "zone", zoneNames...)}
}

const (
	minSec = -62104060800 // year 2
	maxSec = 253370764800 // year 9999
)

// genInstant draws seconds since the epoch.
func genInstant(t *rapid.T) int64 {
	switch intR(t, "instantKind", 0, 5) {
	case 5:
		return sourceInt(t, "sec", maxSec)
	case 0:
		return rapid.Int64Range(minSec, maxSec).Draw(t, "sec")
	case 1:
		return rapid.Int64Range(-3e9, 6e9).Draw(t, "sec")
	case 2: // around new year
		y := genYear(t)
		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(intR(t, "around", -100000, 100000))
	case 3: // around leap days
		y := genYear(t)
		return time.Date(y, 3, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(intR(t, "around", -100000, 100000))
	}
	return time.Date(genYear(t), time.Month(intR(t, "month", 1, 12)), intR(t, "day", 1, 31), pick(t, "hour", 0, 1, 11, 12, 13, 23), pick(t, "min", 0, 0, 1, 59), pick(t, "s", 0, 0, 1, 59), 0, time.UTC).Unix()
}

func genYear(t *rapid.T) int {
	if chance(t, "sourceYear", 5) {
		return max(3, int(sourceInt(t, "year", 9998)))
	}
	if chance(t, "anyYear", 30) {
		return intR(t, "year", 3, 9998)
	}
	return pick(t, "year", 1896, 1900, 1904, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2023, 2024, 2025, 2096, 2100, 2101, 2104, 2400, 4, 100, 400)
}

func genNsec(t *rapid.T) int64 {
	return pick(t, "nsec", int64(0), 0, 1, 999, 1000, 123456, 1230000, 500000000, 999999999, 999999000, 10000000)
}

// ---------------------------------------------------------------- C26

type elapsedPart struct {
	Count int64
	Unit  string
}

var elapsedUnits = []struct {
	name string
	sec  int64
}{{"year", 365 * 86400}, {"month", 30 * 86400}, {"week", 7 * 86400}, {"day", 86400}, {"hour", 3600}, {"minute", 60}}

// leapYears is the number of leap years before a year.
func leapYears(y int) int64 {
	n := int64(0)
	y--
	n += int64(floorDiv(y, 4))
	n -= int64(floorDiv(y, 100))
	n += int64(floorDiv(y, 400))
	return n
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

func isLeap(y int) bool { return y%4 == 0 && y%100 != 0 || y%400 == 0 }

// quotient is the number of units, where all but 0.0005 of a unit is a unit;
// ties report false.
func quotient(sec, unit int64) (int64, bool) {
	// round(1000*sec/unit)/1000, rounded down
	num, den := 2000*sec+unit, 2*unit
	return floorDiv64(floorDiv64(num, den), 1000), num%den != 0
}

func floorDiv64(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// elapsed is the reference decomposition; ok is false for rounding ties.
func elapsed(d, now time.Time, depth int, adjacent bool) (parts []elapsedPart, ok bool) {
	if depth <= 0 {
		depth = 2
	}
	sec := now.Unix() - d.Unix()
	y1, y2 := d.UTC().Year(), now.UTC().Year()
	leap := leapYears(y2) - leapYears(y1)
	if leap != 0 {
		if isLeap(y1) {
			leap--
		} else if isLeap(y2) {
			leap++
		}
	}
	sec -= leap * 86400
	zero := []elapsedPart{{0, "minute"}}
	if sec <= 0 {
		return zero, true
	}
	ok = true
	for _, u := range elapsedUnits {
		n, exact := quotient(sec, u.sec)
		if !exact && sec%u.sec > u.sec/2 {
			ok = false
		}
		if n <= 0 {
			if len(parts) > 0 && adjacent {
				break
			}
			continue
		}
		parts = append(parts, elapsedPart{n, u.name})
		sec -= n * u.sec
		if len(parts) == depth {
			break
		}
	}
	if len(parts) == 0 {
		return zero, ok
	}
	return parts, ok
}

func groupDigits(n int64) string {
	s := strconv.FormatInt(n, 10)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

func elapsedText(parts []elapsedPart) string {
	var out []string
	for _, p := range parts {
		w := p.Unit
		if p.Count != 1 {
			w += "s"
		}
		out = append(out, groupDigits(p.Count)+" "+w)
	}
	return strings.Join(out, ", ")
}

type elapsedCase struct {
	From  int64    `json:"from"`
	To    int64    `json:"to"`
	FromN int64    `json:"fromN,omitempty"`
	ToN   int64    `json:"toN,omitempty"`
	ZoneA zoneSpec `json:"zoneA"`
	ZoneB zoneSpec `json:"zoneB"`
	Depth *int     `json:"depth,omitempty"`
	Loose bool     `json:"loose,omitempty"` // without adjacency
	Rep   string   `json:"rep"`
}

func genElapsed(t *rapid.T) elapsedCase {
	c := elapsedCase{From: genInstant(t), ZoneA: genZone(t, false), ZoneB: genZone(t, false), Loose: chance(t, "loose", 40), Rep: pick(t, "rep", "time", "time", "ptr", "unix", "string", "float")}
	if chance(t, "nsec", 40) {
		c.FromN, c.ToN = genNsec(t), genNsec(t)
	}
	if chance(t, "depth", 60) {
		d := pick(t, "depthN", -1, 0, 1, 2, 3, 4, 5, 6, 7, 100)
		c.Depth = &d
	}
	d := int64(0)
	switch intR(t, "span", 0, 5) {
	case 5:
		d = sourceInt(t, "source", 1<<36) * int64(pick(t, "times", 1, 1, 60, 3600, 86400, -1))
	case 0:
		d = genInstant(t) - c.From
	case 4: // close to a unit
		u := elapsedUnits[intR(t, "unit", 0, 5)]
		d = u.sec*int64(intR(t, "times", 1, 60)) + int64(intR(t, "plus", -100, 100))*u.sec/100000
		d += int64(intR(t, "plusSec", -3, 3))
	default:
		for _, u := range elapsedUnits {
			if chance(t, u.name, 40) {
				d += u.sec * int64(pick(t, "n", 1, 1, 2, 3, 11, 12, 23, 59))
			}
		}
		d += int64(pick(t, "rest", 0, 0, 0, 1, -1, 59, -59, 30))
		if chance(t, "backwards", 10) {
			d = -d
		}
	}
	c.To = c.From + d
	if c.To < minSec || c.To > maxSec {
		c.To = c.From
	}
	return c
}

func checkC26(c elapsedCase, ctx *engine.Ctx) error {
	h := english()
	base := time.Unix(0, 0)
	d := time.Unix(c.From, c.FromN).In(c.ZoneA.location(base))
	now := time.Unix(c.To, c.ToN).In(c.ZoneB.location(base))
	depth := 2
	var opts []humanize.TimeOption
	if c.Depth != nil {
		depth = *c.Depth
		opts = append(opts, humanize.WithDepth(depth))
	}
	if c.Loose {
		opts = append(opts, humanize.WithoutAdjacentCheck())
	}
	opts = append(make([]humanize.TimeOption, 0, 6), opts...) // with room, as the slices of a caller often have
	arg := func(t time.Time) any {
		switch c.Rep {
		case "ptr":
			return &t
		case "unix":
			return t.Unix()
		case "string":
			return fmt.Sprint(t.Unix())
		case "float":
			return float64(t.Unix())
		}
		return t
	}
	with := func(o ...humanize.TimeOption) []humanize.TimeOption { return append(o, opts...) }
	check := func(what string, from, to time.Time, texts ...string) error {
		parts, ok := elapsed(from, to, depth, !c.Loose)
		if !ok {
			ctx.Label("tie")
			return nil
		}
		ctx.NonTrivialIf(parts[0].Count > 0)
		ctx.LabelIf(len(parts) > 2, "more than two units")
		want := elapsedText(parts)
		for i, s := range texts {
			if nbsp(s) != want {
				return fmt.Errorf("%s %d of %s to %s (%d s, depth %d, loose %v) gives %q, want %q", what, i+1, from, to, to.Unix()-from.Unix(), depth, c.Loose, s, want)
			}
		}
		return nil
	}
	if err := check("elapsed time", d, now,
		h.TimeSince(arg(d), with(humanize.WithNow(now))...),
		h.TimeSinceFrom(arg(d), now, opts...),
		h.TimeUntilFrom(arg(now), d, opts...),
		h.TimeUntil(arg(now), with(humanize.WithNow(d))...),
		h.TimeSince(arg(now), with(humanize.WithNow(d), humanize.WithReverse(true))...),
		h.TimeSinceFrom(arg(d.UTC()), now.In(d.Location()), opts...),
		h.TimeUntilFrom(arg(now.In(d.Location())), d.In(now.Location()), opts...),
	); err != nil {
		return err
	}
	if err := check("remaining time", now, d,
		h.TimeUntil(arg(d), with(humanize.WithNow(now))...),
		h.TimeUntilFrom(arg(d), now, opts...),
		h.TimeSinceFrom(arg(now), d, opts...)); err != nil {
		return err
	}
	for _, o := range opts[len(opts):cap(opts)] {
		if o != nil {
			return fmt.Errorf("a call writes into the caller's slice of options")
		}
	}
	return nil
}

type durationCase struct {
	Sec   int64 `json:"sec"`
	Depth int   `json:"depth"`
}

func genDurationCase(t *rapid.T) durationCase {
	c := durationCase{Depth: intR(t, "depth", 0, 4)}
	u := elapsedUnits[intR(t, "unit", 0, 5)]
	c.Sec = u.sec*int64(intR(t, "times", 0, 40)) + int64(intR(t, "plus", -70, 70))
	return c
}

// checkDuration: durations count from now, the default.
func checkDuration(c durationCase, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	h := english()
	dur := time.Duration(c.Sec) * time.Second
	for _, f := range []struct {
		name string
		call func() string
		sign int64
	}{
		{"TimeUntil", func() string { return h.TimeUntil(dur, humanize.WithDepth(c.Depth)) }, 1},
		{"TimeSince", func() string { return h.TimeSince(-dur, humanize.WithDepth(c.Depth)) }, -1},
		{"TimeUntil of a time", func() string { return h.TimeUntil(time.Now().Add(dur), humanize.WithDepth(c.Depth)) }, 1},
	} {
		t0 := time.Now()
		got := nbsp(f.call())
		t1 := time.Now()
		wants := map[string]bool{}
		for _, a := range []time.Time{t0, t1} {
			for _, b := range []time.Time{t0, t1} {
				var parts []elapsedPart
				ok := true
				if f.sign > 0 {
					parts, ok = elapsed(a, b.Add(dur), c.Depth, true)
				} else {
					parts, ok = elapsed(a.Add(-dur), b, c.Depth, true)
				}
				if !ok {
					return nil
				}
				wants[elapsedText(parts)] = true
			}
		}
		if t1.Sub(t0) < 500*time.Millisecond && !wants[got] {
			return fmt.Errorf("%s(%s) gives %q, want one of %v", f.name, dur, got, wants)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C27

// hum is a reference humanizer: texts of a catalog, or English.
type hum struct {
	tag   language.Tag
	msgs  map[string]map[string]*po.Message
	forms *ref.PluralForms
	p     *message.Printer
	data  humanize.FormatData
}

func (h *hum) get(ctx, id string) string {
	if m := h.msgs[ctx][id]; m != nil && m.Str[0] != "" {
		return m.Str[0]
	}
	return id
}

func (h *hum) nget(ctx, id, plural string, n int64) string {
	if m := h.msgs[ctx][id]; m != nil && h.forms != nil {
		zero := false
		if s := m.Str[int(h.forms.E.Eval(abs(n), &zero))]; s != "" {
			return s
		}
	}
	if abs(n) == 1 {
		return id
	}
	return plural
}

// fget formats a text; one without a translation is formatted in English.
func (h *hum) fget(ctx, id string, vars ...any) string {
	p := h.p
	if m := h.msgs[ctx][id]; m == nil || m.Str[0] == "" {
		p = englishPrinter
	}
	return p.Sprintf(h.get(ctx, id), vars...)
}

// nfget formats a text with plural forms.
func (h *hum) nfget(ctx, id, plural string, n int64, vars ...any) string {
	p := h.p
	if m := h.msgs[ctx][id]; m == nil || m.Str[0] == "" {
		p = englishPrinter
	}
	return p.Sprintf(h.nget(ctx, id, plural, n), vars...)
}

var englishPrinter = message.NewPrinter(language.English)

// text passes a text without arguments through the printer.
func (h *hum) text(ctx, id string) string { return h.get(ctx, id) }

var (
	dayNames   = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	monthNames = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	monthsAP   = []string{"Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec."}
)

func two(n int) string { return fmt.Sprintf("%02d", n) }

func hour12(h int) int {
	if h %= 12; h == 0 {
		return 12
	}
	return h
}

func zoneOffset(off int) string {
	sign := "+"
	if off < 0 {
		sign, off = "-", -off
	}
	return sign + two(off/3600) + two(off/60%60)
}

func daysInMonth(y int, m time.Month) int {
	switch m {
	case time.February:
		if isLeap(y) {
			return 29
		}
		return 28
	case time.April, time.June, time.September, time.November:
		return 30
	}
	return 31
}

func title(s string) string {
	r := []rune(s)
	return strings.ToUpper(string(r[:1])) + string(r[1:])
}

// letter renders one format letter; false for characters that are no letters
// of the format language.
func (h *hum) letter(t time.Time, r rune) (string, bool) {
	zone, off := t.Zone()
	ampm := func(am, pm string) string {
		if t.Hour() >= 12 {
			return h.text("", pm)
		}
		return h.text("", am)
	}
	f := func() string {
		s := strconv.Itoa(hour12(t.Hour()))
		if t.Minute() != 0 {
			s += ":" + two(t.Minute())
		}
		return s
	}
	switch r {
	case 'a':
		return ampm("a.m.", "p.m."), true
	case 'A':
		return ampm("AM", "PM"), true
	case 'b':
		return h.text("", strings.ToLower(monthNames[t.Month()-1][:3])), true
	case 'd':
		return two(t.Day()), true
	case 'D':
		return h.text("", dayNames[t.Weekday()][:3]), true
	case 'e':
		return zone, true
	case 'E':
		return h.text("alt. month", monthNames[t.Month()-1]), true
	case 'f':
		return f(), true
	case 'F':
		return h.text("", monthNames[t.Month()-1]), true
	case 'g':
		return strconv.Itoa(hour12(t.Hour())), true
	case 'G':
		return strconv.Itoa(t.Hour()), true
	case 'h':
		return two(hour12(t.Hour())), true
	case 'H':
		return two(t.Hour()), true
	case 'i':
		return two(t.Minute()), true
	case 'I':
		if t.IsDST() {
			return "1", true
		}
		return "0", true
	case 'j':
		return strconv.Itoa(t.Day()), true
	case 'l':
		return h.text("", dayNames[t.Weekday()]), true
	case 'L':
		return strconv.FormatBool(isLeap(t.Year())), true
	case 'm':
		return two(int(t.Month())), true
	case 'M':
		return title(h.text("", strings.ToLower(monthNames[t.Month()-1][:3]))), true
	case 'n':
		return strconv.Itoa(int(t.Month())), true
	case 'N':
		return h.text("abbrev. month", monthsAP[t.Month()-1]), true
	case 'o':
		y, _ := t.ISOWeek()
		return strconv.Itoa(y), true
	case 'O':
		return zoneOffset(off), true
	case 'P':
		switch {
		case t.Hour() == 0 && t.Minute() == 0:
			return h.text("", "midnight"), true
		case t.Hour() == 12 && t.Minute() == 0:
			return h.text("", "noon"), true
		}
		return f() + " " + ampm("a.m.", "p.m."), true
	case 'r':
		return fmt.Sprintf("%s, %s %s %04d %s:%s:%s %s", dayNames[t.Weekday()][:3], two(t.Day()), monthNames[t.Month()-1][:3], t.Year(), two(t.Hour()), two(t.Minute()), two(t.Second()), zoneOffset(off)), true
	case 's':
		return two(t.Second()), true
	case 'S':
		if d := t.Day(); d < 11 || d > 13 {
			switch d % 10 {
			case 1:
				return "st", true
			case 2:
				return "nd", true
			case 3:
				return "rd", true
			}
		}
		return "th", true
	case 't':
		return strconv.Itoa(daysInMonth(t.Year(), t.Month())), true
	case 'T':
		return time.Local.String(), true
	case 'u':
		return fmt.Sprintf("%06d", t.Nanosecond()/1000), true
	case 'U':
		return strconv.FormatInt(t.Unix(), 10), true
	case 'w':
		return strconv.Itoa(int(t.Weekday())), true
	case 'W':
		_, w := t.ISOWeek()
		return strconv.Itoa(w), true
	case 'y':
		return two(t.Year() % 100), true
	case 'Y':
		return fmt.Sprintf("%04d", t.Year()), true
	case 'z':
		n := t.Day()
		for m := time.January; m < t.Month(); m++ {
			n += daysInMonth(t.Year(), m)
		}
		return strconv.Itoa(n), true
	case 'Z':
		return strconv.Itoa(off), true
	}
	return "", false
}

func (h *hum) format(t time.Time, format string) string {
	var b strings.Builder
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' {
			if i+1 < len(rs) {
				i++
			}
			b.WriteRune(rs[i])
			continue
		}
		if s, ok := h.letter(t, rs[i]); ok {
			b.WriteString(s)
			continue
		}
		b.WriteRune(rs[i])
	}
	return b.String()
}

var defaultFormats = humanize.FormatData{DateFormat: "N j, Y", TimeFormat: "P", DateTimeFormat: "N j, Y, P", YearMonthFormat: "F Y", MonthDayFormat: "F j", ShortDateFormat: "m/d/Y", ShortDatetimeFormat: "m/d/Y P"}

func withDefaults(f *humanize.FormatData) humanize.FormatData {
	out := defaultFormats
	if f == nil {
		return out
	}
	for _, x := range []struct{ to, from *string }{{&out.DateFormat, &f.DateFormat}, {&out.TimeFormat, &f.TimeFormat}, {&out.DateTimeFormat, &f.DateTimeFormat}, {&out.YearMonthFormat, &f.YearMonthFormat},
		{&out.MonthDayFormat, &f.MonthDayFormat}, {&out.ShortDateFormat, &f.ShortDateFormat}, {&out.ShortDatetimeFormat, &f.ShortDatetimeFormat}} {
		if *x.from != "" {
			*x.to = *x.from
		}
	}
	return out
}

// named gives the formats behind the keywords.
func named(f humanize.FormatData) map[string]string {
	return map[string]string{"DATE_FORMAT": f.DateFormat, "TIME_FORMAT": f.TimeFormat, "DATETIME_FORMAT": f.DateTimeFormat, "YEAR_MONTH_FORMAT": f.YearMonthFormat,
		"MONTH_DAY_FORMAT": f.MonthDayFormat, "SHORT_DATE_FORMAT": f.ShortDateFormat, "SHORT_DATETIME_FORMAT": f.ShortDatetimeFormat}
}

var keywords = []string{"DATE_FORMAT", "TIME_FORMAT", "DATETIME_FORMAT", "YEAR_MONTH_FORMAT", "MONTH_DAY_FORMAT", "SHORT_DATE_FORMAT", "SHORT_DATETIME_FORMAT"}

var refEnglish = sync.OnceValue(func() *hum {
	return &hum{tag: language.English, p: message.NewPrinter(language.English), data: defaultFormats}
})

type timeSpec struct {
	Sec  int64    `json:"sec"`
	Nsec int64    `json:"nsec,omitempty"`
	Zone zoneSpec `json:"zone"`
}

func (s timeSpec) time() time.Time {
	return time.Unix(s.Sec, s.Nsec).In(s.Zone.location(time.Unix(0, 0)))
}

func genTimeSpec(t *rapid.T) timeSpec {
	return timeSpec{Sec: genInstant(t), Nsec: genNsec(t), Zone: genZone(t, false)}
}

const formatLetters = "aAbdDeEfFgGhHiIjlLmMnNoOPrsStTuUwWyYzZ"

type formatCase struct {
	Time   timeSpec `json:"time"`
	Format string   `json:"format"`
}

func genFormat(t *rapid.T) string {
	var b strings.Builder
	for n := intR(t, "nparts", 0, 10); n > 0; n-- {
		switch intR(t, "part", 0, 5) {
		case 0:
			b.WriteString(pick(t, "lit", " ", "-", "/", ":", ".", ", ", "B", "C", "J", "K", "p", "q", "R", "v", "V", "x", "X", "k", "Q", "é", "日", "%", "%d", "1", "\n", "{", "€", "😀"))
		case 1:
			b.WriteString("\\")
			if chance(t, "escLetter", 60) {
				b.WriteByte(formatLetters[intR(t, "letter", 0, len(formatLetters)-1)])
			} else {
				b.WriteString(pick(t, "esc", "\\", "é", " ", "c", "日", "n", "x"))
			}
		default:
			b.WriteByte(formatLetters[intR(t, "letter", 0, len(formatLetters)-1)])
		}
	}
	if chance(t, "trailing", 5) {
		b.WriteString("\\")
	}
	return b.String()
}

func genFormatCase(t *rapid.T) formatCase {
	c := formatCase{Time: genTimeSpec(t), Format: genFormat(t)}
	if chance(t, "keyword", 10) {
		c.Format = pick(t, "kw", keywords...)
	}
	return c
}

// subMinute: offsets with seconds are rendered without them.
func checkC27(c formatCase, ctx *engine.Ctx) error {
	tm := c.Time.time()
	format, want := c.Format, ""
	e := refEnglish()
	if f, ok := named(e.data)[format]; ok {
		ctx.Label("named format")
		want = e.format(tm, f)
	} else {
		want = e.format(tm, format)
	}
	ctx.NonTrivialIf(len(format) > 0)
	ctx.LabelIf(strings.Contains(format, "\\"), "escape")
	ctx.LabelIf(tm.IsDST(), "daylight saving")
	got := english().FormatTime(tm, format)
	if got != want {
		return fmt.Errorf("FormatTime(%s, %q) gives %q, want %q", tm, format, got, want)
	}
	return nil
}

type isoTimeCase struct {
	Time timeSpec `json:"time"`
	Pre  string   `json:"pre,omitempty"`
}

func genISOTime(t *rapid.T) isoTimeCase {
	return isoTimeCase{Time: genTimeSpec(t), Pre: pick(t, "pre", "", "", "x ", "Y-")}
}

var isoTime = regexp.MustCompile(`^(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d+)?(Z|[+-]\d\d:?\d\d)?$`)

// checkISO: the letter c is date and time with the fraction of the second.
func checkISO(c isoTimeCase, ctx *engine.Ctx) error {
	tm := c.Time.time()
	ctx.NonTrivial()
	pre := refEnglish().format(tm, c.Pre)
	got, ok := strings.CutPrefix(english().FormatTime(tm, c.Pre+"c"), pre)
	m := isoTime.FindStringSubmatch(got)
	if !ok || m == nil {
		return fmt.Errorf("format %q of %s gives %q", c.Pre+"c", tm, got)
	}
	if want := fmt.Sprintf("%04d-%s-%sT%s:%s:%s", tm.Year(), two(int(tm.Month())), two(tm.Day()), two(tm.Hour()), two(tm.Minute()), two(tm.Second())); m[1] != want {
		return fmt.Errorf("format c of %s gives %q, want %s", tm, got, want)
	}
	frac, _ := strconv.ParseFloat("0"+m[2], 64)
	if math.Abs(frac-float64(tm.Nanosecond())/1e9) >= 1e-6 {
		if m[2] == "."+strconv.Itoa(tm.Nanosecond()) {
			return engine.Keyf("c-unpadded-nanoseconds", "format c of a time with %d ns gives %q: the nanoseconds are not padded, so the fraction of the second is wrong", tm.Nanosecond(), got)
		}
		return fmt.Errorf("format c of %s gives %q: wrong fraction of the second", tm, got)
	}
	return nil
}

type localeCase struct {
	Lang   string               `json:"lang"`
	Format *humanize.FormatData `json:"format"`
	Time   timeSpec             `json:"time"`
	Other  bool                 `json:"other,omitempty"`
}

func genLocaleCase(t *rapid.T) localeCase {
	c := localeCase{Lang: pick(t, "lang", "de", "fr", "pl", "en-GB", "tlh"), Time: genTimeSpec(t), Other: chance(t, "other", 30)}
	if chance(t, "hasFormat", 85) {
		f := &humanize.FormatData{}
		for _, p := range []*string{&f.DateFormat, &f.TimeFormat, &f.DateTimeFormat, &f.YearMonthFormat, &f.MonthDayFormat, &f.ShortDateFormat, &f.ShortDatetimeFormat} {
			if chance(t, "set", 60) {
				*p = genFormat(t)
			}
		}
		c.Format = f
	}
	return c
}

// checkLocaleFormats: the named formats of a language, with defaults.
func checkLocaleFormats(c localeCase, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	file := fstest.MapFS{"django.po": {Data: []byte("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n")}}
	var f *humanize.FormatData
	if c.Format != nil {
		copied := *c.Format
		f = &copied
	}
	want := withDefaults(c.Format)
	data := []*humanize.LocaleData{{Lang: language.MustParse(c.Lang), Fs: file, Format: f}}
	if c.Other {
		data = append(data, &humanize.LocaleData{Lang: language.MustParse("sv"), Fs: file, Format: &humanize.FormatData{DateFormat: "X"}})
	}
	coll, err := humanize.New(humanize.WithLocale(data...))
	if err != nil {
		return fmt.Errorf("New: %v", err)
	}
	tm := c.Time.time()
	for _, x := range []struct {
		lang string
		data humanize.FormatData
	}{{c.Lang, want}, {"zu", defaultFormats}} {
		h := coll.CreateHumanizer(x.lang)
		for _, k := range keywords {
			if got, want := h.FormatTime(tm, k), refEnglish().format(tm, named(x.data)[k]); got != want {
				return fmt.Errorf("language %s: %s of %s gives %q, want %q (format %q)", x.lang, k, tm, got, want, named(x.data)[k])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C28

type naturalCase struct {
	Off  int64    `json:"off"` // nanoseconds from now
	Zone zoneSpec `json:"zone"`
	Rep  string   `json:"rep"`
}

func genNaturalDay(t *rapid.T) naturalCase {
	c := naturalCase{Zone: genZone(t, true), Rep: pick(t, "rep", "time", "time", "time", "ptr", "unix", "duration")}
	c.Off = int64(intR(t, "halfHours", -160, 160)) * int64(30*time.Minute)
	c.Off += int64(pick(t, "fine", 0, 0, 1, -1, 13, 59)) * int64(time.Minute)
	if chance(t, "far", 10) {
		c.Off *= int64(intR(t, "times", 2, 2000))
	}
	return c
}

// civil is the number of the day in the calendar.
func civil(t time.Time) int {
	n := t.Day() + 365*(t.Year()-1) + int(leapYears(t.Year()))
	for m := time.January; m < t.Month(); m++ {
		n += daysInMonth(t.Year(), m)
	}
	return n
}

func checkNaturalDay(c naturalCase, ctx *engine.Ctx) error {
	ctx.NonTrivial()
	h := english()
	t0 := time.Now()
	loc := c.Zone.location(t0)
	t := t0.Add(time.Duration(c.Off)).In(loc)
	var got string
	switch c.Rep {
	case "ptr":
		got = h.NaturalDay(&t)
	case "unix":
		t = time.Unix(t.Unix(), 0)
		loc = time.Local
		got = h.NaturalDay(t.Unix())
	case "duration":
		loc = time.Local
		t = t.In(time.Local)
		got = h.NaturalDay(time.Duration(c.Off))
	default:
		got = h.NaturalDay(t)
	}
	t1 := time.Now()
	wants := map[string]bool{}
	for _, now := range []time.Time{t0, t1} {
		x := t
		if c.Rep == "duration" {
			x = now.Add(time.Duration(c.Off)).In(time.Local)
		}
		switch civil(x) - civil(now.In(loc)) {
		case 0:
			wants["today"] = true
		case 1:
			wants["tomorrow"] = true
		case -1:
			wants["yesterday"] = true
		default:
			wants[refEnglish().format(x, "N j, Y")] = true
			ctx.Label("another day")
		}
	}
	ctx.LabelIf(len(c.Zone.Trans) > 0, "zone with clock changes around now")
	if !wants[got] {
		return fmt.Errorf("NaturalDay(%s) at %s gives %q, want %v", t, t0.In(loc), got, wants)
	}
	return nil
}

func genNaturalTime(t *rapid.T) naturalCase {
	c := naturalCase{Zone: genZone(t, true), Rep: pick(t, "rep", "time", "time", "time", "ptr", "duration")}
	sec := int64(0)
	switch intR(t, "range", 0, 4) {
	case 0:
		sec = int64(intR(t, "sec", 0, 70))
	case 1:
		sec = int64(60*intR(t, "min", 0, 65)) + int64(pick(t, "plus", 0, 0, 1, -1, 30, 59))
	case 2:
		sec = int64(3600*intR(t, "hours", 0, 30)) + int64(pick(t, "plus", 0, 0, 1, -1, 1800, 3599, -60))
	case 3:
		sec = int64(86400*intR(t, "days", 0, 900)) + int64(pick(t, "plus", 0, 0, 1, -1, 3600, -3600, 43200))
	case 4:
		sec = pick(t, "edge", int64(59), 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 59*60, 23*3600)
	}
	c.Off = sec*int64(time.Second) + int64(pick(t, "frac", 0, 0, 300, 480, 520, 700, 900, -300, -480, -520, -700))*int64(time.Millisecond)
	if chance(t, "past", 50) {
		c.Off = -c.Off
	}
	return c
}

// naturalText is the reference text at one instant.
func naturalText(t, now time.Time) []string {
	unit := func(n int64, one, many, dir string) []string {
		if n == 1 {
			return []string{one + " " + dir}
		}
		return []string{fmt.Sprintf("%d %s %s", n, many, dir)}
	}
	dir, sec := "from now", int64(0)
	past := t.Before(now)
	if past {
		dir = "ago"
		sec = int64(now.Sub(t) / time.Second)
	} else {
		sec = int64(t.Sub(now).Round(time.Second) / time.Second)
	}
	switch {
	case sec == 0:
		return []string{"now"}
	case sec < 60:
		return unit(sec, "a second", "seconds", dir)
	case sec < 3600:
		return unit(sec/60, "a minute", "minutes", dir)
	case sec < 86400:
		return unit(sec/3600, "an hour", "hours", dir)
	}
	// whole seconds are counted exactly or between the seconds of the clock
	var out []string
	a, b := now, t
	if past {
		a, b = t, now
	}
	for _, x := range []time.Time{b, a.Add(time.Duration(sec) * time.Second)} {
		if parts, ok := elapsed(a, x, 2, true); ok {
			out = append(out, elapsedText(parts)+" "+dir)
		} else {
			return nil
		}
	}
	return out
}

func checkNaturalTime(c naturalCase, ctx *engine.Ctx) error {
	h := english()
	t0 := time.Now()
	loc := c.Zone.location(t0)
	var got string
	t := t0.Add(time.Duration(c.Off)).In(loc)
	switch c.Rep {
	case "ptr":
		got = h.NaturalTime(&t)
	case "duration":
		got = h.NaturalTime(time.Duration(c.Off))
	default:
		got = h.NaturalTime(t)
	}
	t1 := time.Now()
	got = nbsp(got)
	if t1.Sub(t0) > 400*time.Millisecond {
		return nil
	}
	ctx.NonTrivial()
	wants := map[string]bool{}
	for _, now := range []time.Time{t0, t1} {
		texts := naturalText(t, now)
		if c.Rep == "duration" {
			// t is now plus the duration, at some instant of the call
			texts = append(naturalText(now.Add(time.Duration(c.Off)), now), naturalText(t0.Add(time.Duration(c.Off)), t1)...)
		}
		if texts == nil {
			return nil
		}
		for _, s := range texts {
			wants[s] = true
		}
	}
	ctx.LabelIf(c.Off < 0, "past")
	ctx.LabelIf(abs(c.Off) >= int64(24*time.Hour), "beyond a day")
	if !wants[got] {
		return fmt.Errorf("NaturalTime of %s from now (%s) gives %q, want %v", time.Duration(c.Off), c.Rep, got, wants)
	}
	return nil
}

// ---------------------------------------------------------------- C29

type shippedLocales struct {
	coll *humanize.Collection
	tags []language.Tag
	ref  map[string]*hum
	err  error
}

var locales = sync.OnceValue(func() *shippedLocales {
	s := &shippedLocales{ref: map[string]*hum{}}
	all := shipped()
	for _, d := range all {
		h := &hum{tag: d.Lang, p: message.NewPrinter(d.Lang), data: withDefaults(d.Format)}
		data, err := fs.ReadFile(d.Fs, "django.po")
		if err != nil {
			s.err = fmt.Errorf("locale %s: %v", d.Lang, err)
			return s
		}
		f, err := po.Parse(data)
		if err != nil {
			s.err = fmt.Errorf("locale %s: %v", d.Lang, err)
			return s
		}
		h.msgs = f.Messages
		if h.forms, err = ref.ParsePluralForms(f.Header.PluralForms); err != nil {
			s.err = fmt.Errorf("locale %s: %v", d.Lang, err)
			return s
		}
		if s.ref[d.Lang.String()] != nil {
			s.err = fmt.Errorf("two locales for %s", d.Lang)
			return s
		}
		s.ref[d.Lang.String()] = h
		s.tags = append(s.tags, d.Lang)
	}
	s.coll, s.err = humanize.New(humanize.WithLocale(all...))
	return s
})

func (h *hum) dec(v float64, digits int) string {
	return h.p.Sprintf("%v", number.Decimal(v, number.MaxFractionDigits(digits)))
}

func (h *hum) since(parts []elapsedPart, ctx string) string {
	var out []string
	for _, p := range parts {
		out = append(out, h.nfget(ctx, "%[1]v "+p.Unit, "%[1]v "+p.Unit+"s", p.Count, p.Count))
	}
	return strings.Join(out, h.text("", ", "))
}

type shippedCase struct {
	Lang  string      `json:"lang"`
	Many  []string    `json:"many,omitempty"` // requested before
	Kind  string      `json:"kind"`
	N     int64       `json:"n"`
	F     string      `json:"f,omitempty"`
	Time  timeSpec    `json:"time"`
	Code  string      `json:"code,omitempty"`
	Span  elapsedCase `json:"span"`
	Letts string      `json:"letters,omitempty"`
}

var shippedTags = sync.OnceValue(func() []string {
	var out []string
	for _, d := range shipped() {
		out = append(out, d.Lang.String())
	}
	return out
})

func genShipped(t *rapid.T) shippedCase {
	c := shippedCase{Lang: pick(t, "lang", shippedTags()...), Kind: pick(t, "kind", "ordinal", "ap", "intcomma", "intword", "filesize", "since", "format", "format", "named", "day", "natural", "natural", "name")}
	if chance(t, "many", 15) {
		c.Many = subset(t, "pref", 50, []string{"tlh", "zu", "yue"})
	}
	switch c.Kind {
	case "ordinal", "ap":
		c.N = rapid.Int64Range(0, 300).Draw(t, "n")
		if chance(t, "big", 20) {
			c.N = rapid.Int64Range(0, math.MaxInt64).Draw(t, "big")
		}
	case "intcomma", "intword", "filesize":
		n := genHumNum(t)
		_, v, _ := humNum{Kind: "float64", S: n.S}.value()
		c.F = strconv.FormatFloat(v, 'g', -1, 64)
	case "since":
		c.Span = genElapsed(t)
	case "format":
		c.Time = genTimeSpec(t)
		c.Letts = genFormat(t)
	case "named":
		c.Time = genTimeSpec(t)
		c.Letts = pick(t, "kw", keywords...)
	case "natural", "day":
		c.N = genNaturalTime(t).Off
	case "name":
		codes := sortedKeys(humanize.LocaleInfos)
		c.Code = pick(t, "code", codes...)
	}
	return c
}

func checkC29(c shippedCase, ctx *engine.Ctx) error {
	l := locales()
	if l.err != nil {
		return l.err
	}
	ctx.NonTrivial()
	ctx.Label(c.Kind)
	var req []any
	for _, m := range c.Many {
		if l.ref[m] == nil {
			req = append(req, m)
		}
	}
	req = append(req, c.Lang)
	h := l.coll.CreateHumanizer(req...)
	if h.Language().String() != c.Lang {
		return fmt.Errorf("the humanizer for %v has language %s", req, h.Language())
	}
	r := l.ref[c.Lang]
	v, _ := strconv.ParseFloat(c.F, 64)
	got, call := "", ""
	wants := map[string]bool{}
	var counts []any // the numbers the text must contain
	switch c.Kind {
	case "ordinal":
		got, call = h.Ordinal(c.N), fmt.Sprintf("Ordinal(%d)", c.N)
		i := int64(float64(c.N))
		if float64(c.N) >= math.MaxInt64 {
			break
		}
		counts = append(counts, i)
		if k := i % 100; k >= 11 && k <= 13 {
			wants[r.fget("ordinal 11, 12, 13", "%vth", i)] = true
		} else {
			wants[r.fget(fmt.Sprintf("ordinal %d", i%10), "%v"+[]string{"th", "st", "nd", "rd", "th", "th", "th", "th", "th", "th"}[i%10], i)] = true
		}
	case "ap":
		got, call = h.Apnumber(c.N), fmt.Sprintf("Apnumber(%d)", c.N)
		if c.N >= 1 && c.N <= 9 {
			wants[r.text("", apWords[c.N-1])] = true
		} else {
			wants[r.dec(float64(c.N), 0)] = true
			wants[r.p.Sprintf("%d", c.N)] = true
			wants[r.p.Sprintf("%d", int64(float64(c.N)))] = true
		}
	case "intcomma":
		got, call = h.Intcomma(v), fmt.Sprintf("Intcomma(%g)", v)
		wants[r.dec(v, 6)] = true
	case "intword":
		got, call = h.Intword(v), fmt.Sprintf("Intword(%g)", v)
		found := false
		for _, w := range intwords {
			p := math.Pow10(w.exp)
			if a := math.Abs(v); a >= p && a < p*1000 {
				found = true
				q := v / p
				if q > 2 {
					counts = append(counts, number.Decimal(q, number.MaxFractionDigits(1), number.MinFractionDigits(1)))
				}
				wants[r.nfget("", "%[1]s "+w.word, "%[1]s "+w.word, int64(math.Ceil(math.Abs(q))), r.p.Sprintf("%.1f", q))] = true
			}
		}
		if !found {
			wants[r.dec(v, 6)] = true
		}
	case "filesize":
		got, call = h.FilesizeFormat(v), fmt.Sprintf("FilesizeFormat(%g)", v)
		if math.IsNaN(v) {
			return nil
		}
		a := math.Abs(math.Trunc(v))
		want := ""
		if a < 1024 {
			if a > 2 {
				counts = append(counts, int64(a))
			}
			want = r.nfget("", "%[1]d byte", "%[1]d bytes", int64(a), int64(a))
		} else {
			k, unit := 0, 1024.0
			for k < 4 && a >= unit*1024 {
				k++
				unit *= 1024
			}
			counts = append(counts, number.Decimal(a/unit, number.MaxFractionDigits(1)))
			want = r.fget("", "%s "+[]string{"KB", "MB", "GB", "TB", "PB"}[k], r.dec(a/unit, 1))
		}
		if math.Trunc(v) < 0 {
			want = "-" + want
		}
		wants[want] = true
	case "since":
		d, now := time.Unix(c.Span.From, c.Span.FromN), time.Unix(c.Span.To, c.Span.ToN)
		var opts []humanize.TimeOption
		depth := 2
		if c.Span.Depth != nil {
			depth = *c.Span.Depth
			opts = append(opts, humanize.WithDepth(depth))
		}
		if c.Span.Loose {
			opts = append(opts, humanize.WithoutAdjacentCheck())
		}
		parts, ok := elapsed(d, now, depth, !c.Span.Loose)
		if !ok {
			return nil
		}
		got, call = h.TimeSinceFrom(d, now, opts...), fmt.Sprintf("TimeSinceFrom(%s, %s)", d, now)
		for _, p := range parts {
			if p.Count > 2 {
				counts = append(counts, p.Count)
			}
		}
		wants[r.since(parts, "")] = true
	case "format":
		tm := c.Time.time()
		got, call = h.FormatTime(tm, c.Letts), fmt.Sprintf("FormatTime(%s, %q)", tm, c.Letts)
		wants[r.format(tm, c.Letts)] = true
		if got == "" && wants[got] {
			return nil
		}
	case "named":
		tm := c.Time.time()
		got, call = h.FormatTime(tm, c.Letts), fmt.Sprintf("FormatTime(%s, %q)", tm, c.Letts)
		wants[r.format(tm, named(r.data)[c.Letts])] = true
	case "day":
		t0 := time.Now()
		t := t0.Add(time.Duration(c.N))
		got, call = h.NaturalDay(t), fmt.Sprintf("NaturalDay(%s)", t)
		for _, now := range []time.Time{t0, time.Now()} {
			switch civil(t) - civil(now) {
			case 0:
				wants[r.text("", "today")] = true
			case 1:
				wants[r.text("", "tomorrow")] = true
			case -1:
				wants[r.text("", "yesterday")] = true
			default:
				wants[r.format(t, r.data.DateFormat)] = true
			}
		}
	case "natural":
		t0 := time.Now()
		t := t0.Add(time.Duration(c.N))
		got, call = h.NaturalTime(t), fmt.Sprintf("NaturalTime(%s from now)", time.Duration(c.N))
		t1 := time.Now()
		if t1.Sub(t0) > 400*time.Millisecond {
			return nil
		}
		if a, b := naturalCount(t, t0), naturalCount(t, t1); a == b && a > 2 {
			counts = append(counts, a)
		}
		for _, now := range []time.Time{t0, t1} {
			texts := r.natural(t, now)
			if texts == nil {
				return nil
			}
			for _, s := range texts {
				wants[s] = true
			}
		}
	case "name":
		info := humanize.LocaleInfos[c.Code]
		got, call = h.LanguageNameByCode(c.Code), fmt.Sprintf("LanguageNameByCode(%q)", c.Code)
		wants[r.text("", info.Name)] = true
		if s := h.LanguageName(info.Name); s != got {
			return fmt.Errorf("%s: LanguageName(%q) gives %q, but %s gives %q", c.Lang, info.Name, s, call, got)
		}
		if s := h.LanguageNameByCode("no-code"); s != "" {
			return fmt.Errorf("%s: LanguageNameByCode of an unknown code gives %q", c.Lang, s)
		}
	}
	if got == "" {
		return fmt.Errorf("%s: %s gives an empty text", c.Lang, call)
	}
	if c.Kind != "format" && (strings.Contains(got, "%!") || strings.Contains(got, "%[") || strings.Contains(got, "%(") || strings.Contains(got, "%s") || strings.Contains(got, "%v") || strings.Contains(got, "%d")) {
		return fmt.Errorf("%s: %s gives %q, which is not completely formatted", c.Lang, call, got)
	}
	for _, n := range counts {
		if !strings.Contains(got, r.p.Sprint(n)) && !strings.Contains(got, englishPrinter.Sprint(n)) {
			return fmt.Errorf("%s: %s gives %q, which does not contain %s", c.Lang, call, got, englishPrinter.Sprint(n))
		}
	}
	if len(wants) > 0 && !wants[got] {
		return fmt.Errorf("%s: %s gives %q, want %q", c.Lang, call, got, sortedKeys(wants))
	}
	return nil
}

// naturalCount is the number of seconds, minutes or hours below a day.
func naturalCount(t, now time.Time) int64 {
	sec := int64(t.Sub(now).Round(time.Second) / time.Second)
	if t.Before(now) {
		sec = int64(now.Sub(t) / time.Second)
	}
	switch {
	case sec < 60:
		return sec
	case sec < 3600:
		return sec / 60
	case sec < 86400:
		return sec / 3600
	}
	return 0
}

// natural is naturalText in the language.
func (h *hum) natural(t, now time.Time) []string {
	past := t.Before(now)
	dir, ctx := "from now", "naturaltime-future"
	sec := int64(t.Sub(now).Round(time.Second) / time.Second)
	if past {
		dir, ctx = "ago", "naturaltime-past"
		sec = int64(now.Sub(t) / time.Second)
	}
	unit := func(n int64, one, many string) []string {
		return []string{h.nfget("", one+" "+dir, "%[1]v "+many+" "+dir, n, n)}
	}
	switch {
	case sec == 0:
		return []string{h.text("", "now")}
	case sec < 60:
		return unit(sec, "a second", "seconds")
	case sec < 3600:
		return unit(sec/60, "a minute", "minutes")
	case sec < 86400:
		return unit(sec/3600, "an hour", "hours")
	}
	a, b := now, t
	if past {
		a, b = t, now
	}
	var out []string
	for _, x := range []time.Time{b, a.Add(time.Duration(sec) * time.Second)} {
		parts, ok := elapsed(a, x, 2, true)
		if !ok {
			return nil
		}
		out = append(out, h.fget("", "%[1]v "+dir, h.since(parts, ctx)))
	}
	return out
}

// listShipped enumerates the plural forms of all helpers in all languages.
func listShipped(tier string) []shippedCase {
	var out []shippedCase
	nums := []int64{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 19, 20, 21, 22, 23, 100, 101, 102, 111, 112, 1000}
	for _, lang := range shippedTags() {
		for _, n := range nums {
			out = append(out, shippedCase{Lang: lang, Kind: "ordinal", N: n}, shippedCase{Lang: lang, Kind: "ap", N: n}, shippedCase{Lang: lang, Kind: "filesize", F: fmt.Sprint(n)})
			if n == 0 {
				continue
			}
			for e := 6; e <= 33; e += 3 {
				out = append(out, shippedCase{Lang: lang, Kind: "intword", F: fmt.Sprintf("%de%d", n, e)})
			}
			for _, u := range elapsedUnits {
				d := n * u.sec
				if n*u.sec < 9e9 {
					out = append(out, shippedCase{Lang: lang, Kind: "since", Span: elapsedCase{From: 1e9, To: 1e9 + d}})
				}
				if n*u.sec < 5e9 {
					half := u.sec * 1e9 / 2
					out = append(out, shippedCase{Lang: lang, Kind: "natural", N: d * 1e9}, shippedCase{Lang: lang, Kind: "natural", N: -d * 1e9},
						shippedCase{Lang: lang, Kind: "natural", N: d*1e9 + half}, shippedCase{Lang: lang, Kind: "natural", N: -d*1e9 - half})
				}
			}
			out = append(out, shippedCase{Lang: lang, Kind: "natural", N: n*1e9 + 2e8}, shippedCase{Lang: lang, Kind: "natural", N: -n*1e9 - 2e8})
		}
		for i, u := range []int{10, 20, 30, 40, 50} {
			out = append(out, shippedCase{Lang: lang, Kind: "filesize", F: fmt.Sprint(int64(3+i) << u)})
		}
		for m := 1; m <= 12; m++ {
			ts := timeSpec{Sec: time.Date(2023, time.Month(m), 3*m-2, 2*m, m%2, 0, 0, time.UTC).Unix(), Zone: zoneSpec{Name: "UTC"}}
			for _, k := range keywords {
				out = append(out, shippedCase{Lang: lang, Kind: "named", Letts: k, Time: ts})
			}
			for _, r := range "aAbDEFlMNP" {
				out = append(out, shippedCase{Lang: lang, Kind: "format", Letts: string(r), Time: ts})
			}
		}
		for _, code := range sortedKeys(humanize.LocaleInfos) {
			out = append(out, shippedCase{Lang: lang, Kind: "name", Code: code})
		}
		for d := int64(-2); d <= 2; d++ {
			out = append(out, shippedCase{Lang: lang, Kind: "day", N: d * int64(24*time.Hour)})
		}
	}
	return out
}

// checkTellsApart: dates that differ in what a format is about have different texts.
func checkTellsApart(lang string, ctx *engine.Ctx) error {
	l := locales()
	if l.err != nil {
		return l.err
	}
	ctx.NonTrivial()
	h := l.coll.CreateHumanizer(lang)
	for _, r := range "FENDl" {
		seen := map[string]time.Time{}
		for i := 0; i < 12; i++ {
			t := time.Date(2023, time.Month(1+i), 1, 0, 0, 0, 0, time.UTC)
			if r == 'D' || r == 'l' {
				t = time.Date(2023, 1, 1+i%7, 0, 0, 0, 0, time.UTC)
			}
			s := h.FormatTime(t, string(r))
			if o, ok := seen[s]; ok && !o.Equal(t) && len([]rune(s)) > 1 {
				return fmt.Errorf("%s: format %c gives %q both for %s and %s", lang, r, s, o, t)
			}
			seen[s] = t
		}
	}
	base := time.Date(2023, 5, 7, 3, 15, 0, 0, time.UTC)
	changed := map[string]time.Time{"year": base.AddDate(1, 0, 0), "month": base.AddDate(0, 1, 0), "day": base.AddDate(0, 0, 1), "hour": base.Add(time.Hour), "minute": base.Add(time.Minute)}
	for k, fields := range map[string]string{
		"DATE_FORMAT": "year month day", "TIME_FORMAT": "hour minute", "DATETIME_FORMAT": "year month day hour minute", "YEAR_MONTH_FORMAT": "year month",
		"MONTH_DAY_FORMAT": "month day", "SHORT_DATE_FORMAT": "year month day", "SHORT_DATETIME_FORMAT": "year month day hour minute",
	} {
		for _, f := range sortedKeys(changed) {
			same := h.FormatTime(base, k) == h.FormatTime(changed[f], k)
			if about := strings.Contains(fields, f); same == about {
				return fmt.Errorf("%s: %s gives %q for %s and %q for %s, which differ in the %s", lang, k, h.FormatTime(base, k), base, h.FormatTime(changed[f], k), changed[f], f)
			}
		}
	}
	words := map[string]int{}
	for i := 1; i < 10; i++ {
		s := h.Apnumber(i)
		if j, ok := words[s]; ok {
			return fmt.Errorf("%s: Apnumber gives %q both for %d and %d", lang, s, i, j)
		}
		words[s] = i
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C25",
		QuickTimes: 20, ThoroughTimes: 30,
		Rule: "numbers of all magnitudes (around powers of two and ten and multiples of the units, any exponent, special values) in 23 representations, read back from the English text; whole numbers from -130; values that are no numbers; all are non-trivial",
		Assumptions: []string{
			"numbers are taken as float64",
			"Ordinal, Apnumber and FilesizeFormat drop the fraction; a size between two units is rounded to one decimal, which can show 1,024 of the smaller unit",
		},
		Parts: []*engine.Part{
			engine.Gen("numbers", 12000, 600000, genNumberCase, checkC25),
			engine.List("integers", listInts, checkInts),
			engine.Gen("no numbers", 1500, 30000, genBadNum, checkBadNum),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C26",
		QuickTimes: 20, ThoroughTimes: 30,
		Rule: "pairs of instants of the years 2 to 9998 (any, around new year and leap days, spans close to unit boundaries) in named and fixed zones, all depths and adjacency settings, all ways to ask, against an integer decomposition; durations from now; non-trivial: at least one minute",
		Assumptions: []string{
			"leap days are counted by the calendar years of the two instants in UTC: those of the years from the first up to the last, without the first year, and with the last if it is a leap year and the first is not; nothing if the years have no leap year between them",
			"all but 0.0005 of a unit counts as a whole unit (required by the existing tests); spans exactly on that limit are not judged",
		},
		Parts: []*engine.Part{
			engine.Gen("pairs", 12000, 600000, genElapsed, checkC26),
			engine.Gen("durations", 2000, 50000, genDurationCase, checkDuration),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C27",
		QuickTimes: 20, ThoroughTimes: 30,
		Rule: "times of the years 2 to 9998 in named and fixed zones x format strings of letters, escapes and other characters against a reference formatter; the letter c alone; named formats of generated locale data; non-trivial: a format that is not empty",
		Assumptions: []string{
			"format strings are valid UTF-8; offsets are rendered without seconds",
			"L is true or false in lower case and T is the name of the local zone, as the existing tests require",
		},
		Parts: []*engine.Part{
			engine.Gen("formats", 12000, 500000, genFormatCase, checkC27),
			engine.Gen("letter c", 1500, 30000, genISOTime, checkISO),
			engine.Gen("named", 1500, 30000, genLocaleCase, checkLocaleFormats),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C28",
		QuickTimes: 20, ThoroughTimes: 30,
		Rule: "instants relative to the clock of the machine, around all boundaries, as time, pointer, number and duration, in named zones, fixed zones and generated zones whose clocks change within days of now, against calendar days and whole units; the text must be right for an instant between the start and the end of the call; all are non-trivial",
		Assumptions: []string{
			"future instants are rounded to the nearest second",
			"calls that take more than 0.4 s are not judged",
		},
		Parts: []*engine.Part{
			engine.Gen("day", 8000, 300000, genNaturalDay, checkNaturalDay),
			engine.Gen("time", 8000, 300000, genNaturalTime, checkNaturalTime),
		},
	})
	engine.Register(&engine.Prop{
		ID:         "C29",
		QuickTimes: 8, ThoroughTimes: 30,
		Rule: "all shipped languages x all helpers x numbers, spans, times, codes: enumerated over the plural forms and drawn at random, against the text of the language's catalog file in its plural form, formatted by x/text; no empty text, format error, placeholder or missing number; named formats, names of months and days and number words tell their values apart; all are non-trivial",
		Assumptions: []string{
			"the catalog files are read with package po (C11); the numbers are formatted with golang.org/x/text",
		},
		Parts: []*engine.Part{
			engine.List("all languages", listShipped, checkC29),
			engine.List("formats tell apart", func(string) []string { return shippedTags() }, checkTellsApart),
			engine.Gen("random", 10000, 400000, genShipped, checkC29),
		},
	})
}
