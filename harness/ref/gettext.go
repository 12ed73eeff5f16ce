package ref

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Expr is a gettext plural expression.
type Expr struct {
	Op string  `json:"o"` // "n", "num", "?:", or a binary operator
	V  int64   `json:"v,omitempty"`
	A  *Expr   `json:"a,omitempty"`
	B  *Expr   `json:"b,omitempty"`
	C  *Expr   `json:"c,omitempty"`
	P  int     `json:"p,omitempty"` // redundant parentheses
	W  [4]int8 `json:"w,omitempty"` // spacing choices
}

var prec = map[string]int{"?:": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 5, ">": 5, "<=": 5, ">=": 5, "%": 6, "n": 7, "num": 7}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates with C semantics (operands are never negative). zeroMod
// tells whether a remainder by zero was evaluated, where C has no meaning.
func (e *Expr) Eval(n int64, zeroMod *bool) int64 {
	switch e.Op {
	case "n":
		return n
	case "num":
		return e.V
	case "?:":
		if e.A.Eval(n, zeroMod) != 0 {
			return e.B.Eval(n, zeroMod)
		}
		return e.C.Eval(n, zeroMod)
	case "||":
		if e.A.Eval(n, zeroMod) != 0 {
			return 1
		}
		return b2i(e.B.Eval(n, zeroMod) != 0)
	case "&&":
		if e.A.Eval(n, zeroMod) == 0 {
			return 0
		}
		return b2i(e.B.Eval(n, zeroMod) != 0)
	}
	a, b := e.A.Eval(n, zeroMod), e.B.Eval(n, zeroMod)
	switch e.Op {
	case "==":
		return b2i(a == b)
	case "!=":
		return b2i(a != b)
	case "<":
		return b2i(a < b)
	case ">":
		return b2i(a > b)
	case "<=":
		return b2i(a <= b)
	case ">=":
		return b2i(a >= b)
	case "%":
		if b == 0 {
			*zeroMod = true
			return 0
		}
		return a % b
	}
	panic("op " + e.Op)
}

var gaps = []string{"", " ", "  ", "\t"}

func gap(k int8) string { return gaps[int(k)&3] }

// Render writes the expression with the spacing and redundant parentheses of
// the node, and exactly the parentheses C needs.
func (e *Expr) Render() string { return e.render(0) }

func (e *Expr) render(min int) string {
	var s string
	p := prec[e.Op]
	switch e.Op {
	case "n":
		s = "n"
	case "num":
		s = strconv.FormatInt(e.V, 10)
	case "?:":
		// a nested conditional is only allowed bare in the last two operands
		s = e.A.render(2) + gap(e.W[0]) + "?" + gap(e.W[1]) + e.B.render(1) + gap(e.W[2]) + ":" + gap(e.W[3]) + e.C.render(1)
	default:
		// left associative
		s = e.A.render(p) + gap(e.W[0]) + e.Op + gap(e.W[1]) + e.B.render(p+1)
	}
	np := e.P
	if p < min {
		np++
	}
	for i := 0; i < np; i++ {
		s = "(" + gap(e.W[2]) + s + gap(e.W[3]) + ")"
	}
	return s
}

// ParseExpr parses a C expression over n with the gettext operators.
func ParseExpr(s string) (*Expr, error) {
	toks, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	p := &exprParser{toks: toks}
	e, err := p.cond()
	if err != nil {
		return nil, err
	}
	if p.pos != len(p.toks) {
		return nil, fmt.Errorf("trailing %q", p.toks[p.pos:])
	}
	return e, nil
}

func lexExpr(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == 'n' || strings.IndexByte("()?:%", c) >= 0:
			out = append(out, s[i:i+1])
			i++
		default:
			if i+1 < len(s) {
				if _, ok := prec[s[i:i+2]]; ok && s[i:i+2] != "?:" {
					out = append(out, s[i:i+2])
					i += 2
					continue
				}
			}
			if c == '<' || c == '>' {
				out = append(out, s[i:i+1])
				i++
				continue
			}
			return nil, fmt.Errorf("bad character %q", c)
		}
	}
	return out, nil
}

type exprParser struct {
	toks []string
	pos  int
}

func (p *exprParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *exprParser) cond() (*Expr, error) {
	a, err := p.bin(2)
	if err != nil {
		return nil, err
	}
	if p.peek() != "?" {
		return a, nil
	}
	p.pos++
	b, err := p.cond()
	if err != nil {
		return nil, err
	}
	if p.peek() != ":" {
		return nil, errors.New("expected :")
	}
	p.pos++
	c, err := p.cond()
	if err != nil {
		return nil, err
	}
	return &Expr{Op: "?:", A: a, B: b, C: c}, nil
}

func (p *exprParser) bin(level int) (*Expr, error) {
	if level == 7 {
		return p.prim()
	}
	a, err := p.bin(level + 1)
	if err != nil {
		return nil, err
	}
	for {
		op := p.peek()
		if l, ok := prec[op]; !ok || l != level || op == "n" {
			return a, nil
		}
		p.pos++
		b, err := p.bin(level + 1)
		if err != nil {
			return nil, err
		}
		a = &Expr{Op: op, A: a, B: b}
	}
}

func (p *exprParser) prim() (*Expr, error) {
	t := p.peek()
	p.pos++
	switch {
	case t == "n":
		return &Expr{Op: "n"}, nil
	case t == "(":
		e, err := p.cond()
		if err != nil {
			return nil, err
		}
		if p.peek() != ")" {
			return nil, errors.New("expected )")
		}
		p.pos++
		return e, nil
	case t != "" && t[0] >= '0' && t[0] <= '9':
		v, err := strconv.ParseInt(t, 10, 64)
		return &Expr{Op: "num", V: v}, err
	}
	return nil, fmt.Errorf("unexpected %q", t)
}

// PluralForms is a parsed header value.
type PluralForms struct {
	N int
	E *Expr
}

// ParsePluralForms parses "nplurals=N; plural=EXPR;".
func ParsePluralForms(s string) (*PluralForms, error) {
	a, b, ok := strings.Cut(s, ";")
	if !ok {
		return nil, errors.New("no ;")
	}
	_, num, ok := strings.Cut(a, "=")
	if !ok {
		return nil, errors.New("no nplurals")
	}
	n, err := strconv.Atoi(strings.TrimSpace(num))
	if err != nil {
		return nil, err
	}
	_, ex, ok := strings.Cut(b, "=")
	if !ok {
		return nil, errors.New("no plural")
	}
	ex = strings.TrimSpace(ex)
	e, err := ParseExpr(strings.TrimSuffix(ex, ";"))
	if err != nil {
		return nil, err
	}
	return &PluralForms{N: n, E: e}, nil
}
