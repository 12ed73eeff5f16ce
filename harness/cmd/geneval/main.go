// Command geneval answers questions about the built-in plural rules it was
// linked with. C37 links it with generated tables (go build -overlay).
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
)

type request struct {
	Kind string   `json:"kind"` // cldr, po, header
	Lang string   `json:"lang"` // or the header
	Nums []string `json:"nums"`
	Ns   []int64  `json:"ns"`
}

type answer struct {
	Found   bool     `json:"found"`
	Error   string   `json:"error"`
	Cats    []string `json:"cats"` // of the rule set
	N       int      `json:"n"`    // number of forms
	Answers []string `json:"answers"`
}

func one(r request) (a answer) {
	defer func() {
		if e := recover(); e != nil {
			a.Error = fmt.Sprint("panic: ", e)
		}
	}()
	switch r.Kind {
	case "cldr":
		rs, found := cldrplural.ForLanguage(language.MustParse(r.Lang))
		a.Found = found
		for _, c := range rs.Categories {
			a.Cats = append(a.Cats, c.String())
		}
		for _, n := range r.Nums {
			c, err := rs.Evaluate(n)
			if err != nil {
				a.Error = err.Error()
				return a
			}
			a.Answers = append(a.Answers, c.String())
		}
	case "po":
		f, found := poplural.ForLanguage(language.MustParse(r.Lang))
		a.Found = found
		for _, n := range r.Ns {
			v, err := f(n)
			if err != nil {
				a.Error = err.Error()
				return a
			}
			a.Answers = append(a.Answers, fmt.Sprint(v))
		}
	case "header":
		rule, err := poplural.Parse(r.Lang)
		if err != nil {
			a.Error = err.Error()
			return a
		}
		a.Found, a.N = true, rule.NPlurals
		for _, n := range r.Ns {
			v, err := rule.Evaluate(n)
			if err != nil {
				a.Error = err.Error()
				return a
			}
			a.Answers = append(a.Answers, fmt.Sprint(v))
		}
	}
	return a
}

func main() {
	var reqs []request
	if err := json.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var out []answer
	for _, r := range reqs {
		out = append(out, one(r))
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}
