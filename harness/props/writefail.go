package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"

	"verif/harness/engine"
)

// ---------------------------------------------------------------- C34

// faultWriter takes at bytes and then fails until it is repaired.
type faultWriter struct {
	buf    bytes.Buffer
	at     int // -1: never
	mode   string
	err    error
	failed int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.at < 0 || w.buf.Len()+len(p) <= w.at && (w.mode != "full" || w.buf.Len()+len(p) < w.at) {
		return w.buf.Write(p)
	}
	w.failed++
	switch w.mode {
	case "none": // nothing of this write is taken
		return 0, w.err
	case "full": // all is taken, and the error reported with it
		n, _ := w.buf.Write(p)
		return n, w.err
	}
	n, _ := w.buf.Write(p[:max(w.at-w.buf.Len(), 0)])
	return n, w.err
}

type ioCase struct {
	Format string      `json:"format"`
	PO     *poFileCase `json:"po,omitempty"`
	JSON   *jsonCase   `json:"json,omitempty"`
	Mode   string      `json:"mode"`
	Err    string      `json:"err"`
	Points []int       `json:"points"` // per mille of the output
	Empty  string      `json:"empty,omitempty"`
}

var writeErrors = map[string]error{
	"custom": errInjected,
	"eof":    io.EOF, // a writer may return any error
	"short":  io.ErrShortWrite,
	"closed": io.ErrClosedPipe,
}

func genIOCase(t *rapid.T) ioCase {
	c := ioCase{Format: pick(t, "format", "po", "json"), Mode: pick(t, "mode", "part", "part", "none", "full"), Err: pick(t, "err", "custom", "custom", "eof", "short", "closed")}
	if chance(t, "empty", 8) {
		c.Empty = pick(t, "emptyKind", "nil", "empty")
	}
	if c.Format == "po" {
		f := genPoFile(t)
		c.PO = &f
		if chance(t, "long", 10) {
			for i := range f.Msgs {
				f.Msgs[i].Strs = map[int]string{0: strings.Repeat("long text ", intR(t, "repeat", 1, 2000))}
			}
		}
	} else {
		j := genJSONCase(0, true, false)(t)
		c.JSON = &j
	}
	c.Points = []int{0, 1000}
	for n := intR(t, "npoints", 2, 8); n > 0; n-- {
		c.Points = append(c.Points, intR(t, "point", 0, 1000))
	}
	return c
}

func checkIO(c ioCase, ctx *engine.Ctx) error {
	var encode func(w io.Writer) func() error
	if c.Format == "po" {
		f := c.PO.build()
		switch c.Empty {
		case "nil":
			f = nil
		case "empty":
			f = &po.File{}
		}
		encode = func(w io.Writer) func() error {
			enc := po.NewEncoder(w)
			enc.SetWrapWidth(c.PO.Width)
			enc.SetWriteReferences(!c.PO.NoRefs)
			enc.SetWriteHeader(!c.PO.NoHeader)
			enc.SetWriteEmptyHeader(!c.PO.NoEmpty)
			return func() error { return enc.Encode(f) }
		}
	} else {
		for _, m := range c.JSON.Msgs {
			if !m.valid() {
				return nil
			}
		}
		var cat catalog.JSONCatalog
		var err error
		switch c.Empty {
		case "nil":
		case "empty":
			cat = catalog.NewJSONCatalog(language.MustParse(c.JSON.Lang), "dom")
		default:
			if cat, err = catalog.NewJSONCatalogWithMessages(language.MustParse(c.JSON.Lang), "dom", c.JSON.messages()); err != nil {
				return err
			}
		}
		encode = func(w io.Writer) func() error {
			enc := catalog.NewJSONEncoder(w)
			return func() error { return enc.Encode(cat) }
		}
	}
	good := &faultWriter{at: -1}
	if err := encode(good)(); err != nil {
		if c.Empty != "" { // a nil file is rejected
			if good.buf.Len() > 0 {
				return fmt.Errorf("encoding gives error %v and %d bytes of output", err, good.buf.Len())
			}
			return nil
		}
		return fmt.Errorf("encoding: %w", err)
	}
	full := good.buf.String()
	ctx.NonTrivialIf(len(full) > 1)
	ctx.Label(c.Format)
	injected := writeErrors[c.Err]
	for _, p := range c.Points {
		at := len(full) * p / 1000
		w := &faultWriter{at: at, mode: c.Mode, err: injected}
		enc := encode(w)
		err := enc()
		out := w.buf.String()
		if !strings.HasPrefix(full, out) {
			return fmt.Errorf("%s: with a writer failing after %d of %d bytes the output is no prefix of the document: %s", c.Format, at, len(full), clip(out, 500))
		}
		if err == nil && (w.failed > 0 || out != full) {
			return fmt.Errorf("%s: the writer failed after %d of %d bytes with %v (%d times), Encode reports no error", c.Format, at, len(full), injected, w.failed)
		}
		if err != nil && w.failed == 0 {
			return fmt.Errorf("%s: Encode reports %v although no write failed", c.Format, err)
		}
		if err != nil && !errors.Is(err, injected) {
			return fmt.Errorf("%s: the writer failed with %v, Encode reports %v", c.Format, injected, err)
		}
		ctx.LabelIf(err != nil, "failed write")
		ctx.LabelIf(err == nil, "complete write")
		// the writer works again
		w.at = -1
		w.buf.Reset()
		if err := enc(); err != nil {
			return fmt.Errorf("%s: encoding again after a failed write: %w", c.Format, err)
		}
		if w.buf.String() != full {
			return fmt.Errorf("%s: encoding again after a failed write gives %s, want %s", c.Format, clip(w.buf.String(), 500), clip(full, 500))
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{
		ID:         "C34",
		QuickTimes: 5, ThoroughTimes: 30,
		Rule:        "random PO files and JSON catalogs written to a writer that fails after a random number of bytes (also at the first and last byte; taking part, none or all of the failing write) and works again afterwards; non-trivial: the document has more than one byte",
		Assumptions: []string{"writers keep the contract of io.Writer: fewer bytes than given means an error"},
		Parts:       []*engine.Part{engine.Gen("writers", 10000, 200000, genIOCase, checkIO)},
	})
}
