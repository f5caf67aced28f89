package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C18",
		Rule: "one case per block of characters, prefix of a text, or string field of the model; an evaluation is one text written in every position, parsed by the independent parser and read by the library; non-trivial when the text has a character that is escaped or replaced",
		Bounds: "all 1114112 code points alone and in blocks of 16 (thorough: also between markup); all texts over 17 pieces of markup, white space and characters up to length 3 (thorough 4) in 22 positions; all byte strings over 22 representatives of the UTF-8 byte classes up to length 4 (thorough 5); " +
			"texts around the 4096 byte buffers at every alignment; every string attribute and text field of the model with 40 composed texts",
		Assumptions: []string{"CDATA sections, comments and raw content cannot carry every text; in CDATA fields only texts without carriage return and characters that XML forbids are used"},
		Run:         runEscaping,
	})
}

// legal is the text as XML can carry it.
func legal(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		if r == utf8.RuneError && n == 1 || !xmlChar(r) {
			r = 0xFFFD
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

type escText string

func (e escText) MarshalText() ([]byte, error)     { return []byte(e), nil }
func (e *escText) UnmarshalText(text []byte) error { *e = escText(text); return nil }

type escAttr string

func (e escAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: string(e)}, nil
}
func (e *escAttr) UnmarshalXMLAttr(a xml.Attr) error { *e = escAttr(a.Value); return nil }

type escElem string

func (e escElem) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "q"}, Value: string(e)})
	if err := enc.EncodeToken(start); err != nil {
		return err
	}
	if err := enc.EncodeToken(xml.CharData(e)); err != nil {
		return err
	}
	return enc.EncodeToken(start.End())
}

func (e *escElem) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	err := d.DecodeElement(&s, &start)
	*e = escElem(s)
	if len(start.Attr) != 1 || start.Attr[0].Value != s {
		return fmt.Errorf("attribute %q differs from text %q", start.Attr, s)
	}
	return err
}

type escC struct {
	V string `xml:",chardata"`
}
type escB struct {
	V []byte `xml:",chardata"`
}
type escT struct {
	V escText `xml:",chardata"`
}
type escD struct {
	V string `xml:",cdata"`
}
type escDB struct {
	V []byte `xml:",cdata"`
}

type escDoc struct {
	XMLName xml.Name   `xml:"n"`
	A       string     `xml:"a,attr"`
	B       []byte     `xml:"b,attr"`
	C       *string    `xml:"c,attr"`
	D       escText    `xml:"d,attr"`
	E       escAttr    `xml:"e,attr"`
	F       *escText   `xml:"f,attr"`
	G       *escAttr   `xml:"g,attr,omitempty"`
	H       string     `xml:"urn:h h,attr"`
	Any     []xml.Attr `xml:",any,attr"`
	I       string     `xml:"i"`
	J       []byte     `xml:"j"`
	K       *string    `xml:"k"`
	L       []string   `xml:"l"`
	M       escText    `xml:"m"`
	N       escC       `xml:"n"`
	O       escB       `xml:"o"`
	P       *escT      `xml:"p"`
	Q       escElem    `xml:"q"`
	R       string     `xml:"r1>r2>r"`
	S       any        `xml:"-"`
	U       *escD      `xml:"u"`
	V       *escDB     `xml:"v"`
}

// escSeen is what a written text looks like after reading: white space is kept.
func escCheck(t *core.T, s string) bool {
	want := legal(s)
	t.Step(4)
	x, f, g := s, escText(s), escAttr(s)
	doc := &escDoc{A: s, B: []byte(s), C: &x, D: escText(s), E: escAttr(s), F: &f, G: &g, H: s, I: s, J: []byte(s), K: &x, L: []string{s, s}, M: escText(s), N: escC{s}, O: escB{[]byte(s)}, P: &escT{escText(s)}, Q: escElem(s), R: s,
		Any: []xml.Attr{{Name: xml.Name{Local: "z"}, Value: s}, {Name: xml.Name{Space: "urn:h", Local: "z"}, Value: s}}}
	if want == s && !strings.ContainsRune(s, '\r') {
		doc.U, doc.V = &escD{s}, &escDB{[]byte(s)}
	}
	b, err := xml.Marshal(doc)
	if err != nil {
		t.Failf("write", "%q: %v", s, err)
		return false
	}
	root, err := refxml.Parse(string(b))
	if err != nil {
		t.Failf("ill-formed", "%q: %v\n%s", s, err, b)
		return false
	}
	n := 0
	var walk func(e *refxml.Node) bool
	walk = func(e *refxml.Node) bool {
		for _, a := range e.Attrs {
			n++
			if a.Value != want {
				t.Failf("attribute", "%q in attribute %s is parsed as %q\n%s", s, a.Local, a.Value, b)
				return false
			}
		}
		if len(e.Elems()) == 0 {
			n++
			if e.Text() != want {
				t.Failf("text", "%q in element %s is parsed as %q\n%s", s, e.Local, e.Text(), b)
				return false
			}
		}
		for _, k := range e.Elems() {
			if !walk(k) {
				return false
			}
		}
		return true
	}
	if !walk(root) {
		return false
	}
	w := 22
	if doc.U != nil {
		w = 24
	}
	if n != w {
		t.Failf("lost", "%q: %d of %d texts are written\n%s", s, n, w, b)
		return false
	}
	var got escDoc
	if err := xml.Unmarshal(b, &got); err != nil {
		t.Failf("read", "%q: %v\n%s", s, err, b)
		return false
	}
	if len(got.Any) == 3 {
		got.Any = got.Any[1:] // the declaration of a prefix
	}
	if got.C == nil || got.F == nil || got.G == nil || got.K == nil || got.P == nil || len(got.L) != 2 || len(got.Any) != 2 {
		t.Failf("read", "%q: lost %+v\n%s", s, got, b)
		return false
	}
	all := []string{got.A, string(got.B), *got.C, string(got.D), string(got.E), string(*got.F), string(*got.G), got.H, got.I, string(got.J), *got.K, got.L[0], got.L[1], string(got.M), got.N.V, string(got.O.V), string(got.P.V), string(got.Q), got.R, got.Any[0].Value, got.Any[1].Value}
	if doc.U != nil {
		if got.U == nil || got.V == nil {
			t.Failf("read", "%q: lost %+v\n%s", s, got, b)
			return false
		}
		all = append(all, got.U.V, string(got.V.V))
	}
	for i, g := range all {
		if g != want {
			t.Failf("value", "%q is read back as %q at position %d\n%s", s, g, i, b)
			return false
		}
	}
	// The escape functions.
	for i, f := range []func(w *bytes.Buffer) error{func(w *bytes.Buffer) error { return xml.EscapeText(w, []byte(s)) }, func(w *bytes.Buffer) error { xml.Escape(w, []byte(s)); return nil },
		func(w *bytes.Buffer) error { return xml.EscapeText(oneByOne{w}, []byte(s)) }} {
		var w bytes.Buffer
		if err := f(&w); err != nil {
			t.Failf("escape", "%q: %v", s, err)
			return false
		}
		e, err := refxml.Parse("<a>" + w.String() + "</a>")
		if err != nil || e.Text() != want || len(e.Elems()) > 0 {
			t.Failf("escape", "function %d escapes %q as %q (%v)", i, s, w.String(), err)
			return false
		}
		if strings.ContainsAny(s, "\n\t") {
			continue
		}
		for _, q := range []string{"'", "\""} {
			e, err = refxml.Parse("<a b=" + q + w.String() + q + "/>")
			if err != nil || len(e.Attrs) != 1 || e.Attrs[0].Value != want {
				t.Failf("escape", "function %d escapes %q as %q, wrong in an attribute (%v)", i, s, w.String(), err)
				return false
			}
		}
	}
	// The text as the content of a document.
	for _, v := range []any{s, escText(s)} {
		b, err := xml.Marshal(v)
		if err != nil {
			t.Failf("write", "%T %q: %v", v, s, err)
			return false
		}
		e, err := refxml.Parse(string(b))
		if err != nil || e.Text() != want {
			t.Failf("text", "%T %q is written as %q (%v)", v, s, b, err)
			return false
		}
	}
	t.Eval(string(b) == "" || want != s || strings.ContainsAny(s, "<>&'\"\t\r\n"))
	t.Trace()
	return true
}

// oneByOne is a plain writer.
type oneByOne struct{ w *bytes.Buffer }

func (o oneByOne) Write(p []byte) (int, error) { return o.w.Write(p) }

// escModel writes the text in a small manifest.
func escModel(t *core.T, s string) bool {
	want := legal(s)
	m := mpd.NewMPD(mpd.STATIC_TYPE)
	m.Id = s
	m.BaseURL = append(m.BaseURL, &mpd.BaseURLType{Value: mpd.AnyURI(s), ServiceLocation: s})
	m.Location = []*mpd.LocationType{{Value: s}}
	t.Step(2)
	out, err := m.WriteToString("  ", true)
	if err != nil {
		t.Failf("write", "%q: %v", s, err)
		return false
	}
	r, err := refxml.Parse(out)
	if err != nil {
		t.Failf("ill-formed", "%q: %v\n%s", s, err, out)
		return false
	}
	e := r.Elems()
	id, _ := r.Attr("", "id")
	if len(e) != 2 || e[0].Text() != want || e[1].Text() != want || len(e[0].Attrs)+len(e[1].Attrs) != 1-b2i(s == "") || e[1-b2i(e[1].Local == "Location")].Local != "BaseURL" || id != want {
		t.Failf("text", "%q is parsed as %s\n%s", s, r.Canon(true), out)
		return false
	}
	m2, err := mpd.ReadFromString(out)
	if err != nil || m2.Id != want || len(m2.BaseURL) != 1 || string(m2.BaseURL[0].Value) != want || m2.BaseURL[0].ServiceLocation != want || len(m2.Location) != 1 || string(m2.Location[0].Value) != want {
		t.Failf("value", "%q is not read back (%v)\n%s", s, err, out)
		return false
	}
	return true
}

func runEscaping(c *core.Ctx) {
	// All code points.
	const block = 1024
	for lo := rune(0); lo <= 0x10FFFF; lo += block {
		lo := lo
		c.Case(func() string { return fmt.Sprintf("code points from U+%04X", lo) }, func(t *core.T) {
			var d core.Distinct
			alone := lo < 0x3000 || lo >= 0xD000 && lo < 0x11000 || lo > 0x10F000 || c.Thorough()
			for r := lo; r < lo+block; r += 16 {
				var sb, mk strings.Builder
				for x := r; x < r+16; x++ {
					ch := string(x)
					if x >= 0xD800 && x < 0xE000 {
						ch = string([]byte{0xED, byte(0x80 | (x>>6)&0x3f), byte(0x80 | x&0x3f)})
					}
					sb.WriteString(ch)
					mk.WriteString(ch + "<")
					if alone {
						d.Add(ch)
						if !escCheck(t, ch) {
							return
						}
						if c.Thorough() && (!escCheck(t, "a"+ch+"&") || !escCheck(t, ch+ch)) {
							return
						}
					}
					// Every single character through the escape function.
					var w bytes.Buffer
					xml.EscapeText(&w, []byte(ch))
					t.Step(1)
					want := legal(ch)
					if got := unescape(w.String()); got != want {
						t.Failf("escape", "U+%04X is escaped as %q", x, w.String())
						return
					}
				}
				d.Add(sb.String())
				if !escCheck(t, sb.String()) || !escModel(t, sb.String()) || !escCheck(t, mk.String()) || !escModel(t, mk.String()) {
					return
				}
			}
			t.CountStates(&d)
		})
	}
	// All short texts over markup.
	pieces := []string{"<", ">", "&", "\"", "'", "]", "]]>", "-", "--", ";", "amp;", "#", "\t", "\n", "\r", " ", "a", "é", "\U0001F600", "\x00", "\xff", "<![CDATA[", "?>", "<!--", "{"}
	if !c.Thorough() {
		pieces = []string{"<", ">", "&", "\"", "'", "]", "]]>", "-", "amp;", "#", "\t", "\n", "\r", " ", "a", "é", "\xff"}
	}
	depth := c.Pick(3, 4)
	c.Case(func() string { return "the empty text" }, func(t *core.T) { _ = escCheck(t, "") })
	for _, a := range pieces {
		for _, a2 := range append([]string{""}, pieces...) {
			a, a2 := a, a2
			c.Case(func() string { return fmt.Sprintf("texts with prefix %q", a+a2) }, func(t *core.T) {
				var d core.Distinct
				var rec func(p string, n int) bool
				rec = func(p string, n int) bool {
					d.Add(p)
					if !escCheck(t, p) || !escModel(t, p) {
						return false
					}
					if n == 0 || a2 == "" {
						return true
					}
					for _, x := range pieces {
						if !rec(p+x, n-1) {
							return false
						}
					}
					return true
				}
				rec(a+a2, depth-2)
				t.CountStates(&d)
			})
		}
	}
	// Bytes.
	reps := []string{"a", "<", "\x00", "\x1f", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbd", "\xbe", "\xbf", "\xc0", "\xc1", "\xc2", "\xdf", "\xe0", "\xe1", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xff"}
	for _, a := range reps {
		for _, a2 := range reps {
			a, a2 := a, a2
			c.Case(func() string { return fmt.Sprintf("bytes with prefix %q", a+a2) }, func(t *core.T) {
				var d core.Distinct
				n := c.Pick(1, 2)
				var rec func(p string, n int) bool
				rec = func(p string, n int) bool {
					d.Add(p)
					if !escCheck(t, p) || !escModel(t, p) {
						return false
					}
					if n == 0 {
						return true
					}
					for _, x := range reps {
						if !rec(p+x, n-1) {
							return false
						}
					}
					return true
				}
				rec(a+a2, n)
				// Four bytes: only sequences that may form one character.
				if a[0] >= 0xf0 || a[0] == 0xed || a[0] == 0xef {
					for _, x := range reps {
						for _, y := range reps {
							if !escCheck(t, a+a2+x+y) {
								return
							}
						}
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Long texts at buffer limits.
	for pad := 4096 - 520; pad <= 4096+40; pad++ {
		pad := pad
		c.Case(func() string { return fmt.Sprintf("long text %d", pad) }, func(t *core.T) {
			for _, tail := range []string{"<é&\r\U0001F600\xff\"\t", "漢漢", "]]>\n"} {
				for _, p := range []string{strings.Repeat("x", pad), strings.Repeat("é", pad/2), strings.Repeat("&", pad/5)} {
					t.State(p, tail)
					s := p + tail
					if !escModel(t, s) {
						return
					}
					b, err := xml.Marshal(&escC{s})
					if err != nil {
						t.Failf("write", "%v", err)
						return
					}
					e, err := refxml.Parse(string(b))
					if err != nil || e.Text() != legal(s) {
						t.Failf("text", "long text of %d bytes changes (%v)", len(s), err)
						return
					}
					t.Eval(true)
				}
			}
		})
	}
	// Every string field of the model.
	var texts []string
	for _, s := range models.Strings() {
		texts = append(texts, s)
	}
	texts = append(texts, "a\x00b", "\xff", "\xed\xa0\x80", "\ufffe\uffff", "\u0001\u001f", "\r\n\t \"'<>&]]>", "x\xc3", "\xf4\x90\x80\x80")
	for _, p := range models.Places() {
		for _, f := range models.Fields(p.T) {
			p, f := p, f
			et := f.SF.Type
			if et.Kind() == reflect.Pointer {
				et = et.Elem()
			}
			if et.Kind() != reflect.String || f.Flags["innerxml"] || !p.First {
				continue
			}
			if !f.Flags["attr"] && !f.Flags["chardata"] {
				continue
			}
			c.Case(func() string { return "field " + p.Name + "." + f.Name }, func(t *core.T) {
				for _, s := range texts {
					want := legal(s)
					g := &models.Gen{SCTENS: vocab.SCTE}
					m, v := p.Make(g)
					fv := models.At(v, f.Index)
					if fv.Kind() == reflect.Pointer {
						fv.Set(reflect.New(et))
						fv = fv.Elem()
					}
					fv.SetString(s)
					t.Step(2)
					t.Eval(want != s || strings.ContainsAny(s, "<>&'\"\t\r\n"))
					out, err := m.WriteToString("", false)
					if err != nil {
						t.Failf("write", "%q: %v", s, err)
						return
					}
					r, err := refxml.Parse(out)
					if err != nil {
						t.Failf("ill-formed", "%q: %v\n%s", s, err, out)
						return
					}
					if s != "" && !carries(r, f.Tag, f.Flags["attr"], want) {
						t.Failf("text", "%q is not found in the output\n%s", s, out)
						return
					}
					m2, err := mpd.ReadFromString(out)
					if err != nil {
						t.Failf("read", "%q: %v\n%s", s, err, out)
						return
					}
					fv.SetString(want)
					if df := models.Equal(m, m2); df != "" {
						t.Failf("value", "%q: %s\n%s", s, df, out)
						return
					}
					t.Trace()
					t.State(p.Name, f.Name, s)
				}
			})
		}
	}
}

// carries reports that an attribute with the name, or some element, has the text.
func carries(n *refxml.Node, name string, attr bool, want string) bool {
	if attr {
		for _, a := range n.Attrs {
			if a.Local == name && a.Value == want {
				return true
			}
		}
	} else if n.Text() == want {
		return true
	}
	for _, k := range n.Elems() {
		if carries(k, name, attr, want) {
			return true
		}
	}
	return false
}

// unescape resolves references.
func unescape(s string) string {
	e, err := refxml.Parse("<a>" + s + "</a>")
	if err != nil {
		return "ill-formed: " + err.Error()
	}
	return e.Text()
}
