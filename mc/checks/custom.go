package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"

	"verifmc/core"
	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C28",
		Rule: "one case per place and beginning of a script; an evaluation is one script of a custom method run in one place by the library and by encoding/xml; non-trivial when the library reports no error",
		Bounds: "all scripts of MarshalXML of up to 4 (thorough 5) of 23 steps in 7 places, stopping at errors or going on, with 3 indentations; " +
			"all scripts of UnmarshalXML of up to 4 (thorough 5) of 15 steps in 6 places of 9 documents, after which the decoder reads on; all results of MarshalXMLAttr, UnmarshalXMLAttr, MarshalText and UnmarshalText out of 12, in pairs and lists; each method may fail or panic at every step, after which others work",
		Assumptions: []string{"elements without namespaces (see C22)", "an encoder is not used further after an error from Encode or EncodeElement, except by the custom method itself"},
		Run:         runCustom,
	})
}

var errCustom = errors.New("custom")

// script is what a custom method does.
type script struct {
	steps []int
	goOn  bool // ignore errors of the steps
	log   []string
	depth int
	out   *bytes.Buffer
}

func (s *script) note(f string, a ...any) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

// leaf is a value written by scripts.
type leaf struct {
	P string `xml:"p,attr"`
	Q *int   `xml:"q"`
	T string `xml:",chardata"`
}

var (
	seven   = 7
	leafVal = leaf{P: "1", Q: &seven, T: "t"}
)

// encOps is what a script may do on an encoder.
type encOps interface {
	start(name string, given bool) error
	end(name string, given bool) error
	text(s string) error
	comment() error
	inst(target string) error
	directive() error
	encode(v any, name string, given bool) error // with EncodeElement if there is a name or given
	sub(steps []int, name string) error
	flush() error
}

type fEnc struct {
	e *xml.Encoder
	s xml.StartElement
}

func (f fEnc) el(name string, given bool) xml.StartElement {
	if given {
		return f.s
	}
	return xml.StartElement{Name: xml.Name{Local: name}, Attr: []xml.Attr{{Name: xml.Name{Local: "k"}, Value: "v"}}}
}
func (f fEnc) start(name string, given bool) error { return f.e.EncodeToken(f.el(name, given)) }
func (f fEnc) end(name string, given bool) error   { return f.e.EncodeToken(f.el(name, given).End()) }
func (f fEnc) text(s string) error                 { return f.e.EncodeToken(xml.CharData(s)) }
func (f fEnc) comment() error                      { return f.e.EncodeToken(xml.Comment("c")) }
func (f fEnc) inst(t string) error {
	return f.e.EncodeToken(xml.ProcInst{Target: t, Inst: []byte("i")})
}
func (f fEnc) directive() error { return f.e.EncodeToken(xml.Directive("D")) }
func (f fEnc) encode(v any, name string, given bool) error {
	if name == "" && !given {
		return f.e.Encode(v)
	}
	return f.e.EncodeElement(v, f.el(name, given))
}
func (f fEnc) sub(steps []int, name string) error {
	return f.e.EncodeElement(&fScript{&script{steps: steps}}, f.el(name, false))
}
func (f fEnc) flush() error { return f.e.Flush() }

type sEnc struct {
	e   *stdxml.Encoder
	s   stdxml.StartElement
	out *bytes.Buffer
}

func (f sEnc) el(name string, given bool) stdxml.StartElement {
	if given {
		return f.s
	}
	return stdxml.StartElement{Name: stdxml.Name{Local: name}, Attr: []stdxml.Attr{{Name: stdxml.Name{Local: "k"}, Value: "v"}}}
}
func (f sEnc) start(name string, given bool) error { return f.e.EncodeToken(f.el(name, given)) }
func (f sEnc) end(name string, given bool) error   { return f.e.EncodeToken(f.el(name, given).End()) }
func (f sEnc) text(s string) error                 { return f.e.EncodeToken(stdxml.CharData(s)) }
func (f sEnc) comment() error                      { return f.e.EncodeToken(stdxml.Comment("c")) }
func (f sEnc) inst(t string) error {
	if t == "xml" && f.out.Len() > 0 {
		return errStop // encoding/xml forgets what has been flushed
	}
	return f.e.EncodeToken(stdxml.ProcInst{Target: t, Inst: []byte("i")})
}
func (f sEnc) directive() error { return f.e.EncodeToken(stdxml.Directive("D")) }
func (f sEnc) encode(v any, name string, given bool) error {
	if name == "" && !given {
		return f.e.Encode(v)
	}
	return f.e.EncodeElement(v, f.el(name, given))
}
func (f sEnc) sub(steps []int, name string) error {
	return f.e.EncodeElement(&sScript{&script{steps: steps}}, f.el(name, false))
}
func (f sEnc) flush() error { return f.e.Flush() }

type encStep struct {
	name string
	do   func(o encOps) error
}

// stepFail and stepPanic end a script.
var errStop = errors.New("stop")

var encSteps = []encStep{
	{"start", func(o encOps) error { return o.start("", true) }},
	{"end", func(o encOps) error { return o.end("", true) }},
	{"<x>", func(o encOps) error { return o.start("x", false) }},
	{"</x>", func(o encOps) error { return o.end("x", false) }},
	{"text", func(o encOps) error { return o.text("a<b") }},
	{"struct as start", func(o encOps) error { return o.encode(leafVal, "", true) }},
	{"text as <x>", func(o encOps) error { return o.encode("s", "x", false) }},
	{"list as <x>", func(o encOps) error { return o.encode([]int{1, 2}, "x", false) }},
	{"struct", func(o encOps) error { return o.encode(&leafVal, "", false) }},
	{"nil", func(o encOps) error { return o.encode((*leaf)(nil), "", true) }},
	{"any nil", func(o encOps) error { return o.encode(nil, "x", false) }},
	{"channel", func(o encOps) error { return o.encode(make(chan int), "x", false) }},
	{"flush", func(o encOps) error { return o.flush() }},
	{"comment", func(o encOps) error { return o.comment() }},
	{"instruction", func(o encOps) error { return o.inst("p") }},
	{"declaration", func(o encOps) error { return o.inst("xml") }},
	{"directive", func(o encOps) error { return o.directive() }},
	{"empty start", func(o encOps) error { return o.start("", false) }},
	{"whole sub", func(o encOps) error { return o.sub([]int{0, 4, 1}, "w") }},
	{"open sub", func(o encOps) error { return o.sub([]int{0, 2, 3}, "w") }},
	{"closing sub", func(o encOps) error { return o.sub([]int{1}, "x") }},
	{"error", func(o encOps) error { return errCustom }},
	{"panic", func(o encOps) error { panic("custom") }},
}

func (s *script) marshal(o encOps) error {
	for _, i := range s.steps {
		err := encSteps[i].do(o)
		s.note("%s:%v", encSteps[i].name, err == nil)
		if err == errCustom || err != nil && !s.goOn {
			return err
		}
	}
	return nil
}

type fScript struct{ *script }

func (f *fScript) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return f.marshal(fEnc{e, start})
}

type sScript struct{ *script }

func (f *sScript) MarshalXML(e *stdxml.Encoder, start stdxml.StartElement) error {
	return f.marshal(sEnc{e, start, f.out})
}

// Places.
type placeField[T any] struct {
	A string `xml:"a"`
	M T      `xml:"m"`
	B string `xml:"b"`
}
type placeRoot[T any] struct {
	XMLName struct{} `xml:"doc"`
	N       string   `xml:"n,attr"`
	M       T        `xml:"m"`
}
type placeList[T any] struct {
	A string `xml:"a"`
	M []T    `xml:"m"`
	B string `xml:",chardata"`
}
type placePath[T any] struct {
	A string `xml:"p>a"`
	M T      `xml:"p>q>m"`
	B string `xml:"p>b"`
}
type placeAny struct {
	M any `xml:"m"`
	B []string
}
type placeNested[T any] struct {
	In  placeField[T] `xml:"in"`
	End string        `xml:"e,attr"`
}

// marshalPlaces makes the value of each place.
func marshalPlaces[T any](v, v2 T) []any {
	return []any{
		&placeField[T]{"1", v, "2"},
		v,
		&placeRoot[T]{N: "n", M: v},
		&placeList[T]{"1", []T{v, v2, v}, "2"},
		&placePath[T]{"1", v, "2"},
		&placeAny{any(v), []string{"x", "y"}},
		[]any{&placeNested[T]{placeField[T]{"1", v, "2"}, "3"}, 5},
	}
}

var placeNames = []string{"field", "root", "named", "list", "path", "any", "nested"}

// customMarshal runs one script in one place.
func customMarshal(t *core.T, place int, steps []int, goOn bool, indent string, d *core.Distinct) bool {
	run := func(fork bool) (string, []string, error, any) {
		s1, s2 := &script{steps: steps, goOn: goOn}, &script{steps: []int{0, 4, 1}}
		var b bytes.Buffer
		s1.out = &b
		var r result
		if fork {
			v := marshalPlaces(&fScript{s1}, &fScript{s2})[place]
			r = attempt(func() (string, error) {
				e := xml.NewEncoder(&b)
				e.Indent("", indent)
				if err := e.Encode(v); err != nil {
					return "", err
				}
				return "", e.Close()
			})
		} else {
			v := marshalPlaces(&sScript{s1}, &sScript{s2})[place]
			r = attempt(func() (string, error) {
				e := stdxml.NewEncoder(&b)
				e.Indent("", indent)
				if err := e.Encode(v); err != nil {
					return "", err
				}
				return "", e.Close()
			})
		}
		return b.String(), s1.log, r.err, r.pan
	}
	desc := func() string {
		var l []string
		for _, i := range steps {
			l = append(l, encSteps[i].name)
		}
		return fmt.Sprintf("%s (indent %q, go on %v): %s", placeNames[place], indent, goOn, strings.Join(l, ", "))
	}
	out, log, err, pan := run(true)
	sout, slog, serr, span := run(false)
	t.Step(2)
	d.Add(desc() + out)
	if pan != nil || span != nil || err != nil {
		// Nothing of it is left for others.
		o, e := xml.Marshal(&placeField[*fScript]{"1", &fScript{&script{steps: []int{0, 4, 1}}}, "2"})
		if s := string(o); e != nil || s != "<placeField[*verifmc/checks.fScript]><a>1</a><m>a&lt;b</m><b>2</b></placeField[*verifmc/checks.fScript]>" && s != "<placeField><a>1</a><m>a&lt;b</m><b>2</b></placeField>" {
			t.Failf("left over", "after %s: %s %v", desc(), s, e)
			return false
		}
	}
	if pan != nil || span != nil {
		if span == nil || pan == nil {
			t.Failf("panic", "%s: %v, encoding/xml %v", desc(), pan, span)
			return false
		}
		return true
	}
	if fmt.Sprint(log) != fmt.Sprint(slog) {
		t.Failf("steps differ", "%s: %v, encoding/xml %v", desc(), log, slog)
		return false
	}
	if (err == nil) != (serr == nil) {
		t.Failf("error differs", "%s: %v, encoding/xml %v", desc(), err, serr)
		return false
	}
	if err != nil {
		t.Eval(false)
		return true
	}
	if out = strings.ReplaceAll(out, "fScript", "sScript"); out != sout {
		t.Failf("output differs", "%s: %q, encoding/xml %q", desc(), out, sout)
		return false
	}
	t.Trace()
	t.Eval(true)
	// What is around the method is as it is without it.
	if indent == "" && place != 1 && place != 6 && !strings.Contains(out, "<?xml") && !strings.Contains(out, "<!D") {
		root, perr := refxml.ParseRoot(out)
		if perr != nil {
			t.Failf("ill-formed", "%s: %q: %v", desc(), out, perr)
			return false
		}
		var around string
		switch place {
		case 0:
			around = kidNames(root, "a", "b")
		case 3:
			around = kidNames(root, "a", "")
		case 4:
			if e := root.Elems(); len(e) == 1 {
				around = kidNames(e[0], "a", "b")
			}
		case 5:
			around = kidNames(root, "", "B")
		default:
			around = "ok"
		}
		if around != "ok" {
			t.Failf("surroundings", "%s: %s: %q", desc(), around, out)
			return false
		}
	}
	return true
}

// kidNames checks the first and last child elements.
func kidNames(n *refxml.Node, first, last string) string {
	e := n.Elems()
	if first != "" && (len(e) == 0 || e[0].Local != first) {
		return "the first element is not " + first
	}
	if last != "" && (len(e) == 0 || e[len(e)-1].Local != last) {
		return "the last element is not " + last
	}
	return "ok"
}

// decOps is what a script may do on a decoder.
type decOps interface {
	token() (string, error)
	raw() error
	skip() error
	given(v int) (string, error)  // DecodeElement with the given start element
	last(v int) (string, error)   // DecodeElement with the last start element
	decode(v int) (string, error) // Decode
	offset() int64
}

type fDec struct {
	d     *xml.Decoder
	s     xml.StartElement
	l     *xml.StartElement
	steps []int
}

func (f *fDec) token() (string, error) {
	t, err := f.d.Token()
	if err != nil {
		return "", err
	}
	if s, ok := t.(xml.StartElement); ok {
		s = s.Copy()
		f.l = &s
	}
	return describe(t), nil
}
func (f *fDec) raw() error  { _, err := f.d.RawToken(); return err }
func (f *fDec) skip() error { return f.d.Skip() }
func (f *fDec) into(v int, start *xml.StartElement) (string, error) {
	var err error
	switch v {
	case 0:
		var x leaf
		err = f.d.DecodeElement(&x, start)
		q := ""
		if x.Q != nil {
			q = fmt.Sprint(*x.Q)
		}
		return fmt.Sprint(x.P, q, x.T), err
	case 1:
		x := fUn{&script{steps: f.steps}}
		err = f.d.DecodeElement(&x, start)
		return fmt.Sprint(x.log), err
	}
	var x string
	err = f.d.DecodeElement(&x, start)
	return x, err
}
func (f *fDec) given(v int) (string, error) { return f.into(v, &f.s) }
func (f *fDec) last(v int) (string, error) {
	if f.l == nil {
		return "", errStop
	}
	return f.into(v, f.l)
}
func (f *fDec) decode(v int) (string, error) { return f.into(v, nil) }
func (f *fDec) offset() int64                { return f.d.InputOffset() }

type sDec struct {
	d     *stdxml.Decoder
	s     stdxml.StartElement
	l     *stdxml.StartElement
	steps []int
}

func (f *sDec) token() (string, error) {
	t, err := f.d.Token()
	if err != nil {
		return "", err
	}
	if s, ok := t.(stdxml.StartElement); ok {
		s = s.Copy()
		f.l = &s
	}
	x, _ := stdDescribe(t, false)
	return x, nil
}
func (f *sDec) raw() error  { _, err := f.d.RawToken(); return err }
func (f *sDec) skip() error { return f.d.Skip() }
func (f *sDec) into(v int, start *stdxml.StartElement) (string, error) {
	var err error
	switch v {
	case 0:
		var x leaf
		err = f.d.DecodeElement(&x, start)
		q := ""
		if x.Q != nil {
			q = fmt.Sprint(*x.Q)
		}
		return fmt.Sprint(x.P, q, x.T), err
	case 1:
		x := sUn{&script{steps: f.steps}}
		err = f.d.DecodeElement(&x, start)
		return fmt.Sprint(x.log), err
	}
	var x string
	err = f.d.DecodeElement(&x, start)
	return x, err
}
func (f *sDec) given(v int) (string, error) { return f.into(v, &f.s) }
func (f *sDec) last(v int) (string, error) {
	if f.l == nil {
		return "", errStop
	}
	return f.into(v, f.l)
}
func (f *sDec) decode(v int) (string, error) { return f.into(v, nil) }
func (f *sDec) offset() int64                { return f.d.InputOffset() }

type decStep struct {
	name string
	do   func(o decOps) (string, error)
}

var decSteps = []decStep{
	{"Token", func(o decOps) (string, error) { return o.token() }},
	{"Skip", func(o decOps) (string, error) { return "", o.skip() }},
	{"struct of start", func(o decOps) (string, error) { return o.given(0) }},
	{"struct of last", func(o decOps) (string, error) { return o.last(0) }},
	{"text of last", func(o decOps) (string, error) { return o.last(2) }},
	{"custom of last", func(o decOps) (string, error) { return o.last(1) }},
	{"Decode text", func(o decOps) (string, error) { return o.decode(2) }},
	{"Decode custom", func(o decOps) (string, error) { return o.decode(1) }},
	{"text of start", func(o decOps) (string, error) { return o.given(2) }},
	{"RawToken", func(o decOps) (string, error) { return "", o.raw() }},
	{"to the end", func(o decOps) (string, error) {
		l := ""
		for {
			s, err := o.token()
			if err == io.EOF {
				return l, nil
			}
			if err != nil {
				return l, err
			}
			l += s
		}
	}},
	{"three tokens", func(o decOps) (string, error) {
		l := ""
		for range 3 {
			s, err := o.token()
			if err != nil {
				return l, err
			}
			l += s
		}
		return l, nil
	}},
	{"error", func(o decOps) (string, error) { return "", errCustom }},
	{"return", func(o decOps) (string, error) { return "", errStop }},
	{"panic", func(o decOps) (string, error) { panic("custom") }},
}

func (s *script) unmarshal(o decOps) error {
	for _, i := range s.steps {
		x, err := decSteps[i].do(o)
		if err == errStop {
			s.note("return")
			return nil
		}
		s.note("%s:%s %v", decSteps[i].name, x, err == nil)
		if decSteps[i].name == "RawToken" {
			if err == nil {
				s.note("RawToken in UnmarshalXML")
			}
			continue
		}
		s.note("@%d", o.offset())
		if err == io.EOF {
			s.note("EOF")
			continue
		}
		if err == errCustom || err != nil && !s.goOn {
			return err
		}
	}
	return nil
}

type fUn struct{ *script }

func (f *fUn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if f.script == nil {
		f.script = &script{steps: []int{1}}
	}
	f.note("<%s %d>", start.Name.Local, len(start.Attr))
	sub := []int{1}
	if f.depth < 2 {
		sub = []int{0, 10}
	}
	return f.unmarshal(&fDec{d: d, s: start, steps: sub})
}

type sUn struct{ *script }

func (f *sUn) UnmarshalXML(d *stdxml.Decoder, start stdxml.StartElement) error {
	if f.script == nil {
		f.script = &script{steps: []int{1}}
	}
	f.note("<%s %d>", start.Name.Local, len(start.Attr))
	sub := []int{1}
	if f.depth < 2 {
		sub = []int{0, 10}
	}
	return f.unmarshal(&sDec{d: d, s: start, steps: sub})
}

type readAny[T any] struct {
	A string `xml:"a"`
	M T      `xml:",any"`
	B string `xml:"b"`
}
type readInner[T any] struct {
	In string `xml:",innerxml"`
	M  T      `xml:"m"`
	T  string `xml:",chardata"`
}
type readIn[T any] struct {
	In readInner[T] `xml:"in"`
	E  string       `xml:"e,attr"`
}

var readPlaces = []string{"field", "root", "path", "any", "inner", "nested"}

func readPlace[T any](place int, v T) any {
	switch place {
	case 0:
		return &placeField[T]{M: v}
	case 1:
		return v
	case 2:
		return &placePath[T]{M: v}
	case 3:
		return &readAny[T]{M: v}
	case 4:
		return &readInner[T]{M: v}
	}
	return &readIn[T]{In: readInner[T]{M: v}}
}

// around shows what else was read.
func around[T any](v any) string {
	switch v := v.(type) {
	case *placeField[T]:
		return fmt.Sprintf("%q %q", v.A, v.B)
	case *placePath[T]:
		return fmt.Sprintf("%q %q", v.A, v.B)
	case *readAny[T]:
		return fmt.Sprintf("%q %q", v.A, v.B)
	case *readInner[T]:
		return fmt.Sprintf("%q %q", v.In, v.T)
	case *readIn[T]:
		return fmt.Sprintf("%q %q %q", v.In.In, v.In.T, v.E)
	}
	return ""
}

var customDocs = []string{
	`<r><a>1</a><m p="1">t<q>5</q>u</m><b>2</b></r><after/>`,
	`<r><a>1</a><m/><b>2</b></r> <after>t</after>`,
	`<r><m><m><m/></m>x</m><b>2</b><m>3</m></r>`,
	`<r><p><a>1</a><q><m p="2"><x/><y>7</y></m></q><b>2</b></p></r><after/>`,
	`<r e="3"><in><m><q>x</q><!--c--><?i j?></m>text</in>tail</r>`,
	`<r><m><q>1</m></r>`,
	`<r><a>1</a><m>t`,
	`<r><m></n></r>`,
	`<r>s<m q="1"><![CDATA[x]]>y</m>&bad;<b>2</b></r>`,
}

func customUnmarshal(t *core.T, place int, doc string, steps []int, goOn bool, d *core.Distinct) bool {
	var logs [2]string
	var errs [2]error
	var pans [2]any
	for i := range 2 {
		s := &script{steps: steps, goOn: goOn}
		var rest []string
		var r result
		if i == 0 {
			v := readPlace(place, &fUn{s})
			d := xml.NewDecoder(strings.NewReader(doc))
			r = attempt(func() (string, error) {
				err := d.Decode(v)
				return around[*fUn](v), err
			})
			// The decoder goes on after what was read.
			for n := 0; r.err == nil && r.pan == nil && n < 4; n++ {
				tok, err := d.Token()
				if err != nil {
					rest = append(rest, fmt.Sprint(err == io.EOF))
					break
				}
				rest = append(rest, fmt.Sprintf("%s@%d", describe(tok), d.InputOffset()))
			}
			if r.err == nil && r.pan == nil {
				if _, err := d.RawToken(); err != nil && strings.Contains(err.Error(), "RawToken") {
					t.Failf("raw token", "%s: RawToken is refused after Decode", doc)
				}
			}
		} else {
			v := readPlace(place, &sUn{s})
			d := stdxml.NewDecoder(strings.NewReader(doc))
			r = attempt(func() (string, error) {
				err := d.Decode(v)
				return around[*sUn](v), err
			})
			for n := 0; r.err == nil && r.pan == nil && n < 4; n++ {
				tok, err := d.Token()
				if err != nil {
					rest = append(rest, fmt.Sprint(err == io.EOF))
					break
				}
				x, _ := stdDescribe(tok, false)
				rest = append(rest, fmt.Sprintf("%s@%d", x, d.InputOffset()))
			}
		}
		logs[i] = strings.Join(s.log, " ")
		if r.err == nil {
			logs[i] += " | " + r.out + " | " + strings.Join(rest, " ")
		}
		errs[i], pans[i] = r.err, r.pan
	}
	t.Step(2)
	desc := func() string {
		var l []string
		for _, i := range steps {
			l = append(l, decSteps[i].name)
		}
		return fmt.Sprintf("%s of %s (go on %v): %s", readPlaces[place], doc, goOn, strings.Join(l, ", "))
	}
	d.Add(desc())
	if errs[0] != nil || pans[0] != nil {
		// Nothing of it is left for others.
		v := &placeField[*fUn]{}
		if err := xml.Unmarshal([]byte(customDocs[0]), v); err != nil || v.A != "1" || v.B != "2" || v.M == nil {
			t.Failf("left over", "after %s: %v %v", desc(), v, err)
			return false
		}
	}
	switch {
	case (pans[0] == nil) != (pans[1] == nil):
		t.Failf("panic", "%s: %v, encoding/xml %v", desc(), pans[0], pans[1])
	case pans[0] != nil:
		return true
	case (errs[0] == nil) != (errs[1] == nil):
		t.Failf("error differs", "%s: %v, encoding/xml %v", desc(), errs[0], errs[1])
	case logs[0] != logs[1]:
		t.Failf("reading differs", "%s: %s, encoding/xml %s", desc(), logs[0], logs[1])
	case strings.Contains(logs[0], "RawToken in UnmarshalXML"):
		t.Failf("raw token", "%s: RawToken is not refused in UnmarshalXML", desc())
	default:
		t.Eval(errs[0] == nil)
		t.Trace()
		return true
	}
	return false
}

// attrScript is a value with custom methods for attributes and text; the value
// selects what they do.
type attrDo int

type attrLog struct {
	Do  attrDo
	Log string
}

func (v attrLog) marshalAttr(local string) (string, string, error) {
	switch v.Do {
	case 0:
		return local, "v", nil
	case 1:
		return "", "v", nil // no attribute
	case 2:
		return "other", "<&\">", nil
	case 3:
		return local, "", errCustom
	case 4:
		return "", "", nil
	case 5:
		return local, "", nil
	case 6:
		return local, "\n\t 'x'", nil
	}
	panic("custom")
}

type fAttr struct{ attrLog }

func (v fAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	l, s, err := v.marshalAttr(n.Local)
	return xml.Attr{Name: xml.Name{Local: l}, Value: s}, err
}
func (v *fAttr) UnmarshalXMLAttr(a xml.Attr) error {
	v.Log += a.Name.Local + "=" + a.Value
	return unErr(a.Value)
}

type sAttr struct{ attrLog }

func (v sAttr) MarshalXMLAttr(n stdxml.Name) (stdxml.Attr, error) {
	l, s, err := v.marshalAttr(n.Local)
	return stdxml.Attr{Name: stdxml.Name{Local: l}, Value: s}, err
}
func (v *sAttr) UnmarshalXMLAttr(a stdxml.Attr) error {
	v.Log += a.Name.Local + "=" + a.Value
	return unErr(a.Value)
}

func unErr(s string) error {
	switch s {
	case "bad":
		return errCustom
	case "panic":
		panic("custom")
	}
	return nil
}

// customText has text methods with pointer receiver, valText with value receiver.
type customText struct{ attrLog }

func (v *customText) MarshalText() ([]byte, error) {
	_, s, err := v.marshalAttr("")
	return []byte(s), err
}
func (v *customText) UnmarshalText(b []byte) error {
	v.Log += "[" + string(b) + "]"
	return unErr(string(b))
}

type valText struct{ attrLog }

func (v valText) MarshalText() ([]byte, error) {
	_, s, err := v.marshalAttr("")
	return []byte(s), err
}

type attrHolder[T any] struct {
	A  string      `xml:"a,attr"`
	M  T           `xml:"m,attr"`
	P  *T          `xml:"p,attr"`
	L  []T         `xml:"l,attr"`
	O  T           `xml:"o,attr,omitempty"`
	E  *customText `xml:"e,attr,omitempty"`
	Z  string      `xml:"z,attr"`
	TM customText  `xml:"tm"`
	TV valText     `xml:"tv"`
	TP *customText `xml:"tp,omitempty"`
	C  []byte      `xml:",chardata"`
}

type textHolder struct {
	A string     `xml:"a,attr"`
	M customText `xml:"m,attr"`
	V valText    `xml:"v,attr"`
	C customText `xml:",chardata"`
	Z string     `xml:"z"`
}

func customAttrs(c *core.Ctx) {
	const kinds = 8
	for a := range kinds {
		for b := range kinds {
			c.Case(func() string { return fmt.Sprintf("attributes and texts %d %d", a, b) }, func(t *core.T) {
				var d core.Distinct
				for m := range kinds * kinds * 4 {
					x, y, fill := attrLog{Do: attrDo(m % kinds)}, attrLog{Do: attrDo(m / kinds % kinds)}, m/kinds/kinds
					f := attrHolder[fAttr]{A: "1", M: fAttr{attrLog{Do: attrDo(a)}}, O: fAttr{x}, Z: "9", TM: customText{x}, TV: valText{y}, C: []byte("c")}
					s := attrHolder[sAttr]{A: "1", M: sAttr{attrLog{Do: attrDo(a)}}, O: sAttr{x}, Z: "9", TM: customText{x}, TV: valText{y}, C: []byte("c")}
					th := textHolder{A: "1", M: customText{attrLog{Do: attrDo(a)}}, V: valText{attrLog{Do: attrDo(b)}}, C: customText{x}, Z: "z"}
					if fill&1 != 0 {
						f.P, s.P = &fAttr{attrLog{Do: attrDo(b)}}, &sAttr{attrLog{Do: attrDo(b)}}
						f.TP, s.TP = &customText{y}, &customText{y}
					}
					if fill&2 != 0 {
						f.L, s.L = []fAttr{{x}, {y}, {attrLog{Do: attrDo(b)}}}, []sAttr{{x}, {y}, {attrLog{Do: attrDo(b)}}}
						f.E, s.E = &customText{x}, &customText{x}
					}
					for way, v := range [][2]any{{&f, &s}, {f, s}, {&th, &th}, {th, th}} {
						lib := attempt(func() (string, error) { o, err := xml.Marshal(v[0]); return string(o), err })
						ref := attempt(func() (string, error) { o, err := stdxml.Marshal(v[1]); return string(o), err })
						// The name of the generic type is the name of the element.
						t.Step(2)
						rename := func(o string) string {
							// Line ends and tabs in text may be references; see C18 for those in attributes.
							return strings.NewReplacer("fAttr", "T", "sAttr", "T", "&#xA;", "\n", "&#x9;", "\t").Replace(o)
						}
						lib.out, ref.out = rename(lib.out), rename(ref.out)
						d.Add(lib.String())
						if !agreeing(t, func() string { return fmt.Sprintf("value %d %d %d, way %d", a, b, m, way) }, lib, ref, false) {
							return
						}
						if lib.pan == nil && ref.pan != nil || (lib.pan != nil) != (ref.pan != nil) {
							t.Failf("panic", "value %d %d %d: %v, encoding/xml %v", a, b, m, lib.pan, ref.pan)
							return
						}
						t.Eval(lib.err == nil)
					}
				}
				t.Trace()
				t.CountStates(&d)
			})
		}
	}
	values := []string{"", "v", "bad", "panic", " x ", "&lt;"}
	for _, a := range values {
		for _, b := range values {
			c.Case(func() string { return fmt.Sprintf("attributes and texts of %q and %q", a, b) }, func(t *core.T) {
				var d core.Distinct
				for _, x := range values {
					for _, y := range values {
						for _, doc := range []string{
							fmt.Sprintf(`<r a="1" m=%q p=%q l=%q l=%q z="2">%s<tm>%s</tm>%s<tp>%s</tp></r>`, a, b, x, y, x, y, a, b),
							fmt.Sprintf(`<r l=%q o=%q e=%q tv=%q a="2"><tm>%s<x>in<y>%s</y></x><!--c--><![CDATA[d]]></tm><tm>%s</tm><tp/>%s</r>`, a, b, x, y, x, y, a, b),
							fmt.Sprintf(`<r m=%q a="2">%s<z>%s</z>%s<!--c--></r>`, a, b, x, y),
						} {
							d.Add(doc)
							for way := range 2 {
								var lib, ref result
								if way == 0 {
									var f attrHolder[fAttr]
									var s attrHolder[sAttr]
									lib = attempt(func() (string, error) { err := xml.Unmarshal([]byte(doc), &f); return showAttrs(f), err })
									ref = attempt(func() (string, error) { err := stdxml.Unmarshal([]byte(doc), &s); return showAttrs(s), err })
									lib.out = strings.ReplaceAll(lib.out, "fAttr", "sAttr")
								} else {
									var f, s textHolder
									lib = attempt(func() (string, error) { err := xml.Unmarshal([]byte(doc), &f); return fmt.Sprintf("%+v", f), err })
									ref = attempt(func() (string, error) { err := stdxml.Unmarshal([]byte(doc), &s); return fmt.Sprintf("%+v", s), err })
								}
								t.Step(2)
								if !agreeing(t, func() string { return doc }, lib, ref, false) {
									return
								}
								if (lib.pan != nil) != (ref.pan != nil) {
									t.Failf("panic", "%s: %v, encoding/xml %v", doc, lib.pan, ref.pan)
									return
								}
								t.Eval(lib.err == nil)
							}
						}
					}
				}
				t.Trace()
				t.CountStates(&d)
			})
		}
	}
}

func showAttrs[T any](h attrHolder[T]) string {
	s := fmt.Sprintf("%q %+v %+v %+v %q %+v %+v %q", h.A, h.M, h.L, h.O, h.Z, h.TM, h.TV, h.C)
	if h.P != nil {
		s += fmt.Sprintf(" p %+v", *h.P)
	}
	if h.E != nil {
		s += fmt.Sprintf(" e %+v", *h.E)
	}
	if h.TP != nil {
		s += fmt.Sprintf(" tp %+v", *h.TP)
	}
	return s
}

func runCustom(c *core.Ctx) {
	sweep := func(name string, n, depth int, one func(t *core.T, steps []int, d *core.Distinct) bool) {
		for a := -1; a < n; a++ {
			for b := -1; b < n; b++ {
				if a < 0 && b >= 0 {
					continue
				}
				if !c.Mine() {
					continue
				}
				c.Run(func() string { return fmt.Sprintf("%s: scripts from %d %d", name, a, b) }, func(t *core.T) {
					var d core.Distinct
					var rec func(steps []int)
					rec = func(steps []int) {
						if !one(t, steps, &d) || t.Failed() || b < 0 || len(steps) >= depth {
							return
						}
						for i := range n {
							rec(append(steps[:len(steps):len(steps)], i))
						}
					}
					var s []int
					if a >= 0 {
						s = append(s, a)
					}
					if b >= 0 {
						s = append(s, b)
					}
					rec(s)
					t.CountStates(&d)
				})
			}
		}
	}
	for place := range placeNames {
		for _, goOn := range []bool{false, true} {
			sweep(fmt.Sprintf("writing in %s, go on %v", placeNames[place], goOn), len(encSteps), c.Pick(4, 5), func(t *core.T, steps []int, d *core.Distinct) bool {
				return customMarshal(t, place, steps, goOn, "", d)
			})
			sweep(fmt.Sprintf("writing indented in %s, go on %v", placeNames[place], goOn), len(encSteps), c.Pick(3, 4), func(t *core.T, steps []int, d *core.Distinct) bool {
				return customMarshal(t, place, steps, goOn, " ", d)
			})
		}
	}
	for place := range readPlaces {
		for _, doc := range customDocs {
			for _, goOn := range []bool{false, true} {
				sweep(fmt.Sprintf("reading in %s of %s, go on %v", readPlaces[place], doc, goOn), len(decSteps), c.Pick(4, 5), func(t *core.T, steps []int, d *core.Distinct) bool {
					return customUnmarshal(t, place, doc, steps, goOn, d)
				})
			}
		}
	}
	customAttrs(c)
}
