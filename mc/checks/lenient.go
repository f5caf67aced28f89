package checks

import (
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifmc/core"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C27",
		Rule: "one case per setting, context and prefix of a text; an evaluation is one text decoded by the library and by encoding/xml with the same setting; non-trivial when it is decoded to its end",
		Bounds: "4 settings (Strict false; with AutoClose and Entity; with HTMLAutoClose and HTMLEntity; Strict with AutoClose and Entity) x all texts over 37 pieces up to length 4 (thorough 5) alone and over 20 to 37 pieces up to length 3 to 4 (thorough 4 to 5) in 7 contexts (start tag, unquoted value, attribute value, elements closed in disorder, autoclosed elements, references, nested namespaces); " +
			"tokens, raw tokens, offsets, positions and errors, Skip and decoding into a struct from every start element, token readers, reading byte by byte; every text that the strict decoder accepts has the same tokens when the lenient one without AutoClose reads it; " +
			"every HTML entity and autoclosed element",
		Assumptions: []string{"the differences of this fork: declarations are attributes in the namespace http://www.w3.org/2000/xmlns/, an empty value is refused in the declaration of a prefix, a name with a colon at its end is refused; a start tag with attributes may end with the input, which is then an error only at the next token"},
		Run:         runLenient,
	})
}

type lenientSetting struct {
	name string
	a    func(d *xml.Decoder)
	b    func(d *stdxml.Decoder)
	auto bool
}

func lenientSettings() []lenientSetting {
	ent := map[string]string{"x": "X<", "nbsp": "\u00a0", "amp": "no", "e": "&e;", "a.b": "", "é": "e"}
	auto := []string{"br", "A", "p:b"}
	return []lenientSetting{
		{"lenient", func(d *xml.Decoder) { d.Strict = false }, func(d *stdxml.Decoder) { d.Strict = false }, false},
		{"lenient with lists", func(d *xml.Decoder) { d.Strict, d.AutoClose, d.Entity = false, auto, ent },
			func(d *stdxml.Decoder) { d.Strict, d.AutoClose, d.Entity = false, auto, ent }, true},
		{"HTML", func(d *xml.Decoder) { d.Strict, d.AutoClose, d.Entity = false, xml.HTMLAutoClose, xml.HTMLEntity },
			func(d *stdxml.Decoder) {
				d.Strict, d.AutoClose, d.Entity = false, stdxml.HTMLAutoClose, stdxml.HTMLEntity
			}, true},
		{"strict with lists", func(d *xml.Decoder) { d.AutoClose, d.Entity = auto, ent },
			func(d *stdxml.Decoder) { d.AutoClose, d.Entity = auto, ent }, true},
	}
}

// edgeColonIn reports that encoding/xml meets a name with a colon at an end.
func edgeColonIn(doc string, setup func(d *stdxml.Decoder)) bool {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	setup(d)
	for {
		t, err := d.RawToken()
		if err != nil {
			return false
		}
		if edgeColon(t) {
			return true
		}
	}
}

// oneByte reads byte by byte.
type oneByte struct{ s string }

func (r *oneByte) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	p[0] = r.s[0]
	r.s = r.s[1:]
	return 1, nil
}

var lenientTypes []ftype

func lenientText(t *core.T, st *lenientSetting, doc string, deep bool) bool {
	t.Step(4)
	if strings.Contains(doc, ":") && edgeColonIn(doc, st.b) {
		for _, raw := range []bool{false, true} {
			if got := trace(strings.NewReader(doc), raw, st.a); got.err == io.EOF {
				t.Failf("colon", "%s: a name with a colon at its end is accepted: %q", st.name, doc)
			}
		}
		return false
	}
	ok := false
	for _, raw := range []bool{false, true} {
		want := stdTrace(doc, raw, st.b)
		got := trace(strings.NewReader(doc), raw, st.a)
		toks := append([]string(nil), got.toks...)
		if strings.Contains(doc, "xmlns") {
			// A declaration without a value is that of the namespace xmlns,
			// which encoding/xml writes as it writes declarations.
			for i := range toks {
				toks[i] = strings.ReplaceAll(toks[i], "{xmlns}", "{"+xmlnsNS+"}")
			}
			for i := range want.steps {
				want.steps[i].desc = strings.ReplaceAll(want.steps[i].desc, "{xmlns}", "{"+xmlnsNS+"}")
			}
		}
		n := 0
		for n < len(toks) && !strings.HasPrefix(toks[n], "end@") {
			n++
		}
		for i, s := range want.steps {
			exp := fmt.Sprintf("%s@%d:%d:%d", s.desc, s.off, s.line, s.col)
			if i >= n || toks[i] != exp {
				g := fmt.Sprint(got.err)
				if i < n {
					g = toks[i]
				}
				t.Failf("token", "%s: %q raw=%v: token %d is %s, encoding/xml has %s", st.name, doc, raw, i, g, exp)
				return false
			}
		}
		extra := n - len(want.steps)
		// A start tag may end with the input; it is given before the error.
		if extra == 1 && want.err != nil && strings.Contains(want.err.Error(), "unexpected EOF") && strings.HasPrefix(toks[n-1], "<{") {
			extra = 0
		} else if extra == 2 && want.err != nil && strings.Contains(want.err.Error(), "unexpected EOF") && strings.HasPrefix(toks[n-2], "</") && strings.HasPrefix(toks[n-1], "<{") {
			extra = 0 // with the end of an autoclosed element before it
		}
		if extra > 0 {
			t.Failf("token", "%s: %q raw=%v: additional token %s, encoding/xml ends with %v", st.name, doc, raw, toks[len(want.steps)], want.err)
			return false
		}
		if len(toks) != n+1 {
			t.Failf("sticky", "%s: %q raw=%v: %v", st.name, doc, raw, toks[n:])
			return false
		}
		if (got.err == io.EOF) != (want.err == nil) {
			t.Failf("end", "%s: %q raw=%v: ends with %v, encoding/xml with %v", st.name, doc, raw, got.err, want.err)
			return false
		}
		var se *xml.SyntaxError
		var we *stdxml.SyntaxError
		if !strings.Contains(doc, ":") && errors.As(got.err, &se) && errors.As(want.err, &we) && we.Line != se.Line {
			t.Failf("line", "%s: %q: error in line %d, encoding/xml has line %d", st.name, doc, se.Line, we.Line)
			return false
		}
		if !raw && got.err == io.EOF {
			ok = true
		}
		// The way the input arrives makes no difference.
		bytewise := trace(&oneByte{doc}, raw, st.a)
		if fmt.Sprint(bytewise.toks) != fmt.Sprint(got.toks) {
			t.Failf("bytewise", "%s: %q raw=%v: %v, read byte by byte %v", st.name, doc, raw, got.toks, bytewise.toks)
			return false
		}
		// What strict decoders accept means the same.
		if !st.auto {
			strict := trace(strings.NewReader(doc), raw, nil)
			if strict.err == io.EOF && fmt.Sprint(strict.toks) != fmt.Sprint(got.toks) {
				t.Failf("strict", "%q raw=%v: %v, lenient %v", doc, raw, strict.toks, got.toks)
				return false
			}
		}
	}
	if ok {
		t.Trace()
	}
	if deep && !strings.Contains(doc, "xmlns") {
		lenientWays(t, st, doc)
	}
	return ok
}

// lenientWays compares Skip, DecodeElement and token readers.
func lenientWays(t *core.T, st *lenientSetting, doc string) {
	// From every start element.
	for k := 0; ; k++ {
		d := xml.NewDecoder(strings.NewReader(doc))
		st.a(d)
		s := stdxml.NewDecoder(strings.NewReader(doc))
		st.b(s)
		at := -1
		var se xml.StartElement
		var ss stdxml.StartElement
		for at < k {
			tok, err := s.Token()
			if err != nil {
				goto reader
			}
			mine, err := d.Token()
			if err != nil {
				t.Failf("token", "%s: %q: %v", st.name, doc, err)
				return
			}
			if x, ok := tok.(stdxml.StartElement); ok {
				if at++; at == k {
					ss = x.Copy()
					se = mine.(xml.StartElement).Copy()
				}
			}
		}
		for way := 0; way <= len(lenientTypes); way++ {
			if way > 0 {
				// Again to the element.
				d = xml.NewDecoder(strings.NewReader(doc))
				st.a(d)
				s = stdxml.NewDecoder(strings.NewReader(doc))
				st.b(s)
				for at := -1; at < k; {
					tok, _ := s.Token()
					if _, ok := tok.(stdxml.StartElement); ok {
						at++
					}
					d.Token()
				}
			}
			what := "Skip"
			var lib, ref string
			var e1, e2 error
			if way == 0 {
				e1, e2 = d.Skip(), s.Skip()
			} else {
				ty := lenientTypes[way-1]
				what = "decoding into " + ty.name
				fv, sv := reflect.New(ty.f), reflect.New(ty.s)
				e1 = d.DecodeElement(fv.Interface(), &se)
				e2 = s.DecodeElement(sv.Interface(), &ss)
				lib, ref = gdumpOf(fv.Elem()), gdumpOf(sv.Elem())
			}
			t.Step(2)
			if (e1 == nil) != (e2 == nil) || e2 == nil && (lib != ref || d.InputOffset() != s.InputOffset()) {
				t.Failf("ways", "%s: %q: %s of element %d gives %s %v at %d, encoding/xml %s %v at %d", st.name, doc, what, k, lib, e1, d.InputOffset(), ref, e2, s.InputOffset())
				return
			}
		}
	}
reader:
	// A token reader with the same setting.
	var raws []xml.Token
	var sraws []stdxml.Token
	s := stdxml.NewDecoder(strings.NewReader(doc))
	st.b(s)
	for {
		tok, err := s.RawToken()
		if err != nil {
			break
		}
		sraws = append(sraws, stdxml.CopyToken(tok))
	}
	d := xml.NewDecoder(strings.NewReader(doc))
	st.a(d)
	for {
		tok, err := d.RawToken()
		if err != nil || len(raws) == len(sraws) {
			break
		}
		raws = append(raws, xml.CopyToken(tok))
	}
	d = xml.NewTokenDecoder(&xmlTokens{toks: raws})
	st.a(d)
	s = stdxml.NewTokenDecoder(&stdTokens{toks: sraws})
	st.b(s)
	for i := 0; ; i++ {
		l1, c1 := d.InputPos()
		l2, c2 := s.InputPos()
		if l1 != l2 || c1 != c2 || d.InputOffset() != s.InputOffset() {
			t.Failf("reader", "%s: %q: position before token %d of a reader is %d:%d, encoding/xml has %d:%d", st.name, doc, i, l1, c1, l2, c2)
			return
		}
		tok, err := d.Token()
		stok, serr := s.Token()
		if (err == io.EOF) != (serr == io.EOF) || (err == nil) != (serr == nil) {
			t.Failf("reader", "%s: %q: token %d of a reader: %v, encoding/xml has %v", st.name, doc, i, err, serr)
			return
		}
		if err != nil {
			return
		}
		want, _ := stdDescribe(stok, false)
		if g := describe(tok); g != want && !strings.Contains(doc, "xmlns") {
			t.Failf("reader", "%s: %q: token %d of a reader is %s, encoding/xml has %s", st.name, doc, i, g, want)
			return
		}
	}
}

type stdTokens struct {
	toks []stdxml.Token
	i    int
}

func (r *stdTokens) Token() (stdxml.Token, error) {
	if r.i >= len(r.toks) {
		return nil, io.EOF
	}
	r.i++
	return stdxml.CopyToken(r.toks[r.i-1]), nil
}

func runLenient(c *core.Ctx) {
	p := pairTypes()
	lenientTypes = []ftype{p["AnyNode"], p["Raw"]}
	settings := lenientSettings()
	pieces := []string{"<a>", "</a>", "<br>", "<BR", "</br>", "</Br>", "<b", "</b>", "<p:b>", "</p:b>", ">", "/>", "/", " ", "x", "=", "'", "\"", "&", ";", "amp", "&nbsp;", "&#10;", "&x;", "<!--", "-->", "<![CDATA[", "]]>", "<?p ", "?>", "<!", "\r", "\n", "é", "-", "<", "</"}
	words := func(st *lenientSetting, name string, alpha []string, wrap [2]string, depth int) {
		for _, a := range append([]string{""}, alpha...) {
			for _, a2 := range append([]string{""}, alpha...) {
				if a == "" && a2 != "" {
					continue
				}
				if !c.Mine() {
					continue
				}
				c.Run(func() string { return fmt.Sprintf("%s: %s with prefix %q", st.name, name, wrap[0]+a+a2) }, func(t *core.T) {
					var d core.Distinct
					var rec func(p string, n int)
					rec = func(p string, n int) {
						if t.Failed() {
							return
						}
						s := wrap[0] + p + wrap[1]
						d.Add(s)
						t.Eval(lenientText(t, st, s, n > 0 || len(alpha) < 30 || c.Thorough()))
						if n == 0 || a2 == "" {
							return
						}
						for _, x := range alpha {
							rec(p+x, n-1)
						}
					}
					rec(a+a2, depth-2)
					t.CountStates(&d)
				})
			}
		}
	}
	for i := range settings {
		st := &settings[i]
		words(st, "pieces", pieces, [2]string{}, c.Pick(4, 5)-i/3)
		words(st, "start tag", []string{" ", "x", "=", "'", "\"", "/", ">", "/>", "1", "-", "_", ":", "xmlns", "&", "&x;", "&nbsp;", "<", "\n", "\r", "é", ".", "p:", "#", "?"}, [2]string{"<r", ">t<a>u</a></r>"}, c.Pick(3, 4))
		words(st, "start tag after value", []string{" ", "x", "=", "'", "\"", "/", ">", "/>", "1", "xmlns", "xmlns:p", "<", "\n", "é", ".", "p:", "checked"}, [2]string{"<r q=1", "/>t<a/>"}, c.Pick(3, 4))
		words(st, "unquoted value", []string{"a", "Z", "0", "9", "_", ":", "-", ".", "/", "@", "[", "`", "{", "&", " ", "\"", "'", "é", "<", ">", "\x00", "\xff", "="}, [2]string{"<r a=", " b=2>t</r>"}, c.Pick(3, 4))
		words(st, "attribute value", []string{"&", ";", "<", ">", "'", "\"", "x", "#", "amp", "nbsp", "&x;", "\r", "\n", "]]>", "é", "\x00", "&e;", "&a.b;", " "}, [2]string{"<r a=\"", "\">t</r>"}, c.Pick(3, 4))
		words(st, "elements in disorder", []string{"<a>", "</a>", "<b>", "</b>", "<i>", "</i>", "<br>", "</br>", "<BR/>", "<A>", "</A>", "t", "<!--c-->", "<p:b>", "</p:b>", "</q:b>", "<a x>", "</r>"}, [2]string{"<r>", "</r>"}, c.Pick(4, 5))
		words(st, "namespaces in disorder", []string{"<p:a>", "</p:a>", "<a xmlns='3'>", "</a>", "<p:b xmlns:p='2'>", "</p:b>", "<br xmlns='4'>", "<q:br/>", "<x p:y xmlns:p=5>", "</x>", "</p:r>"}, [2]string{"<p:r xmlns:p='1' xmlns='0'>", "</p:r>"}, c.Pick(4, 5))
		words(st, "references", []string{"&", "#", "x", "X", "0", "9", "a", "F", ";", "lt", "amp", "nbsp", "-", ".", ":", "é", " ", "<", "D800", "110000", "\x00", "\xff"}, [2]string{"<r>&", "</r>"}, c.Pick(3, 4))
	}
	// The lists.
	c.Case(func() string { return "lists" }, func(t *core.T) {
		var d core.Distinct
		if len(xml.HTMLEntity) != len(stdxml.HTMLEntity) || !reflect.DeepEqual(xml.HTMLAutoClose, stdxml.HTMLAutoClose) {
			t.Failf("lists", "%d entities, %d in encoding/xml; autoclosed %v", len(xml.HTMLEntity), len(stdxml.HTMLEntity), xml.HTMLAutoClose)
			return
		}
		st := &settings[2]
		for _, n := range core.SortedKeys(stdxml.HTMLEntity) {
			for _, s := range []string{"<r a='&" + n + ";'>&" + n + ";&" + n + "</r>", "<r a=\"" + n + "&" + strings.ToUpper(n) + ";\">x&" + n + ";" + n + ";</r>"} {
				d.Add(s)
				t.Eval(lenientText(t, st, s, true))
			}
			if t.Failed() {
				return
			}
		}
		for _, n := range stdxml.HTMLAutoClose {
			for _, x := range []string{n, strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:], n + "x", "x:" + n} {
				for _, s := range []string{"<r><" + x + ">t</r>", "<" + x + " a=1><" + x + "/></" + x + ">", "<r><" + x + "></" + n + ">t<a/></r>", "<" + x + "><" + x + "><!--c-->"} {
					d.Add(s)
					t.Eval(lenientText(t, st, s, true))
					if t.Failed() {
						return
					}
				}
			}
		}
		t.CountStates(&d)
	})
}
