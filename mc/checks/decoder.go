package checks

import (
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"

	"verifmc/core"
	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C19",
		Rule: "one case per context and prefix of a text; an evaluation is one text decoded by the library, by encoding/xml and by the independent parser; non-trivial when the text is accepted by the library",
		Bounds: "all texts over 26 bytes up to length 4 (thorough 5) alone; all texts over 34 pieces up to length 4 (thorough 5) alone and, up to length 3 (thorough 4), in 16 contexts (start tag, attribute value, end tag, content, comment, CDATA, instruction, declaration, DOCTYPE, references); all references up to 3 (thorough 4) characters after &; " +
			"all 1114112 code points and all bytes in names, text, attribute values and comments; for every accepted text: RawToken with the scoping rules applied, Skip from every start element, copies of all tokens, decoding with raw content, token readers, offsets and positions; " +
			"21 special pieces at 5 positions in 12 contexts filled to sizes around powers of two up to 64 KiB (thorough 128 KiB) with 6 fillers; all sequences of 3 tokens of 6 kinds and 6 sizes; documents with up to 4098 (thorough 16386) names, each followed by all names that are close to some of them; all texts over 7 tags up to length 6 (thorough 7) with 4 default spaces",
		Assumptions: []string{"the differences of this fork: declarations are attributes in the namespace http://www.w3.org/2000/xmlns/, an empty value is refused in the declaration of a prefix",
			"constraints on namespaces, unique attributes and the prolog, which both decoders leave to the application, are not required (see C05)",
			"letters beyond ASCII in names are those of XML 1.0 up to its fourth edition, as in encoding/xml"},
		Run: runDecoder,
	})
}

// refStep is one token of the reference with its end.
type refStep struct {
	desc      string
	off       int64
	line, col int
	start     bool
	end       bool
	content   bool // carries character data
}

type refTrace struct {
	steps []refStep
	err   error // nil for a clean end
	off   int64
}

func mapName(n stdxml.Name) (xml.Name, bool) {
	if n.Space == "xmlns" {
		return xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: n.Local}, true
	}
	return xml.Name{Space: n.Space, Local: n.Local}, true
}

var errFork = errors.New("refused by the fork")

// stdTrace decodes with encoding/xml and applies the documented differences.
func stdTrace(doc string, raw bool, setup func(d *stdxml.Decoder)) *refTrace {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	if setup != nil {
		setup(d)
	}
	tr := &refTrace{}
	for {
		var t stdxml.Token
		var err error
		if raw {
			t, err = d.RawToken()
		} else {
			t, err = d.Token()
		}
		if err != nil {
			tr.off = d.InputOffset()
			if err != io.EOF {
				tr.err = err
			}
			return tr
		}
		desc, ok := stdDescribe(t, raw)
		if !ok {
			tr.err = errFork
			return tr
		}
		line, col := d.InputPos()
		_, s := t.(stdxml.StartElement)
		_, e := t.(stdxml.EndElement)
		_, cd := t.(stdxml.CharData)
		tr.steps = append(tr.steps, refStep{desc, d.InputOffset(), line, col, s, e, cd})
	}
}

func stdDescribe(t stdxml.Token, raw bool) (string, bool) {
	name := func(n stdxml.Name) xml.Name {
		if raw {
			return xml.Name{Space: n.Space, Local: n.Local}
		}
		m, _ := mapName(n)
		return m
	}
	switch t := t.(type) {
	case stdxml.StartElement:
		x := xml.StartElement{Name: name(t.Name)}
		for _, a := range t.Attr {
			if !raw && a.Name.Space == "xmlns" && a.Value == "" {
				return "", false
			}
			x.Attr = append(x.Attr, xml.Attr{Name: name(a.Name), Value: a.Value})
		}
		return describe(x), true
	case stdxml.EndElement:
		return describe(xml.EndElement{Name: name(t.Name)}), true
	case stdxml.CharData:
		return describe(xml.CharData(t)), true
	case stdxml.Comment:
		return describe(xml.Comment(t)), true
	case stdxml.ProcInst:
		return describe(xml.ProcInst{Target: t.Target, Inst: t.Inst}), true
	case stdxml.Directive:
		return describe(xml.Directive(t)), true
	}
	return fmt.Sprintf("%T", t), true
}

// edgeColon reports a name that starts or ends with a colon, which the fork
// refuses and encoding/xml accepts.
func edgeColon(t stdxml.Token) bool {
	bad := func(n stdxml.Name) bool { return strings.Contains(n.Local, ":") }
	switch t := t.(type) {
	case stdxml.StartElement:
		for _, a := range t.Attr {
			if bad(a.Name) {
				return true
			}
		}
		return bad(t.Name)
	case stdxml.EndElement:
		return bad(t.Name)
	}
	return false
}

// hasEdgeColon reports that encoding/xml meets such a name before its end.
func hasEdgeColon(doc string) bool {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.RawToken()
		if err != nil {
			return false
		}
		if edgeColon(t) {
			return true
		}
	}
}

// decodeText judges one text. It returns whether the library accepts it.
func decodeText(t *core.T, doc string, deep bool) bool {
	t.Step(3)
	ok := false
	for _, raw := range []bool{false, true} {
		want := stdTrace(doc, raw, nil)
		got := trace(strings.NewReader(doc), raw, nil)
		if strings.Contains(doc, ":") && hasEdgeColon(doc) {
			// Refused by the fork: nothing but a prefix of the tokens may come.
			if got.err == io.EOF {
				t.Failf("colon", "a name with a colon at its end is accepted: %q", doc)
			}
			continue
		}
		n := len(got.toks) - 1
		for i, s := range want.steps {
			exp := fmt.Sprintf("%s@%d:%d:%d", s.desc, s.off, s.line, s.col)
			if i >= n || got.toks[i] != exp {
				g := fmt.Sprint(got.err)
				if i < n {
					g = got.toks[i]
				}
				t.Failf("token", "%q raw=%v: token %d is %s, encoding/xml has %s", doc, raw, i, g, exp)
				return false
			}
			// Offsets and positions are those of the input.
			if s.off > int64(len(doc)) {
				t.Failf("offset", "%q: token %d ends at %d", doc, i, s.off)
				return false
			}
			head := doc[:s.off]
			if l, c := 1+strings.Count(head, "\n"), int(s.off)-strings.LastIndexByte(head, '\n'); l != s.line || c != s.col {
				t.Failf("position", "%q: token %d ends at %d:%d, offset %d is at %d:%d", doc, i, s.line, s.col, s.off, l, c)
				return false
			}
		}
		if n > len(want.steps) {
			t.Failf("token", "%q raw=%v: additional token %s, encoding/xml ends with %v", doc, raw, got.toks[len(want.steps)], want.err)
			return false
		}
		if len(got.toks) > n+1 {
			t.Failf("sticky", "%q raw=%v: %v", doc, raw, got.toks[n:])
			return false
		}
		if (got.err == io.EOF) != (want.err == nil) {
			t.Failf("end", "%q raw=%v: ends with %v, encoding/xml with %v", doc, raw, got.err, want.err)
			return false
		}
		var se *xml.SyntaxError
		if got.err != io.EOF && errors.As(got.err, &se) {
			if se.Line < 1 || se.Line > 1+strings.Count(doc, "\n") {
				t.Failf("line", "%q: error in line %d", doc, se.Line)
				return false
			}
			var we *stdxml.SyntaxError
			if !strings.Contains(doc, ":") && errors.As(want.err, &we) && we.Line != se.Line {
				t.Failf("line", "%q: error in line %d, encoding/xml has line %d", doc, se.Line, we.Line)
				return false
			}
		}
		if !raw && got.err == io.EOF {
			ok = true
		}
	}
	if ok {
		t.Trace()
	}
	// Well-formedness.
	root, rerr := refxml.ParseRoot(doc)
	if strings.Contains(doc, "<!DOCTYPE") {
		// The independent parser knows only the outline of a DOCTYPE.
		if ok && deep {
			agree(t, doc)
		}
		return ok
	}
	switch {
	case rerr == nil && !ok && strings.IndexFunc(doc, func(r rune) bool { return r >= 0x80 }) < 0 && !strings.Contains(doc[rootEnd(doc):], "<") && !strings.Contains(doc[rootEnd(doc):], "&"):
		if _, _, full := refxml.ParseDoc(doc); full == nil {
			t.Failf("refused", "well-formed document is refused: %q: %v", doc, trace(strings.NewReader(doc), false, nil).err)
			return false
		}
	case rerr != nil && ok && !lenient[reasonOf(rerr)] && !(reasonOf(rerr) == "bad markup %.10q" && outside(doc)) && !strings.Contains(rerr.Error(), "expected PI target") && hasStart(doc):
		t.Failf("accepted: "+reasonOf(rerr), "%q is accepted, but %v", doc, rerr)
		return false
	}
	if rerr == nil && ok {
		if d := sameContent(doc, root); d != "" {
			t.Failf("content", "%q: %s", doc, d)
			return false
		}
	}
	if ok && deep {
		agree(t, doc)
	}
	return ok
}

// outside reports a CDATA section outside of the elements, which both decoders read.
func outside(doc string) bool {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	depth := 0
	for {
		at := d.InputOffset()
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t.(type) {
		case stdxml.StartElement:
			depth++
		case stdxml.EndElement:
			depth--
		case stdxml.CharData:
			if depth == 0 && strings.HasPrefix(doc[at:], "<![CDATA[") {
				return true
			}
		}
	}
}

// rootEnd finds where the independent parser ends the root element.
func rootEnd(doc string) int { return strings.LastIndexByte(doc, '>') + 1 }

// hasStart reports that there is an element at all.
func hasStart(doc string) bool {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.RawToken()
		if err != nil {
			return false
		}
		if _, ok := t.(stdxml.StartElement); ok {
			return true
		}
	}
}

// sameContent compares the tokens of the library to the parsed root element.
func sameContent(doc string, root *refxml.Node) string {
	d := xml.NewDecoder(strings.NewReader(doc))
	var stack []*refxml.Node
	top := &refxml.Node{}
	stack = append(stack, top)
	for {
		tok, err := d.Token()
		if err != nil {
			break
		}
		cur := stack[len(stack)-1]
		switch x := tok.(type) {
		case xml.StartElement:
			n := &refxml.Node{Kind: refxml.Elem, Space: x.Name.Space, Local: x.Name.Local}
			for _, a := range x.Attr {
				if a.Name.Space == "http://www.w3.org/2000/xmlns/" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				n.Attrs = append(n.Attrs, refxml.Attr{Space: a.Name.Space, Local: a.Name.Local, Value: a.Value})
			}
			cur.Kids = append(cur.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
			if len(stack) == 1 {
				c := top.Elems()[0].Canon(false)
				if w := merged(root).Canon(false); c != w {
					return fmt.Sprintf("decoded as %s, parsed as %s", c, w)
				}
				return ""
			}
		case xml.CharData:
			if len(stack) == 1 || len(x) == 0 {
				continue
			}
			// Texts around comments and sections are one.
			if n := len(cur.Kids); n > 0 && cur.Kids[n-1].Kind == refxml.Text {
				cur.Kids[n-1].Data += string(x)
				continue
			}
			cur.Kids = append(cur.Kids, &refxml.Node{Kind: refxml.Text, Data: string(x)})
		}
	}
	return ""
}

// merged is the element without comments and instructions and with the texts
// around them as one.
func merged(n *refxml.Node) *refxml.Node {
	m := *n
	m.Kids = nil
	for _, k := range n.Kids {
		switch k.Kind {
		case refxml.Elem:
			m.Kids = append(m.Kids, merged(k))
		case refxml.Text:
			if l := len(m.Kids); l > 0 && m.Kids[l-1].Kind == refxml.Text {
				m.Kids[l-1].Data += k.Data
			} else if k.Data != "" {
				m.Kids = append(m.Kids, &refxml.Node{Kind: refxml.Text, Data: k.Data})
			}
		}
	}
	return &m
}

// xmlTokens feeds tokens to a decoder.
type xmlTokens struct {
	toks []xml.Token
	i    int
	eof  bool // deliver io.EOF with the last token
}

func (r *xmlTokens) Token() (xml.Token, error) {
	if r.i >= len(r.toks) {
		return nil, io.EOF
	}
	r.i++
	if r.eof && r.i == len(r.toks) {
		return xml.CopyToken(r.toks[r.i-1]), io.EOF
	}
	return xml.CopyToken(r.toks[r.i-1]), nil
}

type rawHolder struct {
	Inner string `xml:",innerxml"`
}

// agree checks that the ways to decode an accepted text agree.
func agree(t *core.T, doc string) {
	var steps []refStep
	var copies, raws []xml.Token
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		tok, err := d.Token()
		if err != nil {
			break
		}
		_, s := tok.(xml.StartElement)
		_, e := tok.(xml.EndElement)
		steps = append(steps, refStep{desc: describe(tok), off: d.InputOffset(), start: s, end: e})
		copies = append(copies, xml.CopyToken(tok))
	}
	// Copies stay valid.
	for i, c := range copies {
		if describe(c) != steps[i].desc {
			t.Failf("copy", "%q: the copy of token %d changed from %s to %s", doc, i, steps[i].desc, describe(c))
			return
		}
	}
	d = xml.NewDecoder(strings.NewReader(doc))
	for {
		tok, err := d.RawToken()
		if err != nil {
			break
		}
		raws = append(raws, xml.CopyToken(tok))
	}
	// RawToken with scoping gives Token.
	var scopes []map[string]string
	i := 0
	look := func(p string) (string, bool) {
		for j := len(scopes) - 1; j >= 0; j-- {
			if u, ok := scopes[j][p]; ok {
				return u, true
			}
		}
		return "", false
	}
	expand := func(n xml.Name, attr bool) xml.Name {
		switch {
		case n.Space == "xmlns":
			n.Space = "http://www.w3.org/2000/xmlns/"
		case n.Space == "" && attr:
		case n.Space == "xml" && func() bool { _, ok := look("xml"); return !ok }():
			n.Space = "http://www.w3.org/XML/1998/namespace"
		default:
			if u, ok := look(n.Space); ok {
				n.Space = u
			}
		}
		return n
	}
	for _, r := range raws {
		var want string
		switch x := r.(type) {
		case xml.StartElement:
			sc := map[string]string{}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" {
					sc[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					sc[""] = a.Value
				}
			}
			scopes = append(scopes, sc)
			y := xml.StartElement{Name: expand(x.Name, false)}
			for _, a := range x.Attr {
				y.Attr = append(y.Attr, xml.Attr{Name: expand(a.Name, true), Value: a.Value})
			}
			want = describe(y)
		case xml.EndElement:
			want = describe(xml.EndElement{Name: expand(x.Name, false)})
			scopes = scopes[:len(scopes)-1]
		default:
			want = describe(r)
		}
		if i >= len(steps) || steps[i].desc != want {
			t.Failf("raw", "%q: token %d of %v, RawToken has %s", doc, i, steps, want)
			return
		}
		i++
	}
	if i != len(steps) {
		t.Failf("raw", "%q: RawToken has %d tokens of %d", doc, i, len(steps))
		return
	}
	// Token readers.
	for _, eof := range []bool{false, true} {
		d = xml.NewTokenDecoder(&xmlTokens{toks: raws, eof: eof})
		for i := 0; ; i++ {
			tok, err := d.Token()
			if err != nil {
				if err != io.EOF || i != len(steps) {
					t.Failf("reader", "%q: token reader ends with %v after %d of %d", doc, err, i, len(steps))
					return
				}
				break
			}
			if i >= len(steps) || describe(tok) != steps[i].desc {
				t.Failf("reader", "%q: token reader has %s as token %d of %v", doc, describe(tok), i, steps)
				return
			}
		}
	}
	t.Step(5)
	// Skip and raw content from every start element.
	for k, s := range steps {
		if !s.start {
			continue
		}
		depth, m := 1, k+1
		for ; depth > 0; m++ {
			if steps[m].start {
				depth++
			} else if steps[m].end {
				depth--
			}
		}
		to := func() (*xml.Decoder, *xml.StartElement) {
			d := xml.NewDecoder(strings.NewReader(doc))
			for j := 0; ; j++ {
				tok, _ := d.Token()
				if j == k {
					se := tok.(xml.StartElement).Copy()
					return d, &se
				}
			}
		}
		rest := func(what string, d *xml.Decoder) bool {
			if d.InputOffset() != steps[m-1].off {
				t.Failf("skip", "%q: after %s of element %d the offset is %d, not %d", doc, what, k, d.InputOffset(), steps[m-1].off)
				return false
			}
			for j := m; ; j++ {
				tok, err := d.Token()
				if err != nil {
					if j != len(steps) {
						t.Failf("skip", "%q: after %s of element %d: %v", doc, what, k, err)
						return false
					}
					return true
				}
				if j >= len(steps) || describe(tok) != steps[j].desc {
					t.Failf("skip", "%q: after %s of element %d token %s", doc, what, k, describe(tok))
					return false
				}
			}
		}
		d, _ := to()
		if err := d.Skip(); err != nil || !rest("Skip", d) {
			t.Failf("skip", "%q: Skip of element %d: %v", doc, k, err)
			return
		}
		d, se := to()
		var h rawHolder
		if err := d.DecodeElement(&h, se); err != nil {
			t.Failf("decode", "%q: DecodeElement of element %d: %v", doc, k, err)
			return
		}
		// The raw content is the input between the tags.
		inner := doc[s.off:steps[m-1].off]
		if j := strings.LastIndex(inner, "</"); j >= 0 {
			inner = inner[:j]
		} else {
			inner = ""
		}
		if h.Inner != inner {
			t.Failf("inner", "%q: raw content of element %d is %q, not %q", doc, k, h.Inner, inner)
			return
		}
		if !rest("DecodeElement", d) {
			return
		}
		t.Step(2)
	}
}

func runDecoder(c *core.Ctx) {
	words := func(name string, alpha []string, wrap [2]string, depth int, deep bool) {
		for _, a := range append([]string{""}, alpha...) {
			for _, a2 := range append([]string{""}, alpha...) {
				if a == "" && a2 != "" {
					continue
				}
				if !c.Mine() {
					continue
				}
				c.Run(func() string { return fmt.Sprintf("%s with prefix %q", name, wrap[0]+a+a2) }, func(t *core.T) {
					var d core.Distinct
					var rec func(p string, n int)
					rec = func(p string, n int) {
						if t.Failed() {
							return
						}
						s := wrap[0] + p + wrap[1]
						d.Add(s)
						t.Eval(decodeText(t, s, deep))
						if n == 0 || a2 == "" {
							return
						}
						for _, x := range alpha {
							rec(p+x, n-1)
						}
					}
					rec(a+a2, depth-2)
					t.CountStates(&d)
				})
			}
		}
	}
	bytesSet := []string{"<", ">", "/", "=", "\"", "'", "&", ";", "#", "!", "-", "[", "]", "?", "a", "x", "1", ":", " ", "\n", "\r", "\t", "é", "\x00", "\xff", "."}
	words("bytes", bytesSet, [2]string{}, c.Pick(4, 5), true)
	pieces := []string{"<a>", "</a>", "<b", "/>", ">", " ", "x", "=", "'", "\"", "p:", "xmlns", ":p", "u", "&amp;", "&#10;", "&", ";", "<!--", "-->", "--", "-", "<![CDATA[", "]]>", "]", "<?", "?>", "xml", "<!", "\r", "\n", "é", "\x01", "</b>"}
	words("pieces", pieces, [2]string{}, c.Pick(4, 5), true)
	d3 := c.Pick(3, 4)
	for _, ctx := range []struct {
		name string
		w    [2]string
		al   []string
	}{
		{"content", [2]string{"<r>", "</r>"}, pieces},
		{"start tag", [2]string{"<r", "></r>"}, pieces},
		{"start tag after attribute", [2]string{"<r q='1'", "/>"}, pieces},
		{"attribute value", [2]string{"<r a=\"", "\"/>"}, bytesSet},
		{"attribute value in single quotes", [2]string{"<r a='", "'/>"}, pieces},
		{"element name", [2]string{"<", "/>"}, bytesSet},
		{"end tag", [2]string{"<r>", "</r"}, pieces},
		{"end tag rest", [2]string{"<r></r", ">"}, bytesSet},
		{"comment", [2]string{"<r><!--", "--></r>"}, []string{"-", ">", "<", "!", "]", "&", "\r", "\n", "x", " ", "\x00", "\xff", "é", "-->", "<!--"}},
		{"CDATA", [2]string{"<r><![CDATA[", "]]></r>"}, []string{"]", ">", "[", "<", "&", "&amp;", "\r", "\n", "x", " ", "\x00", "\xff", "é", "]]>", "<![CDATA["}},
		{"instruction", [2]string{"<r><?p", "?></r>"}, []string{"?", ">", "<", " ", "x", "\r", "\n", "=", "'", "\"", "&", "\x00", "é", "?>", ":"}},
		{"declaration", [2]string{"<?xml ", "?><r/>"}, []string{"version", "=", "'1.0'", "'1.1'", "\"1.0\"", " ", "encoding", "'UTF-8'", "'utf-8'", "'x'", "standalone", "'yes'", "\n", "'", "\"", "1.0"}},
		{"DOCTYPE", [2]string{"<!DOCTYPE r", "><r/>"}, []string{" ", "[", "]", "<", ">", "<!--", "-->", "-", "'", "\"", "<!ENTITY e 'v'>", "<?p?>", "x", "\n", "&", "é", "\x00"}},
		{"declarations of prefixes", [2]string{"<r ", "><p:b p:a='1' xml:a=''/><a/></r>"}, []string{"xmlns='u' ", "xmlns='' ", "xmlns:p='u' ", "xmlns:p='w' ", "xmlns:p='' ", "xmlns:xml='http://www.w3.org/XML/1998/namespace' ", "xmlns:xmlns='u' ", "p:c='2' ", "q:c='2' ", "xmlns:q='u' ", "xmlns: ", ":xmlns='u' "}},
		{"nested declarations", [2]string{"<p:r xmlns:p='1' xmlns='0'>", "<p:e/><e/></p:r>"}, []string{"<p:a>", "</p:a>", "<a>", "</a>", "<p:a xmlns:p='2'>", "<a xmlns='3'>", "<a xmlns=''>", "<q:a xmlns:q='1'>", "</q:a>", "<p:a xmlns:p='1'/>", "<p:b p:x='1' x='2'/>"}},
		{"references", [2]string{"<r b='&lt;'>", "</r>"}, []string{"&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#60;", "&#x3c;", "&#x3C;", "&#xD;", "&#13;&#10;", "\r\n", "\r", "&#0;", "&#xFFFF;", "&#1114111;", "&#1114112;", "&nbsp;", "&é;", "]]&gt;", "]]", ">"}},
	} {
		d := d3
		if len(ctx.al) < 20 {
			d++
		}
		words(ctx.name, ctx.al, ctx.w, d, true)
	}
	// References.
	refs := []string{"#", "x", "X", "0", "1", "9", "a", "F", "l", "t", ";", "&", " ", "-", "D800", "10FFFF", "110000", "amp", "lt", "é", "<"}
	words("reference in text", refs, [2]string{"<r>&", ";</r>"}, c.Pick(3, 4), false)
	words("reference in attribute", refs, [2]string{"<r a='&", ";'/>"}, c.Pick(3, 4), false)
	// Code points.
	for lo := rune(0); lo <= 0x10FFFF; lo += 2048 {
		c.Case(func() string { return fmt.Sprintf("code points from U+%04X", lo) }, func(t *core.T) {
			var d core.Distinct
			for r := lo; r < lo+2048 && !t.Failed(); r++ {
				ch := string(r)
				if r >= 0xD800 && r < 0xE000 {
					ch = string([]byte{0xED, byte(0x80 | (r>>6)&0x3f), byte(0x80 | r&0x3f)})
				}
				d.Add(ch)
				for i, w := range [][2]string{{"<r>", "</r>"}, {"<r a='", "'/>"}, {"<", "/>"}, {"<n", "/>"}, {"<r ", "='1'/>"}, {"<r n", "='1'/>"}, {"<r><!--", "--></r>"}, {"<r><![CDATA[", "]]></r>"}, {"<r><?p", "?></r>"}, {"<p:", " xmlns:p='u'/>"}} {
					if i > 5 && r > 0x3000 && !c.Thorough() && r%97 != 0 && (r < 0xD700 || r > 0x10100) {
						continue
					}
					t.Eval(decodeText(t, w[0]+ch+w[1], false))
				}
				if c.Thorough() || r < 0x3000 || r > 0xD700 && r < 0x10100 || r%97 == 0 {
					t.Eval(decodeText(t, fmt.Sprintf("<r>&#%d;&#x%X;</r>", r, r), false))
				}
			}
			t.CountStates(&d)
		})
	}
	// Bytes of ill-formed UTF-8.
	reps := []string{"a", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\xc1", "\xc2", "\xdf", "\xe0", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xff"}
	words("UTF-8 in text", reps, [2]string{"<r>", "</r>"}, c.Pick(3, 4), false)
	words("UTF-8 in names", reps, [2]string{"<r", "/>"}, c.Pick(3, 4), false)
	words("UTF-8 in attributes", reps, [2]string{"<r a=\"", "\"/>"}, c.Pick(3, 4), false)
	words("UTF-8 in comments", reps, [2]string{"<r><!--", "--></r>"}, c.Pick(2, 4), false)
	decoderOptions(c)
	longTexts(c)
}

// decoderOptions covers the settings of a strict decoder.
func decoderOptions(c *core.Ctx) {
	charset := func(label string, r io.Reader) (io.Reader, error) {
		if label == "bad" {
			return nil, errSource
		}
		b, err := io.ReadAll(r)
		return strings.NewReader(strings.ToUpper(label) + "<!--" + label + "-->" + strings.ToLower(string(b))), err
	}
	settings := []struct {
		name string
		a    func(d *xml.Decoder)
		b    func(d *stdxml.Decoder)
	}{
		{"entities", func(d *xml.Decoder) {
			d.Entity = map[string]string{"x": "X<", "é": "e", "amp": "no", "a.b": "dot", "_": ""}
		},
			func(d *stdxml.Decoder) {
				d.Entity = map[string]string{"x": "X<", "é": "e", "amp": "no", "a.b": "dot", "_": ""}
			}},
		{"default space", func(d *xml.Decoder) { d.DefaultSpace = "urn:d" }, func(d *stdxml.Decoder) { d.DefaultSpace = "urn:d" }},
		{"charset reader", func(d *xml.Decoder) { d.CharsetReader = charset }, func(d *stdxml.Decoder) { d.CharsetReader = charset }},
	}
	alpha := []string{"<a>", "</a>", "<a x='&x;'/>", "&x;", "&é;", "&amp;", "&y;", "&a.b;", "&_;", "&X;", "t", "<?xml version='1.0' encoding='latin1'?>", "<?xml version='1.0' encoding='bad'?>", "<?xml encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8'?>", "<a xmlns='u'>", "<a xmlns=''>", "<p:a xmlns:p='q'/>"}
	for _, st := range settings {
		for _, first := range alpha {
			c.Case(func() string { return fmt.Sprintf("%s, texts from %q", st.name, first) }, func(t *core.T) {
				var d core.Distinct
				var rec func(p string, n int)
				rec = func(p string, n int) {
					d.Add(p)
					for _, raw := range []bool{false, true} {
						want := stdTrace(p, raw, st.b)
						got := trace(strings.NewReader(p), raw, st.a)
						t.Step(2)
						t.Trace()
						t.Eval(got.err == io.EOF)
						w := ""
						for _, s := range want.steps {
							w += fmt.Sprintf("%s@%d:%d:%d ", s.desc, s.off, s.line, s.col)
						}
						g := strings.Join(got.toks[:len(got.toks)-1], " ")
						if strings.TrimSpace(w) != g || (got.err == io.EOF) != (want.err == nil) {
							t.Failf("token", "%s: %q raw=%v gives %s %v, encoding/xml %s %v", st.name, p, raw, g, got.err, w, want.err)
							return
						}
					}
					if n == 0 {
						return
					}
					for _, x := range alpha {
						rec(p+x, n-1)
						if t.Failed() {
							return
						}
					}
				}
				rec(first, c.Pick(2, 3))
				t.CountStates(&d)
			})
		}
	}
}
