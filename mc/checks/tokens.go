package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C20",
		Rule: "one case per pair of first operations; an evaluation is one sequence of operations on an encoder; non-trivial when at least one token is written",
		Bounds: "all sequences of up to 3 (thorough 4) of 50 operations (start and end tags with and without namespaces and prefixes, texts, comments, instructions, declarations, directives, values, flushing, closing, invalid tokens) and of up to 4 (thorough 5) of 26 of them; up to 3 with 3 indentations and inside a Marshaler below an outer element; " +
			"each followed by closing the encoder and, separately, by closing all elements; texts of all sizes around the buffer size before a declaration; ladders of up to 3000 elements; " +
			"all comments, instructions and directives over 10 characters up to length 5 (thorough 6); the tokens of all vocabulary documents and of all texts over 30 pieces up to length 4 (thorough 5), as decoded, encoded and decoded again",
		Assumptions: []string{"names of elements and attributes are XML names, attributes of an element have different names, texts consist of XML characters",
			"comments, instructions and directives contain no carriage return, the text of an instruction does not begin with white space, and directives contain no comments: XML cannot carry them",
			"after an error from Encode the encoder is not used further; a refused token leaves it as it was"},
		Run: runTokens,
	})
}

// ev is an expected or observed event of a document.
type ev struct {
	kind  byte // < / t c ? !
	space string
	local string
	attrs []string
	data  string
	any   bool // namespace is inherited
}

func (e ev) String() string {
	sp := e.space
	if e.any {
		sp = "*"
	}
	return fmt.Sprintf("%c{%s}%s%v%q", e.kind, sp, e.local, e.attrs, e.data)
}

func (e ev) same(g ev) bool {
	if e.kind != g.kind || e.local != g.local || e.data != g.data || !e.any && e.space != g.space || len(e.attrs) != len(g.attrs) {
		return false
	}
	for i := range e.attrs {
		if e.attrs[i] != g.attrs[i] {
			return false
		}
	}
	return true
}

func joinText(evs []ev) []ev {
	var out []ev
	for _, e := range evs {
		if e.kind == 't' {
			if e.data == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].kind == 't' {
				out[n-1].data += e.data
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

const xmlnsNS = "http://www.w3.org/2000/xmlns/"

// stdEvents decodes a text with encoding/xml; declarations are left out.
func stdEvents(doc string) ([]ev, error) {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	var out []ev
	for {
		t, err := d.Token()
		if err == io.EOF {
			return joinText(out), nil
		}
		if err != nil {
			return joinText(out), err
		}
		switch t := t.(type) {
		case stdxml.StartElement:
			e := ev{kind: '<', space: t.Name.Space, local: t.Name.Local}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				e.attrs = append(e.attrs, fmt.Sprintf("{%s}%s=%q", a.Name.Space, a.Name.Local, a.Value))
			}
			sort.Strings(e.attrs)
			out = append(out, e)
		case stdxml.EndElement:
			out = append(out, ev{kind: '/', space: t.Name.Space, local: t.Name.Local})
		case stdxml.CharData:
			out = append(out, ev{kind: 't', data: string(t)})
		case stdxml.Comment:
			out = append(out, ev{kind: 'c', data: string(t)})
		case stdxml.ProcInst:
			out = append(out, ev{kind: '?', local: t.Target, data: string(t.Inst)})
		case stdxml.Directive:
			out = append(out, ev{kind: '!', data: string(t)})
		}
	}
}

// libEvents is the same with the decoder of the library.
func libEvents(doc string) ([]ev, error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	var out []ev
	for {
		t, err := d.Token()
		if err == io.EOF {
			return joinText(out), nil
		}
		if err != nil {
			return joinText(out), err
		}
		out = append(out, eventOf(t, false))
	}
}

// eventOf is the event that an encoded token stands for.
func eventOf(t xml.Token, given bool) ev {
	split := func(n xml.Name) xml.Name {
		if i := strings.IndexByte(n.Local, ':'); given && i > 0 && i < len(n.Local)-1 {
			n.Local = n.Local[i+1:]
		}
		return n
	}
	switch t := t.(type) {
	case xml.StartElement:
		n := split(t.Name)
		e := ev{kind: '<', space: n.Space, local: n.Local, any: given && n.Space == ""}
		for _, a := range t.Attr {
			if a.Name.Space == xmlnsNS || a.Name.Space == "" && a.Name.Local == "xmlns" {
				continue
			}
			an := split(a.Name)
			e.attrs = append(e.attrs, fmt.Sprintf("{%s}%s=%q", an.Space, an.Local, a.Value))
		}
		sort.Strings(e.attrs)
		return e
	case xml.EndElement:
		n := split(t.Name)
		return ev{kind: '/', space: n.Space, local: n.Local, any: given && n.Space == ""}
	case xml.CharData:
		return ev{kind: 't', data: string(t)}
	case xml.Comment:
		return ev{kind: 'c', data: string(t)}
	case xml.ProcInst:
		return ev{kind: '?', local: t.Target, data: string(t.Inst)}
	case xml.Directive:
		if s, ok := withoutComments(string(t)); given && ok {
			return ev{kind: '!', data: s}
		}
		return ev{kind: '!', data: string(t)}
	}
	return ev{kind: '0'}
}

// frame is an open element of the reference.
type frame struct {
	space, local, prefix string
	kids                 bool
}

type verdict byte

const (
	accept verdict = iota
	refuse
	either
	fatal // refused, and the encoder is not used further
)

// tokRef is the reference encoder.
type tokRef struct {
	stack          []frame
	base           int // elements that must not be closed
	started, maybe bool
	tags           bool
	closed         bool
	prefix, indent string
	evs            []ev
}

func (r *tokRef) ind(n int) {
	if r.prefix == "" && r.indent == "" {
		return
	}
	s := r.prefix + strings.Repeat(r.indent, n)
	if r.tags {
		s = "\n" + s
	}
	r.tags = true
	r.evs = append(r.evs, ev{kind: 't', data: s})
}

func cut(local string) (prefix, name string) {
	if i := strings.IndexByte(local, ':'); i > 0 && i < len(local)-1 {
		return local[:i], local[i+1:]
	}
	return "", local
}

func refDirective(s string) verdict {
	if s == "" || strings.IndexByte("-[<'\"", s[0]) >= 0 {
		return refuse
	}
	if _, ok := withoutComments(s); !ok {
		return refuse
	}
	return accept
}

// withoutComments is the directive as a decoder reads it, with a space for each
// comment; ok reports that its comments, quotes and markers are closed.
func withoutComments(s string) (out string, ok bool) {
	depth, quote := 0, byte(0)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '"' || c == '\'':
			quote = c
		case strings.HasPrefix(s[i:], "<!--"):
			n := strings.Index(s[i+4:], "-->")
			if n < 0 {
				return "", false
			}
			i += 4 + n + 2
			out += " "
			continue
		case c == '<':
			depth++
		case c == '>':
			if depth--; depth < 0 {
				return "", false
			}
		}
		out += s[i : i+1]
	}
	return out, depth == 0 && quote == 0
}

// judge is what the encoder has to do with a token.
func (r *tokRef) judge(t xml.Token) verdict {
	if r.closed {
		return refuse
	}
	switch t := t.(type) {
	case xml.StartElement:
		if t.Name.Local == "" {
			return refuse
		}
		return accept
	case xml.EndElement:
		if t.Name.Local == "" || len(r.stack) == r.base {
			return refuse
		}
		f := r.stack[len(r.stack)-1]
		p, l := cut(t.Name.Local)
		if l != f.local || t.Name.Space != f.space {
			return refuse
		}
		if p != "" && p != f.prefix {
			if f.prefix == "" {
				return either
			}
			return refuse
		}
		return accept
	case xml.CharData:
		return accept
	case xml.Comment:
		if s := string(t); strings.Contains(s, "--") || strings.HasSuffix(s, "-") {
			return refuse
		}
		return accept
	case xml.ProcInst:
		if t.Target == "" || strings.ContainsAny(t.Target, " ?<>/=!'\"[") || strings.ContainsAny(t.Target[:1], "0123456789-.") || strings.Contains(string(t.Inst), "?>") {
			return refuse
		}
		if t.Target == "xml" {
			if r.started {
				return refuse
			}
			if r.maybe {
				return either
			}
		}
		return accept
	case xml.Directive:
		return refDirective(string(t))
	}
	return refuse
}

// take records an accepted token.
func (r *tokRef) take(t xml.Token) {
	switch t := t.(type) {
	case xml.StartElement:
		if len(r.stack) > 0 {
			r.stack[len(r.stack)-1].kids = true
		}
		r.ind(len(r.stack))
		p, l := cut(t.Name.Local)
		r.stack = append(r.stack, frame{space: t.Name.Space, local: l, prefix: p})
		r.started = true
	case xml.EndElement:
		f := r.stack[len(r.stack)-1]
		r.stack = r.stack[:len(r.stack)-1]
		if f.kids {
			r.ind(len(r.stack))
		}
		r.started = true
	case xml.CharData:
		if len(t) > 0 {
			r.started = true
		} else {
			r.maybe = true
		}
	default:
		r.started = true
	}
	r.evs = append(r.evs, eventOf(t, true))
}

func (r *tokRef) clone() *tokRef {
	c := *r
	c.stack = append([]frame(nil), r.stack...)
	c.evs = append([]ev(nil), r.evs...)
	return &c
}

// tokOp is one operation on an encoder.
type tokOp struct {
	name string
	tok  xml.Token
	run  func(e *xml.Encoder) error
	ref  func(r *tokRef) verdict // for run; applies the effect
	core bool
}

// vMarsh writes tokens as a Marshaler.
type vMarsh struct{ toks []xml.Token }

func (m vMarsh) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for _, t := range m.toks {
		if err := e.EncodeToken(t); err != nil {
			return err
		}
	}
	return nil
}

type vElem struct {
	XMLName xml.Name `xml:"v"`
	B       string   `xml:"b,attr"`
	C       string   `xml:"c"`
}

func st(space, local string, attrs ...string) xml.StartElement {
	s := xml.StartElement{Name: xml.Name{Space: space, Local: local}}
	for i := 0; i < len(attrs); i += 3 {
		s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Space: attrs[i], Local: attrs[i+1]}, Value: attrs[i+2]})
	}
	return s
}

func en(space, local string) xml.EndElement {
	return xml.EndElement{Name: xml.Name{Space: space, Local: local}}
}

// takeAll applies tokens that are known to be right.
func takeAll(toks ...xml.Token) func(r *tokRef) verdict {
	return func(r *tokRef) verdict {
		if r.closed {
			return fatal
		}
		for _, t := range toks {
			r.take(t)
		}
		return accept
	}
}

func tokOps() []tokOp {
	var ops []tokOp
	tok := func(core bool, toks ...xml.Token) {
		for _, t := range toks {
			name := fmt.Sprintf("nil %T", t)
			if t != nil {
				name = describe(t)
			}
			ops = append(ops, tokOp{name: name, tok: t, core: core})
		}
	}
	tok(true, st("", "a"), st("", "b", "", "b", "1<\"&'\r"), st("u:1", "a"), st("u:2", "p:a"), st("u:1", "a", "u:2", "x", "1", "", "y", ""))
	tok(false, st("", ""), st("u:1", ""), st("", "a", xmlnsNS, "p", "u:1", "u:1", "y", "2"))
	tok(true, en("", "a"), en("", "b"), en("u:1", "a"), en("u:2", "a"), en("u:2", "p:a"))
	tok(false, en("u:2", "q:a"), en("", ""), en("u:1", ""), en("", "A"))
	tok(true, xml.CharData("x"), xml.CharData("<]]>&\r\n\t\"'"))
	tok(false, xml.CharData(""), xml.CharData(" "))
	tok(true, xml.Comment("c"), xml.Comment("a-"))
	tok(false, xml.Comment(""), xml.Comment("--"), xml.Comment("-->"), xml.Comment("->"))
	tok(true, xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)}, xml.ProcInst{Target: "p", Inst: []byte("i")})
	tok(false, xml.ProcInst{Target: "p"}, xml.ProcInst{Target: "", Inst: []byte("x")}, xml.ProcInst{Target: "p", Inst: []byte("?>")}, xml.ProcInst{Target: "1"}, xml.ProcInst{Target: "a b"})
	tok(true, xml.Directive("DOCTYPE a"), xml.Directive("--x--"))
	tok(false, xml.Directive("a <!-- > -->"), xml.Directive("a <!--> "), xml.Directive(""), xml.Directive("[CDATA[x]]"), xml.Directive("a>"), xml.Directive("a<b>"), xml.Directive("a\">\""))
	tok(true, nil)
	tok(false, &xml.StartElement{Name: xml.Name{Local: "a"}}, "x")
	op := func(core bool, name string, run func(e *xml.Encoder) error, ref func(r *tokRef) verdict) {
		ops = append(ops, tokOp{name: name, run: run, ref: ref, core: core})
	}
	op(true, "Flush", func(e *xml.Encoder) error { return e.Flush() }, func(r *tokRef) verdict { return accept })
	op(true, "Close", func(e *xml.Encoder) error { return e.Close() }, func(r *tokRef) verdict {
		if r.closed {
			return accept
		}
		r.closed = true
		if len(r.stack) > 0 {
			return refuse
		}
		return accept
	})
	op(true, "Encode(struct)", func(e *xml.Encoder) error { return e.Encode(&vElem{B: "1", C: "<"}) },
		takeAll(st("", "v", "", "b", "1"), st("", "c"), xml.CharData("<"), en("", "c"), en("", "v")))
	op(false, "Encode(string)", func(e *xml.Encoder) error { return e.Encode("s") }, takeAll(st("", "string"), xml.CharData("s"), en("", "string")))
	op(false, "Encode(nil)", func(e *xml.Encoder) error { return e.Encode(nil) }, func(r *tokRef) verdict {
		if r.closed {
			return either
		}
		return accept
	})
	op(false, "Encode(chan)", func(e *xml.Encoder) error { return e.Encode(make(chan int)) }, func(r *tokRef) verdict { return fatal })
	op(true, "Encode(Marshaler)", func(e *xml.Encoder) error {
		return e.Encode(vMarsh{[]xml.Token{st("u:1", "m"), xml.Comment("m"), en("u:1", "m"), xml.CharData("m")}})
	}, takeAll(st("u:1", "m"), xml.Comment("m"), en("u:1", "m"), xml.CharData("m")))
	op(true, "Encode(Marshaler closing too much)", func(e *xml.Encoder) error {
		return e.Encode(vMarsh{[]xml.Token{en("", "a")}})
	}, func(r *tokRef) verdict { return fatal })
	op(false, "Encode(Marshaler closing too little)", func(e *xml.Encoder) error {
		return e.Encode(vMarsh{[]xml.Token{st("", "a"), st("", "a"), en("", "a")}})
	}, func(r *tokRef) verdict { return fatal })
	op(true, "EncodeElement(string, {u:1}a x)", func(e *xml.Encoder) error {
		return e.EncodeElement("s", st("u:1", "a", "", "x", "1"))
	}, takeAll(st("u:1", "a", "", "x", "1"), xml.CharData("s"), en("u:1", "a")))
	return ops
}

func runTok(e *xml.Encoder, r *tokRef, op *tokOp) (v verdict, err error) {
	if op.run != nil {
		return op.ref(r), op.run(e)
	}
	v = r.judge(op.tok)
	err = e.EncodeToken(op.tok)
	if err == nil && v != refuse {
		r.take(op.tok)
	}
	return v, err
}

// checkEvents compares the output of an encoder with the reference.
func checkEvents(t *core.T, what func() string, want []ev, out string, both bool) bool {
	want = joinText(want)
	cmp := func(dec string, got []ev, err error) bool {
		if err != nil {
			t.Failf("output is ill-formed", "%s: written %q, %s: %v", what(), out, dec, err)
			return false
		}
		if len(got) != len(want) {
			t.Failf("output differs", "%s: written %q, %s: %v instead of %v", what(), out, dec, got, want)
			return false
		}
		for i := range got {
			if !want[i].same(got[i]) {
				t.Failf("output differs", "%s: written %q, %s: token %d is %v instead of %v", what(), out, dec, i, got[i], want[i])
				return false
			}
		}
		return true
	}
	got, err := stdEvents(out)
	if !cmp("encoding/xml", got, err) {
		return false
	}
	if both {
		got, err = libEvents(out)
		if !cmp("own decoder", got, err) {
			return false
		}
	}
	// A complete document is well-formed for an independent parser.
	if documentLike(want) {
		if _, err := refxml.Parse(out); err != nil {
			t.Failf("output is not a document", "%s: written %q: %v", what(), out, err)
			return false
		}
	}
	return true
}

// documentLike tells whether the events are those of one XML document.
func documentLike(evs []ev) bool {
	roots, depth, doctype := 0, 0, 0
	for _, e := range evs {
		switch e.kind {
		case '<':
			if depth == 0 {
				roots++
			}
			depth++
		case '/':
			depth--
		case 't':
			if depth == 0 && strings.Trim(e.data, " \t\r\n") != "" {
				return false
			}
		case '!':
			if depth > 0 || roots > 0 || !strings.HasPrefix(e.data, "DOCTYPE a") {
				return false
			}
			doctype++
		}
	}
	return roots == 1 && doctype < 2
}

type tokRunner struct {
	t              *core.T
	ops            []tokOp
	prefix, indent string
	both           bool
	d              *core.Distinct
}

// run executes the sequence on a fresh encoder and closes it in one of two
// ways. It reports whether the sequence can be extended.
func (x *tokRunner) run(seq []int) (extend bool) {
	t := x.t
	extend = true
	for mode := 0; mode < 2; mode++ {
		var buf bytes.Buffer
		e := xml.NewEncoder(&buf)
		if x.prefix != "" || x.indent != "" {
			e.Indent(x.prefix, x.indent)
		}
		r := &tokRef{prefix: x.prefix, indent: x.indent}
		desc := func() string {
			var n []string
			for _, o := range seq {
				n = append(n, x.ops[o].name)
			}
			return strings.Join(n, ", ")
		}
		for i, o := range seq {
			t.Step(1)
			v, err := runTok(e, r, &x.ops[o])
			switch {
			case v == accept && err != nil:
				t.Failf("token refused", "%s: operation %d: %v", desc(), i, err)
				return false
			case (v == refuse || v == fatal) && err == nil:
				t.Failf("token accepted", "%s: operation %d is not refused", desc(), i)
				return false
			}
			if v == fatal || v == either && err != nil && r.closed {
				return false
			}
		}
		if mode == 1 && !r.closed {
			for len(r.stack) > 0 {
				f := r.stack[len(r.stack)-1]
				et := en(f.space, f.local)
				if err := e.EncodeToken(et); err != nil {
					t.Failf("token refused", "%s: closing %v: %v", desc(), et, err)
					return false
				}
				r.take(et)
			}
		}
		err := e.Close()
		switch {
		case !r.closed && len(r.stack) > 0 && err == nil:
			t.Failf("unclosed element not reported", "%s: closing the encoder gives no error", desc())
			return false
		case (r.closed || len(r.stack) == 0) && err != nil:
			t.Failf("closing fails", "%s: closing the encoder: %v", desc(), err)
			return false
		}
		if e2 := e.EncodeToken(xml.CharData("x")); e2 == nil {
			t.Failf("token after Close", "%s: a token after Close is not refused", desc())
			return false
		}
		if mode == 1 || len(r.stack) == 0 {
			if len(r.stack) == 0 {
				x.d.Add(buf.String())
				t.Trace()
				if !checkEvents(t, desc, r.evs, buf.String(), x.both) {
					return false
				}
			}
		} else {
			// The output so far has been flushed: close it by hand.
			out := buf.String()
			_, err := stdEvents(out)
			if err == nil {
				t.Failf("output differs", "%s: %q is complete although elements are open", desc(), out)
				return false
			}
		}
		if mode == 0 && len(r.stack) == 0 {
			break
		}
	}
	return extend
}

// inner runs a sequence inside MarshalXML below an outer element.
type inner struct {
	t    *core.T
	ops  []tokOp
	seq  []int
	r    *tokRef
	desc func() string
	bad  bool
	stop bool
}

func (m *inner) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for i, o := range m.seq {
		v, err := runTok(e, m.r, &m.ops[o])
		switch {
		case v == accept && err != nil:
			m.t.Failf("token refused", "in MarshalXML: %s: operation %d: %v", m.desc(), i, err)
			m.bad = true
			return err
		case (v == refuse || v == fatal) && err == nil:
			m.t.Failf("token accepted", "in MarshalXML: %s: operation %d is not refused", m.desc(), i)
			m.bad = true
			return fmt.Errorf("stop")
		}
		if v == fatal {
			m.stop = true
			return err
		}
	}
	return nil
}

func runTokens(c *core.Ctx) {
	ops := tokOps()
	var small []tokOp
	for _, o := range ops {
		if o.core {
			small = append(small, o)
		}
	}
	sweep := func(name string, ops []tokOp, depth int, prefix, indent string, both bool) {
		for a := range ops {
			for b := -1; b < len(ops); b++ {
				if !c.Mine() {
					continue
				}
				c.Run(func() string {
					s := ops[a].name
					if b >= 0 {
						s += ", " + ops[b].name
					}
					return name + ": " + s
				}, func(t *core.T) {
					var d core.Distinct
					x := &tokRunner{t: t, ops: ops, prefix: prefix, indent: indent, both: both, d: &d}
					var rec func(seq []int)
					rec = func(seq []int) {
						ok := x.run(seq)
						t.Eval(true)
						if t.Failed() || !ok || b < 0 || len(seq) >= depth {
							return
						}
						for o := range ops {
							rec(append(seq[:len(seq):len(seq)], o))
						}
					}
					if b < 0 {
						rec([]int{a})
					} else {
						rec([]int{a, b})
					}
					t.CountStates(&d)
				})
			}
		}
	}
	sweep("sequence", ops, c.Pick(3, 4), "", "", true)
	sweep("core sequence", small, c.Pick(4, 5), "", "", false)
	for _, in := range [][2]string{{"", " "}, {"\t", ""}, {" ", "\t"}} {
		sweep(fmt.Sprintf("indented %q", in), small, c.Pick(3, 4), in[0], in[1], false)
	}
	// Inside a Marshaler.
	for a := range small {
		for b := range small {
			c.Case(func() string { return "in a Marshaler: " + small[a].name + ", " + small[b].name }, func(t *core.T) {
				var d core.Distinct
				var rec func(seq []int)
				rec = func(seq []int) {
					desc := func() string {
						var n []string
						for _, o := range seq {
							n = append(n, small[o].name)
						}
						return strings.Join(n, ", ")
					}
					for _, o := range seq {
						if small[o].name == "Close" {
							return
						}
					}
					var buf bytes.Buffer
					e := xml.NewEncoder(&buf)
					outer := st("u:1", "a")
					e.EncodeToken(outer)
					r := &tokRef{}
					r.take(outer)
					r.base = 1
					m := &inner{t: t, ops: small, seq: seq, r: r, desc: desc}
					err := e.Encode(m)
					if m.bad {
						return
					}
					t.Eval(true)
					t.Step(len(seq) + 2)
					balanced := len(r.stack) == 1
					switch {
					case m.stop:
						if err == nil {
							t.Failf("error lost", "in MarshalXML: %s: the error is not returned", desc())
						}
						return
					case balanced && err != nil:
						t.Failf("balanced content refused", "in MarshalXML: %s: %v", desc(), err)
						return
					case !balanced && err == nil:
						t.Failf("unclosed element not reported", "in MarshalXML: %s: no error", desc())
						return
					}
					if balanced {
						et := en("u:1", "a")
						if err := e.EncodeToken(et); err != nil {
							t.Failf("token refused", "after MarshalXML: %s: %v", desc(), err)
							return
						}
						r.take(et)
						if err := e.Close(); err != nil {
							t.Failf("closing fails", "after MarshalXML: %s: %v", desc(), err)
							return
						}
						d.Add(buf.String())
						t.Trace()
						if !checkEvents(t, desc, r.evs, buf.String(), false) {
							return
						}
					}
					if len(seq) < c.Pick(3, 4) {
						for o := range small {
							if t.Failed() {
								return
							}
							rec(append(seq[:len(seq):len(seq)], o))
						}
					}
				}
				rec([]int{a, b})
				t.CountStates(&d)
			})
		}
	}
	// Sizes around the buffer, before a late declaration.
	decl := xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)}
	for lo := 0; lo < 12500; lo += 100 {
		c.Case(func() string { return fmt.Sprintf("%d bytes before a declaration", lo) }, func(t *core.T) {
			for n := lo; n < lo+100 && !t.Failed(); n++ {
				if n > 300 && n%4096 > 40 && n%4096 < 4050 && !c.Thorough() {
					continue
				}
				for kind := 0; kind < 4; kind++ {
					var buf bytes.Buffer
					e := xml.NewEncoder(&buf)
					r := &tokRef{}
					s := strings.Repeat("x", n)
					var tok xml.Token
					switch kind {
					case 0:
						tok = xml.CharData(s)
					case 1:
						tok = xml.Comment(s)
					case 2:
						tok = st("", "a"+s, "", "b", s)
					case 3:
						tok = xml.ProcInst{Target: "p", Inst: []byte(s)}
					}
					t.Eval(true)
					t.Step(3)
					if err := e.EncodeToken(tok); err != nil {
						t.Failf("token refused", "%s of %d bytes: %v", tokenKind(tok), n, err)
						return
					}
					r.take(tok)
					if n > 0 || kind > 0 {
						if err := e.EncodeToken(decl); err == nil {
							t.Failf("token accepted", "declaration after %s of %d bytes", tokenKind(tok), n)
							return
						}
					}
					if kind == 2 {
						et := en("", "a"+s)
						if err := e.EncodeToken(et); err != nil {
							t.Failf("token refused", "end tag: %v", err)
							return
						}
						r.take(et)
					}
					if err := e.Close(); err != nil {
						t.Failf("closing fails", "%v", err)
						return
					}
					t.State(fmt.Sprint(n, kind))
					if !checkEvents(t, func() string { return fmt.Sprintf("%s of %d bytes", tokenKind(tok), n) }, r.evs, buf.String(), true) {
						return
					}
				}
			}
		})
	}
	// Ladders.
	for n := 1; n <= 3000; n = n*3/2 + 1 {
		c.Case(func() string { return fmt.Sprintf("ladder of %d", n) }, func(t *core.T) {
			for _, in := range []string{"", " "} {
				var buf bytes.Buffer
				e := xml.NewEncoder(&buf)
				e.Indent("", in)
				r := &tokRef{indent: in}
				step := func(tok xml.Token) bool {
					v := r.judge(tok)
					err := e.EncodeToken(tok)
					t.Step(1)
					t.Eval(true)
					if (err == nil) != (v == accept) {
						t.Failf("token refused", "depth %d: %s: %v", len(r.stack), describe(tok), err)
						return false
					}
					if err == nil {
						r.take(tok)
					}
					return true
				}
				name := func(i int) (string, string) {
					return fmt.Sprintf("u:%d", i%7), []string{"a", "p:a", "b", "q:c"}[i%4]
				}
				for i := 0; i < n; i++ {
					s, l := name(i)
					if !step(st(s, l, s, "x", "1")) {
						return
					}
				}
				for i := n - 1; i >= 0; i-- {
					s, l := name(i)
					if !step(en("u:x", l)) || !step(en(s, l+"x")) || !step(en(s, l)) {
						return
					}
				}
				if !step(en("", "a")) {
					return
				}
				if err := e.Close(); err != nil {
					t.Failf("closing fails", "%v", err)
					return
				}
				t.State(buf.String())
				t.Trace()
				checkEvents(t, func() string { return fmt.Sprintf("ladder of %d", n) }, r.evs, buf.String(), true)
			}
		})
	}
	// All short comments, instructions and directives.
	alpha := []string{"-", ">", "<", "?", "!", "'", "\"", "[", "x", " "}
	for _, kind := range []string{"comment", "instruction", "directive", "target"} {
		for _, a := range append([]string{""}, alpha...) {
			for _, b := range append([]string{""}, alpha...) {
				if a == "" && b != "" {
					continue
				}
				c.Case(func() string { return kind + " beginning with " + a + b }, func(t *core.T) {
					var d core.Distinct
					var rec func(s string)
					rec = func(s string) {
						var tok xml.Token
						switch kind {
						case "comment":
							tok = xml.Comment(s)
						case "instruction":
							if strings.HasPrefix(s, " ") {
								return
							}
							tok = xml.ProcInst{Target: "p", Inst: []byte(s)}
						case "directive":
							tok = xml.Directive(s)
						case "target":
							tok = xml.ProcInst{Target: s, Inst: []byte("i")}
						}
						oneToken(t, tok)
						d.Add(s)
						if t.Failed() || b == "" || len(s) >= c.Pick(5, 6) {
							return
						}
						for _, x := range alpha {
							rec(s + x)
						}
					}
					rec(a + b)
					t.CountStates(&d)
				})
			}
		}
	}
	// Directives with comments, quotes and markers.
	dirs := []string{"<!--", "-->", "<!-", "--", "-", ">", "<", "'", "\"", "x", "<!ENTITY a \"b>\">", "<!-- it's <ELEMENT> -->"}
	for _, a := range dirs {
		for _, b := range dirs {
			c.Case(func() string { return "directive x" + a + b }, func(t *core.T) {
				var d core.Distinct
				var rec func(s string, n int)
				rec = func(s string, n int) {
					oneToken(t, xml.Directive(s))
					d.Add(s)
					if n == 0 {
						return
					}
					for _, x := range dirs {
						if t.Failed() {
							return
						}
						rec(s+x, n-1)
					}
				}
				rec("x"+a+b, c.Pick(2, 3))
				t.CountStates(&d)
			})
		}
	}
	// Decoded tokens are encoded again.
	pieces := []string{"<a>", "</a>", "<b x='1'/>", "<p:a>", "</p:a>", "<a xmlns='u'>", "<a xmlns=''>", "<p:a xmlns:p='u'>", "<q:a xmlns:q='u' q:x='2'/>", "<p:b p:y='3' y='4'/>", "<xml:a xml:lang='x'/>", "x", " ", "\r\n", "&lt;&#13;", "<![CDATA[<&]]>", "<!--c-->", "<?p i?>", "<?p?>", "<!DOCTYPE a [<!ENTITY e '>'>]>", "<?xml version='1.0'?>", "é", "</b>", "<b xmlns:p='w' p:z='5'>", "<p:b xmlns='u' xmlns:p='u'/>", "]]", ">"}
	for _, a := range append([]string{""}, pieces...) {
		for _, b := range append([]string{""}, pieces...) {
			if a == "" && b != "" {
				continue
			}
			c.Case(func() string { return "pieces " + a + b }, func(t *core.T) {
				var d core.Distinct
				var rec func(s string, n int)
				rec = func(s string, n int) {
					t.Eval(reencode(t, s))
					d.Add(s)
					if t.Failed() || b == "" || n == 0 {
						return
					}
					for _, x := range pieces {
						rec(s+x, n-1)
					}
				}
				rec(a+b, c.Pick(2, 3))
				t.CountStates(&d)
			})
		}
	}
	b := vocab.NewBuilder()
	genDocs(c, b, func(name string, mk func() *vocab.Node) {
		full := strings.Contains(name, " saturated") || strings.Contains(name, " full depth 1")
		if !full && !c.Thorough() || !c.Mine() {
			return
		}
		c.Run(func() string { return "tokens of " + name }, func(t *core.T) {
			root := mk()
			for i, set := range styleSettings() {
				var s vocab.Style
				set.set(&s)
				if !full && i%8 != 0 || !compatible(s) {
					continue
				}
				doc := b.Serialize(root, s)
				t.State(doc)
				t.Eval(reencode(t, doc))
			}
		})
	})
}

func tokenKind(t xml.Token) string { return strings.TrimPrefix(fmt.Sprintf("%T", t), "xml.") }

// oneToken encodes a single token.
func oneToken(t *core.T, tok xml.Token) {
	for _, outer := range []bool{false, true} {
		var buf bytes.Buffer
		e := xml.NewEncoder(&buf)
		r := &tokRef{}
		if outer {
			s := st("", "a")
			e.EncodeToken(s)
			r.take(s)
		}
		v := r.judge(tok)
		err := e.EncodeToken(tok)
		t.Step(1)
		t.Eval(err == nil)
		switch {
		case v == accept && err != nil:
			t.Failf("token refused", "%s: %v", describe(tok), err)
			return
		case v == refuse && err == nil:
			t.Failf("token accepted", "%s is not refused", describe(tok))
			return
		}
		if v == either {
			return
		}
		if err == nil {
			r.take(tok)
		}
		if outer {
			et := en("", "a")
			if err := e.EncodeToken(et); err != nil {
				t.Failf("token refused", "end tag after %s: %v", describe(tok), err)
				return
			}
			r.take(et)
		}
		if err := e.Close(); err != nil {
			t.Failf("closing fails", "%v", err)
			return
		}
		if !checkEvents(t, func() string { return describe(tok) }, r.evs, buf.String(), true) {
			return
		}
	}
}

// reencode decodes a text, encodes the tokens and decodes them again.
func reencode(t *core.T, doc string) bool {
	d := xml.NewDecoder(strings.NewReader(doc))
	var toks []xml.Token
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return false // not a complete text
		}
		toks = append(toks, xml.CopyToken(tok))
	}
	var buf bytes.Buffer
	e := xml.NewEncoder(&buf)
	var want []ev
	written, undeclared := false, false
	for i, tok := range toks {
		t.Step(1)
		err := e.EncodeToken(tok)
		if pi, ok := tok.(xml.ProcInst); ok && pi.Target == "xml" && written {
			if err == nil {
				t.Failf("token accepted", "%q: late declaration", doc)
				return true
			}
			return true
		}
		if err != nil {
			t.Failf("decoded token refused", "%q: token %d, %s: %v", doc, i, describe(tok), err)
			return true
		}
		if cd, ok := tok.(xml.CharData); !ok || len(cd) > 0 {
			written = true
		}
		x := eventOf(tok, false)
		undeclared = undeclared || x.space == "p" || x.space == "q"
		want = append(want, x)
	}
	// The name of an undeclared prefix is written as a default namespace, which
	// elements without namespace below it inherit.
	for i := range want {
		want[i].any = undeclared && want[i].space == ""
	}
	if err := e.Close(); err != nil {
		t.Failf("closing fails", "%q: %v", doc, err)
		return true
	}
	t.Trace()
	want = joinText(want)
	got, err := libEvents(buf.String())
	if err != nil {
		t.Failf("output is ill-formed", "%q: written %q: %v", doc, buf.String(), err)
		return true
	}
	if len(got) != len(want) {
		t.Failf("re-encoded tokens differ", "%q: written %q: %v instead of %v", doc, buf.String(), got, want)
		return true
	}
	for i := range got {
		if !want[i].same(got[i]) {
			t.Failf("re-encoded tokens differ", "%q: written %q: token %d is %v instead of %v", doc, buf.String(), i, got[i], want[i])
			return true
		}
	}
	return true
}
