package checks

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/core"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID: "C25",
		Rule: "A case is one way of pumping an input: every word of up to the bound of pieces of a context (content, tags, attribute values, names, comments, " +
			"instructions, CDATA, document type with entities, prolog, epilog), repeated side by side, nested and nested without end tags; every element kind of the manifest " +
			"repeated at each of its places, every attribute and text of the manifest with every form of long value; and every way of nesting types. Each input is built at two sizes " +
			"and read in every way; allocations, processor time and the size of the content are compared. Non-trivial: the input was read at both sizes.",
		Bounds: "Words of up to 2 pieces (thorough: 3) per context; sizes 16 KB and 128 KB (thorough: 64 KB, 512 KB and, for words of 1 piece, 8 MB); nesting depths up to 1,000,000; all edges, attributes and texts of the manifest vocabulary.",
		Assumptions: []string{
			"proportional: allocated bytes grow by at most twice the growth of the input and stay below 800 bytes per input byte plus 256 KB; processor time of the reading thread grows by at most three times the growth of the input plus 0.2 s, best of three",
			"nesting: 4,000 levels are read; 20,000 levels and more are refused where decoding recurses and cost linear time where it does not",
			"types that themselves ask for more (nested innerxml fields of user types) are not used; the manifest model has none that nest",
		},
		Run:   runLimits,
		HangS: 120,
		MemMB: 2500,
	})
}

type limNode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Note    string     `xml:",comment"`
	Kids    []limNode  `xml:",any"`
}

type limPtr struct {
	Attr string  `xml:"k,attr"`
	Data []byte  `xml:",cdata"`
	A    *limPtr `xml:"a"`
}

type limPath struct {
	B []string `xml:"a>a>b"`
	C []string `xml:"a>c"`
	D []limPtr `xml:"d"`
}

type limInner struct {
	Raw string `xml:",innerxml"`
}

// limRec decodes its children itself.
type limRec struct{ n int }

func (r *limRec) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case xml.StartElement:
			var k limRec
			if err := d.DecodeElement(&k, &t); err != nil {
				return err
			}
			r.n += k.n + 1
		case xml.EndElement:
			return nil
		}
	}
}

// limText keeps text.
type limText struct{ n int }

func (l *limText) UnmarshalText(b []byte) error { l.n = len(b); return nil }

type limTextEl struct {
	K limText   `xml:"k,attr"`
	T limText   `xml:",chardata"`
	A []limText `xml:"a"`
}

type limAPI struct {
	name string
	// run reads the input and returns the size of the content it got (-1: not measured).
	run func(in string) (int, error)
}

type plainReader struct{ r *strings.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

func tokenSize(t xml.Token) int {
	switch t := t.(type) {
	case xml.StartElement:
		n := len(t.Name.Local)
		for _, a := range t.Attr {
			n += len(a.Name.Local) + len(a.Value)
		}
		return n
	case xml.CharData:
		return len(t)
	case xml.Comment:
		return len(t)
	case xml.ProcInst:
		return len(t.Target) + len(t.Inst)
	case xml.Directive:
		return len(t)
	}
	return 0
}

func limTokens(d *xml.Decoder, next func() (xml.Token, error)) (int, error) {
	n := 0
	for {
		t, err := next()
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
		n += tokenSize(t)
	}
}

func limInto(mk func() any) func(string) (int, error) {
	return func(in string) (int, error) { return -1, xml.Unmarshal([]byte(in), mk()) }
}

var limAPIs = []limAPI{
	{"manifest", func(in string) (int, error) { _, err := mpd.ReadFromString(in); return -1, err }},
	{"tokens", func(in string) (int, error) {
		d := xml.NewDecoder(plainReader{strings.NewReader(in)})
		return limTokens(d, d.Token)
	}},
	{"raw", func(in string) (int, error) {
		d := xml.NewDecoder(strings.NewReader(in))
		return limTokens(d, d.RawToken)
	}},
	{"lax", func(in string) (int, error) {
		d := xml.NewDecoder(strings.NewReader(in))
		d.Strict, d.AutoClose, d.Entity = false, xml.HTMLAutoClose, xml.HTMLEntity
		// An entity that is not known stands for itself, end tags are made up: no content is counted.
		_, err := limTokens(d, d.Token)
		return -1, err
	}},
	{"skip", func(in string) (int, error) {
		d := xml.NewDecoder(strings.NewReader(in))
		for {
			t, err := d.Token()
			if err != nil {
				return -1, err
			}
			if _, ok := t.(xml.StartElement); ok {
				return -1, d.Skip()
			}
		}
	}},
	{"copied", func(in string) (int, error) {
		d := xml.NewTokenDecoder(xml.NewDecoder(strings.NewReader(in)))
		n := 0
		for {
			t, err := d.Token()
			if err == io.EOF {
				return n, nil
			}
			if err != nil {
				return n, err
			}
			n += tokenSize(xml.CopyToken(t))
		}
	}},
	{"node", limInto(func() any { return new(limNode) })},
	{"pointer", limInto(func() any { return new(limPtr) })},
	{"path", limInto(func() any { return new(limPath) })},
	{"inner", limInto(func() any { return new(limInner) })},
	{"unmarshaler", limInto(func() any { return new(limRec) })},
	{"text", limInto(func() any { return new(limTextEl) })},
	{"string", limInto(func() any { return new(string) })},
	{"interface", limInto(func() any {
		var v struct {
			A []any `xml:"a"`
		}
		return &v
	})},
}

func threadCPU() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type limCost struct {
	bytes uint64
	cpu   time.Duration
	size  int
	err   error
}

func limMeasure(a limAPI, in string) limCost {
	var m1, m2 runtime.MemStats
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	runtime.ReadMemStats(&m1)
	t := threadCPU()
	n, err := a.run(in)
	t = threadCPU() - t
	runtime.ReadMemStats(&m2)
	return limCost{bytes: m2.TotalAlloc - m1.TotalAlloc, cpu: t, size: n, err: err}
}

// limCompare reads the inputs made for the ascending sizes and compares the costs.
func limCompare(c *core.Ctx, t *core.T, a limAPI, mk func(size int) string, sizes []int) {
	var prev limCost
	var prevLen int
	for i, sz := range sizes {
		in := mk(sz)
		cost := limMeasure(a, in)
		t.Step(1)
		t.State(a.name, strconv.Itoa(i), fmt.Sprint(cost.err != nil), strconv.Itoa(int(cost.bytes/uint64(len(in)+1))))
		if lim := uint64(800*len(in) + 256<<10); cost.bytes > lim {
			t.Failf("memory", "%s allocates %d bytes for an input of %d bytes that starts %q", a.name, cost.bytes, len(in), head(in))
			return
		}
		if cost.size > len(in) {
			t.Failf("expansion", "%s yields %d bytes of content from an input of %d bytes that starts %q", a.name, cost.size, len(in), head(in))
			return
		}
		if i > 0 {
			g := float64(len(in)) / float64(prevLen)
			if float64(cost.bytes) > 2*g*float64(prev.bytes)+128<<10 {
				t.Failf("growth of memory", "%s allocates %d bytes for %d bytes of input, but %d bytes for %d bytes: %q...", a.name, prev.bytes, prevLen, cost.bytes, len(in), head(in))
				return
			}
			bound := func(p time.Duration) time.Duration {
				return time.Duration(3*g*float64(max(p, time.Millisecond))) + 200*time.Millisecond
			}
			for try := 0; cost.cpu > bound(prev.cpu) && try < 4; try++ {
				prev.cpu = max(prev.cpu, limMeasure(a, mk(sizes[i-1])).cpu)
				if again := limMeasure(a, in); again.cpu < cost.cpu {
					cost.cpu = again.cpu
				}
			}
			if cost.cpu > bound(prev.cpu) {
				t.Failf("growth of time", "%s takes %v for %d bytes of input, but %v for %d bytes: %q...", a.name, prev.cpu, prevLen, cost.cpu, len(in), head(in))
				return
			}
			t.Trace()
		}
		prev, prevLen = cost, len(in)
	}
	t.Eval(true)
}

func head(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

type limContext struct {
	name      string
	pre, post string
	pieces    []string
	manifest  bool // the context is a manifest
}

// closers gives the end tags for the start tags that a word leaves open.
func closers(word string) string {
	var open []string
	for i := 0; i < len(word); i++ {
		if word[i] != '<' || i+1 == len(word) {
			continue
		}
		j := strings.IndexByte(word[i:], '>')
		if j < 0 {
			break
		}
		tag := word[i+1 : i+j]
		switch {
		case tag == "":
		case tag[0] == '!' || tag[0] == '?' || tag[len(tag)-1] == '/':
		case tag[0] == '/':
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		default:
			name, _, _ := strings.Cut(tag, " ")
			open = append(open, name)
		}
	}
	var sb strings.Builder
	for i := len(open) - 1; i >= 0; i-- {
		sb.WriteString("</" + open[i] + ">")
	}
	return sb.String()
}

const limNS = `xmlns="urn:mpeg:dash:schema:mpd:2011"`

var limContexts = []limContext{
	{name: "content", pre: `<a>`, post: `</a>`, pieces: []string{
		`<a>`, `<a k="v">`, `<p:a xmlns:p="u">`, `<a xmlns="u">`, `<p:a xmlns:p="u{i}">`, `<a xmlns:p{i}="u">`, `<n{i}>`, `<a/>`, `<b/>`, `<n{i}/>`, `<a></a>`, `<d/>`, `<c>x</c>`,
		`<a k="v" l="w" m{i}="x"/>`, `x`, `é`, ` `, "\n", "\r\n", `]]`, `&lt;`, `&#65;`, `&#x{i};`, `<!--c-->`, `<!-- - -->`, `<?p q?>`, `<![CDATA[x]]>`, `<![CDATA[]]>`, `<!d>`, `<br>`, `</a>`, `&x;`, `<`}},
	{name: "manifest content", manifest: true, pre: `<MPD ` + limNS + `>`, post: `</MPD>`, pieces: []string{
		`<Period>`, `<AdaptationSet>`, `<Representation>`, `<Period/>`, `<a>`, `<x:a xmlns:x="u">`, `<MPD>`, `<BaseURL>x</BaseURL>`, `x`, ` `, `&amp;`, `<!--c-->`, `<?p q?>`, `<![CDATA[x]]>`, `<EventStream><Event>`, `<Period id="{i}"/>`}},
	{name: "event content", manifest: true, pre: `<MPD ` + limNS + `><Period><EventStream schemeIdUri="u"><Event>`, post: `</Event></EventStream></Period></MPD>`, pieces: []string{
		`<Ext xmlns="http://www.scte.org/schemas/35">`, `<Signal xmlns="http://www.scte.org/schemas/35">`, `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35">`, `<s:Signal xmlns:s="http://www.scte.org/schemas/35"><s:SpliceInfoSection>`,
		`<Signal xmlns="http://www.scte.org/schemas/35"><SpliceInfoSection><Ext>`, `<a>`, `x`, `<!--c-->`, `<ReplacePresentation uri="u">`}},
	{name: "attributes", pre: `<a`, post: `></a>`, pieces: []string{
		` k="v"`, ` k{i}="v"`, ` p:k="v"`, ` xmlns="u"`, ` xmlns:p="u"`, ` xmlns:p{i}="u"`, ` xmlns:p="u{i}"`, ` k{i}=''`, ` k="é&lt;"`, ` `, "\n", `k{i}="v"`, ` xml:lang="e"`, ` k`, ` k=v`, `/`}},
	{name: "attribute value", pre: `<a k="`, post: `"></a>`, pieces: []string{`x`, `é`, ` `, "\n", "\r", `&lt;`, `&#65;`, `&#0065;`, `'`, `>`, `]]>`, `&`, `0`, `<`}},
	{name: "namespace value", pre: `<p:a xmlns:p="`, post: `" p:k="v"><p:a/></p:a>`, pieces: []string{`x`, `/`, ` `, `&amp;`}},
	{name: "element name", pre: `<a`, post: `/>`, pieces: []string{`b`, `é`, `-`, `.`, `:b`, `0`, `日`}},
	{name: "attribute name", pre: `<a k`, post: `="v"/>`, pieces: []string{`b`, `é`, `-`, `:b`}},
	{name: "end tag", pre: `<ab></a`, post: `b>`, pieces: []string{`b`, ` `, `:`}},
	{name: "in tags", pre: `<a`, post: `k="v"/>`, pieces: []string{` `, "\n", "\t", "\r"}},
	{name: "character reference", pre: `<a>&#`, post: `;</a>`, pieces: []string{`0`, `6`, `x`, `a`}},
	{name: "entity reference", pre: `<a>&`, post: `;</a>`, pieces: []string{`a`, `é`, `amp`, `:`}},
	{name: "comment", pre: `<a><!--`, post: `--></a>`, pieces: []string{`x`, ` `, `- `, "\r\n", `é`, `<!`, `&x;`, `>`, `-`}},
	{name: "instruction", pre: `<a><?p `, post: `?></a>`, pieces: []string{`x`, `?`, ` `, "\r\n", `é`, `>`, `k="v" `}},
	{name: "declaration", pre: `<?xml version="1.0" `, post: `?><a/>`, pieces: []string{` `, `x`, `encoding="utf-8" `, `encoding=`, `version="1.0" `, `version=`, `"`, `encoding "`}},
	{name: "target", pre: `<?p`, post: ` ?><a/>`, pieces: []string{`x`, `é`}},
	{name: "CDATA", pre: `<a><![CDATA[`, post: `]]></a>`, pieces: []string{`x`, `]`, `]]`, `&lt;`, `<`, `>`, "\r\n", `é`, ` `, `<![CDATA[`}},
	{name: "document type", pre: `<!DOCTYPE a [`, post: `]><a>&e1;</a>`, pieces: []string{
		`<!ENTITY e{i} "x">`, `<!ENTITY e{i} "&e{i-1};&e{i-1};">`, `<!ENTITY % p{i} "x">`, `<!ELEMENT a ANY>`, `<!-- c -->`, `<`, `>`, `"x"`, `'<'`, ` `, `<!ENTITY e1 SYSTEM "file:///dev/zero">`, `<!ATTLIST a k CDATA "v">`, `[`, `<?p q?>`}},
	{name: "directive", pre: `<!x `, post: `><a/>`, pieces: []string{`x`, `<x>`, `"x"`, `<`, `<!--`, `-->`, `-`}},
	{name: "prolog", pre: ``, post: `<a/>`, pieces: []string{` `, "\n", `<!--c-->`, `<?p q?>`, `<!d>`, `<?xml version="1.0"?>`, "\ufeff", `x`}},
	{name: "epilog", pre: `<a/>`, post: ``, pieces: []string{` `, `<!--c-->`, `<?p q?>`, `<a/>`, `x`, `</a>`, `<a>`}},
	{name: "manifest prolog", manifest: true, pre: ``, post: `<MPD ` + limNS + `></MPD>`, pieces: []string{` `, `<!--c-->`, `<?p q?>`, `<!d>`}},
}

// limPump builds the pumped input of about the given size.
func limPump(cx *limContext, word string, mode int, size int) string {
	end := ""
	if mode == 1 {
		end = closers(word)
	}
	indexed := strings.Contains(word, "{i")
	unit := len(word) + len(end)
	if indexed {
		unit += 3 * strings.Count(word, "{i")
		if mode == 1 {
			unit += 3
		}
	}
	n := max(1, (size-len(cx.pre)-len(cx.post))/unit)
	var sb strings.Builder
	sb.Grow(size + 64)
	sb.WriteString(cx.pre)
	rep := func(s string, i int) string {
		if !indexed {
			return s
		}
		return strings.ReplaceAll(strings.ReplaceAll(s, "{i-1}", strconv.Itoa(i-1)), "{i}", strconv.Itoa(i))
	}
	for i := 1; i <= n; i++ {
		sb.WriteString(rep(word, i))
	}
	if mode == 1 {
		for i := n; i >= 1; i-- {
			sb.WriteString(rep(end, i))
		}
	}
	if mode != 2 {
		sb.WriteString(cx.post)
	}
	return sb.String()
}

func runLimits(c *core.Ctx) {
	sizes := []int{16 << 10, 128 << 10}
	if c.Thorough() {
		sizes = []int{64 << 10, 512 << 10}
	}
	depth := c.Pick(2, 3)
	// Pumped words.
	for ci := range limContexts {
		cx := &limContexts[ci]
		var words func(word string, n int)
		words = func(word string, n int) {
			if n > 0 {
				modes := []int{0}
				if closers(word) != "" {
					modes = []int{1, 2}
				}
				for _, mode := range modes {
					if !c.Mine() {
						continue
					}
					c.Run(func() string { return fmt.Sprintf("%s: %q repeated, mode %d", cx.name, word, mode) }, func(t *core.T) {
						sz := sizes
						if c.Thorough() && n == 1 {
							sz = append(append([]int(nil), sz...), 8<<20)
						}
						for _, a := range limAPIs {
							if cx.manifest != (a.name == "manifest") && a.name != "tokens" {
								continue
							}
							// Longer words are read by the main interfaces.
							if n >= 2 && (n == 3 || !c.Thorough()) && a.name != "tokens" && a.name != "node" && a.name != "manifest" && a.name != "unmarshaler" {
								continue
							}
							limCompare(c, t, a, func(size int) string { return limPump(cx, word, mode, size) }, sz)
							if t.Failed() {
								return
							}
						}
					})
				}
			}
			if n == depth || c.Done() {
				return
			}
			for _, p := range cx.pieces {
				words(word+p, n+1)
			}
		}
		words("", 0)
	}
	// The manifest vocabulary: elements repeated at each of their places.
	b := vocab.NewBuilder()
	v := b.V
	const m1, m2 = "@@1@@", "@@2@@"
	at := func(e vocab.Edge, full bool) (string, string, string) {
		root, parent := b.Doc(v.Path(e.Parent))
		kid := e.Kid
		parent.AddText(m1)
		k := parent.Add(b.NewKid(parent, &kid))
		if full {
			b.Saturate(k, 1)
		}
		parent.AddText(m2)
		s := b.Serialize(root, vocab.Style{})
		pre, rest, _ := strings.Cut(s, m1)
		unit, post, _ := strings.Cut(rest, m2)
		return pre, unit, post
	}
	for _, e := range v.Edges() {
		for _, full := range []bool{false, true} {
			if !c.Mine() {
				continue
			}
			c.Run(func() string { return fmt.Sprintf("%s/%s repeated, full %v", e.Parent, e.Kid.Local, full) }, func(t *core.T) {
				pre, unit, post := at(e, full)
				if unit == "" {
					t.Failf("harness", "no element")
					return
				}
				limCompare(c, t, limAPIs[0], func(size int) string {
					return pre + strings.Repeat(unit, max(1, (size-len(pre)-len(post))/len(unit))) + post
				}, sizes)
			})
		}
	}
	// Attributes and texts with long values.
	long := []struct{ name, pre, unit, post string }{
		{"letters", "", "x", ""}, {"digits", "", "0", "7"}, {"nines", "", "9", ""}, {"spaces", " ", " ", "1"}, {"words", "", "a ", "a"}, {"numbers", "", "1 ", "2"},
		{"commas", "", "a,", "a"}, {"fraction", "0.", "3", ""}, {"duration", "PT", "0", "1S"}, {"duration fraction", "PT0.", "3", "S"}, {"duration parts", "PT", "1S", ""}, {"duration letters", "P", "T", ""},
		{"references", "", "&#65;", ""}, {"dates", "2020-01-01T00:00:00.", "0", "Z"}, {"signs", "", "-", "1"}, {"exponent", "1e", "0", "1"}, {"dots", "", ".", "1"},
	}
	for _, kind := range v.KindNames() {
		k := v.Kinds[kind]
		for ai := -1; ai < len(k.Attrs); ai++ {
			if ai == -1 && k.Text == "" {
				continue
			}
			if !c.Mine() {
				continue
			}
			name := kind + " text"
			if ai >= 0 {
				name = kind + "@" + k.Attrs[ai].Local
			}
			c.Run(func() string { return name + " with long values" }, func(t *core.T) {
				root, n := b.Doc(v.Path(kind))
				if ai >= 0 {
					b.SetAttr(n, &k.Attrs[ai], m1)
				} else {
					n.AddText(m1)
				}
				s := b.Serialize(root, vocab.Style{})
				pre, post, ok := strings.Cut(s, m1)
				if !ok {
					return // the namespace of the root, which is not free
				}
				for _, l := range long {
					limCompare(c, t, limAPIs[0], func(size int) string {
						return pre + l.pre + strings.Repeat(l.unit, max(1, (size-len(pre)-len(post))/len(l.unit))) + l.post + post
					}, sizes)
					if t.Failed() {
						return
					}
				}
			})
		}
	}
	// Nesting.
	for _, a := range limAPIs {
		for _, el := range []string{`<a>`, `<a xmlns="u">`, `<p:a xmlns:p="u">`, `<a k="v">x`} {
			for _, closed := range []bool{true, false} {
				for _, n := range []int{1, 2, 10, 100, 1000, 4000, 20000, 100000, 1000000} {
					if !c.Mine() {
						continue
					}
					c.Run(func() string { return fmt.Sprintf("%s: %d times %s, closed %v", a.name, n, el, closed) }, func(t *core.T) {
						in := strings.Repeat(el, n)
						if closed {
							in += strings.Repeat(closers(el), n)
						}
						if a.name == "manifest" {
							in = `<MPD ` + limNS + `><Period>` + in + `</Period></MPD>`
						}
						cost := limMeasure(a, in)
						t.Step(1)
						t.Eval(true)
						t.State("nesting", a.name, el, fmt.Sprint(closed), strconv.Itoa(n), fmt.Sprint(cost.err == nil))
						if lim := uint64(800*len(in) + 256<<10); cost.bytes > lim {
							t.Failf("memory", "%s allocates %d bytes for %d levels (%d bytes)", a.name, cost.bytes, n, len(in))
							return
						}
						recurses := map[string]bool{"node": true, "pointer": true, "unmarshaler": true}[a.name]
						var se *xml.SyntaxError
						switch {
						case !closed && a.name == "raw":
						case !closed && cost.err == nil && a.name != "lax":
							t.Failf("unclosed", "%s accepts %d levels without end tags", a.name, n)
						case closed && n <= 4000 && cost.err != nil:
							t.Failf("depth", "%s refuses %d levels: %v", a.name, n, cost.err)
						case closed && n >= 20000 && recurses && cost.err == nil:
							t.Failf("depth", "%s accepts %d levels", a.name, n)
						case closed && n >= 20000 && recurses && errors.As(cost.err, &se):
							t.Failf("depth", "%s: %d levels are a syntax error: %v", a.name, n, cost.err)
						case closed && !recurses && cost.err != nil && a.name != "lax" && a.name != "interface" && a.name != "path" && a.name != "text":
							t.Failf("depth", "%s refuses %d levels: %v", a.name, n, cost.err)
						}
					})
				}
			}
		}
	}
}
