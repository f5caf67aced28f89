package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// lenient lists the reasons for which the independent parser refuses a document
// that the library may read: constraints on namespaces, on uniqueness of
// attributes, and on the prolog, which Go's XML decoders leave to the
// application.
var lenient = map[string]bool{
	"duplicate attribute %s in <%s":            true,
	"prefix %s undeclared by empty namespace":  true,
	"prefix xmlns must not be declared":        true,
	"illegal namespace binding %s=%q":          true,
	"prefix %q not declared (element %s)":      true,
	"two attributes %s in namespace %q on <%s": true,
	"text outside the root element: %.20q":     true,
	"no space before attribute in <%s":         true,
	"misplaced XML declaration":                true,
	"unterminated XML declaration":             true,
	"PI target not followed by space":          true,
	"markup declaration %.10q":                 true,
	"bad XML declaration":                      true,
	"bad start of local part %.10q":            true,
	"two colons in name":                       true,
	"character reference to surrogate":         true,
	"DOCTYPE after root":                       true,
	"unterminated DOCTYPE":                     true,
}

// reasonOf is the reason of a refxml error.
func reasonOf(err error) string {
	if e, ok := err.(*refxml.Err); ok {
		return e.Reason
	}
	return err.Error()
}

// renderNode writes a parsed element plainly: every element declares the
// namespaces that it uses, text is escaped, comments and instructions are left out.
func renderNode(n *refxml.Node, sb *strings.Builder) {
	esc := func(s string, attr bool) {
		for _, r := range s {
			switch {
			case r == '<' || r == '&' || r == '>' || r == '"' || r == '\r' || attr && (r == '\n' || r == '\t'):
				fmt.Fprintf(sb, "&#%d;", r)
			default:
				sb.WriteRune(r)
			}
		}
	}
	sb.WriteString("<" + n.Local + " xmlns=\"")
	esc(n.Space, true)
	sb.WriteString("\"")
	for i, a := range n.Attrs {
		switch a.Space {
		case "":
			sb.WriteString(" " + a.Local)
		case refxml.XMLNS:
			sb.WriteString(" xml:" + a.Local)
		default:
			fmt.Fprintf(sb, " xmlns:p%d=\"", i)
			esc(a.Space, true)
			fmt.Fprintf(sb, "\" p%d:%s", i, a.Local)
		}
		sb.WriteString("=\"")
		esc(a.Value, true)
		sb.WriteString("\"")
	}
	sb.WriteString(">")
	for _, k := range n.Kids {
		switch k.Kind {
		case refxml.Elem:
			renderNode(k, sb)
		case refxml.Text:
			esc(k.Data, false)
		}
	}
	sb.WriteString("</" + n.Local + ">")
}

// damageRead reads a possibly damaged document and compares the outcome with
// what the independent parser says. It returns whether the document was refused.
func damageRead(t *core.T, doc string, compare bool) bool {
	t.Step(1)
	m, err := mpd.MPDFromBytes([]byte(doc))
	if err != nil && m != nil {
		t.Failf("both", "an error and a model: %v\n%q", err, doc)
		return true
	}
	root, rerr := refxml.ParseRoot(doc)
	switch {
	case rerr != nil && lenient[reasonOf(rerr)]:
		return err != nil
	case rerr != nil:
		if err == nil {
			t.Failf("accepted: "+reasonOf(rerr), "read without error: %v\n%q", rerr, doc)
		}
	case root.Local != "MPD":
		if err == nil {
			t.Failf("root", "root element %s read as MPD\n%q", root.Local, doc)
		}
	case compare:
		var sb strings.Builder
		renderNode(root, &sb)
		m2, err2 := mpd.MPDFromBytes([]byte(sb.String()))
		t.Step(1)
		if (err != nil) != (err2 != nil) {
			t.Failf("outcome", "outcome %v, but %v for the same content in plain form\n%q\nplain: %q", err, err2, doc, sb.String())
			return true
		}
		if err == nil {
			if d := models.EqualUnordered(m, m2); d != "" {
				t.Failf("differs", "model differs from that of the same content in plain form: %s\n%q\nplain: %q", d, doc, sb.String())
			}
		}
	}
	t.Trace()
	return err != nil
}

var damageDocs = []string{
	"<MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" profiles=\"p,q\" type='dynamic' minBufferTime=\"PT1.5S\"><BaseURL serviceLocation=\"a&amp;b\">http://x/&#65;</BaseURL><Period id=\"p0\" start=\"PT0S\"><AdaptationSet id=\"1\"><Representation id=\"r\" bandwidth=\"1000\"/></AdaptationSet></Period></MPD>",
	"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<MPD profiles=\"é\"><!-- c --><Period><AdaptationSet segmentAlignment=\"true\" startWithSAP=\"1\"><SegmentTemplate timescale=\"90000\" media=\"$Number$.m4s\"><SegmentTimeline><S t=\"0\" d=\"10\" r=\"-1\"/></SegmentTimeline></SegmentTemplate></AdaptationSet></Period></MPD>",
	"<m:MPD xmlns:m=\"urn:mpeg:dash:schema:mpd:2011\" profiles=\"\"><m:Period><m:EventStream schemeIdUri=\"u\"><m:Event presentationTime=\"1\">x<![CDATA[<y>&]]>z</m:Event></m:EventStream></m:Period></m:MPD>",
	"<MPD><ProgramInformation lang=\"en\"><Title>T &lt; U</Title></ProgramInformation><Location>l</Location><Metrics metrics=\"m\"><Range starttime=\"PT1S\"/></Metrics><UTCTiming schemeIdUri=\"s\" value=\"v\"/></MPD>",
	"<MPD profiles=\"\"><Period><AdaptationSet><ContentProtection schemeIdUri=\"u\" xmlns:cenc=\"urn:mpeg:cenc:2013\" cenc:default_KID=\"k\"><cenc:pssh>AAAA</cenc:pssh></ContentProtection></AdaptationSet></Period></MPD>",
	"<MPD><Period><EventStream><Event><Signal xmlns=\"http://www.scte.org/schemas/35\"><Binary>/DA=</Binary></Signal></Event></EventStream></Period></MPD>",
}

// cutTags splits a document into tags and other pieces.
func cutTags(doc string) []string {
	var out []string
	for len(doc) > 0 {
		if doc[0] == '<' {
			i := strings.IndexByte(doc, '>')
			out = append(out, doc[:i+1])
			doc = doc[i+1:]
			continue
		}
		i := strings.IndexByte(doc, '<')
		if i < 0 {
			i = len(doc)
		}
		out = append(out, doc[:i])
		doc = doc[i:]
	}
	return out
}

// badValues are lexical forms outside of a type.
func badValues(typ string) []string {
	common := []string{"x", "1x", "x1", "1 2", "--1", "1,5", "0x", "\u0661", "NaNa", "null", "1.2.3", "1-", "+-1", "e5", "&#49;&#120;"}
	switch {
	case typ == "bool":
		return append(common, "2", "yes", "no", "truee", "tru", "-1", "00", "on", "tRue")
	case typ == "duration":
		return append(common, "P", "PT", "1S", "T1S", "PT1", "P1S", "PT1D", "P1DT1", "-PT1S", "+PT1S", "PT-1S", "PT1H1H", "PT1S1M", "PT1.5H", "P1Y", "P1M", "P1W", "PT1S ", " PT1S", "pt1s", "PT1s", "PT1,5S", "PT1e3S", "PTS",
			"PT9999999999999999999S", "PT2562047H47M16.854775808S", "P106752D", "", " ", "5", "INF")
	case strings.HasPrefix(typ, "float"):
		return append(common, "1e", "1e+", "1.5.5", "infx", "1e400x", "0x1", "1__0")
	case strings.HasPrefix(typ, "uint"):
		b := 64
		fmt.Sscanf(typ, "uint%d", &b)
		over := map[int]string{8: "256", 16: "65536", 32: "4294967296", 64: "18446744073709551616"}[b]
		return append(common, "-1", "1.0", "1e3", "0x10", over, over+"0", "99999999999999999999999999", "true", "+", "-", "1_000", "0b1")
	case strings.HasPrefix(typ, "int"):
		b := 64
		fmt.Sscanf(typ, "int%d", &b)
		over := map[int]string{8: "128", 16: "32768", 32: "2147483648", 64: "9223372036854775808"}[b]
		under := map[int]string{8: "-129", 16: "-32769", 32: "-2147483649", 64: "-9223372036854775809"}[b]
		return append(common, "1.0", "1e3", "0x10", over, under, over+"0", "99999999999999999999999999", "true", "+", "-", "1_000")
	}
	return nil
}

func init() {
	register(&core.Check{
		ID:     "C05",
		Rule:   "one case per base document, family of damage and position (or per prefix of a token string); an evaluation is one damaged document read and judged by the independent parser; non-trivial when the reader refused it",
		Bounds: "every truncation of a document for every position of the vocabulary (full to depth 2); every deletion, insertion and substitution of one byte from a set of 30, every transposition, and every removal, duplication, renaming and exchange of tags in 6 base documents; all pairs of deletions and substitutions with 8 bytes; every attribute with every value outside of its type; 17 kinds of damage at 4 positions in, and 8 behind, 10 parts of a manifest filled to sizes around powers of two up to 64 KiB; all strings over 27 tokens up to length 4 (thorough 5), also inside a valid manifest",
		Assumptions: []string{"what the independent parser refuses only because of undeclared or reserved prefixes, repeated attributes, missing space between attributes, the syntax of the XML declaration, instruction targets, DOCTYPE or other markup declarations, content outside of the root element, or references to surrogates may be read, as by encoding/xml",
			"names with more than one colon, or with a colon at an end, are not in the base alphabet"},
		HangS: 60,
		Run:   runDamage,
	})
}

func runDamage(c *core.Ctx) {
	b := vocab.NewBuilder()
	// Truncations at every byte.
	trunc := func(name, doc string, every int) {
		c.Case(func() string { return "truncations of " + name }, func(t *core.T) {
			end := strings.LastIndex(doc, ">")
			for i := 0; i <= end; i += every {
				t.Step(1)
				m, err := mpd.ReadFromString(doc[:i])
				if err == nil || m != nil {
					t.Failf("truncated", "read without error after %d of %d bytes: %q", i, len(doc), doc[:i])
					return
				}
				t.Eval(true)
			}
			m, err := mpd.ReadFromString(doc)
			if err != nil || m == nil {
				t.Failf("refused", "the undamaged document is refused: %v\n%s", err, doc)
			}
			t.Trace()
			t.State(doc)
		})
	}
	genDocs(c, b, func(name string, mk func() *vocab.Node) {
		if !strings.Contains(name, " full depth 2") && !strings.Contains(name, " saturated") && !strings.Contains(name, " full depth 1") {
			return
		}
		if !c.Thorough() && strings.Contains(name, "MPD full depth 2") {
			return
		}
		root := mk()
		doc := b.Serialize(root, vocab.Style{})
		// Long documents are cut at a stride of bytes.
		every := len(doc)*len(doc)/c.Pick(20e6, 400e6) + 1
		trunc(name, doc, every)
		if len(doc) < 4000 {
			st := vocab.Style{DashPrefix: "m", SCTEPrefix: "s", Single: true, CDATA: true, SelfClose: true, Comments: "<!-- c --><?p q?>", Space: "\n ", CharRefs: 2, Header: "<?xml version=\"1.0\"?>\n<!DOCTYPE MPD>"}
			if !privateBytesUnderPrefix(root) && !unprefixedRaw(root) {
				trunc(name+" styled", b.Serialize(root, st), 1)
			}
		}
	})
	// One byte changed.
	bytesSet := []string{"<", ">", "&", "\"", "'", "/", "=", "!", "?", "-", "[", "]", ";", "#", "x", "M", "0", "9", " ", "\n", "\r", "\t", "\x00", "\x01", "\x7f", "\x80", "\xc3", "\xff", "é", "\ufffe"}
	for di, doc := range damageDocs {
		di, doc := di, doc
		end := strings.LastIndex(doc, ">")
		for i := 0; i <= end; i++ {
			i := i
			c.Case(func() string { return fmt.Sprintf("document %d changed at byte %d", di, i) }, func(t *core.T) {
				var d core.Distinct
				try := func(s string) {
					r := damageRead(t, s, true)
					t.Eval(r)
					d.Add(s)
				}
				try(doc[:i] + doc[i+1:])
				if i < end {
					try(doc[:i] + doc[i+1:i+2] + doc[i:i+1] + doc[i+2:])
				}
				try(doc[:i] + doc[i:i+1] + doc[i:])
				for _, x := range bytesSet {
					try(doc[:i] + x + doc[i:])
					try(doc[:i] + x + doc[i+1:])
				}
				for n := 2; n <= 12 && i+n <= end; n++ {
					try(doc[:i] + doc[i+n:])
				}
				// A second change further on.
				two := []string{"<", ">", "&", "\"", "/", "=", " ", "]"}
				step := c.Pick(3, 1)
				for j := i + 1; j <= end && !t.Failed(); j += step {
					for _, x := range two {
						s := doc[:i] + x + doc[i+1:j] + x + doc[j+1:]
						r := damageRead(t, s, false)
						t.Eval(r)
						s = doc[:i] + doc[i+1:j] + x + doc[j+1:]
						r = damageRead(t, s, false)
						t.Eval(r)
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Tags removed, doubled, renamed, exchanged.
	for di, doc := range damageDocs {
		di := di
		ps := cutTags(doc)
		c.Case(func() string { return fmt.Sprintf("tags of document %d", di) }, func(t *core.T) {
			try := func(parts []string) {
				r := damageRead(t, strings.Join(parts, ""), true)
				t.Eval(r)
			}
			for i := range ps {
				without := append(append([]string{}, ps[:i]...), ps[i+1:]...)
				try(without)
				for j := range without {
					try(append(append(append([]string{}, without[:j]...), ps[i]), without[j:]...))
					if j < len(without)-1 {
						try(append(append([]string{}, without[:j]...), without[j+1:]...))
					}
				}
				for j := range ps {
					try(append(append(append([]string{}, ps[:j]...), ps[i]), ps[j:]...))
					sw := append([]string{}, ps...)
					sw[i], sw[j] = sw[j], sw[i]
					try(sw)
					sw = append([]string{}, ps...)
					sw[i] = ps[j]
					try(sw)
				}
				for _, nt := range []string{"<x>", "</x>", "<x/>", "</MPD>", "<MPD>", "</ MPD>", "</MPD >", "</>", "< x>", "<x", "x>", "<x a>", "<x a=>", "<x a=b>", "<x a=\"b>", "<x a='b\">", "</x a=\"b\">", "<x / >", "<1>", "<-x>", "<x:>", "<!x", "<!-- a -- b -->", "<!--->", "<![CDATA[", "]]>", "<![cdata[x]]>", "<?", "<??>", "&x;", "&#;", "&#x;", "&#0;", "&#xD800;", "&#x110000;", "&#xFFFE;", "&;", "& ", "&amp", "&#65", "&#x41g;", "&lt;&gt;", "&AMP;", "&#X41;", "&#-1;", "&#99999999999999999999;"} {
					sw := append([]string{}, ps...)
					sw[i] = nt
					if !strings.Contains(nt, ":>") {
						try(sw)
						try(append(append(append([]string{}, ps[:i]...), nt), ps[i:]...))
					}
				}
			}
		})
	}
	// Root elements.
	c.Case(func() string { return "root elements" }, func(t *core.T) {
		for _, r := range []string{"mpd", "Mpd", "MP", "MPDD", "PMD", "Period", "html", "MPD-", "MPD1", "_MPD", "MPD.", "mPD", "D", "AdaptationSet", "smil"} {
			for _, ns := range []string{"", " xmlns=\"urn:mpeg:dash:schema:mpd:2011\""} {
				for _, body := range []string{"", "<MPD" + ns + "/>", "<Period/>"} {
					doc := "<" + r + ns + ">" + body + "</" + r + ">"
					if !damageRead(t, doc, true) {
						t.Failf("root", "read without error: %s", doc)
						return
					}
					t.Eval(true)
				}
			}
		}
	})
	// Values that do not fit.
	for _, k := range b.V.KindNames() {
		k := k
		kind := b.V.Kinds[k]
		for ai := range kind.Attrs {
			a := &kind.Attrs[ai]
			bad := badValues(a.Type)
			if len(bad) == 0 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s@%s with values outside of %s", k, a.Local, a.Type) }, func(t *core.T) {
				for _, v := range bad {
					root, leaf := b.Doc(b.V.Path(k))
					b.SetAttr(leaf, a, strings.ReplaceAll(strings.ReplaceAll(v, "&#49;", "1"), "&#120;", "x"))
					doc := b.Serialize(root, vocab.Style{})
					t.Step(1)
					m, err := mpd.ReadFromString(doc)
					if err == nil || m != nil {
						x := ""
						if m != nil {
							x = fmt.Sprint(reflect.ValueOf(m).Elem().NumField())
						}
						t.Failf("value", "%s value %q is accepted %s\n%s", a.Type, v, x, doc)
						return
					}
					t.Eval(true)
					t.State(k, a.Local, v)
				}
				t.Trace()
			})
		}
	}
	longDamage(c)
	// All short token strings, alone and within a manifest.
	toks := []string{"<MPD>", "</MPD>", "<a>", "</a>", "<", "/", ">", "a", "=", "\"", "'", "&", "amp;", "#", "x", "0", ";", "!", "-", "[CDATA[", "]]", "?", "xml", " ", "\x00", "\xff", "é"}
	depth := c.Pick(4, 5)
	for ctx, w := range [][2]string{{"", ""}, {"<MPD><Location>", "</Location></MPD>"}, {"<MPD><Location serviceLocation=\"", "\">l</Location></MPD>"}, {"<MPD ", ">t</MPD>"}, {"<MPD", "/>"}} {
		ctx, w := ctx, w
		dd := depth
		if ctx > 1 {
			dd--
		}
		for i := range toks {
			for j := range toks {
				i, j := i, j
				c.Case(func() string { return fmt.Sprintf("token strings in context %d from %q", ctx, toks[i]+toks[j]) }, func(t *core.T) {
					var d core.Distinct
					var rec func(s string, n int)
					rec = func(s string, n int) {
						if t.Failed() {
							return
						}
						t.Eval(damageRead(t, w[0]+s+w[1], ctx > 0))
						d.Add(s)
						if n < dd {
							for _, x := range toks {
								rec(s+x, n+1)
							}
						}
					}
					rec(toks[i]+toks[j], 2)
					t.CountStates(&d)
				})
			}
		}
	}
}
