package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C22",
		Rule: "one case per outermost element (and second element) of a tree; an evaluation is one tree written or one document decoded; non-trivial when a namespace or prefix is used",
		Bounds: "writing: all chains of 2 elements of 630 kinds (namespace x preferred prefix x explicit declarations x attributes; the inner ones of 140 for 6 of the pairs in the quick tier) for 9 pairs of namespaces, all chains of 3 elements and all trees of a root with two chains over 84 (thorough 140) kinds, through EncodeToken, EncodeElement and generic structs; elements with each of 256 sets of declarations of 4 prefixes that look like invented ones and all lists of 3 attributes of 13 kinds; " +
			"decoding: all chains of 3 elements of 150 kinds (the innermost of 70 in the quick tier) followed by siblings, by token, into generic structs (written and read again), through unmarshalers that read tokens, decode elements and skip, and into structs with namespaces; struct types with all pairs of 22 tagged fields below 7 kinds of parents; prefixes of ladders up to 400 elements; all texts over 7 tags up to length 6 (thorough 7) with 4 default spaces",
		Assumptions: []string{"explicit declarations are attributes in the namespace http://www.w3.org/2000/xmlns/ or named xmlns, as the decoder gives them; a prefix is not declared as empty, and xml and xmlns are not declared",
			"an element given without namespace has no prefix; it belongs to the default namespace in scope (in structs with an XMLName: to none, if its parent has one)",
			"the encoder may choose prefixes and places of declarations freely"},
		Run: runNames,
	})
}

// nspec is a kind of element to be written.
type nspec struct {
	space, prefix string
	decls         [][2]string // prefix ("" for the default) and namespace
	attrs         [][2]string // namespace and name with prefix
}

func (s *nspec) String() string {
	return fmt.Sprintf("{%s}%s: declares %q attributes %q", s.space, s.prefix, s.decls, s.attrs)
}

func (s *nspec) start(local string) xml.StartElement {
	if s.prefix != "" {
		local = s.prefix + ":" + local
	}
	st := xml.StartElement{Name: xml.Name{Space: s.space, Local: local}}
	for _, d := range s.decls {
		n := xml.Name{Space: xmlnsNS, Local: d[0]}
		if d[0] == "" {
			n = xml.Name{Local: "xmlns"}
		}
		st.Attr = append(st.Attr, xml.Attr{Name: n, Value: d[1]})
	}
	for i, a := range s.attrs {
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: a[0], Local: a[1]}, Value: fmt.Sprint(i)})
	}
	return st
}

// ntree is a tree of elements.
type ntree struct {
	s    *nspec
	kids []*ntree
}

func (n *ntree) String() string {
	s := n.s.String()
	if len(n.kids) > 0 {
		s += " ("
		for i, k := range n.kids {
			if i > 0 {
				s += "; "
			}
			s += k.String()
		}
		s += ")"
	}
	return s
}

func (n *ntree) write(e *xml.Encoder, depth int) error {
	st := n.s.start(fmt.Sprintf("e%d", depth))
	if err := e.EncodeToken(st); err != nil {
		return err
	}
	for _, k := range n.kids {
		if err := k.write(e, depth+1); err != nil {
			return err
		}
	}
	return e.EncodeToken(st.End())
}

// treeM writes the tree through nested Marshalers and EncodeElement.
type treeM struct {
	n     *ntree
	depth int
}

func (m treeM) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	for _, k := range m.n.kids {
		if err := e.EncodeElement(treeM{k, m.depth + 1}, k.s.start(fmt.Sprintf("e%d", m.depth+1))); err != nil {
			return err
		}
	}
	return e.EncodeToken(start.End())
}

// gnode is a generic struct.
type gnode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []*gnode   `xml:",any"`
}

func (n *ntree) generic(depth int) *gnode {
	st := n.s.start(fmt.Sprintf("e%d", depth))
	g := &gnode{XMLName: st.Name, Attrs: st.Attr}
	for _, k := range n.kids {
		g.Kids = append(g.Kids, k.generic(depth+1))
	}
	return g
}

func attrSet(space, local, val string) string { return fmt.Sprintf("{%s}%s=%s", space, local, val) }

// checkWritten compares a parsed element with what was to be written.
func checkWritten(n *ntree, x *refxml.Node, depth int, structs bool, parent *nspec) string {
	if want := fmt.Sprintf("e%d", depth); x.Local != want {
		return fmt.Sprintf("element %s instead of %s", x.Local, want)
	}
	s := n.s
	switch {
	case s.space != "":
		if x.Space != s.space {
			return fmt.Sprintf("element e%d is in namespace %q instead of %q", depth, x.Space, s.space)
		}
	case x.Prefix != "":
		return fmt.Sprintf("element e%d without namespace has the prefix %q", depth, x.Prefix)
	case structs && parent != nil && parent.space != "" && len(s.decls) == 0:
		if x.Space != "" {
			return fmt.Sprintf("element e%d without namespace is in namespace %q", depth, x.Space)
		}
	}
	var want, got []string
	for i, a := range s.attrs {
		_, l := cut(a[1])
		want = append(want, attrSet(a[0], l, fmt.Sprint(i)))
	}
	for _, a := range x.Attrs {
		got = append(got, attrSet(a.Space, a.Local, a.Value))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		return fmt.Sprintf("element e%d has the attributes %q instead of %q", depth, got, want)
	}
	for _, d := range s.decls {
		ok := false
		for _, y := range x.Decls {
			ok = ok || y.Local == d[0] && y.Value == d[1]
		}
		if !ok {
			return fmt.Sprintf("element e%d lacks the declaration of %q as %q", depth, d[0], d[1])
		}
	}
	if s.space == "" && !structs {
		for _, y := range x.Decls {
			if y.Local == "" && !declares(s, "") {
				return fmt.Sprintf("element e%d without namespace declares the default namespace %q", depth, y.Value)
			}
		}
	}
	el := x.Elems()
	if len(el) != len(n.kids) {
		return fmt.Sprintf("element e%d has %d children instead of %d", depth, len(el), len(n.kids))
	}
	for i, k := range n.kids {
		if d := checkWritten(k, el[i], depth+1, structs, s); d != "" {
			return d
		}
	}
	return ""
}

func declares(s *nspec, prefix string) bool {
	for _, d := range s.decls {
		if d[0] == prefix {
			return true
		}
	}
	return false
}

func writeTree(t *core.T, n *ntree, ways int, d *core.Distinct) bool {
	nontrivial := false
	for w := 0; w < ways; w++ {
		var buf bytes.Buffer
		e := xml.NewEncoder(&buf)
		var err error
		switch w {
		case 0:
			if err = n.write(e, 0); err == nil {
				err = e.Close()
			}
		case 1:
			err = e.Encode(n.generic(0))
		case 2:
			err = e.EncodeElement(treeM{n, 0}, n.s.start("e0"))
		}
		t.Step(1)
		what := []string{"tokens", "structs", "marshalers"}[w]
		if err != nil {
			t.Failf("writing fails", "%s, %s: %v", what, n, err)
			return false
		}
		out := buf.String()
		x, err := refxml.Parse(out)
		if err != nil {
			t.Failf("not well-formed in namespaces", "%s, %s: written %s: %v", what, n, out, err)
			return false
		}
		if diff := checkWritten(n, x, 0, w == 1, nil); diff != "" {
			t.Failf("name changed", "%s, %s: written %s: %s", what, n, out, diff)
			return false
		}
		nontrivial = nontrivial || strings.Contains(out, "xmlns")
		if w == 0 {
			d.Add(out)
		}
		t.Trace()
	}
	t.Eval(nontrivial)
	return true
}

// nspecs lists kinds of elements over two namespaces.
func nspecs(a, b string, level int) []*nspec {
	var names [][2]string
	for _, s := range []string{"", a, b} {
		for _, p := range []string{"", "p", "q"} {
			if s == "" && p != "" || level > 1 && p == "q" && s == b {
				continue
			}
			names = append(names, [2]string{s, p})
		}
	}
	decls := [][][2]string{
		nil, {{"p", a}}, {{"", b}}, {{"p", b}, {"", a}}, {{"", ""}},
		{{"", a}}, {{"p", b}}, {{"q", a}}, {{"p", a}, {"q", a}}, {{"p", a}, {"q", b}, {"", ""}},
	}
	attrs := [][][2]string{
		nil, {{a, "x"}}, {{b, "p:x"}, {a, "x"}}, {{"", "x"}, {a, "q:x"}},
		{{b, "x"}}, {{a, "x"}, {b, "x"}, {"", "x"}}, {{a, "p:x"}}, {{a, "p:x"}, {b, "p:y"}}, {{refxml.XMLNS, "xml:lang"}, {a, "p:x"}, {a, "q:y"}},
	}
	switch level {
	case 1:
		decls, attrs = decls[:5], attrs[:4]
	case 2:
		decls, attrs = decls[:4], attrs[:3]
	}
	var out []*nspec
	for _, n := range names {
		for _, d := range decls {
			for _, at := range attrs {
				out = append(out, &nspec{space: n[0], prefix: n[1], decls: d, attrs: at})
			}
		}
	}
	return out
}

// dspec is a kind of element in a document to be decoded.
type dspec struct{ prefix, rest string }

func dspecs() []dspec {
	var out []dspec
	for _, p := range []string{"", "p:", "q:"} {
		for _, d := range []string{"", " xmlns='A'", " xmlns='B'", " xmlns=''", " xmlns:p='A'", " xmlns:p='B'", " xmlns:q='A'", " xmlns:p='B' xmlns='A'", " xmlns:q='B' xmlns:p='A'", " xmlns='B' xmlns:q='B'"} {
			for _, a := range []string{"", " x='1'", " p:x='1' x='2'", " q:x='1' p:x='2'", " xml:lang='l' q:y=''"} {
				if strings.HasSuffix(a, "l' q:y=''") {
					out = append(out, dspec{p, a + d}) // used before declared
				} else {
					out = append(out, dspec{p, d + a})
				}
			}
		}
	}
	return out
}

func decodeNames(t *core.T, doc string, d *core.Distinct) bool {
	// Tokens, against encoding/xml with the differences of the fork.
	std := stdTrace(doc, false, nil)
	dec := xml.NewDecoder(strings.NewReader(doc))
	i := 0
	for {
		tok, err := dec.Token()
		t.Step(1)
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Failf("decoding fails", "%s: %v", doc, err)
			return false
		}
		if i >= len(std.steps) || std.steps[i].desc != describe(tok) {
			want := "the end"
			if i < len(std.steps) {
				want = std.steps[i].desc
			}
			t.Failf("name expanded wrongly", "%s: token %d is %s instead of %s", doc, i, describe(tok), want)
			return false
		}
		i++
	}
	if std.err != nil || i != len(std.steps) {
		t.Failf("decoding ends early", "%s: %d tokens, expected %d, %v", doc, i, len(std.steps), std.err)
		return false
	}
	d.Add(doc)
	// Documents that are well-formed in namespaces: an independent parser, generic
	// structs, matching by namespace, and writing again.
	root, err := refxml.Parse(doc)
	t.Eval(err == nil)
	if err != nil {
		return true
	}
	var g gnode
	if err := xml.Unmarshal([]byte(doc), &g); err != nil {
		t.Failf("decoding fails", "into structs: %s: %v", doc, err)
		return false
	}
	var cmp func(g *gnode, x *refxml.Node) string
	cmp = func(g *gnode, x *refxml.Node) string {
		if g.XMLName.Space != x.Space || g.XMLName.Local != x.Local {
			return fmt.Sprintf("element %v instead of {%s}%s", g.XMLName, x.Space, x.Local)
		}
		var want, got []string
		for _, a := range x.Attrs {
			want = append(want, attrSet(a.Space, a.Local, a.Value))
		}
		for _, a := range x.Decls {
			if a.Local == "" {
				want = append(want, attrSet("", "xmlns", a.Value))
			} else {
				want = append(want, attrSet(xmlnsNS, a.Local, a.Value))
			}
		}
		for _, a := range g.Attrs {
			got = append(got, attrSet(a.Name.Space, a.Name.Local, a.Value))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, " ") != strings.Join(got, " ") {
			return fmt.Sprintf("attributes of %s: %q instead of %q", x.Local, got, want)
		}
		el := x.Elems()
		if len(el) != len(g.Kids) {
			return fmt.Sprintf("%d children of %s instead of %d", len(g.Kids), x.Local, len(el))
		}
		for i := range el {
			if d := cmp(g.Kids[i], el[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if diff := cmp(&g, root); diff != "" {
		t.Failf("name expanded wrongly", "into structs: %s: %s", doc, diff)
		return false
	}
	// Written again, all names are the same.
	out, err := xml.Marshal(&g)
	if err != nil {
		t.Failf("writing again fails", "%s: %v", doc, err)
		return false
	}
	again, err := refxml.Parse(string(out))
	if err != nil {
		t.Failf("not well-formed in namespaces", "%s written again: %s: %v", doc, out, err)
		return false
	}
	if a, b := root.Canon(true), again.Canon(true); a != b {
		t.Failf("name changed", "%s written again: %s: %s instead of %s", doc, out, b, a)
		return false
	}
	// Unmarshalers that read tokens, decode elements and skip.
	for i, v := range []generic{&unTokens{}, &unFields{}, &unSkips{}} {
		if err := xml.Unmarshal([]byte(doc), v); err != nil {
			t.Failf("decoding fails", "unmarshalers %d: %s: %v", i, doc, err)
			return false
		}
		t.Step(1)
		cut := root
		if i == 2 {
			cut = pruned(root, 2)
		}
		if diff := cmp(v.gnode(), cut); diff != "" {
			t.Failf("name expanded wrongly", "unmarshalers %d: %s: %s", i, doc, diff)
			return false
		}
	}
	// Matching by namespace.
	var f nsFields
	if err := xml.Unmarshal([]byte(doc), &f); err != nil {
		t.Failf("decoding fails", "into a struct with namespaces: %s: %v", doc, err)
		return false
	}
	if diff := f.check(root); diff != "" {
		t.Failf("matched in the wrong namespace", "%s: %s", doc, diff)
		return false
	}
	t.Trace()
	return true
}

// generic is a value that can be compared with a parsed element.
type generic interface{ gnode() *gnode }

func pruned(n *refxml.Node, depth int) *refxml.Node {
	m := *n
	m.Kids = nil
	if depth > 1 {
		for _, e := range n.Elems() {
			m.Kids = append(m.Kids, pruned(e, depth-1))
		}
	}
	return &m
}

// unTokens reads its children as elements after tokens.
type unTokens struct {
	g    gnode
	kids []generic
}

func (u *unTokens) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	u.g.XMLName, u.g.Attrs = start.Name, start.Copy().Attr
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			k := generic(&unFields{})
			if len(u.kids)%2 == 1 {
				k = &unTokens{}
			}
			if err := d.DecodeElement(k, &tok); err != nil {
				return err
			}
			u.kids = append(u.kids, k)
		case xml.EndElement:
			if tok.Name != start.Name {
				return fmt.Errorf("%v is closed by %v", start.Name, tok.Name)
			}
		}
	}
}

func (u *unTokens) gnode() *gnode {
	g := u.g
	for _, k := range u.kids {
		g.Kids = append(g.Kids, k.gnode())
	}
	return &g
}

// unFields decodes its element into a struct.
type unFields struct {
	XMLName xml.Name
	Attrs   []xml.Attr  `xml:",any,attr"`
	Kids    []*unTokens `xml:",any"`
}

func (u *unFields) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	type plain unFields
	return d.DecodeElement((*plain)(u), &start)
}

func (u *unFields) gnode() *gnode {
	g := &gnode{XMLName: u.XMLName, Attrs: u.Attrs}
	for _, k := range u.Kids {
		g.Kids = append(g.Kids, k.gnode())
	}
	return g
}

// unSkips has children that skip their content.
type unSkips struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []*unSkip  `xml:",any"`
}

type unSkip struct{ g gnode }

func (u *unSkip) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	u.g = gnode{XMLName: start.Name, Attrs: start.Copy().Attr}
	return d.Skip()
}

func (u *unSkips) gnode() *gnode {
	g := &gnode{XMLName: u.XMLName, Attrs: u.Attrs}
	for _, k := range u.Kids {
		g.Kids = append(g.Kids, &k.g)
	}
	return g
}

// nsFields selects by namespace.
type nsFields struct {
	XA    *string    `xml:"A x,attr"`
	XB    *string    `xml:"B x,attr"`
	Lang  *string    `xml:"http://www.w3.org/XML/1998/namespace lang,attr"`
	EA    []nsFields `xml:"A e"`
	EB    []nsFields `xml:"B e"`
	Other []nsFields `xml:",any"`
}

func (f *nsFields) check(x *refxml.Node) string {
	for _, a := range []struct {
		space, local string
		got          *string
	}{{"A", "x", f.XA}, {"B", "x", f.XB}, {refxml.XMLNS, "lang", f.Lang}} {
		v, ok := x.Attr(a.space, a.local)
		if ok != (a.got != nil) || ok && v != *a.got {
			return fmt.Sprintf("attribute {%s}%s of <%s>", a.space, a.local, x.Local)
		}
	}
	var kids [3][]*refxml.Node
	for _, e := range x.Elems() {
		switch {
		case e.Space == "A" && e.Local == "e":
			kids[0] = append(kids[0], e)
		case e.Space == "B" && e.Local == "e":
			kids[1] = append(kids[1], e)
		default:
			kids[2] = append(kids[2], e)
		}
	}
	for i, l := range [][]nsFields{f.EA, f.EB, f.Other} {
		if len(l) != len(kids[i]) {
			return fmt.Sprintf("%d instead of %d children of kind %d of <%s>", len(l), len(kids[i]), i, x.Local)
		}
		for j := range l {
			if d := l[j].check(kids[i][j]); d != "" {
				return d
			}
		}
	}
	return ""
}

// crowds covers elements with many prefixes that are wanted, given and invented.
func crowds(c *core.Ctx) {
	spaces := []string{"http://x/p", "http://y/p", "http://z/p/", "p_1", "urn:o"}
	var attrs [][2]string
	for i, s := range spaces {
		for _, p := range []string{"", "p:", "p_1:"} {
			if i > 2 && p == "p:" {
				continue
			}
			attrs = append(attrs, [2]string{s, p})
		}
	}
	kinds := []string{"http://x/p", "http://y/p", "urn:d1", "urn:d2"}
	for declared := 0; declared < 256; declared++ {
		// Four prefixes, each not declared or as one of several namespaces.
		var decls [][2]string
		for i, p := range []string{"p", "p_1", "p_2", "_"} {
			if k := declared >> (2 * i) & 3; k > 0 {
				decls = append(decls, [2]string{p, kinds[(i+k)%4]})
			}
		}
		c.Case(func() string { return fmt.Sprintf("crowd with declarations %q", decls) }, func(t *core.T) {
			var d core.Distinct
			n := len(attrs)
			for k := 0; k < n*n*n; k++ {
				var as [][2]string
				for j, x := range []int{k % n, k / n % n, k / n / n} {
					as = append(as, [2]string{attrs[x][0], attrs[x][1] + fmt.Sprintf("a%d", j)})
				}
				s := &nspec{decls: decls, attrs: as}
				if k%3 == 1 {
					s.space = spaces[k%5]
				}
				tree := &ntree{s: s}
				switch (k + declared) % 4 {
				case 1: // prefixes invented before
					tree = &ntree{s: &nspec{attrs: [][2]string{{"http://u/p", "k"}, {"http://v/p", "k"}}}, kids: []*ntree{tree}}
				case 2: // the declarations are those of an ancestor
					tree = &ntree{s: &nspec{decls: decls}, kids: []*ntree{{s: &nspec{space: s.space, attrs: as}}}}
				case 3:
					tree = &ntree{s: &nspec{attrs: as[:2]}, kids: []*ntree{{s: s}, {s: &nspec{attrs: as[1:]}}}}
				}
				if !writeTree(t, tree, c.Pick(1, 3), &d) {
					return
				}
			}
			t.CountStates(&d)
		})
	}
}

func runNames(c *core.Ctx) {
	spaces(c)
	pairs := [][2]string{{"http://x/p", "http://y/p"}, {"urn:a", "urn:b"}, {"http://x/xml", "http://x/XMLx"}, {"http://x/1/", "_"}, {"a&<\"b'\t", "http://é/ü"}, {"p", "q"}, {"/", "http://x/a:b"}, {"p_1", "http://z/p_1/"}, {"http://x/p", "http://x/p/"}}
	for i, u := range pairs {
		specs := nspecs(u[0], u[1], 0)
		for x := range specs {
			c.Case(func() string { return fmt.Sprintf("writing with namespaces %q: %v", u, specs[x]) }, func(t *core.T) {
				var d core.Distinct
				ways := 1
				if i == 0 || c.Thorough() {
					ways = 3
				}
				if !writeTree(t, &ntree{s: specs[x]}, 3, &d) {
					return
				}
				inner := specs
				if i > 2 && !c.Thorough() {
					inner = nspecs(u[0], u[1], 1)
				}
				for _, y := range inner {
					if !writeTree(t, &ntree{s: specs[x], kids: []*ntree{{s: y}}}, ways, &d) {
						return
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Elements and attributes in the namespace of xml.
	for _, s := range []nspec{{space: refxml.XMLNS}, {space: refxml.XMLNS, prefix: "p"}, {space: refxml.XMLNS, prefix: "xml"}, {space: "urn:a", attrs: [][2]string{{refxml.XMLNS, "lang"}, {refxml.XMLNS, "p:space"}}}, {space: "urn:a", decls: [][2]string{{"p", "urn:b"}}, attrs: [][2]string{{refxml.XMLNS, "p:lang"}, {"urn:b", "x"}}}} {
		c.Case(func() string { return "the namespace of xml: " + s.String() }, func(t *core.T) {
			var d core.Distinct
			for _, o := range nspecs("urn:a", "urn:b", 0) {
				if !writeTree(t, &ntree{s: &s, kids: []*ntree{{s: o, kids: []*ntree{{s: &s}}}}}, 3, &d) {
					return
				}
			}
			t.CountStates(&d)
		})
	}
	crowds(c)
	// Chains of three and trees with two chains.
	level := c.Pick(2, 1)
	specs := nspecs("http://x/p", "http://y/p", level)
	few := nspecs("http://x/p", "http://y/p", 2)
	for x := range specs {
		for y := range specs {
			c.Case(func() string { return fmt.Sprintf("chain of three: %v; %v", specs[x], specs[y]) }, func(t *core.T) {
				var d core.Distinct
				for i, z := range specs {
					ways := 1
					if i%4 == y%4 || c.Thorough() {
						ways = 2
					}
					if !writeTree(t, &ntree{s: specs[x], kids: []*ntree{{s: specs[y], kids: []*ntree{{s: z}}}}}, ways, &d) {
						return
					}
				}
				// Declarations end with their element.
				for _, z := range few {
					if !writeTree(t, &ntree{s: specs[x], kids: []*ntree{{s: specs[y], kids: []*ntree{{s: specs[y]}}}, {s: z, kids: []*ntree{{s: specs[y]}}}}}, 1, &d) {
						return
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Ladders.
	for n := 2; n <= 400; n = n*2 - 1 {
		for k := range specs {
			c.Case(func() string { return fmt.Sprintf("ladder of %d: %v", n, specs[k]) }, func(t *core.T) {
				var d core.Distinct
				for step := 1; step < len(specs); step += 1 + len(specs)/c.Pick(6, 40) {
					var tree *ntree
					for i := n; i > 0; i-- {
						s := specs[(k+i*step)%len(specs)]
						nt := &ntree{s: s}
						if tree != nil {
							nt.kids = []*ntree{tree}
						}
						tree = nt
					}
					if !writeTree(t, tree, 2, &d) {
						return
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Decoding.
	ds := dspecs()
	for x := range ds {
		for y := range ds {
			c.Case(func() string {
				return fmt.Sprintf("decoding <%se%s> <%se%s>", ds[x].prefix, ds[x].rest, ds[y].prefix, ds[y].rest)
			}, func(t *core.T) {
				var d core.Distinct
				for zi, z := range ds {
					if !c.Thorough() && (zi+x+y)%3 != 0 && zi%5 != 0 {
						continue
					}
					inner := fmt.Sprintf("<%se%s/>", z.prefix, z.rest)
					doc := fmt.Sprintf("<%se%s><%se%s>%s</%se><p:e x=''/><e q:x=''/></%se>", ds[x].prefix, ds[x].rest, ds[y].prefix, ds[y].rest, inner, ds[y].prefix, ds[x].prefix)
					if !decodeNames(t, doc, &d) {
						return
					}
				}
				t.CountStates(&d)
			})
		}
	}
	namesOfStructs(c)
}

// tagSpec is a tagged field.
type tagSpec struct {
	tag         string
	typ         reflect.Type
	space, name string
	attr        bool
	own         string // name of its own, "ns local"
	path        []string
}

type nsOwn struct {
	XMLName xml.Name `xml:"urn:own o:own"`
	V       string   `xml:"urn:own o:v,attr"`
}

type nsText struct {
	V string `xml:",chardata"`
	W string `xml:"urn:b w,attr,omitempty"`
}

func tagSpecs() []tagSpec {
	str := reflect.TypeFor[string]()
	list := reflect.TypeFor[[]string]()
	return []tagSpec{
		{tag: "f%d", typ: str, name: "f%d"},
		{tag: "urn:a f%d", typ: str, space: "urn:a", name: "f%d"},
		{tag: "urn:b f%d", typ: str, space: "urn:b", name: "f%d"},
		{tag: "urn:a p:f%d", typ: str, space: "urn:a", name: "f%d"},
		{tag: "urn:b p:f%d", typ: str, space: "urn:b", name: "f%d"},
		{tag: "urn:b q:f%d", typ: list, space: "urn:b", name: "f%d"},
		{tag: "http://x/p f%d", typ: list, space: "http://x/p", name: "f%d"},
		{tag: "f%d,attr", typ: str, name: "f%d", attr: true},
		{tag: "urn:a f%d,attr", typ: str, space: "urn:a", name: "f%d", attr: true},
		{tag: "urn:b f%d,attr", typ: str, space: "urn:b", name: "f%d", attr: true},
		{tag: "urn:a p:f%d,attr", typ: str, space: "urn:a", name: "f%d", attr: true},
		{tag: "urn:b p:f%d,attr", typ: str, space: "urn:b", name: "f%d", attr: true},
		{tag: "urn:a q:f%d,attr", typ: str, space: "urn:a", name: "f%d", attr: true},
		{tag: "http://x/p f%d,attr", typ: str, space: "http://x/p", name: "f%d", attr: true},
		{tag: "http://x/1 f%d,attr", typ: str, space: "http://x/1", name: "f%d", attr: true},
		{tag: "http://www.w3.org/XML/1998/namespace xml:f%d,attr", typ: str, space: refxml.XMLNS, name: "f%d", attr: true},
		{tag: "urn:a f%d", typ: reflect.TypeFor[nsText](), space: "urn:a", name: "f%d"},
		{tag: "urn:b p:f%d", typ: reflect.TypeFor[*nsText](), space: "urn:b", name: "f%d"},
		{tag: "urn:a q:f%d", typ: reflect.TypeFor[[]nsText](), space: "urn:a", name: "f%d"},
		{tag: "f%d", typ: reflect.TypeFor[nsText](), name: "f%d"},
		{tag: "urn:a f%d,omitempty", typ: reflect.TypeFor[*string](), space: "urn:a", name: "f%d"},
		{tag: "urn:own o:own", typ: reflect.TypeFor[nsOwn](), own: "urn:own own"},
	}
}

// nsParents are the kinds of parents: tag of XMLName, name, namespace.
var nsParents = [][3]string{{"r", "r", ""}, {"urn:a r", "r", "urn:a"}, {"urn:a p:r", "r", "urn:a"}, {"urn:b p:r", "r", "urn:b"}, {"urn:b q:r", "r", "urn:b"}, {"urn:c p:r", "r", "urn:c"}, {"http://x/p r", "r", "http://x/p"}}

func fillValue(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		fillValue(v.Index(0), s)
		fillValue(v.Index(1), s+"2")
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		fillValue(v.Elem(), s)
	case reflect.Struct:
		v.FieldByName("V").SetString(s)
		if f := v.FieldByName("W"); f.IsValid() {
			f.SetString("w" + s)
		}
	}
}

func namesOfStructs(c *core.Ctx) {
	tags := tagSpecs()
	for pi, par := range nsParents {
		for a := range tags {
			c.Case(func() string { return fmt.Sprintf("struct %s with %s", par[0], tags[a].tag) }, func(t *core.T) {
				for b := range tags {
					third := []int{-1}
					if c.Thorough() {
						for i := range tags {
							third = append(third, i)
						}
					} else {
						third = append(third, (a*5+b*3+pi)%len(tags))
					}
					for _, z := range third {
						l := []int{a, b}
						if z >= 0 {
							l = append(l, z)
						}
						owns := 0
						for _, x := range l {
							if tags[x].own != "" {
								owns++
							}
						}
						if owns > 1 {
							continue
						}
						if !structNames(t, par, l, tags) {
							return
						}
					}
				}
			})
		}
	}
}

func structNames(t *core.T, par [3]string, l []int, tags []tagSpec) bool {
	fields := []reflect.StructField{{Name: "XMLName", Type: reflect.TypeFor[xml.Name](), Tag: reflect.StructTag(fmt.Sprintf(`xml:%q`, par[0]))}}
	want := map[string]int{}
	wantAttr := map[string]bool{}
	for i, x := range l {
		tg := tags[x]
		tag, name := tg.tag, tg.name
		if tg.own == "" {
			tag, name = fmt.Sprintf(tg.tag, i), fmt.Sprintf(tg.name, i)
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: tg.typ, Tag: reflect.StructTag(fmt.Sprintf(`xml:%q`, tag))})
		n := 1
		if tg.typ.Kind() == reflect.Slice {
			n = 2
		}
		switch {
		case tg.own != "":
			want["urn:own own"] += n
		case tg.attr:
			wantAttr[tg.space+" "+name] = true
		case tg.space == "":
			want["* "+name] += n
		default:
			want[tg.space+" "+name] += n
		}
	}
	typ := reflect.StructOf(fields)
	v := reflect.New(typ)
	for i := range l {
		fillValue(v.Elem().Field(i+1), fmt.Sprintf("v%d", i))
	}
	out, err := xml.Marshal(v.Interface())
	t.Step(2)
	t.Eval(true)
	if err != nil {
		t.Failf("writing fails", "%v: %v", typ, err)
		return false
	}
	t.State(string(out))
	x, err := refxml.Parse(string(out))
	if err != nil {
		t.Failf("not well-formed in namespaces", "%v: written %s: %v", typ, out, err)
		return false
	}
	if x.Space != par[2] || x.Local != par[1] {
		t.Failf("name changed", "%v: written %s: root {%s}%s", typ, out, x.Space, x.Local)
		return false
	}
	for _, e := range x.Elems() {
		k := e.Space + " " + e.Local
		if want[k] == 0 {
			k = "* " + e.Local
			if e.Prefix != "" {
				k = "prefix"
			}
		}
		if want[k] == 0 {
			t.Failf("name changed", "%v: written %s: element {%s}%s", typ, out, e.Space, e.Local)
			return false
		}
		want[k]--
		for _, a := range e.Attrs {
			if sp := a.Space; sp != "urn:b" && sp != "urn:own" {
				t.Failf("name changed", "%v: written %s: attribute {%s}%s", typ, out, a.Space, a.Local)
				return false
			}
		}
	}
	for k, n := range want {
		if n != 0 {
			t.Failf("name changed", "%v: written %s: element %s is missing", typ, out, k)
			return false
		}
	}
	if len(x.Attrs) != len(wantAttr) {
		t.Failf("name changed", "%v: written %s: %d attributes", typ, out, len(x.Attrs))
		return false
	}
	for _, a := range x.Attrs {
		if !wantAttr[a.Space+" "+a.Local] {
			t.Failf("name changed", "%v: written %s: attribute {%s}%s", typ, out, a.Space, a.Local)
			return false
		}
	}
	w := reflect.New(typ)
	if err := xml.Unmarshal(out, w.Interface()); err != nil {
		t.Failf("decoding fails", "%v: written %s: %v", typ, out, err)
		return false
	}
	clearNames(v.Elem())
	clearNames(w.Elem())
	if !reflect.DeepEqual(v.Interface(), w.Interface()) {
		t.Failf("value changed", "%v: written %s: read %+v instead of %+v", typ, out, w.Elem(), v.Elem())
		return false
	}
	t.Trace()
	return true
}

// clearNames empties XMLName fields.
func clearNames(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			clearNames(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeFor[xml.Name]() {
			v.SetZero()
			return
		}
		for i := 0; i < v.NumField(); i++ {
			clearNames(v.Field(i))
		}
	}
}
