package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// docCase is one specification document.
type docCase struct {
	name string
	root *vocab.Node
}

// sizes is the ladder of sizes around powers of two.
func sizes(max int) []int {
	var out []int
	for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513,
		1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769, 65535, 65536, 65537} {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

// kidOf finds a child edge by element name.
func kidOf(b *vocab.Builder, kind, local string) *vocab.Kid {
	k := b.V.Kinds[kind]
	for i := range k.Kids {
		if k.Kids[i].Local == local {
			return &k.Kids[i]
		}
	}
	panic(kind + " has no child " + local)
}

// genDocs enumerates the specification documents: f is called with a builder of
// the document, which is only run for cases of this shard.
func genDocs(c *core.Ctx, b *vocab.Builder, f func(name string, mk func() *vocab.Node)) {
	v := b.V
	edges := v.Edges()
	// at builds the document that ends in the edge and returns root and leaf.
	at := func(e vocab.Edge) (*vocab.Node, *vocab.Node) {
		root, parent := b.Doc(v.Path(e.Parent))
		kid := e.Kid
		return root, parent.Add(b.NewKid(parent, &kid))
	}
	// 0: the root alone, its attributes and pairs.
	f("root", b.Root)
	// 1: every edge: minimal, and every attribute with every value.
	kindDone := map[string]bool{}
	type place struct {
		kind string
		mk   func() (*vocab.Node, *vocab.Node)
		name string
	}
	places := []place{{"MPD", func() (*vocab.Node, *vocab.Node) { r := b.Root(); return r, r }, "MPD"}}
	for _, e := range edges {
		e := e
		places = append(places, place{e.Kid.Kind, func() (*vocab.Node, *vocab.Node) { return at(e) }, e.Parent + "/" + e.Kid.Local})
	}
	for _, p := range places {
		p := p
		k := v.Kinds[p.kind]
		f(p.name, func() *vocab.Node { r, _ := p.mk(); return r })
		f(p.name+" saturated", func() *vocab.Node { r, n := p.mk(); b.Saturate(n, 3); return r })
		for i := range k.Attrs {
			a := &k.Attrs[i]
			vals := a.Values()
			if kindDone[p.kind] && !c.Thorough() {
				vals = vals[:min(3, len(vals))]
			}
			for _, val := range vals {
				val := val
				f(fmt.Sprintf("%s@%s=%q", p.name, a.Local, val), func() *vocab.Node { r, n := p.mk(); b.SetAttr(n, a, val); return r })
			}
		}
		if k.Text != "" && p.kind[0] != '#' {
			for _, t := range vocab.TextValues() {
				t := t
				f(fmt.Sprintf("%s text %q", p.name, t), func() *vocab.Node { r, n := p.mk(); n.AddText(t); return r })
			}
			for _, n := range sizes(c.Pick(4097, 65537)) {
				n := n
				f(fmt.Sprintf("%s text of %d", p.name, n), func() *vocab.Node { r, l := p.mk(); l.AddText(pattern(n)); return r })
			}
		}
		if p.kind[0] == '#' {
			for _, t := range vocab.TextValues() {
				t := t
				f(fmt.Sprintf("%s text %q", p.name, t), func() *vocab.Node { r, n := p.mk(); n.Items = []vocab.Item{{Text: t}}; return r })
			}
		}
		if !kindDone[p.kind] || c.Thorough() {
			// All attribute pairs.
			for i := range k.Attrs {
				for j := i + 1; j < len(k.Attrs); j++ {
					x, y := &k.Attrs[i], &k.Attrs[j]
					for o := 0; o < 2; o++ {
						o := o
						f(fmt.Sprintf("%s@%s,@%s order %d", p.name, x.Local, y.Local, o), func() *vocab.Node {
							r, n := p.mk()
							u, w := x, y
							if o == 1 {
								u, w = y, x
							}
							b.SetAttr(n, u, vocab.Default(u.Type, 11))
							b.SetAttr(n, w, vocab.Default(w.Type, 12))
							return r
						})
					}
				}
			}
			// All pairs of children in both orders; same child repeated.
			for i := range k.Kids {
				for j := range k.Kids {
					if i == j && !k.Kids[i].Multi {
						continue
					}
					x, y := &k.Kids[i], &k.Kids[j]
					f(fmt.Sprintf("%s children %s,%s", p.name, x.Local, y.Local), func() *vocab.Node {
						r, n := p.mk()
						b.Saturate(n.Add(b.NewKid(n, x)), 5)
						b.Saturate(n.Add(b.NewKid(n, y)), 6)
						return r
					})
				}
			}
			// Repetition ladders and interleavings.
			for i := range k.Kids {
				x := &k.Kids[i]
				if !x.Multi {
					continue
				}
				for _, n := range sizes(c.Pick(257, 4097)) {
					n := n
					if n < 2 {
						continue
					}
					f(fmt.Sprintf("%s %s x%d", p.name, x.Local, n), func() *vocab.Node {
						r, l := p.mk()
						for j := 0; j < n; j++ {
							kn := l.Add(b.NewKid(l, x))
							if j%3 != 1 {
								b.Saturate(kn, j)
							}
						}
						return r
					})
				}
				for j := range k.Kids {
					y := &k.Kids[j]
					if !y.Multi || i == j {
						continue
					}
					f(fmt.Sprintf("%s interleaved %s,%s", p.name, x.Local, y.Local), func() *vocab.Node {
						r, l := p.mk()
						for q := 0; q < 3; q++ {
							b.Saturate(l.Add(b.NewKid(l, x)), 2*q)
							b.Saturate(l.Add(b.NewKid(l, y)), 2*q+1)
						}
						return r
					})
				}
			}
			// Full subtrees.
			for d := 1; d <= c.Pick(3, 4); d++ {
				d := d
				f(fmt.Sprintf("%s full depth %d", p.name, d), func() *vocab.Node { r, n := p.mk(); b.Full(n, d, 1); return r })
			}
			// Subsets: full with one child kind left out.
			for i := range k.Kids {
				i := i
				f(fmt.Sprintf("%s all children but %s", p.name, k.Kids[i].Local), func() *vocab.Node {
					r, n := p.mk()
					for j := range k.Kids {
						if j != i {
							b.Saturate(n.Add(b.NewKid(n, &k.Kids[j])), j)
						}
					}
					return r
				})
			}
		}
		// Attributes outside of the vocabulary, where they are kept.
		if k.Any {
			for _, fa := range [][4]string{{"", "", "segmentationUpidLength", "4"}, {"urn:x-ext", "ext", "flag", "1"}, {"http://www.w3.org/1999/xlink", "xlink", "href", "u&v"},
				{"http://x/?a=1&b=<\"2'>", "e2", "k", "v"}, {"a\tb\n\r&amp;", "e3", "k", "&"},
				{"http://www.w3.org/XML/1998/namespace", "xml", "lang", "en"}, {"", "", "zzz", ""}} {
				fa := fa
				if fa[1] == "xml" {
					continue
				}
				f(fmt.Sprintf("%s foreign @%s:%s", p.name, fa[1], fa[2]), func() *vocab.Node {
					r, n := p.mk()
					n.SetForeign(fa[0], fa[1], fa[2], fa[3])
					return r
				})
			}
			f(p.name+" many foreign attributes", func() *vocab.Node {
				r, n := p.mk()
				b.Saturate(n, 2)
				for i := 0; i < 40; i++ {
					n.SetForeign("", "", fmt.Sprintf("x%d", i), fmt.Sprint(i))
					n.SetForeign("urn:x-ext", "ext", fmt.Sprintf("y%d", i), fmt.Sprint(i))
				}
				return r
			})
		}
		if k.Inner {
			for i, raw := range []string{"text", "<a/>", "<a><b x=\"1\"/>t</a>", "a<b/>c<d/>e", "&lt;&amp;&#65;", "<!-- c --><a/>", "<?pi x?>",
				"<![CDATA[<raw>&]]>", "<e:f xmlns:e=\"urn:e\" e:g=\"1\"><e:h/></e:f>", "<a xmlns=\"\"><b/></a>", "<a xmlns=\"urn:o\">x</a>", "  \n <a/>\t", "<a b='\"'/>"} {
				raw := raw
				f(fmt.Sprintf("%s raw %d", p.name, i), func() *vocab.Node { r, n := p.mk(); n.Raw = raw; return r })
			}
		}
		kindDone[p.kind] = true
	}
}

// pattern is a text of n bytes without white space at its ends.
func pattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij<&klmnop qrs"[i%22]
		if (i == 0 || i == n-1) && b[i] == ' ' {
			b[i] = 'z'
		}
	}
	return string(b)
}

// roundTrip reads the document, checks the model against the specification,
// writes it and checks the written document against the specification.
func roundTrip(t *core.T, b *vocab.Builder, root *vocab.Node, doc, indent string, header bool) (*mpd.MPD, string) {
	m, err := mpd.ReadFromString(doc)
	t.Step(1)
	if err != nil {
		t.Failf("read", "reading failed: %v\n%s", err, doc)
		return nil, ""
	}
	if d := b.CheckModel(root, reflect.ValueOf(m)); d != "" {
		t.Failf("model", "%s\ndocument: %s", d, doc)
		return nil, ""
	}
	out, err := m.WriteToString(indent, header)
	t.Step(1)
	if err != nil {
		t.Failf("write", "writing failed: %v\n%s", err, doc)
		return nil, ""
	}
	g, err := refxml.Parse(out)
	if err != nil {
		t.Failf("illformed", "%v\nread: %s\nwritten: %s", err, doc, out)
		return nil, ""
	}
	if d := b.Diff(root, g, indent != ""); d != "" {
		t.Failf("diff", "%s\nread: %s\nwritten: %s", d, doc, out)
		return nil, ""
	}
	t.Trace()
	return m, out
}

func init() {
	register(&core.Check{
		ID:     "C01",
		Rule:   "one case per document of the vocabulary (element kind x position, each attribute x value, attribute pairs, child pairs in both orders, repetition ladders, interleavings, saturated subtrees, extension attributes and content), read and written; non-trivial when it has more than the required content",
		Bounds: "all 97 element kinds at all 260 positions; 1 or 2 attributes varied at a time or all; 2 child kinds at a time or all; up to 257 (thorough 4097) repetitions; subtree depth 3 (thorough 4)",
		Assumptions: []string{
			"the frozen vocabulary (vocab.json) says which elements and attributes the library models and which exported field carries each",
			"the independent XML parser in refxml decides what a written document says"},
		Run: func(c *core.Ctx) {
			for _, ns := range []string{vocab.SCTE, vocab.SCTE16} {
				b := vocab.NewBuilder()
				b.SCTENS = ns
				styles := []vocab.Style{{}, {RootDecls: true, SCTEPrefix: "scte35", DeclsFirst: true}}
				genDocs(c, b, func(name string, mk func() *vocab.Node) {
					for si, st := range styles {
						si, st := si, st
						if ns == vocab.SCTE16 && si == 0 && !c.Thorough() {
							continue
						}
						if !c.Mine() {
							continue
						}
						root := mk()
						if ns == vocab.SCTE16 && !usesNS(root, ns) {
							continue
						}
						if si == 1 && (privateBytesUnderPrefix(root) || unprefixedRaw(root)) {
							continue
						}
						c.Run(func() string { return fmt.Sprintf("%s style %d ns %s", name, si, ns) }, func(t *core.T) {
							doc := b.Serialize(root, st)
							indent := []string{"", "  ", "\t"}[len(name)%3]
							if root.HasMixed() || containsRawText(root) {
								indent = ""
							}
							_, out := roundTrip(t, b, root, doc, indent, len(name)%2 == 0)
							t.Eval(len(root.Items) > 0 || len(root.Attrs) > 1)
							t.State(out)
						})
					}
				})
			}
		},
	})
}

func usesNS(n *vocab.Node, ns string) bool {
	if n.NS == ns {
		return true
	}
	for _, it := range n.Items {
		if it.Node != nil && usesNS(it.Node, ns) {
			return true
		}
	}
	return false
}

// privateBytesUnderPrefix: the recorded finding about unprefixed children of
// prefixed SCTE 35 elements is demonstrated by its own case in C17.
func privateBytesUnderPrefix(n *vocab.Node) bool {
	for _, it := range n.Items {
		if it.Node != nil && (it.Node.Local == "PrivateBytes" || privateBytesUnderPrefix(it.Node)) {
			return true
		}
	}
	return false
}

// unprefixedRaw: raw SCTE 35 content with unprefixed elements changes its
// meaning when the element around it is prefixed.
func unprefixedRaw(n *vocab.Node) bool {
	if n.NS != vocab.DASH && (strings.Contains(n.Raw, "<a") || strings.Contains(n.Raw, "<b")) {
		return true
	}
	for _, it := range n.Items {
		if it.Node != nil && unprefixedRaw(it.Node) {
			return true
		}
	}
	return false
}

func containsRawText(n *vocab.Node) bool {
	if n.Raw != "" {
		return true
	}
	for _, it := range n.Items {
		if it.Node != nil && containsRawText(it.Node) {
			return true
		}
	}
	return false
}
