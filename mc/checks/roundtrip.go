package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// modelOpt is the enumeration of models in the two tiers.
func modelOpt(c *core.Ctx) models.Opt {
	return models.Opt{AllPlaces: c.Thorough(), MaxLen: c.Pick(65, 1025), Depth: c.Pick(4, 7)}
}

// eachModel enumerates models over both SCTE 35 namespaces.
func eachModel(c *core.Ctx, o models.Opt, f func(name, scte string, mk func() *mpd.MPD)) {
	for i, ns := range []string{vocab.SCTE, vocab.SCTE16} {
		g := &models.Gen{SCTENS: ns}
		oo := o
		if i == 1 {
			oo.NoPairs = !c.Thorough()
		}
		g.Enumerate(oo, func(name string, mk func() *mpd.MPD) {
			if i == 1 && !c.Thorough() && !strings.Contains(name, "Signal") && !strings.Contains(name, "Splice") && !strings.Contains(name, " full ") {
				return
			}
			f(name, ns, mk)
		})
	}
}

// allXMLChars holds every character that XML allows, in chunks.
func allXMLChars(step int) []string {
	var out []string
	var sb strings.Builder
	n := 0
	for r := rune(1); r <= 0x10ffff; r++ {
		if r < 0x20 && r != 9 && r != 10 && r != 13 || r >= 0xd800 && r <= 0xdfff || r == 0xfffe || r == 0xffff {
			continue
		}
		sb.WriteRune(r)
		if n++; n == step {
			out = append(out, sb.String())
			sb.Reset()
			n = 0
		}
	}
	return append(out, sb.String())
}

func init() {
	register(&core.Check{
		ID:          "C02",
		Rule:        "one case per model value (struct type x position, each field x value, field pairs, lists, all but one field, saturated to each depth), written, read, compared and written again; non-trivial when the model is not empty",
		Bounds:      "all struct types of the model at all positions; 1 or 2 fields varied at a time, all, or all but one; lists up to 65 (thorough 1025); saturation depth 4 (thorough 7), both SCTE 35 namespaces",
		Assumptions: []string{"equality of models ignores unexported parent links, XMLName of types with a fixed name, MPD.XMLNs, and namespace declarations among the extension attributes"},
		Run: func(c *core.Ctx) {
			one := func(name string, mk func() *mpd.MPD) {
				if !c.Mine() {
					return
				}
				c.Run(func() string { return name }, func(t *core.T) {
					m := mk()
					indent := ""
					if !models.Mixed(reflect.ValueOf(m)) {
						indent = []string{"", "  ", "\t", " "}[len(name)%4]
					}
					header := len(name)%2 == 0
					t.Step(4)
					s1, err := m.WriteToString(indent, header)
					if err != nil {
						t.Failf("write", "writing failed: %v", err)
						return
					}
					if d := models.Equal(m, mk()); d != "" {
						t.Failf("mutated", "writing changed the model: %s", d)
						return
					}
					m2, err := mpd.ReadFromString(s1)
					if err != nil {
						t.Failf("read", "reading what was written failed: %v\n%s", err, s1)
						return
					}
					if d := models.Equal(m, m2); d != "" {
						t.Failf("differs", "model and what is read differ: %s\n%s", d, s1)
						return
					}
					s2, err := m2.WriteToString(indent, header)
					if err != nil {
						t.Failf("write2", "writing again failed: %v\n%s", err, s1)
						return
					}
					if s1 != s2 {
						if !models.KeepsAttrs(reflect.ValueOf(m)) {
							t.Failf("fixpoint", "second writing differs\nfirst:  %s\nsecond: %s", firstDiff(s1, s2), firstDiff(s2, s1))
							return
						}
						// Kept namespace declarations may move within a start tag once.
						g1, err1 := refxml.Parse(s1)
						g2, err2 := refxml.Parse(s2)
						if err1 != nil || err2 != nil || g1.Canon(false) != g2.Canon(false) {
							t.Failf("fixpoint", "second writing says something else (%v, %v)\nfirst:  %s\nsecond: %s", err1, err2, firstDiff(s1, s2), firstDiff(s2, s1))
							return
						}
					}
					m3, err := mpd.ReadFromString(s2)
					if err != nil {
						t.Failf("read2", "reading the second writing failed: %v\n%s", err, s2)
						return
					}
					s3, err := m3.WriteToString(indent, header)
					if err != nil || s3 != s2 {
						t.Failf("fixpoint", "third writing differs (%v)\nsecond: %s\nthird:  %s", err, firstDiff(s2, s3), firstDiff(s3, s2))
						return
					}
					t.Step(2)
					t.Trace()
					t.Eval(name != "empty")
					t.State(s1)
				})
			}
			eachModel(c, modelOpt(c), func(name, ns string, mk func() *mpd.MPD) { one(name+" "+ns, mk) })
		},
	})
	register(&core.Check{
		ID:     "C03",
		Rule:   "one case per model value and kind of output (indentation, header, manifest or single Period); the output is parsed by an independent namespace-aware parser and compared with the document that the frozen vocabulary prescribes; non-trivial when the model is not empty",
		Bounds: "as C02, times indentations none, two spaces, tab, header on and off, and each Period written alone",
		Assumptions: []string{
			"the frozen vocabulary (vocab.json) gives names and namespaces of all fields",
			"the independent XML parser in refxml decides well-formedness"},
		Run: func(c *core.Ctx) {
			b := vocab.NewBuilder()
			eachModel(c, modelOpt(c), func(name, ns string, mk func() *mpd.MPD) {
				if !c.Mine() {
					return
				}
				c.Run(func() string { return name + " " + ns }, func(t *core.T) {
					m := mk()
					want := models.FromModel(b, m)
					mixed := models.Mixed(reflect.ValueOf(m))
					var base string
					for i, indent := range []string{"", "  ", "\t"} {
						if i > 0 && mixed {
							break
						}
						for _, header := range []bool{false, true} {
							t.Step(1)
							s, err := m.WriteToString(indent, header)
							if err != nil {
								t.Failf("write", "writing failed: %v", err)
								return
							}
							const decl = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
							if strings.HasPrefix(s, "<?xml") != header || header && !strings.HasPrefix(s, decl) {
								t.Failf("header", "header %v but the output starts %.60q", header, s)
								return
							}
							if !header && i == 0 {
								base = s
							}
							if header && i == 0 && s != decl+base {
								t.Failf("header", "output with header differs in more than the header\n%s\n%s", base, s)
								return
							}
							g, err := refxml.Parse(s)
							if err != nil {
								t.Failf("illformed", "%v\n%s", err, s)
								return
							}
							if d := b.Diff(want, g, indent != ""); d != "" {
								t.Failf("content", "%s\n%s", d, s)
								return
							}
							if indent != "" && !strings.Contains(base, "\n") {
								if d := indentation(s, indent); d != "" {
									t.Failf("indent", "%s\n%s", d, s)
									return
								}
							}
						}
					}
					for i, p := range m.Periods {
						if i > 2 {
							break
						}
						pw := models.FromPeriod(b, p)
						for j, indent := range []string{"", " "} {
							if j > 0 && mixed {
								break
							}
							t.Step(1)
							s, err := p.WriteToString(indent)
							if err != nil {
								t.Failf("write", "writing the Period failed: %v", err)
								return
							}
							if strings.HasPrefix(s, "<?xml") {
								t.Failf("header", "Period is written with a header: %.60q", s)
								return
							}
							g, err := refxml.Parse("<MPD xmlns=\"" + vocab.DASH + "\">" + s + "</MPD>")
							if err != nil {
								t.Failf("illformed", "Period: %v\n%s", err, s)
								return
							}
							es := g.Elems()
							if len(es) != 1 {
								t.Failf("illformed", "Period: %d elements\n%s", len(es), s)
								return
							}
							if d := b.Diff(pw, es[0], indent != ""); d != "" {
								t.Failf("content", "Period: %s\n%s", d, s)
								return
							}
						}
					}
					t.Trace()
					t.Eval(name != "empty")
					t.State(base)
				})
			})
		},
	})
}

// indentation checks that each line starts with a repetition of the unit and
// that the depth follows the tags. It applies to documents without texts that
// contain line breaks.
func indentation(s, unit string) string {
	depth := 0
	for i, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "<?xml") {
			continue
		}
		rest := l
		n := 0
		for strings.HasPrefix(rest, unit) {
			rest = rest[len(unit):]
			n++
		}
		if !strings.HasPrefix(rest, "<") {
			return ""
		}
		closing := strings.HasPrefix(rest, "</")
		if closing {
			depth--
		}
		if n != depth {
			return fmt.Sprintf("line %d has indentation %d, want %d: %.80q", i+1, n, depth, l)
		}
		if !closing && !strings.Contains(rest, "</") && !strings.HasSuffix(rest, "/>") {
			depth++
		}
	}
	return ""
}

// firstDiff is the part of a around the first difference from b.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("at %d of %d: …%s", i, len(a), a[max(0, i-300):min(len(a), i+300)])
}
