package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

type styleSetting struct {
	name string
	set  func(s *vocab.Style)
}

// styleSettings lists single departures from the plain presentation.
func styleSettings() []styleSetting {
	var out []styleSetting
	add := func(name string, set func(s *vocab.Style)) { out = append(out, styleSetting{name, set}) }
	add("plain", func(s *vocab.Style) {})
	for _, p := range []string{"mpd", "d", "xlinkx", "a-b.c_d", "é", "_"} {
		p := p
		add("DASH prefix "+p, func(s *vocab.Style) { s.DashPrefix = p })
	}
	for _, ns := range []string{"urn:other", "http://www.scte.org/schemas/35", "urn:mpeg:dash:schema:mpd:2012"} {
		ns := ns
		add("DASH prefix q, default namespace "+ns, func(s *vocab.Style) { s.DashPrefix, s.OtherNS = "q", ns })
	}
	for _, p := range []string{"scte35", "s"} {
		p := p
		add("SCTE prefix "+p, func(s *vocab.Style) { s.SCTEPrefix = p })
	}
	add("declarations on the root", func(s *vocab.Style) { s.RootDecls = true })
	add("other prefixes", func(s *vocab.Style) { s.Rename = true })
	add("single quotes", func(s *vocab.Style) { s.Single = true })
	add("reversed attributes", func(s *vocab.Style) { s.Reverse = true })
	add("declarations first", func(s *vocab.Style) { s.DeclsFirst = true })
	for i := 1; i <= 5; i++ {
		i := i
		add(fmt.Sprintf("character references %d", i), func(s *vocab.Style) { s.CharRefs = i })
	}
	add("CDATA", func(s *vocab.Style) { s.CDATA = true })
	add("empty-element tags", func(s *vocab.Style) { s.SelfClose = true })
	for _, w := range []string{" ", "\n", "\t", "\r\n", "\n\n    ", "\r", "&#x20;", "&#10;\n"} {
		w := w
		add(fmt.Sprintf("space %q", w), func(s *vocab.Style) { s.Space = w })
	}
	for _, w := range []string{" ", "\n", "\t", "\r\n", "  \n "} {
		w := w
		add(fmt.Sprintf("space in tags %q", w), func(s *vocab.Style) { s.TagSpace = w })
	}
	for _, h := range []string{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", "<?xml version=\"1.0\"?>\r\n", "\n\n", "<!-- c -->", "<?pi?>\n<!---->",
		"<?xml version=\"1.0\"?><!DOCTYPE MPD>", "<!DOCTYPE MPD [<!ELEMENT MPD ANY><!-- <MPD> -->]>\n", "\ufeff"} {
		h := h
		add(fmt.Sprintf("prolog %q", h), func(s *vocab.Style) { s.Header = h })
	}
	for _, h := range []string{"\n", "<!-- end -->", "<?pi end?>", " \t\r\n"} {
		h := h
		add(fmt.Sprintf("epilog %q", h), func(s *vocab.Style) { s.Trailer = h })
	}
	for _, h := range []string{"<!-- c -->", "<!----><?p?>", "<!-- <Period id=\"x\"/> & ]]> -->", "<?Period id=\"x\"?>", "<!-- - -> é -->"} {
		h := h
		add(fmt.Sprintf("comments %q", h), func(s *vocab.Style) { s.Comments = h })
	}
	for _, h := range []string{"<!-- c -->", "<?p q?>", "<![CDATA[]]>", "<!----><![CDATA[]]><?p?>"} {
		h := h
		add(fmt.Sprintf("text split by %q", h), func(s *vocab.Style) { s.SplitText = h })
	}
	for _, h := range []string{"<unknown/>", "<unknown a=\"1\"><b>t</b>u<!-- c --></unknown>", "<u:v xmlns:u=\"urn:u\"><u:MPD/><u:v/></u:v>",
		"<unknown><Period id=\"zz\"/><AdaptationSet><Representation id=\"q\"/></AdaptationSet><BaseURL>b</BaseURL></unknown>", "<period/>", "<unknown><![CDATA[</unknown>]]></unknown>",
		"<u xmlns=\"\"><BaseURL/></u>", "<unknown><unknown><unknown/></unknown></unknown>"} {
		h := h
		add(fmt.Sprintf("unknown element %q", h), func(s *vocab.Style) { s.Unknown = h })
	}
	for _, h := range []string{"unknownAttr=\"1\"", "Id2='x'", "zz:zz=\"q\" xmlns:zz=\"urn:zz\"", "ID=\"7\" START=\"x\"", "xml:lang=\"\" xml:space='preserve'", "xml:base=\"b\""} {
		h := h
		if strings.HasPrefix(h, "xml:lang") {
			h = "xml:space='preserve'" // xml:lang has the local name of an attribute of the vocabulary
		}
		add(fmt.Sprintf("unknown attribute %q", h), func(s *vocab.Style) { s.UnknownAttr = h })
	}
	add("CR LF line ends", func(s *vocab.Style) { s.CRLF = true; s.Space = "\n  " })
	return out
}

// compatible excludes combinations that the serializer cannot express.
func compatible(st vocab.Style) bool {
	return !(st.CRLF && strings.Contains(st.Space+st.TagSpace+st.Header+st.Trailer, "\r"))
}

func init() {
	register(&core.Check{
		ID:     "C04",
		Rule:   "one case per document: it is read in its plain presentation and in every other presentation of the group (each setting alone; all pairs of settings for the saturated documents), and the models are compared; non-trivial when the document has content",
		Bounds: "74 settings of the presentation (prefixes, declarations, quoting, references, CDATA, splitting, comments, white space, prolog, epilog, line ends, unknown content) alone and in all pairs; documents of C01: every position minimal, saturated and full to depth 2, every attribute and text value once",
		Assumptions: []string{"raw content of SCTE 35 extension elements is kept as it is written and not varied",
			"unknown attributes do not have the local name of an attribute of the vocabulary and unknown elements do not have the local name of an element of the vocabulary at their level, as in encoding/xml"},
		Run: func(c *core.Ctx) {
			b := vocab.NewBuilder()
			sets := styleSettings()
			c.Count("presentation_settings", int64(len(sets))*int64(b2i(c.Shard == 0)))
			done := map[string]bool{}
			check := func(t *core.T, root *vocab.Node, base *mpd.MPD, st vocab.Style, what string, ref string) bool {
				if !compatible(st) || st.CRLF && rawBreaks(root) {
					return true
				}
				if st.SCTEPrefix != "" && (privateBytesUnderPrefix(root) || unprefixedRaw(root)) {
					return true
				}
				doc := b.Serialize(root, st)
				t.Step(1)
				m, err := mpd.ReadFromString(doc)
				if err != nil {
					t.Failf("read", "presentation %s: %v\n%s", what, err, doc)
					return false
				}
				if d := models.EqualUnordered(base, m); d != "" {
					t.Failf("differs", "presentation %s: %s\nplain: %s\nother: %s", what, d, ref, doc)
					return false
				}
				t.Trace()
				return true
			}
			run := func(name string, pairs bool, mk func() *vocab.Node) {
				if !c.Mine() {
					return
				}
				c.Run(func() string { return name }, func(t *core.T) {
					root := mk()
					ref := b.Serialize(root, vocab.Style{})
					base, err := mpd.ReadFromString(ref)
					t.Step(1)
					if err != nil {
						t.Failf("read", "reading failed: %v\n%s", err, ref)
						return
					}
					if d := b.CheckModel(root, reflect.ValueOf(base)); d != "" {
						t.Failf("model", "%s\n%s", d, ref)
						return
					}
					t.Eval(len(root.Items) > 0)
					t.State(ref)
					for i := range sets {
						var st vocab.Style
						sets[i].set(&st)
						if !check(t, root, base, st, sets[i].name, ref) {
							return
						}
						if !pairs {
							continue
						}
						for j := range sets {
							if i == j {
								continue
							}
							st2 := st
							sets[j].set(&st2)
							if !check(t, root, base, st2, sets[i].name+" and "+sets[j].name, ref) {
								return
							}
						}
					}
				})
			}
			genDocs(c, b, func(name string, mk func() *vocab.Node) {
				// Positions minimal, saturated and full; each value of each attribute
				// and text; children in pairs only in the deep tier.
				words := name
				switch {
				case strings.Contains(words, " saturated") || strings.Contains(words, " full depth 1"):
					key := words
					pairs := !done[key]
					done[key] = true
					run(name, pairs, mk)
				case strings.Contains(words, " full depth 3"), strings.Contains(words, " full depth 4"):
					if c.Thorough() {
						run(name, false, mk)
					}
				case strings.Contains(words, " x") && strings.Contains(words, " children") || strings.Contains(words, " order "), strings.Contains(words, " text of "), strings.Contains(words, " all children but "):
					if c.Thorough() {
						run(name, false, mk)
					}
				case isLadder(words):
				default:
					run(name, false, mk)
				}
			})
		},
	})
}

// rawBreaks reports raw content with line breaks: it is kept as it is written.
func rawBreaks(n *vocab.Node) bool {
	if strings.Contains(n.Raw, "\n") {
		return true
	}
	for _, it := range n.Items {
		if it.Node != nil && rawBreaks(it.Node) {
			return true
		}
	}
	return false
}

// isLadder recognises the repetition documents of genDocs ("… x17").
func isLadder(name string) bool {
	i := strings.LastIndex(name, " x")
	if i < 0 || i+2 >= len(name) {
		return false
	}
	for _, r := range name[i+2:] {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
