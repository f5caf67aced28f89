package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C17",
		Rule: "one case per SCTE 35 element, content and carriage form, read in every notation and namespace; or per constructor composition, scheme text, or combination of forms; an evaluation is one manifest read, inspected, written, parsed independently and read again; non-trivial when the event carries SCTE 35 content",
		Bounds: "every SCTE 35 element kind on every shortest path below Signal and below SpliceInfoSection, 2 carriage forms, 2 namespaces, 8 notations (default or prefixed; declared on the manifest, the outermost, or every element; mixed; manifest itself prefixed), minimal, every attribute and value, saturated, full, extension content, foreign attributes, 0 to 3 of every list, all ordered pairs of children; " +
			"all pairs of constructed commands and descriptors in 4 surroundings; all scheme texts at one edit from the three schemes; all 12 combinations of forms of an event",
		Assumptions: []string{"elements made without constructor set their namespace themselves", "PrivateBytes below a prefixed element, and raw extension content that depends on prefixes or a default namespace declared outside of the splice information, are recorded findings, shown by cases of their own"},
		Run:         runSCTE,
	})
}

var scteTag = regexp.MustCompile(`<scte35:([A-Za-z]+)`)

// scteNotations rewrite a document where all SCTE 35 elements have the prefix
// scte35, declared on the outermost one.
var scteNotations = []struct {
	name     string
	prefixed bool // the elements around raw content are prefixed
	scoped   bool // the declaration is outside of the splice information
	f        func(doc, ns string) string
}{
	{"prefix on the outermost element", true, false, func(d, ns string) string { return d }},
	{"default on the outermost element", false, false, func(d, ns string) string {
		d = strings.ReplaceAll(d, " xmlns:scte35=\"", " xmlns=\"")
		return strings.NewReplacer("<scte35:", "<", "</scte35:", "</").Replace(d)
	}},
	{"prefix on the manifest", true, true, func(d, ns string) string {
		decl := " xmlns:scte35=\"" + ns + "\""
		d = strings.ReplaceAll(d, decl, "")
		return strings.Replace(d, "<MPD", "<MPD"+decl, 1)
	}},
	{"prefix on every element", true, false, func(d, ns string) string {
		decl := " xmlns:scte35=\"" + ns + "\""
		d = strings.ReplaceAll(d, decl, "")
		return scteTag.ReplaceAllString(d, "<scte35:$1"+decl)
	}},
	{"default on every element", false, false, func(d, ns string) string {
		d = strings.ReplaceAll(d, " xmlns:scte35=\""+ns+"\"", "")
		d = scteTag.ReplaceAllString(d, "<$1 xmlns=\""+ns+"\"")
		return strings.ReplaceAll(d, "</scte35:", "</")
	}},
	{"prefix outside, default inside", false, false, func(d, ns string) string {
		// Only Signal and SpliceInfoSection keep the prefix.
		d = scteTag.ReplaceAllStringFunc(d, func(m string) string {
			n := strings.TrimPrefix(m, "<scte35:")
			if n == "Signal" || n == "SpliceInfoSection" {
				return m
			}
			return "<" + n + " xmlns=\"" + ns + "\""
		})
		return regexp.MustCompile(`</scte35:([A-Za-z]+)`).ReplaceAllStringFunc(d, func(m string) string {
			n := strings.TrimPrefix(m, "</scte35:")
			if n == "Signal" || n == "SpliceInfoSection" {
				return m
			}
			return "</" + n
		})
	}},
	{"other prefix", true, false, func(d, ns string) string {
		return strings.NewReplacer("<scte35:", "<s-1.x:", "</scte35:", "</s-1.x:", "xmlns:scte35=", "xmlns:s-1.x=").Replace(d)
	}},
	{"prefixed manifest, default below", false, false, nil}, // made by the serializer
}

// scteBelow returns the shortest path of edges between two kinds.
func scteBelow(v *vocab.Vocab, from, to string) ([]vocab.Edge, bool) {
	type st struct {
		kind string
		path []vocab.Edge
	}
	q := []st{{from, nil}}
	seen := map[string]bool{from: true}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		if s.kind == to {
			return s.path, true
		}
		for _, k := range v.Kinds[s.kind].Kids {
			if !seen[k.Kind] {
				seen[k.Kind] = true
				q = append(q, st{k.Kind, append(append([]vocab.Edge(nil), s.path...), vocab.Edge{Parent: s.kind, Kid: k})})
			}
		}
	}
	return nil, false
}

func runSCTE(c *core.Ctx) {
	b := vocab.NewBuilder()
	v := b.V
	kidEdge := func(parent, local string) vocab.Edge {
		k := kidOf(b, parent, local)
		return vocab.Edge{Parent: parent, Kid: *k}
	}
	// check reads the document in all notations.
	check := func(t *core.T, form string, ns string, mk func(b *vocab.Builder) *vocab.Node) {
		bb := vocab.NewBuilder()
		bb.SCTENS = ns
		root := mk(bb)
		pre := bb.Serialize(root, vocab.Style{SCTEPrefix: "scte35"})
		for _, nt := range scteNotations {
			if nt.prefixed && unprefixedRaw(root) || nt.prefixed && !nt.scoped && privateBytesUnderPrefix(root) || strings.Contains(nt.name, "outside") && privateBytesUnderPrefix(root) {
				continue
			}
			doc := ""
			if nt.f == nil {
				doc = bb.Serialize(root, vocab.Style{DashPrefix: "mpd"})
			} else {
				doc = nt.f(pre, ns)
			}
			t.Step(1)
			t.Eval(true)
			m, err := mpd.ReadFromString(doc)
			if err != nil {
				t.Failf("read", "%s: %v\n%s", nt.name, err, doc)
				return
			}
			if d := bb.CheckModel(root, reflect.ValueOf(m)); d != "" {
				t.Failf("model", "%s: %s\n%s", nt.name, d, doc)
				return
			}
			es := m.Periods[0].EventStreams[0]
			ev := es.Events[0]
			si := ev.SpliceInfo()
			switch {
			case form == "direct" && (ev.Signal != nil || ev.SpliceInfoSection == nil || si != ev.SpliceInfoSection):
				t.Failf("form", "%s: SpliceInfoSection is not found\n%s", nt.name, doc)
				return
			case form == "Signal" && (ev.Signal == nil || ev.SpliceInfoSection != nil || si != ev.Signal.SpliceInfoSection):
				t.Failf("form", "%s: Signal is not found\n%s", nt.name, doc)
				return
			}
			for _, ind := range []string{"", "  "} {
				if ind != "" && containsRawText(root) {
					continue
				}
				out, err := m.WriteToString(ind, false)
				t.Step(1)
				if err != nil {
					t.Failf("write", "%s: %v\n%s", nt.name, err, doc)
					return
				}
				r, err := refxml.Parse(out)
				if err != nil {
					t.Failf("ill-formed", "%s: %v\n%s\nread from %s", nt.name, err, out, doc)
					return
				}
				if d := bb.Diff(root, r, ind != ""); d != "" {
					t.Failf("written", "%s: %s\n%s\nread from %s", nt.name, d, out, doc)
					return
				}
				m2, err := mpd.ReadFromString(out)
				t.Step(1)
				if err != nil {
					t.Failf("reread", "%s: %v\n%s", nt.name, err, out)
					return
				}
				if d := bb.CheckModel(root, reflect.ValueOf(m2)); d != "" && ind == "" {
					t.Failf("reread", "%s: %s\n%s", nt.name, d, out)
					return
				}
			}
			t.Trace()
			t.State(doc)
		}
	}
	forms := map[string][]vocab.Edge{
		"Signal": {kidEdge("EventType", "Signal")},
		"direct": {kidEdge("EventType", "SpliceInfoSection")},
	}
	head := []vocab.Edge{kidEdge("MPD", "Period"), kidEdge("Period", "EventStream"), kidEdge("EventStreamType", "Event")}
	for _, form := range []string{"Signal", "direct"} {
		for _, ns := range []string{vocab.SCTE, vocab.SCTE16} {
			for _, kind := range v.KindNames() {
				k := v.Kinds[kind]
				if !k.Captured {
					continue
				}
				top := forms[form][0].Kid.Kind
				below, ok := scteBelow(v, top, kind)
				if !ok {
					continue
				}
				path := append(append(append([]vocab.Edge{}, head...), forms[form]...), below...)
				at := func(bb *vocab.Builder) (root, leaf *vocab.Node) {
					root, leaf = bb.Doc(path)
					return
				}
				add := func(what string, f func(bb *vocab.Builder, leaf *vocab.Node)) {
					form, ns := form, ns
					if !c.Mine() {
						return
					}
					c.Run(func() string { return fmt.Sprintf("%s %s %s %s", form, ns, kind, what) }, func(t *core.T) {
						check(t, form, ns, func(bb *vocab.Builder) *vocab.Node {
							root, leaf := at(bb)
							f(bb, leaf)
							return root
						})
					})
				}
				add("minimal", func(bb *vocab.Builder, n *vocab.Node) {})
				add("saturated", func(bb *vocab.Builder, n *vocab.Node) { bb.Saturate(n, 3) })
				for d := 1; d <= c.Pick(3, 5); d++ {
					add(fmt.Sprintf("full depth %d", d), func(bb *vocab.Builder, n *vocab.Node) { bb.Full(n, d, 1); dropPrivate(n) })
					add(fmt.Sprintf("full depth %d with PrivateBytes", d), func(bb *vocab.Builder, n *vocab.Node) { bb.Full(n, d, 1) })
				}
				for ai := range k.Attrs {
					for _, val := range k.Attrs[ai].Values() {
						add(fmt.Sprintf("@%s=%q", k.Attrs[ai].Local, val), func(bb *vocab.Builder, n *vocab.Node) { bb.SetAttr(n, &k.Attrs[ai], val) })
					}
				}
				if k.Text != "" && kind[0] != '#' {
					for _, tx := range vocab.TextValues() {
						add(fmt.Sprintf("text %q", tx), func(bb *vocab.Builder, n *vocab.Node) { n.AddText(tx) })
					}
				}
				if k.Any {
					add("foreign attributes", func(bb *vocab.Builder, n *vocab.Node) {
						n.SetForeign("", "", "segmentationUpidLength", "12")
						n.SetForeign("urn:x", "x", "y", "1&<\"")
						n.SetForeign("urn:x", "x", "zz", "")
						n.SetForeign("urn:y", "y", "y", "2")
					})
					add("plain unknown attributes", func(bb *vocab.Builder, n *vocab.Node) {
						n.SetForeign("", "", "é", " a\t\n")
						n.SetForeign("", "", "a", "")
						n.SetForeign("", "", "A", "x")
					})
				}
				if k.Inner {
					for _, raw := range models.RawValues() {
						add(fmt.Sprintf("raw %q", raw), func(bb *vocab.Builder, n *vocab.Node) {
							n.Raw = raw
							n.SetForeign("", "", "u", "1")
							n.SetForeign("urn:x", "x", "y", "1")
						})
					}
				}
				for i := range k.Kids {
					if k.Kids[i].Multi {
						for n := 2; n <= 3; n++ {
							add(fmt.Sprintf("%d x %s", n, k.Kids[i].Local), func(bb *vocab.Builder, leaf *vocab.Node) {
								for j := 0; j < n; j++ {
									bb.Saturate(leaf.Add(bb.NewKid(leaf, &k.Kids[i])), j*5)
								}
							})
						}
					}
					for j := range k.Kids {
						if i == j {
							continue
						}
						add(fmt.Sprintf("%s then %s", k.Kids[i].Local, k.Kids[j].Local), func(bb *vocab.Builder, leaf *vocab.Node) {
							for _, x := range []int{i, j} {
								kid := leaf.Add(bb.NewKid(leaf, &k.Kids[x]))
								bb.Saturate(kid, x)
								if kid.Kind[0] != '#' {
									bb.Full(kid, 1, x)
									dropPrivate(kid)
								}
							}
						})
					}
				}
			}
		}
	}
	// Both namespaces side by side.
	c.Case(func() string { return "both namespaces in one manifest" }, func(t *core.T) {
		for _, order := range [][]string{{vocab.SCTE, vocab.SCTE16}, {vocab.SCTE16, vocab.SCTE}, {vocab.SCTE, vocab.SCTE16, vocab.SCTE}} {
			for mask := 0; mask < 1<<len(order); mask++ {
				bb := vocab.NewBuilder()
				root, es := bb.Doc(head[:2])
				for i, ns := range order {
					bb.SCTENS = ns
					ev := es.Add(bb.NewKid(es, kidOf(bb, "EventStreamType", "Event")))
					name := "Signal"
					if mask>>i&1 != 0 {
						name = "SpliceInfoSection"
					}
					x := ev.Add(bb.NewKid(ev, kidOf(bb, "EventType", name)))
					bb.Full(x, 3, i)
					dropPrivate(x)
				}
				doc := bb.Serialize(root, vocab.Style{})
				m, err := mpd.ReadFromString(doc)
				if err != nil {
					t.Failf("read", "%v\n%s", err, doc)
					return
				}
				if d := bb.CheckModel(root, reflect.ValueOf(m)); d != "" {
					t.Failf("model", "%s\n%s", d, doc)
					return
				}
				out, err := m.WriteToString("", false)
				if err != nil {
					t.Failf("write", "%v\n%s", err, doc)
					return
				}
				r, err := refxml.Parse(out)
				if err != nil {
					t.Failf("ill-formed", "%v\n%s", err, out)
					return
				}
				if d := bb.Diff(root, r, false); d != "" {
					t.Failf("written", "%s\n%s", d, out)
					return
				}
				t.Step(2)
				t.Trace()
				t.Eval(true)
				t.State(doc)
			}
		}
	})
	scteConstructors(c, b)
	scteSchemes(c)
	scteForms(c)
	scteFindings(c)
}

// dropPrivate removes PrivateBytes elements.
func dropPrivate(n *vocab.Node) {
	var items []vocab.Item
	for _, it := range n.Items {
		if it.Node != nil {
			if it.Node.Local == "PrivateBytes" {
				continue
			}
			dropPrivate(it.Node)
		}
		items = append(items, it)
	}
	n.Items = items
}

// scteConstructors composes elements made by the constructors.
func scteConstructors(c *core.Ctx, b *vocab.Builder) {
	u8 := func(x uint8) *uint8 { return &x }
	u64 := func(x uint64) *uint64 { return &x }
	tr := true
	_ = tr
	spliceTime := func() *mpd.SpliceTimeType { s := mpd.NewSpliceTime(); s.PtsTime = u64(1 << 33); return s }
	type part struct {
		name string
		f    func(s *mpd.SpliceInfoSectionType)
	}
	commands := []part{
		{"none", func(s *mpd.SpliceInfoSectionType) {}},
		{"null", func(s *mpd.SpliceInfoSectionType) { s.SpliceNull = mpd.NewSpliceNull() }},
		{"schedule", func(s *mpd.SpliceInfoSectionType) { s.SpliceSchedule = mpd.NewSpliceSchedule() }},
		{"insert", func(s *mpd.SpliceInfoSectionType) {
			s.SpliceInsert = mpd.NewSpliceInsert()
			s.SpliceInsert.OutOfNetworkIndicator = &tr
			s.SpliceInsert.BreakDuration = mpd.NewBreakDuration(true, 1<<40)
		}},
		{"insert without break", func(s *mpd.SpliceInfoSectionType) { s.SpliceInsert = mpd.NewSpliceInsert() }},
		{"break false", func(s *mpd.SpliceInfoSectionType) {
			s.SpliceInsert = mpd.NewSpliceInsert()
			s.SpliceInsert.BreakDuration = mpd.NewBreakDuration(false, 0)
		}},
		{"signal", func(s *mpd.SpliceInfoSectionType) {
			s.TimeSignal = mpd.NewTimeSignal()
			s.TimeSignal.SpliceTime = spliceTime()
		}},
		{"reservation", func(s *mpd.SpliceInfoSectionType) { s.BandwidthReservation = mpd.NewBandwidthReservation() }},
		{"private", func(s *mpd.SpliceInfoSectionType) {
			s.PrivateCommand = mpd.NewPrivateCommand(0xfffffffe)
			s.PrivateCommand.PrivateBytes = "00ff"
		}},
	}
	descriptors := []part{
		{"none", func(s *mpd.SpliceInfoSectionType) {}},
		{"segmentation", func(s *mpd.SpliceInfoSectionType) {
			d := mpd.NewSegmentationDescriptor()
			d.SegmentationTypeId = u8(mpd.SegTypeProviderAdvertisementStart)
			s.SegmentationDescriptors = append(s.SegmentationDescriptors, d)
		}},
		{"segmentation with upids", func(s *mpd.SpliceInfoSectionType) {
			d := mpd.NewSegmentationDescriptor()
			d.SegmentationUpids = append(d.SegmentationUpids, mpd.NewSegmentationUpid("a&<b"), mpd.NewSegmentationUpid(""))
			s.SegmentationDescriptors = append(s.SegmentationDescriptors, d, mpd.NewSegmentationDescriptor())
		}},
	}
	surroundings := []part{{name: "alone"}, {name: "after protection"}, {name: "with extensions"}, {name: "between events"}}
	for _, form := range []string{"Signal", "direct", "Binary", "Event of a Period fragment"} {
		for _, sur := range surroundings {
			for _, cmd := range commands {
				for _, cmd2 := range commands {
					for _, desc := range descriptors {
						c.Case(func() string {
							return fmt.Sprintf("constructed %s, %s, %s, %s, %s", form, sur.name, cmd.name, cmd2.name, desc.name)
						}, func(t *core.T) {
							sis := mpd.NewSpliceInfoSection()
							cmd.f(sis)
							cmd2.f(sis)
							desc.f(sis)
							mk := func() *mpd.EventType {
								ev := &mpd.EventType{}
								switch form {
								case "Signal", "Event of a Period fragment":
									ev.Signal = mpd.NewSignal()
									ev.Signal.SpliceInfoSection = sis
								case "Binary":
									ev.Signal = mpd.NewSignal()
									ev.Signal.Binary = mpd.NewBinary("/DA=")
								default:
									ev.SpliceInfoSection = sis
								}
								return ev
							}
							m := mpd.NewMPD(mpd.STATIC_TYPE)
							p := mpd.NewPeriod()
							es := &mpd.EventStreamType{SchemeIdUri: mpd.SCTE35SchemeIdXML}
							switch sur.name {
							case "after protection":
								as := &mpd.AdaptationSetType{}
								cp := mpd.NewContentProtection()
								cp.DefaultKID = "k"
								cp.Pssh = &mpd.PsshType{Value: "AA=="}
								as.ContentProtections = append(as.ContentProtections, cp)
								as.SCTE214SupplementalCodecs = "x"
								p.AppendAdaptationSet(as)
								m.EssentialProperties = append(m.EssentialProperties, &mpd.DescriptorType{SCTE214ContentIdentifiers: []*mpd.SCTE214ContentIdentifierType{mpd.NewSCTE214ContentIdentifier("URI", "u")}})
							case "with extensions":
								ext := &mpd.ExtType{XMLName: xml.Name{Space: mpd.SCTE35Namespace, Local: "Ext"}, InnerXML: "<e:x xmlns:e=\"urn:e\"/>"}
								sis.Ext = ext
								sis.AnyAttrs = []xml.Attr{{Name: xml.Name{Space: "urn:e", Local: "a"}, Value: "1"}}
							case "between events":
								es.XlinkHref = "h"
								es.Events = append(es.Events, &mpd.EventType{Value: "v"})
							}
							es.Events = append(es.Events, mk(), mk())
							if sur.name == "between events" {
								es.Events = append(es.Events, &mpd.EventType{Value: "v"})
							}
							p.EventStreams = append(p.EventStreams, es)
							m.AppendPeriod(p)
							t.Eval(true)
							bb := vocab.NewBuilder()
							for _, ind := range []string{"", " "} {
								if ind != "" && sur.name == "with extensions" {
									continue
								}
								t.Step(2)
								out, err := m.WriteToString(ind, false)
								if err != nil {
									t.Failf("write", "%v", err)
									return
								}
								r, err := refxml.Parse(out)
								if err != nil {
									t.Failf("ill-formed", "%v\n%s", err, out)
									return
								}
								want := models.FromModel(bb, m)
								if d := bb.Diff(want, r, ind != ""); d != "" {
									t.Failf("written", "%s\n%s", d, out)
									return
								}
								if bad := scteSpaces(r, false); bad != "" {
									t.Failf("namespace", "%s\n%s", bad, out)
									return
								}
								m2, err := mpd.ReadFromString(out)
								if err != nil {
									t.Failf("reread", "%v\n%s", err, out)
									return
								}
								if ind == "" {
									if d := models.Equal(m, m2); d != "" {
										t.Failf("reread", "%s\n%s", d, out)
										return
									}
								}
								t.State(out)
							}
							// Alone.
							for _, x := range []any{sis, mk().Signal} {
								if reflect.ValueOf(x).IsNil() {
									continue
								}
								out, err := xml.Marshal(x)
								t.Step(1)
								if err != nil {
									t.Failf("write", "%v", err)
									return
								}
								r, err := refxml.Parse(string(out))
								if err != nil {
									t.Failf("ill-formed", "%v\n%s", err, out)
									return
								}
								if r.Space != mpd.SCTE35Namespace || scteSpaces(r, true) != "" {
									t.Failf("namespace", "%s\n%s", scteSpaces(r, true), out)
									return
								}
							}
							t.Trace()
						})
					}
				}
			}
		}
	}
	// What the constructors are given.
	c.Case(func() string { return "arguments of the constructors" }, func(t *core.T) {
		name := func(x any) xml.Name { return reflect.ValueOf(x).Elem().FieldByName("XMLName").Interface().(xml.Name) }
		for local, x := range map[string]any{"Signal": mpd.NewSignal(), "SpliceInfoSection": mpd.NewSpliceInfoSection(), "Binary": mpd.NewBinary(""), "SpliceNull": mpd.NewSpliceNull(), "SpliceSchedule": mpd.NewSpliceSchedule(),
			"SpliceInsert": mpd.NewSpliceInsert(), "TimeSignal": mpd.NewTimeSignal(), "BandwidthReservation": mpd.NewBandwidthReservation(), "PrivateCommand": mpd.NewPrivateCommand(0), "SpliceTime": mpd.NewSpliceTime(),
			"BreakDuration": mpd.NewBreakDuration(false, 0), "SegmentationDescriptor": mpd.NewSegmentationDescriptor(), "SegmentationUpid": mpd.NewSegmentationUpid("")} {
			t.Step(1)
			t.State(local)
			if n := name(x); n.Space != "http://www.scte.org/schemas/35" || n.Local != local {
				t.Failf("name", "%s has name %v", local, n)
				return
			}
			// Everything else is absent.
			cp := reflect.New(reflect.TypeOf(x).Elem())
			cp.Elem().Set(reflect.ValueOf(x).Elem())
			cp.Elem().FieldByName("XMLName").SetZero()
			if !cp.Elem().IsZero() {
				t.Failf("extra", "%s: %+v", local, cp.Elem())
				return
			}
		}
		for _, s := range models.Strings() {
			if mpd.NewBinary(s).Value != s || mpd.NewSegmentationUpid(s).Value != s {
				t.Failf("argument", "%q", s)
			}
			for _, s2 := range models.Strings() {
				if x := mpd.NewSCTE214ContentIdentifier(s, s2); x.Type != s || x.Value != s2 || x.AnyAttrs != nil {
					t.Failf("argument", "%q %q: %+v", s, s2, x)
				}
			}
		}
		for k := 0; k < 64; k++ {
			n := uint64(1)<<k - 1
			if x := mpd.NewBreakDuration(k%2 == 0, n); x.Duration != n || x.AutoReturn != (k%2 == 0) {
				t.Failf("argument", "%d: %+v", n, x)
			}
			if x := mpd.NewPrivateCommand(uint32(n)); x.Identifier != uint32(n) {
				t.Failf("argument", "%d: %+v", n, x)
			}
		}
		t.Eval(true)
		t.Trace()
	})
}

// scteSpaces checks that all elements below Signal or SpliceInfoSection are in
// the canonical namespace.
func scteSpaces(n *refxml.Node, in bool) string {
	in = in || n.Local == "Signal" || n.Local == "SpliceInfoSection"
	if in && n.Space != mpd.SCTE35Namespace {
		return fmt.Sprintf("%s is in namespace %q", n.Local, n.Space)
	}
	if n.Local == "Ext" {
		return ""
	}
	for _, k := range n.Elems() {
		if s := scteSpaces(k, in); s != "" {
			return s
		}
	}
	return ""
}

// scteSchemes classifies scheme identifiers.
func scteSchemes(c *core.Ctx) {
	three := []string{"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin"}
	is := map[string]bool{}
	for _, s := range three {
		is[s] = true
	}
	for _, base := range append([]string{"", "urn:scte:scte35:2014:xml", "urn:scte:scte35:2014:bin", "urn:scte:scte35:2013:xml+bin", "urn:mpeg:dash:event:2012"}, three...) {
		c.Case(func() string { return fmt.Sprintf("schemes near %q", base) }, func(t *core.T) {
			var d core.Distinct
			try := func(s string) {
				t.Step(1)
				d.Add(s)
				es := &mpd.EventStreamType{SchemeIdUri: mpd.AnyURI(s)}
				t.Eval(is[s])
				if es.IsSCTE35() != is[s] {
					t.Failf("scheme", "%q is classified as SCTE 35: %v", s, es.IsSCTE35())
				}
			}
			try(base)
			edit := func(s string, f func(string)) {
				for i := 0; i <= len(s); i++ {
					for ch := byte(0); ch < 128; ch++ {
						f(s[:i] + string(ch) + s[i:])
						if i < len(s) {
							f(s[:i] + string(ch) + s[i+1:])
						}
					}
					if i < len(s) {
						f(s[:i] + s[i+1:])
						f(s[:i])
						f(s[i:])
						f(s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:])
					}
					if i+1 < len(s) {
						f(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
					}
				}
			}
			edit(base, func(s string) {
				try(s)
				if c.Thorough() {
					edit(s, try)
				}
			})
			try(strings.ToUpper(base))
			for _, o := range three {
				try(base + o)
				try(base + " " + o)
				try(o + "#" + base)
			}
			// The other fields do not matter.
			for _, f := range models.Fields(reflect.TypeOf(mpd.EventStreamType{})) {
				if f.Flags["attr"] && f.Name != "SchemeIdUri" {
					for _, val := range models.Values(&f) {
						es := &mpd.EventStreamType{SchemeIdUri: mpd.AnyURI(base)}
						models.At(reflect.ValueOf(es).Elem(), f.Index).Set(val)
						t.Step(1)
						if es.IsSCTE35() != is[base] {
							t.Failf("scheme", "%q with %s is classified as SCTE 35: %v", base, f.Name, es.IsSCTE35())
						}
					}
				}
			}
			t.Trace()
			t.CountStates(&d)
		})
	}
}

// scteForms checks SpliceInfo for all combinations.
func scteForms(c *core.Ctx) {
	for i := 0; i < 12; i++ {
		c.Case(func() string { return fmt.Sprintf("forms %d", i) }, func(t *core.T) {
			ev := &mpd.EventType{}
			a, d := mpd.NewSpliceInfoSection(), mpd.NewSpliceInfoSection()
			var want *mpd.SpliceInfoSectionType
			if i%2 == 1 {
				ev.SpliceInfoSection = d
				want = d
			}
			switch i / 2 {
			case 1:
				ev.Signal = mpd.NewSignal()
			case 2:
				ev.Signal = mpd.NewSignal()
				ev.Signal.Binary = mpd.NewBinary("x")
			case 3:
				ev.Signal = mpd.NewSignal()
				ev.Signal.SpliceInfoSection = a
				want = a
			case 4:
				ev.Signal = mpd.NewSignal()
				ev.Signal.SpliceInfoSection = a
				ev.Signal.Binary = mpd.NewBinary("x")
				want = a
			case 5:
				ev.Signal = &mpd.SignalType{SpliceInfoSection: &mpd.SpliceInfoSectionType{}}
				want = ev.Signal.SpliceInfoSection
			}
			t.Step(1)
			t.Trace()
			t.Eval(want != nil)
			t.State(fmt.Sprint(i))
			if got := ev.SpliceInfo(); got != want {
				t.Failf("form", "SpliceInfo returns %p, want %p (Signal %v, direct %v)", got, want, ev.Signal, ev.SpliceInfoSection)
			}
		})
	}
}

// scteFindings shows the recorded findings.
func scteFindings(c *core.Ctx) {
	demo := func(sig, name, doc, want string) {
		c.Case(func() string { return name }, func(t *core.T) {
			m, err := mpd.ReadFromString(doc)
			if err != nil {
				t.Failf(sig+" (not read)", "%v", err)
				return
			}
			out, err := m.WriteToString("", false)
			if err != nil {
				t.Failf(sig+" (not written)", "%v", err)
				return
			}
			t.Step(2)
			t.Eval(true)
			t.Trace()
			t.State(doc)
			a, err := refxml.Parse(doc)
			if err != nil {
				panic(err)
			}
			r, err := refxml.Parse(out)
			if err != nil {
				if !strings.Contains(err.Error(), want) {
					sig += " (otherwise)"
				}
				t.Failf(sig, "%v\n%s\nread from %s", err, out, doc)
				return
			}
			x, y := leafOf(a), leafOf(r)
			if x.Space != y.Space || x.Local != y.Local || x.Text() != y.Text() {
				if y.Space != want || x.Local != y.Local || x.Text() != y.Text() {
					sig += " (otherwise)"
				}
				t.Failf(sig, "innermost element is {%s}%s, want {%s}%s\n%s\nread from %s", y.Space, y.Local, x.Space, x.Local, out, doc)
			}
		})
	}
	wrap := func(decl, s string) string {
		return "<MPD xmlns=\"" + vocab.DASH + "\"" + decl + " profiles=\"\"><Period><EventStream schemeIdUri=\"urn:scte:scte35:2013:xml\"><Event presentationTime=\"0\">" + s + "</Event></EventStream></Period></MPD>"
	}
	sc := " xmlns:scte35=\"" + vocab.SCTE + "\""
	demo("PrivateBytes below a prefixed element", "finding: PrivateBytes below a prefixed element",
		wrap("", "<scte35:SpliceInfoSection"+sc+"><scte35:PrivateCommand identifier=\"1\"><scte35:PrivateBytes>00</scte35:PrivateBytes></scte35:PrivateCommand></scte35:SpliceInfoSection>"), vocab.DASH)
	demo("extension content with a prefix declared on the manifest", "finding: extension content with a prefix of the manifest",
		wrap(" xmlns:e=\"urn:e\"", "<SpliceInfoSection xmlns=\""+vocab.SCTE+"\"><Ext><e:x/></Ext></SpliceInfoSection>"), "not declared")
	demo("extension content without prefix below a prefix declared on the manifest", "finding: unprefixed extension content",
		wrap(sc, "<scte35:SpliceInfoSection><scte35:Ext><x/></scte35:Ext></scte35:SpliceInfoSection>"), vocab.SCTE)
}

// leafOf is the first innermost element.
func leafOf(n *refxml.Node) *refxml.Node {
	for len(n.Elems()) > 0 {
		n = n.Elems()[0]
	}
	return n
}
