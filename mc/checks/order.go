package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// schemaOrder is, for each element kind whose content model is a sequence, the
// order of its children in DASH-MPD.xsd (ISO/IEC 23009-1, 6th edition) and in
// the SCTE 35 schema. Names in one string, separated by |, are alternatives of
// a choice, which have no order among each other. It is written down here from
// the schemas and does not follow the code.
var schemaOrder = map[string][]string{}

func init() {
	base := strings.Fields("FramePacking AudioChannelConfiguration ContentProtection OutputProtection EssentialProperty SupplementalProperty InbandEventStream " +
		"Switching RandomAccess GroupLabel Label ProducerReferenceTime ContentPopularityRate Resync SegmentSequenceProperties")
	descr := strings.Fields("Accessibility Role Rating Viewpoint")
	segBase := strings.Fields("Initialization RepresentationIndex FailoverContent")
	multi := append(segBase[:3:3], "SegmentTimeline", "BitstreamSwitching")
	cat := func(ls ...[]string) (out []string) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	add := func(kind string, ls ...[]string) { schemaOrder[kind] = cat(ls...) }
	f := strings.Fields
	add("MPD", f("ProgramInformation BaseURL Location PatchLocation RequestParam ServiceDescription InitializationSet InitializationGroup InitializationPresentation "+
		"ContentProtection Period Metrics EssentialProperty SupplementalProperty UTCTiming LeapSecondInformation ContentSteering"))
	add("Period", f("ImportedMPD BaseURL RequestParam SegmentBase SegmentList SegmentTemplate AssetIdentifier EventStream ServiceDescription ContentProtection "+
		"AdaptationSet Subset SupplementalProperty EmptyAdaptationSet GroupLabel Preselection"))
	add("AdaptationSetType", base, descr, f("ContentComponent BaseURL RequestParam SegmentBase SegmentList SegmentTemplate Representation"))
	add("RepresentationType", base, f("BaseURL ExtendedBandwidth SubRepresentation RequestParam SegmentBase SegmentList SegmentTemplate"))
	add("SubRepresentationType", base)
	add("PreselectionType", base, descr)
	add("InitializationSetType", base, descr)
	add("ContentComponentType", descr)
	add("SegmentBaseType", segBase)
	add("SegmentTemplateType", multi)
	add("SegmentListType", multi, f("SegmentURL"))
	add("SegmentTimelineType", f("Pattern S"))
	add("EventStreamType", f("Event BaseURL RequestParam EssentialProperty SupplementalProperty"))
	add("ServiceDescriptionType", f("Scope Latency PlaybackRate OperatingQuality OperatingBandwidth ContentSteering ClientDataReporting PlaybackRestrictions"))
	add("ProgramInformationType", f("Title Source Copyright"))
	add("MetricsType", f("Range Reporting"))
	add("SpliceInfoSectionType", f("Ext EncryptedPacket SpliceNull|SpliceSchedule|SpliceInsert|TimeSignal|BandwidthReservation|PrivateCommand "+
		"AvailDescriptor|DTMFDescriptor|SegmentationDescriptor|TimeDescriptor|AudioDescriptor|PrivateDescriptor"))
	add("SpliceScheduleType", f("Ext Event"))
	add("SpliceScheduleEventType", f("Ext Program|Component BreakDuration"))
	add("SpliceInsertType", f("Ext Program|Component BreakDuration"))
	add("SpliceInsertProgramType", f("Ext SpliceTime"))
	add("SpliceInsertComponentType", f("Ext SpliceTime"))
	add("TimeSignalType", f("Ext SpliceTime"))
	add("PrivateCommandType", f("Ext PrivateBytes"))
	add("PrivateDescriptorType", f("Ext PrivateBytes"))
	add("SegmentationDescriptorType", f("Ext DeliveryRestrictions SegmentationUpid Component"))
	add("AudioDescriptorType", f("Ext AudioChannel"))
}

// ranks is schemaOrder as numbers.
func ranks(kind string) map[string]int {
	r := map[string]int{}
	for i, s := range schemaOrder[kind] {
		for _, n := range strings.Split(s, "|") {
			r[n] = i + 1
		}
	}
	return r
}

// orders checks the order of children below each element.
type orders struct {
	b     *vocab.Builder
	ranks map[string]map[string]int
	pairs map[string]bool // kind with two different ranks seen next to each other
}

func newOrders(b *vocab.Builder) *orders {
	o := &orders{b: b, ranks: map[string]map[string]int{}, pairs: map[string]bool{}}
	for k := range schemaOrder {
		o.ranks[k] = ranks(k)
	}
	return o
}

func (o *orders) check(t *core.T, kind string, n *refxml.Node, path string) (ordered bool) {
	k := o.b.V.Kinds[kind]
	if k == nil {
		return false
	}
	r := o.ranks[kind]
	last, lastName := 0, ""
	for _, e := range n.Elems() {
		if x := r[e.Local]; x > 0 {
			if x < last {
				t.Failf("order in "+kind, "%s/%s: <%s> is written after <%s>", path, n.Local, e.Local, lastName)
				return
			}
			if last > 0 && x > last {
				ordered = true
				o.pairs[kind+" "+lastName+" "+e.Local] = true
			}
			last, lastName = x, e.Local
		}
		for i := range k.Kids {
			if k.Kids[i].Local == e.Local {
				if o.check(t, k.Kids[i].Kind, e, path+"/"+n.Local) {
					ordered = true
				}
				break
			}
		}
	}
	return
}

func (o *orders) text(t *core.T, kind, s string) bool {
	g, err := refxml.Parse(s)
	if err != nil {
		t.Failf("illformed", "%v\n%s", err, s)
		return false
	}
	ok := o.check(t, kind, g, "")
	if t.Failed() {
		t.Failf("document", "%s", s)
	}
	return ok
}

// model writes a manifest and its parts.
func (o *orders) model(t *core.T, m *mpd.MPD, parts bool) (ordered bool) {
	t.Step(1)
	s, err := m.WriteToString("", false)
	if err != nil {
		t.Failf("write", "%v", err)
		return
	}
	ordered = o.text(t, "MPD", s)
	if t.Failed() {
		return
	}
	t.State(s)
	if !parts {
		return
	}
	part := func(kind string, v any) {
		if t.Failed() {
			return
		}
		var sb bytes.Buffer
		t.Step(1)
		if _, err := mpd.WriteXML(v, &sb, "", false); err != nil {
			t.Failf("write", "%s: %v", kind, err)
			return
		}
		o.text(t, kind, sb.String())
	}
	for i, p := range m.Periods {
		if i > 1 {
			break
		}
		t.Step(1)
		s, err := p.WriteToString("")
		if err != nil {
			t.Failf("write", "Period: %v", err)
			return
		}
		o.text(t, "Period", s)
		for j, es := range p.EventStreams {
			if j < 2 {
				part("EventStreamType", es)
			}
		}
		if p.SegmentList != nil {
			part("SegmentListType", p.SegmentList)
		}
		if p.SegmentTemplate != nil {
			part("SegmentTemplateType", p.SegmentTemplate)
		}
		for j, a := range p.AdaptationSets {
			if j > 1 {
				break
			}
			part("AdaptationSetType", a)
			for q, r := range a.Representations {
				if q < 2 {
					part("RepresentationType", r)
				}
			}
		}
	}
	return
}

// reverse turns the children of all elements around.
func reverse(n *vocab.Node) {
	for i, j := 0, len(n.Items)-1; i < j; i, j = i+1, j-1 {
		n.Items[i], n.Items[j] = n.Items[j], n.Items[i]
	}
	for _, it := range n.Items {
		if it.Node != nil {
			reverse(it.Node)
		}
	}
}

// rotate moves the first n children of every element to its end.
func rotate(nd *vocab.Node, n int) {
	if l := len(nd.Items); l > 0 {
		x := n % l
		nd.Items = append(append([]vocab.Item(nil), nd.Items[x:]...), nd.Items[:x]...)
	}
	for _, it := range nd.Items {
		if it.Node != nil {
			rotate(it.Node, n)
		}
	}
}

func init() {
	register(&core.Check{
		ID: "C29",
		Rule: "one case per model of C02 (written as manifest, Period and parts) and per document with two (thorough three) kinds of children of an element in every order and interleaving, or with everything in it in several orders, read and written; " +
			"the children of every written element are compared with the sequence of the schema; non-trivial when some element has children of two kinds",
		Bounds: "models as C02; all 28 element kinds with a sequence at every position; all ordered pairs of children, in 4 interleavings (thorough also all ordered triples); complete documents to depth 4 (thorough 6), reversed and rotated",
		Assumptions: []string{
			"the table schemaOrder is the order of the MPEG DASH (6th edition) and SCTE 35 schemas; content that a schema leaves open (descriptors, content protection, event payloads) has no order"},
		Run: func(c *core.Ctx) {
			b := vocab.NewBuilder()
			o := newOrders(b)
			for k, l := range schemaOrder {
				kd := b.V.Kinds[k]
				if kd == nil {
					panic("order of unknown kind " + k)
				}
				r := ranks(k)
				for _, kid := range kd.Kids {
					if r[kid.Local] == 0 {
						panic(k + " has no order for " + kid.Local)
					}
				}
				if len(r) != len(kd.Kids) {
					panic(fmt.Sprintf("%s orders %v", k, l))
				}
			}
			eachModel(c, modelOpt(c), func(name, ns string, mk func() *mpd.MPD) {
				if !c.Mine() {
					return
				}
				c.Run(func() string { return "model " + name + " " + ns }, func(t *core.T) {
					ordered := o.model(t, mk(), true)
					t.Trace()
					t.Eval(ordered)
				})
			})
			one := func(name string, root *vocab.Node, parts bool) {
				c.Run(func() string { return "document " + name }, func(t *core.T) {
					doc := b.Serialize(root, vocab.Style{})
					m, err := mpd.ReadFromString(doc)
					t.Step(1)
					if err != nil {
						t.Failf("read", "%v\n%s", err, doc)
						return
					}
					ordered := o.model(t, m, parts)
					if !t.Failed() {
						t.Trace()
					}
					t.Eval(ordered)
				})
			}
			type place struct {
				kind, name string
				path       []vocab.Edge
			}
			places := []place{{"MPD", "MPD", nil}}
			for _, e := range b.V.Edges() {
				if schemaOrder[e.Kid.Kind] != nil {
					places = append(places, place{e.Kid.Kind, e.Parent + "/" + e.Kid.Local, append(b.V.Path(e.Parent), e)})
				}
			}
			for _, p := range places {
				kids := b.V.Kinds[p.kind].Kids
				word := func(w ...int) {
					if !c.Mine() {
						return
					}
					root, n := b.Doc(p.path)
					name := p.name + ":"
					count := map[int]int{}
					for i, x := range w {
						if count[x]++; count[x] > 1 && !kids[x].Multi {
							continue
						}
						k := n.Add(b.NewKid(n, &kids[x]))
						b.Full(k, i%2, i)
						name += " " + kids[x].Local
					}
					one(name, root, false)
				}
				for i := range kids {
					for j := range kids {
						if i == j {
							continue
						}
						word(i, j)
						word(i, j, i)
						word(i, i, j)
						word(i, j, j, i)
						if c.Thorough() {
							for k := range kids {
								if k != i && k != j {
									word(i, j, k)
								}
							}
						}
					}
				}
				for depth := 1; depth <= c.Pick(3, 5); depth++ {
					for turn := -1; turn < len(kids)+1; turn++ {
						if c.Done() {
							return
						}
						if depth > 2 && turn > 2 && !c.Thorough() {
							break
						}
						if !c.Mine() {
							continue
						}
						root, n := b.Doc(p.path)
						b.Full(n, depth, 3)
						if turn < 0 {
							reverse(root)
						} else {
							rotate(root, turn)
						}
						one(fmt.Sprintf("%s full %d turned %d", p.name, depth, turn), root, depth < 3)
					}
				}
			}
			c.Count("neighbours of different kind, per shard", int64(len(o.pairs)))
		},
	})
}
