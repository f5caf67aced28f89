package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// only compares a value with the fields that it should hold; all others have to
// be zero. Fields are named as in models.Fields; pointers are followed.
func only(v any, want map[string]any) string {
	rv := reflect.ValueOf(v).Elem()
	seen := 0
	for _, f := range models.Fields(rv.Type()) {
		fv := models.At(rv, f.Index)
		w, ok := want[f.Name]
		if !ok {
			w, ok = want[f.Name[strings.LastIndexByte(f.Name, '.')+1:]]
		}
		if !ok {
			if !fv.IsZero() && !(fv.Kind() == reflect.Slice && fv.Len() == 0) {
				return fmt.Sprintf("%s is %v, but was not given", f.Name, show(fv))
			}
			continue
		}
		seen++
		if fv.Kind() == reflect.Pointer {
			if fv.IsNil() {
				return fmt.Sprintf("%s is nil, want %v", f.Name, w)
			}
			fv = fv.Elem()
		}
		if got := show(fv); got != fmt.Sprint(w) {
			return fmt.Sprintf("%s is %s, want %v", f.Name, got, w)
		}
	}
	if seen != len(want) {
		return fmt.Sprintf("only %d of the fields %v exist", seen, want)
	}
	return ""
}

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return strconv.FormatInt(v.Int(), 10)
	}
	return fmt.Sprint(v.Interface())
}

// want is an expected element.
type want struct {
	name  string
	attrs map[string]string
	text  string
	kids  []*want
}

func (w *want) add(k *want) *want {
	w.kids = append(w.kids, k)
	return k
}

func el(name string, attrs ...string) *want {
	w := &want{name: name, attrs: map[string]string{}}
	for i := 0; i < len(attrs); i += 2 {
		w.attrs[attrs[i]] = attrs[i+1]
	}
	return w
}

// diff compares a written element with the expected one: attributes that are not
// expected may only say zero, children may be grouped by name.
func (w *want) diff(n *refxml.Node) string {
	if n.Local != w.name {
		return fmt.Sprintf("element %s, want %s", n.Local, w.name)
	}
	for _, k := range core.SortedKeys(w.attrs) {
		found := ""
		for _, a := range n.Attrs {
			if a.Local == k {
				found = a.Value
			}
		}
		if k == "start" || k == "duration" {
			_, a := refDur(found)
			_, b := refDur(w.attrs[k])
			if a != nil && a.Cmp(b) == 0 {
				continue
			}
		}
		if found != w.attrs[k] {
			return fmt.Sprintf("%s@%s is %q, want %q", w.name, k, found, w.attrs[k])
		}
	}
	for _, a := range n.Attrs {
		if _, ok := w.attrs[a.Local]; !ok && a.Value != "" && a.Value != "0" && a.Value != "false" {
			return fmt.Sprintf("%s@%s is %q, but was not given", w.name, a.Local, a.Value)
		}
	}
	kids := n.Elems()
	if len(kids) != len(w.kids) {
		return fmt.Sprintf("%s has %d children, want %d", w.name, len(kids), len(w.kids))
	}
	if len(kids) == 0 && n.Text() != w.text {
		return fmt.Sprintf("%s is %q, want %q", w.name, n.Text(), w.text)
	}
	a := append([]*refxml.Node(nil), kids...)
	b := append([]*want(nil), w.kids...)
	sort.SliceStable(a, func(i, j int) bool { return a[i].Local < a[j].Local })
	sort.SliceStable(b, func(i, j int) bool { return b[i].name < b[j].name })
	for i := range a {
		if d := b[i].diff(a[i]); d != "" {
			return w.name + "/" + d
		}
	}
	return ""
}

// building is a manifest under construction with the expected document.
type building struct {
	m    *mpd.MPD
	root *want
	p    *mpd.Period
	wp   *want
	a    *mpd.AdaptationSetType
	wa   *want
	r    *mpd.RepresentationType
	wr   *want
	n    int
}

type buildOp struct {
	name string
	f    func(b *building) bool
}

func buildOps() []buildOp {
	id := func(b *building, s string) string { b.n++; return fmt.Sprintf("%s%d", s, b.n) }
	rep := func(b *building, r *mpd.RepresentationType, w *want) bool {
		b.a.AppendRepresentation(r)
		b.r, b.wr = r, b.wa.add(w)
		return true
	}
	profile := func(p string) func(b *building) bool {
		return func(b *building) bool {
			b.m.Profiles = b.m.Profiles.AddProfile(p)
			l := strings.Split(b.root.attrs["profiles"], ",")
			if l[0] == "" {
				l = nil
			}
			if indexOf(l, p) < 0 {
				l = append(l, p)
			}
			b.root.attrs["profiles"] = strings.Join(l, ",")
			return true
		}
	}
	return []buildOp{
		{"period", func(b *building) bool {
			b.p = mpd.NewPeriod()
			b.p.Id = id(b, "p")
			b.p.Duration = mpd.Seconds2DurPtr(10 * b.n)
			b.p.Start = mpd.Seconds2DurPtrFloat64(float64(b.n) + 0.25)
			b.m.AppendPeriod(b.p)
			b.wp = b.root.add(el("Period", "id", b.p.Id, "duration", fmt.Sprintf("PT%dS", 10*b.n), "start", fmt.Sprintf("PT%d.25S", b.n)))
			b.a, b.r = nil, nil
			return true
		}},
		{"adaptation set with params", func(b *building) bool {
			if b.p == nil {
				return false
			}
			b.a = mpd.NewAdaptationSetWithParams("video", "video/mp4", true, 1)
			b.p.AppendAdaptationSet(b.a)
			b.wa = b.wp.add(el("AdaptationSet", "contentType", "video", "mimeType", "video/mp4", "segmentAlignment", "true", "startWithSAP", "1"))
			b.r = nil
			return true
		}},
		{"adaptation set", func(b *building) bool {
			if b.p == nil {
				return false
			}
			b.a = mpd.NewAdaptationSet()
			b.a.Lang = id(b, "l")
			b.p.AppendAdaptationSet(b.a)
			b.wa = b.wp.add(el("AdaptationSet", "lang", b.a.Lang))
			b.r = nil
			return true
		}},
		{"representation", func(b *building) bool {
			if b.a == nil {
				return false
			}
			i := id(b, "r")
			return rep(b, mpd.NewRepresentationWithID(i, "c&d", "m<n", b.n*1000), el("Representation", "id", i, "codecs", "c&d", "mimeType", "m<n", "bandwidth", fmt.Sprint(b.n*1000)))
		}},
		{"audio representation", func(b *building) bool {
			if b.a == nil {
				return false
			}
			i := id(b, "a")
			return rep(b, mpd.NewAudioRepresentation(i, "mp4a.40.2", "audio/mp4", 64000, 48000), el("Representation", "id", i, "codecs", "mp4a.40.2", "mimeType", "audio/mp4", "bandwidth", "64000", "audioSamplingRate", "48000"))
		}},
		{"video representation", func(b *building) bool {
			if b.a == nil {
				return false
			}
			i := id(b, "v")
			return rep(b, mpd.NewVideoRepresentation(i, "avc1", "video/mp4", "30000/1001", 128000, 640, 360), el("Representation", "id", i, "codecs", "avc1", "mimeType", "video/mp4", "bandwidth", "128000", "frameRate", "30000/1001", "width", "640", "height", "360"))
		}},
		{"subrepresentation", func(b *building) bool {
			if b.r == nil {
				return false
			}
			s := mpd.NewSubRepresentation()
			s.ContentComponent = mpd.Ptr(mpd.StringVectorType(id(b, "c")))
			b.r.AppendSubRepresentation(s)
			b.wr.add(el("SubRepresentation", "contentComponent", string(*s.ContentComponent)))
			return true
		}},
		{"segment base", func(b *building) bool {
			if b.r == nil || b.r.SegmentBase != nil {
				return false
			}
			b.n++
			b.r.SetSegmentBase(uint32(700+b.n), 300, b.n%2 == 0)
			sb := b.wr.add(el("SegmentBase", "indexRange", fmt.Sprintf("%d-%d", 700+b.n, 999+b.n)))
			if b.n%2 == 0 {
				sb.attrs["indexRangeExact"] = "true"
			}
			sb.add(el("Initialization", "range", fmt.Sprintf("0-%d", 699+b.n)))
			return true
		}},
		{"segment template", func(b *building) bool {
			if b.a == nil || b.a.SegmentTemplate != nil {
				return false
			}
			st := mpd.NewSegmentTemplate()
			st.SetTimescale(90000)
			st.Media = "$RepresentationID$/$Number$.m4s"
			st.SegmentTimeline = mpd.NewSegmentTimeline()
			st.SegmentTimeline.S = append(st.SegmentTimeline.S, &mpd.S{D: 1000, R: 4})
			b.a.SegmentTemplate = st
			b.wa.add(el("SegmentTemplate", "timescale", "90000", "media", string(st.Media))).add(el("SegmentTimeline")).add(el("S", "d", "1000", "r", "4"))
			return true
		}},
		{"base url", func(b *building) bool {
			u := id(b, "http://x/?a&b=")
			k := el("BaseURL")
			k.text = u
			if b.p == nil {
				b.m.BaseURL = append(b.m.BaseURL, mpd.NewBaseURL(u))
				b.root.add(k)
			} else {
				b.p.BaseURLs = append(b.p.BaseURLs, mpd.NewBaseURL(u))
				b.wp.add(k)
			}
			return true
		}},
		{"role", func(b *building) bool {
			if b.a == nil {
				return false
			}
			v := id(b, "role")
			b.a.Roles = append(b.a.Roles, mpd.NewRole(v))
			b.wa.add(el("Role", "schemeIdUri", "urn:mpeg:dash:role:2011", "value", v))
			return true
		}},
		{"descriptor", func(b *building) bool {
			v := id(b, "v")
			b.m.EssentialProperties = append(b.m.EssentialProperties, mpd.NewDescriptor("urn:s", v, "i"+v))
			b.root.add(el("EssentialProperty", "schemeIdUri", "urn:s", "value", v, "id", "i"+v))
			return true
		}},
		{"content identifier", func(b *building) bool {
			if b.p == nil || b.p.AssetIdentifier != nil {
				return false
			}
			d := mpd.NewDescriptor(mpd.SCTE214SchemeIdAssetIdUpid, "", "")
			v := id(b, "x")
			d.SCTE214ContentIdentifiers = append(d.SCTE214ContentIdentifiers, mpd.NewSCTE214ContentIdentifier("URI", v))
			b.p.AssetIdentifier = d
			b.wp.add(el("AssetIdentifier", "schemeIdUri", "urn:scte:dash:asset-id:upid:2015")).add(el("ContentIdentifier", "type", "URI", "value", v))
			return true
		}},
		{"splice event", func(b *building) bool {
			if b.p == nil {
				return false
			}
			v := id(b, "AAA")
			s := mpd.NewSignal()
			s.Binary = mpd.NewBinary(v)
			es := &mpd.EventStreamType{SchemeIdUri: mpd.SCTE35SchemeIdXMLBin, Events: []*mpd.EventType{{Signal: s}}}
			b.p.EventStreams = append(b.p.EventStreams, es)
			k := el("Binary")
			k.text = v
			b.wp.add(el("EventStream", "schemeIdUri", "urn:scte:scte35:2014:xml+bin")).add(el("Event")).add(el("Signal")).add(k)
			return true
		}},
		{"profile a", profile("urn:a")},
		{"profile ab", profile("urn:a:b")},
		{"profile b", profile("b")},
	}
}

// constants are the values of the standards.
var constants = [][2]string{
	{mpd.STATIC_TYPE, "static"}, {mpd.DYNAMIC_TYPE, "dynamic"}, {mpd.LIST_TYPE, "list"}, {mpd.DASH_NAMESPACE, "urn:mpeg:dash:schema:mpd:2011"},
	{mpd.PROFILE_FULL, "urn:mpeg:dash:profile:full:2011"}, {mpd.PROFILE_ONDEMAND, "urn:mpeg:dash:profile:isoff-on-demand:2011"}, {mpd.PROFILE_LIVE, "urn:mpeg:dash:profile:isoff-live:2011"},
	{mpd.PROFILE_MAIN, "urn:mpeg:dash:profile:isoff-main:2011"}, {mpd.PROFILE_MPEG_TS_MAIN, "urn:mpeg:dash:profile:mp2t-main:2011"}, {mpd.PROFILE_MPEG_TS_SIMPLE, "urn:mpeg:dash:profile:mp2t-simple:2011"},
	{mpd.PROFILE_EXT_LIVE, "urn:mpeg:dash:profile:isoff-ext-live:2014"}, {mpd.PROFILE_EXT_ONDEMAND, "urn:mpeg:dash:profile:isoff-ext-on-demand:2014"}, {mpd.PROFILE_COMMON, "urn:mpeg:dash:profile:isoff-common:2014"},
	{mpd.PROFILE_BROADCAST, "urn:mpeg:dash:profile:isoff-broadcast:2015"}, {mpd.PROFILE_CMAF, "urn:mpeg:dash:profile:cmaf:2019"}, {mpd.PROFILE_ADVANCED_LINEAR, "urn:mpeg:dash:profile:advanced-linear:2025"},
	{mpd.PROFILE_LIST, "urn:mpeg:dash:profile:list:2024"}, {mpd.PROFILE_SINGLE_PERIOD, "urn:mpeg:dash:profile:sps:2024"},
	{mpd.DRM_PLAYREADY, "urn:uuid:9a04f079-9840-4286-ab92-e65be0885f95"}, {mpd.DRM_WIDEVINE, "urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed"}, {mpd.DRM_CLEAR_KEY_DASHIF, "urn:uuid:e2719d58-a985-b3c9-781a-b030af78d30e"}, {strings.ToLower(mpd.DRM_MARLIN), "urn:uuid:5e629af5-38da-4063-8977-97ffbd9902d4"},
	{mpd.MIME_TYPE_VIDEO_MP4, "video/mp4"}, {mpd.MIME_TYPE_AUDIO_MP4, "audio/mp4"}, {mpd.MIME_TYPE_SUBTITLE_VTT, "text/vtt"}, {mpd.MIME_TYPE_TTML, "application/ttml+xml"},
	{mpd.AUDIO_CHANNEL_CONFIGURATION_CICP, "urn:mpeg:mpegB:cicp:ChannelConfiguration"}, {mpd.AUDIO_CHANNEL_CONFIGURATION_MPEG_DASH, "urn:mpeg:dash:23003:3:audio_channel_configuration:2011"},
	{mpd.AUDIO_CHANNEL_CONFIGURATION_DOLBY, "tag:dolby.com,2014:dash:audio_channel_configuration:2011"}, {mpd.AUDIO_CHANNEL_CONFIGURATION_DOLBY_2015, "tag:dolby.com,2015:dash:audio_channel_configuration:2015"},
	{mpd.SCTE35Namespace, "http://www.scte.org/schemas/35"}, {mpd.SCTE35Namespace2016, "http://www.scte.org/schemas/35/2016"},
	{mpd.SCTE35SchemeIdXML, "urn:scte:scte35:2013:xml"}, {mpd.SCTE35SchemeIdXMLBin, "urn:scte:scte35:2014:xml+bin"}, {mpd.SCTE35SchemeIdBin, "urn:scte:scte35:2013:bin"},
	{mpd.SCTE214Namespace, "urn:scte:dash:scte214-extensions"}, {mpd.SCTE214SchemeIdAssetIdUpid, "urn:scte:dash:asset-id:upid:2015"}, {mpd.SCTE214SchemeIdCEA608, "urn:scte:dash:cc:cea-608:2015"}, {mpd.SCTE214SchemeIdCEA708, "urn:scte:dash:cc:cea-708:2015"},
	{mpd.UrlParameterNamespace2014, "urn:mpeg:dash:schema:urlparam:2014"}, {mpd.UrlParameterNamespace2016, "urn:mpeg:dash:schema:urlparam:2016"}, {mpd.UrlParameterNamespace2025, "urn:mpeg:dash:schema:urlparam:2025"},
}

func init() {
	register(&core.Check{
		ID:          "C23",
		Rule:        "one case per constructor and argument block, or pair of first builder operations; a transition is a constructor or builder call; each built value is compared field by field with its arguments, each built manifest is written and compared with an independently built document, and read back; non-trivial when an argument is not zero",
		Bounds:      "every constructor over a lattice of arguments (empty, markup and non-ASCII strings, 0, 1, boundaries up to 2^32-1); all sequences of up to 6 (thorough 7) out of 17 builder operations; AddProfile sequences of up to 6 over 5 profiles that contain each other, and lists of up to 260 (thorough 2,100) profiles; methods on copies that share parts; SetSegmentBase and SetTimescale on a boundary lattice; durations from seconds on a lattice",
		Assumptions: []string{"numbers given to constructors fit the 32-bit fields of the model", "profiles are not empty and contain no comma"},
		Run:         runBuilders,
	})
}

func runBuilders(c *core.Ctx) {
	strs := []string{"", "x", "a b", "<&>\"'", "é漢😀", "avc1.64001e,mp4a.40.2", " lead"}
	ints := []int{0, 1, 2, 9, 10, 255, 256, 65535, 65536, 999999, 1 << 31, 1<<31 - 1, math.MaxUint32 - 1, math.MaxUint32}
	expect := func(t *core.T, what string, v any, w map[string]any) bool {
		t.Step(1)
		t.Trace()
		t.Eval(len(w) > 0)
		for k, x := range w {
			if x == "" || x == 0 || x == false {
				delete(w, k)
			}
		}
		if d := only(v, w); d != "" {
			t.Failf("value", "%s: %s", what, d)
			return false
		}
		return true
	}
	type m = map[string]any
	for _, id := range strs {
		id := id
		c.Case(func() string { return fmt.Sprintf("constructors %q", id) }, func(t *core.T) {
			t.State(id)
			for _, s2 := range strs {
				for _, s3 := range strs {
					if !expect(t, "NewDescriptor", mpd.NewDescriptor(id, s2, s3), m{"SchemeIdUri": id, "Value": s2, "Id": s3}) {
						return
					}
					for _, n := range ints {
						for _, n2 := range ints {
							if !expect(t, "NewAudioRepresentation", mpd.NewAudioRepresentation(id, s2, s3, n, n2), m{"Id": id, "Codecs": s2, "MimeType": s3, "Bandwidth": n, "AudioSamplingRate": fmt.Sprint(n2)}) {
								return
							}
							if !expect(t, "NewVideoRepresentation", mpd.NewVideoRepresentation(id, s2, s3, s2+s3, n, n2, n), m{"Id": id, "Codecs": s2, "MimeType": s3, "FrameRate": s2 + s3, "Bandwidth": n, "Width": n2, "Height": n}) {
								return
							}
						}
						if !expect(t, "NewRepresentationWithID", mpd.NewRepresentationWithID(id, s2, s3, n), m{"Id": id, "Codecs": s2, "MimeType": s3, "Bandwidth": n}) {
							return
						}
					}
				}
				if !expect(t, "NewSCTE214ContentIdentifier", mpd.NewSCTE214ContentIdentifier(id, s2), m{"Type": id, "Value": s2}) {
					return
				}
				for _, n := range ints {
					for _, b := range []bool{false, true} {
						if !expect(t, "NewAdaptationSetWithParams", mpd.NewAdaptationSetWithParams(id, s2, b, uint32(n)), m{"ContentType": id, "MimeType": s2, "SegmentAlignment": b, "StartWithSAP": n}) {
							return
						}
					}
				}
			}
			_ = expect(t, "NewBaseURL", mpd.NewBaseURL(id), m{"Value": id}) &&
				expect(t, "NewRole", mpd.NewRole(id), m{"SchemeIdUri": "urn:mpeg:dash:role:2011", "Value": id}) &&
				expect(t, "NewBinary", mpd.NewBinary(id), m{"Value": id}) &&
				expect(t, "NewSegmentationUpid", mpd.NewSegmentationUpid(id), m{"Value": id})
			mm := mpd.NewMPD(id)
			if mm.Type == nil || *mm.Type != id || mm.XMLNs != "urn:mpeg:dash:schema:mpd:2011" || mm.GetType() != id {
				t.Failf("value", "NewMPD(%q): %+v", id, mm)
			}
			mm.Type = nil
			if mm.GetType() != "static" {
				t.Failf("value", "GetType without type: %q", mm.GetType())
			}
			if d := only(mm, m{}); d != "" {
				t.Failf("value", "NewMPD: %s", d)
			}
		})
	}
	c.Case(func() string { return "empty constructors and numbers" }, func(t *core.T) {
		for _, v := range []any{mpd.NewPeriod(), mpd.NewAdaptationSet(), mpd.NewRepresentation(), mpd.NewSubRepresentation(), mpd.NewSegmentTemplate(), mpd.NewSegmentList(), mpd.NewSegmentTimeline(),
			mpd.NewInitializationSet(), mpd.NewPreselection(), mpd.NewContentProtection(), mpd.NewProducerReferenceTime(), mpd.NewUIntVWithID(), mpd.NewSignal(), mpd.NewSpliceInfoSection(), mpd.NewSpliceNull(),
			mpd.NewSpliceSchedule(), mpd.NewSpliceInsert(), mpd.NewTimeSignal(), mpd.NewBandwidthReservation(), mpd.NewSpliceTime(), mpd.NewSegmentationDescriptor()} {
			if !expect(t, fmt.Sprintf("new %T", v), v, m{}) {
				return
			}
		}
		for _, n := range ints {
			for _, b := range []bool{false, true} {
				if !expect(t, "NewBreakDuration", mpd.NewBreakDuration(b, uint64(n)*3), m{"AutoReturn": b, "Duration": n * 3}) {
					return
				}
			}
			if !expect(t, "NewPrivateCommand", mpd.NewPrivateCommand(uint32(n)), m{"Identifier": n}) {
				return
			}
		}
		if d := mpd.NewBreakDuration(true, math.MaxUint64); d.Duration != math.MaxUint64 {
			t.Failf("value", "NewBreakDuration: %d", d.Duration)
		}
		for _, k := range constants {
			t.Step(1)
			if k[0] != k[1] {
				t.Failf("constant", "constant %q should be %q", k[0], k[1])
			}
		}
	})
	// Segment base and timescale.
	for _, exact := range []bool{false, true} {
		exact := exact
		c.Case(func() string { return fmt.Sprintf("SetSegmentBase %v", exact) }, func(t *core.T) {
			for _, a := range ints[1:] {
				for _, b := range ints[1:] {
					if uint64(a)+uint64(b) > math.MaxUint32 {
						continue
					}
					for _, old := range []*mpd.SegmentBaseType{nil, {Timescale: mpd.Ptr(uint32(7)), IndexRangeExact: true}} {
						r := mpd.NewRepresentation()
						r.SegmentBase = old
						r.SetSegmentBase(uint32(a), uint32(b), exact)
						t.Step(1)
						t.Trace()
						t.Eval(true)
						w := m{"IndexRange": fmt.Sprintf("%d-%d", a, a+b-1), "IndexRangeExact": exact}
						if !exact {
							delete(w, "IndexRangeExact")
						}
						sb := r.SegmentBase
						if sb == nil || sb.Initialization == nil {
							t.Failf("segmentbase", "no initialization for %d, %d", a, b)
							return
						}
						if d := only(sb.Initialization, m{"Range": fmt.Sprintf("0-%d", a-1)}); d != "" {
							t.Failf("segmentbase", "SetSegmentBase(%d, %d, %v): %s", a, b, exact, d)
							return
						}
						sb.Initialization = nil
						if d := only(sb, w); d != "" {
							t.Failf("segmentbase", "SetSegmentBase(%d, %d, %v): %s", a, b, exact, d)
							return
						}
						r.SegmentBase = nil
						if d := only(r, m{}); d != "" {
							t.Failf("segmentbase", "SetSegmentBase(%d, %d, %v) changes %s", a, b, exact, d)
							return
						}
					}
				}
			}
			t.State(fmt.Sprint(exact))
		})
	}
	c.Case(func() string { return "SetTimescale" }, func(t *core.T) {
		for _, a := range ints {
			for _, b := range ints {
				sb := &mpd.SegmentBaseType{}
				if sb.GetTimescale() != 1 {
					t.Failf("timescale", "unset timescale is %d", sb.GetTimescale())
				}
				for _, x := range []int{a, b} {
					sb.SetTimescale(uint32(x))
					t.Step(1)
					t.Eval(true)
					if sb.GetTimescale() != uint32(x) || x == 1 && sb.Timescale != nil {
						t.Failf("timescale", "timescale %d after SetTimescale(%d), stored as %v", sb.GetTimescale(), x, sb.Timescale)
						return
					}
				}
			}
		}
	})
	// Profiles.
	profs := []string{"urn:a", "urn:a:b", "a", "urn", "b", "A", "URN:a", "a ", " b", "é", "É"}
	c.Case(func() string { return "AddProfile" }, func(t *core.T) {
		var rec func(l mpd.ListOfProfilesType, have []string)
		rec = func(l mpd.ListOfProfilesType, have []string) {
			if string(l) != strings.Join(have, ",") {
				t.Failf("profiles", "list %q, want %v", l, have)
			}
			t.State(string(l))
			t.Eval(l != "")
			if len(have) == 5 || t.Failed() {
				return
			}
			for _, p := range profs {
				t.Step(1)
				h := have
				if indexOf(h, p) < 0 {
					h = append(h[:len(h):len(h)], p)
				} else if l.AddProfile(p) != l {
					t.Failf("profiles", "%q added again to %q: %q", p, l, l.AddProfile(p))
				}
				if len(h) > len(have) {
					rec(l.AddProfile(p), h)
				}
			}
		}
		rec("", nil)
		// Lists that were read, with entries that repeat or differ in case.
		for n := 1; n <= 4; n++ {
			for k := 0; k < 4*4*4*4; k++ {
				var have []string
				x := k
				for i := 0; i < n; i++ {
					have = append(have, []string{"urn:a", "URN:A", "b", "urn:a:b"}[x%4])
					x /= 4
				}
				if x > 0 {
					break
				}
				l := mpd.ListOfProfilesType(strings.Join(have, ","))
				for _, p := range append([]string{"B", "Urn:a", "a:b", "n:a,b"}, have...) {
					t.Step(1)
					w := string(l)
					if indexOf(have, p) < 0 {
						w += "," + p
					}
					if g := l.AddProfile(p); string(g) != w {
						t.Failf("profiles", "%q added to %q: %q", p, l, g)
					}
				}
			}
		}
	})
	c.Case(func() string { return "long lists of profiles" }, func(t *core.T) {
		for _, n := range sizes(c.Pick(260, 2100))[1:] {
			var have []string
			for i := 0; i < n; i++ {
				have = append(have, fmt.Sprintf("urn:p:%d", i))
			}
			l := mpd.ListOfProfilesType(strings.Join(have, ","))
			for _, p := range append([]string{"urn:p:x", "urn:p", "0"}, have...) {
				w := string(l)
				if indexOf(have, p) < 0 {
					w += "," + p
				}
				if g := l.AddProfile(p); string(g) != w {
					t.Failf("profiles", "%q added to %d profiles: %q", p, n, g)
					return
				}
				t.Step(1)
			}
			t.State(string(l))
			t.Eval(true)
		}
		t.Trace()
	})
	// The methods change the value that they are called on and nothing that it
	// shares with a copy.
	c.Case(func() string { return "values with shared parts" }, func(t *core.T) {
		for _, a := range ints[1:] {
			for _, b := range ints[1:] {
				if a == 0 || b == 0 || uint64(a)+uint64(b) > math.MaxUint32 {
					continue
				}
				ts := uint32(a)
				one := &mpd.SegmentTemplateType{}
				one.Timescale = &ts
				two := *one
				two.SetTimescale(uint32(b))
				t.Step(1)
				if one.GetTimescale() != uint32(a) || ts != uint32(a) || two.GetTimescale() != uint32(b) {
					t.Failf("shared", "SetTimescale(%d) on a copy changes %d to %d", b, a, one.GetTimescale())
				}
				r1 := mpd.NewRepresentation()
				r1.SetSegmentBase(uint32(a), uint32(b), true)
				old := *r1.SegmentBase
				oldInit := *r1.SegmentBase.Initialization
				r2 := *r1
				r2.SetSegmentBase(77, 88, false)
				t.Step(2)
				if !reflect.DeepEqual(*r1.SegmentBase, old) || *r1.SegmentBase.Initialization != oldInit {
					t.Failf("shared", "SetSegmentBase on a copy changes %v to %v", old, *r1.SegmentBase)
				}
				t.Eval(true)
			}
		}
		t.State("shared")
		t.Trace()
	})
	// Durations from seconds.
	c.Case(func() string { return "seconds" }, func(t *core.T) {
		for _, s := range []int{0, 1, -1, 59, 60, 61, 3599, 3600, 86400, 1 << 31, 1<<32 + 1, 9223372036, -9223372036, 9223372035, -9223372035, 4611686019, 4611686021, 8999999999, 1e9} {
			if d := mpd.Seconds2DurPtr(s); int64(*d) != int64(s)*1e9 {
				t.Failf("seconds", "Seconds2DurPtr(%d) = %d", s, int64(*d))
			}
			t.Step(1)
		}
		check := func(f float64) {
			t.Step(1)
			t.Trace()
			t.Eval(f != 0)
			got := new(big.Rat).SetFrac64(int64(*mpd.Seconds2DurPtrFloat64(f)), 1000)
			want := new(big.Rat).Mul(new(big.Rat).SetFloat64(f), big.NewRat(1000000, 1))
			diff := new(big.Rat).Sub(got, want)
			diff.Abs(diff)
			tol, _ := want.Float64()
			lim := new(big.Rat).SetFloat64(0.5 + math.Abs(tol)*0x1p-51)
			if !got.IsInt() || diff.Cmp(lim) > 0 {
				t.Failf("seconds", "Seconds2DurPtrFloat64(%v) = %s µs", f, got.FloatString(3))
			}
		}
		for k := -3000; k <= 3000; k++ {
			for _, base := range []float64{0, 1, 59, 60, 3600, 86400, 1e6, 1e9} {
				check(base + float64(k)/1000)
				check(base + float64(k)/1e6)
				check(-base + float64(k)/1e5)
				check(base + float64(k)/48000)
				check(base + float64(k)*1001/30000)
				check(math.Nextafter(base, float64(k)))
			}
		}
	})
	// Sequences of builder operations.
	ops := buildOps()
	depth := c.Pick(6, 7)
	for i := range ops {
		for j := range ops {
			i, j := i, j
			c.Case(func() string { return fmt.Sprintf("%s, %s, …", ops[i].name, ops[j].name) }, func(t *core.T) {
				var ds core.Distinct
				var rec func(seq []int)
				run := func(seq []int) bool {
					b := &building{m: mpd.NewMPD("static"), root: el("MPD", "type", "static")}
					for _, o := range seq {
						t.Step(1)
						if !ops[o].f(b) {
							return false
						}
					}
					s, err := b.m.WriteToString("", true)
					if err != nil {
						t.Failf("write", "%v", err)
						return false
					}
					ds.Add(s)
					n, err := refxml.Parse(s)
					if err != nil {
						t.Failf("written", "%v\n%s", err, s)
						return false
					}
					if d := b.root.diff(n); d != "" {
						t.Failf("written", "%s\n%s", d, s)
						return false
					}
					m2, err := mpd.ReadFromString(s)
					if err != nil {
						t.Failf("read", "%v\n%s", err, s)
						return false
					}
					if d := models.Equal(b.m, m2); d != "" {
						t.Failf("read", "%s\n%s", d, s)
						return false
					}
					t.Trace()
					t.Eval(true)
					return true
				}
				rec = func(seq []int) {
					if t.Failed() || !run(seq) || len(seq) == depth {
						return
					}
					for k := range ops {
						rec(append(seq[:len(seq):len(seq)], k))
					}
				}
				rec([]int{i, j})
				t.CountStates(&ds)
			})
		}
	}
}
