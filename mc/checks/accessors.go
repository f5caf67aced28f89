package checks

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// refExpand replaces the two identifiers in one pass from left to right.
func refExpand(tpl, id string, bw uint32) string {
	var sb strings.Builder
	for len(tpl) > 0 {
		if rest, ok := strings.CutPrefix(tpl, "$RepresentationID$"); ok {
			sb.WriteString(id)
			tpl = rest
		} else if rest, ok := strings.CutPrefix(tpl, "$Bandwidth$"); ok {
			fmt.Fprintf(&sb, "%d", bw)
			tpl = rest
		} else {
			sb.WriteByte(tpl[0])
			tpl = tpl[1:]
		}
	}
	return sb.String()
}

func init() {
	register(&core.Check{
		ID:          "C16",
		Rule:        "one case per chunk of templates or presence combination; built and read models are queried and compared with a reference resolution; non-trivial when something is inherited or replaced",
		Bounds:      "all presence combinations of template, MIME type, codecs and protections on Representation, AdaptationSet and Period; all templates of up to 4 (thorough 5) pieces from 18; ids and bandwidths at boundaries; all sequences of 4 (thorough 5) of 41 changes to one family of two AdaptationSets and a Representation, with queries after each; all timescales around powers of two",
		Assumptions: []string{"identifiers adjacent to each other share no dollar sign: $RepresentationID$$Bandwidth$ are two identifiers; ids that contain identifiers themselves are excluded"},
		Run: func(c *core.Ctx) {
			pieces := []string{"$RepresentationID$", "$Bandwidth$", "$Number$", "$Time$", "$Number%05d$", "$SubNumber$", "$Representation$", "$representationid$", "$RepresentationID", "Bandwidth$", "/", "a", "$", "é", "", "%d", "\\1", "RepresentationID"}
			ids := []string{"v1", "", "a b", "V300/x", "é", strings.Repeat("x", 300), "%s", "\\", "1"}
			bws := []uint32{0, 1, 128000, 1 << 31, math.MaxInt32, math.MaxUint32}
			// pieces whose joins create an ambiguous dollar sign are resolved by the reference, too.
			maxLen := c.Pick(4, 5)
			var rec func(pre []int, n int)
			rec = func(pre []int, n int) {
				if n == 0 {
					p := append([]int(nil), pre...)
					c.Case(func() string { return fmt.Sprintf("templates %v*", p) }, func(t *core.T) {
						k := 0
						var ds core.Distinct
						var inner func(s string, n int)
						inner = func(s string, n int) {
							k++
							id, bw := ids[k%len(ids)], bws[k/3%len(bws)]
							if n >= maxLen-1 && k%4 != 0 || t.Failed() {
								// Long templates: a rotating id.
								id = "v1"
							}
							as := &mpd.AdaptationSetType{}
							r := &mpd.RepresentationType{Id: id, Bandwidth: bw}
							as.AppendRepresentation(r)
							st := &mpd.SegmentTemplateType{Media: s, Initialization: s + "i"}
							if k%2 == 0 {
								as.SegmentTemplate = st
							} else {
								r.SegmentTemplate = st
							}
							ambiguous := dollarAmbiguous(s)
							if g, err := r.GetMedia(); err != nil || !ambiguous && g != refExpand(s, id, bw) {
								t.Failf("media", "media template %q with id %q, bandwidth %d: %q, %v", s, id, bw, g, err)
							}
							if g, err := r.GetInit(); err != nil || !ambiguous && g != refExpand(s, id, bw)+"i" {
								t.Failf("init", "init template %q with id %q, bandwidth %d: %q, %v", s+"i", id, bw, g, err)
							}
							if st.Media != s || st.Initialization != s+"i" {
								t.Failf("changed", "template %q changed to %q", s, st.Media)
							}
							ds.Add(s)
							if n < maxLen {
								for _, p := range pieces {
									if !t.Failed() {
										inner(s+p, n+1)
									}
								}
							}
						}
						s := ""
						for _, i := range p {
							s += pieces[i]
						}
						inner(s, len(p))
						t.CountStates(&ds)
						t.Step(2 * k)
						t.Trace()
						t.Eval(true)
					})
					return
				}
				for i := range pieces {
					rec(append(pre, i), n-1)
				}
			}
			rec(nil, 2)
			// Every id and bandwidth with a few templates; repetition ladders.
			for _, tpl := range []string{"$RepresentationID$", "$Bandwidth$", "$RepresentationID$/$Bandwidth$", "$Bandwidth$$RepresentationID$", "a$RepresentationID$b$RepresentationID$c", "$Bandwidth$_$Bandwidth$", "plain", ""} {
				tpl := tpl
				c.Case(func() string { return "values in " + tpl }, func(t *core.T) {
					for _, id := range ids {
						for e := 0; e <= 32; e++ {
							for dl := int64(-1); dl <= 1; dl++ {
								bw := uint32(int64(1)<<e + dl)
								as := &mpd.AdaptationSetType{SegmentTemplate: &mpd.SegmentTemplateType{Media: tpl, Initialization: tpl}}
								r := &mpd.RepresentationType{Id: id, Bandwidth: bw}
								as.AppendRepresentation(r)
								w := refExpand(tpl, id, bw)
								if g, err := r.GetMedia(); g != w || err != nil {
									t.Failf("media", "%q id %q bw %d: %q, want %q", tpl, id, bw, g, w)
								}
								if g, err := r.GetInit(); g != w || err != nil {
									t.Failf("init", "%q id %q bw %d: %q, want %q", tpl, id, bw, g, w)
								}
								t.Step(2)
							}
						}
					}
					for _, n := range sizes(c.Pick(1025, 8193)) {
						s := strings.Repeat(tpl+"/", n)
						as := &mpd.AdaptationSetType{SegmentTemplate: &mpd.SegmentTemplateType{Media: s}}
						r := &mpd.RepresentationType{Id: "q", Bandwidth: 7}
						as.AppendRepresentation(r)
						if g, err := r.GetMedia(); g != refExpand(s, "q", 7) || err != nil {
							t.Failf("media", "%q x%d: %v", tpl, n, err)
						}
						t.Step(1)
					}
					t.State(tpl)
					t.Trace()
					t.Eval(true)
				})
			}
			// Presence combinations. Bits 0-4 on the Representation, 5-9 on the
			// AdaptationSet, 10 on the Period, 11: read from text.
			for mask := 0; mask < 1<<12; mask++ {
				mask := mask
				c.Case(func() string { return fmt.Sprintf("presence %012b", mask) }, func(t *core.T) {
					bit := func(i int) bool { return mask>>i&1 == 1 }
					m := mpd.NewMPD("static")
					p := mpd.NewPeriod()
					as := mpd.NewAdaptationSet()
					r := mpd.NewRepresentation()
					r.Id, r.Bandwidth = "R", 99
					var st [2]*mpd.SegmentTemplateType
					var cps [2][]*mpd.ContentProtectionType
					mime, codecs := [2]string{}, [2]string{}
					for l := 0; l < 2; l++ {
						o := 5 * l
						if bit(o) {
							st[l] = &mpd.SegmentTemplateType{Media: fmt.Sprintf("m%d-$RepresentationID$", l), Initialization: fmt.Sprintf("i%d-$Bandwidth$", l)}
							if l == 1 {
								st[l].Media = ""
							}
						}
						if bit(o + 1) {
							mime[l] = fmt.Sprintf("video/m%d", l)
						}
						if bit(o + 2) {
							codecs[l] = fmt.Sprintf("c%d", l)
						}
						if bit(o + 3) {
							cps[l] = append(cps[l], &mpd.ContentProtectionType{DefaultKID: fmt.Sprintf("k%d", l)})
						}
						if bit(o + 4) {
							cps[l] = append(cps[l], &mpd.ContentProtectionType{Robustness: fmt.Sprintf("r%d", l)})
						}
					}
					r.SegmentTemplate, as.SegmentTemplate = st[0], st[1]
					r.MimeType, as.MimeType = mime[0], mime[1]
					r.Codecs, as.Codecs = codecs[0], codecs[1]
					r.ContentProtections, as.ContentProtections = cps[0], cps[1]
					if bit(10) {
						p.SegmentTemplate = &mpd.SegmentTemplateType{Media: "period", Initialization: "period"}
					}
					sib := mpd.NewRepresentation()
					sib.SegmentTemplate = &mpd.SegmentTemplateType{Media: "sibling"}
					sib.MimeType, sib.Codecs = "sib/x", "sib"
					as.AppendRepresentation(sib)
					as.AppendRepresentation(r)
					p.AppendAdaptationSet(as)
					m.AppendPeriod(p)
					if bit(11) {
						out, err := m.WriteToString("", true)
						if err != nil {
							t.Failf("write", "%v", err)
							return
						}
						if m, err = mpd.ReadFromString(out); err != nil {
							t.Failf("read", "%v", err)
							return
						}
						as = m.Periods[0].AdaptationSets[0]
						r = as.Representations[1]
						st = [2]*mpd.SegmentTemplateType{r.SegmentTemplate, as.SegmentTemplate}
						if bit(0) != (st[0] != nil) || bit(5) != (st[1] != nil) {
							t.Failf("read", "segment templates are lost")
							return
						}
						cps = [2][]*mpd.ContentProtectionType{r.ContentProtections, as.ContentProtections}
					}
					wantT := st[0]
					if wantT == nil {
						wantT = st[1]
					}
					if g := r.GetSegmentTemplate(); g != wantT {
						t.Failf("template", "GetSegmentTemplate: %v", g)
					}
					if g := as.GetSegmentTemplate(); g != st[1] {
						t.Failf("template", "AdaptationSet.GetSegmentTemplate: %v", g)
					}
					or := func(a, b string) string {
						if a != "" {
							return a
						}
						return b
					}
					if g := r.GetMimeType(); g != or(mime[0], mime[1]) {
						t.Failf("mime", "GetMimeType: %q", g)
					}
					if g := r.GetCodecs(); g != or(codecs[0], codecs[1]) {
						t.Failf("codecs", "GetCodecs: %q", g)
					}
					if g := as.GetMimeType() + as.GetCodecs(); g != mime[1]+codecs[1] {
						t.Failf("adaptationset", "%q", g)
					}
					wantC := cps[0]
					if len(wantC) == 0 {
						wantC = cps[1]
					}
					same := func(a, b []*mpd.ContentProtectionType) bool {
						if len(a) != len(b) {
							return false
						}
						for i := range a {
							if a[i] != b[i] {
								return false
							}
						}
						return true
					}
					if g := r.GetContentProtections(); !same(g, wantC) {
						t.Failf("protections", "GetContentProtections: %v, want %v", g, wantC)
					}
					if g := as.GetContentProtections(); !same(g, cps[1]) {
						t.Failf("protections", "AdaptationSet.GetContentProtections: %v", g)
					}
					gm, em := r.GetMedia()
					gi, ei := r.GetInit()
					if wantT == nil {
						if !errors.Is(em, mpd.ErrSegmentTemplateNotSet) || !errors.Is(ei, mpd.ErrSegmentTemplateNotSet) || gm+gi != "" {
							t.Failf("notemplate", "%q %v %q %v", gm, em, gi, ei)
						}
					} else if em != nil || ei != nil || gm != refExpand(wantT.Media, "R", 99) || gi != refExpand(wantT.Initialization, "R", 99) {
						t.Failf("urls", "%q %v %q %v", gm, em, gi, ei)
					}
					t.Step(10)
					// Without parent.
					o := *r
					o.SetParent(nil)
					if g := o.GetSegmentTemplate(); g != st[0] {
						t.Failf("orphan", "GetSegmentTemplate without parent: %v", g)
					}
					if g := o.GetMimeType() + o.GetCodecs(); g != mime[0]+codecs[0] {
						t.Failf("orphan", "%q", g)
					}
					if g := o.GetContentProtections(); !same(g, cps[0]) {
						t.Failf("orphan", "GetContentProtections without parent: %v", g)
					}
					if g, err := o.GetMedia(); !errors.Is(err, mpd.ErrParentNotSet) || g != "" {
						t.Failf("orphan", "GetMedia without parent: %q %v", g, err)
					}
					if g, err := o.GetInit(); !errors.Is(err, mpd.ErrParentNotSet) || g != "" {
						t.Failf("orphan", "GetInit without parent: %q %v", g, err)
					}
					t.Step(5)
					t.State(fmt.Sprint(mask))
					t.Trace()
					t.Eval(mask != 0)
				})
			}
			// Queries, changes, queries: every sequence of changes to one family,
			// all answers compared after each. Two AdaptationSets, of which the
			// Representation is in one; values that look empty but are not absent.
			type fam struct {
				as [2]*mpd.AdaptationSetType
				r  *mpd.RepresentationType
				in int
			}
			mk := func(decor int) *fam {
				f := &fam{r: mpd.NewRepresentation()}
				m := mpd.NewMPD("static")
				p := mpd.NewPeriod()
				m.AppendPeriod(p)
				g := &models.Gen{SCTENS: "http://www.scte.org/schemas/35/2016"}
				for i := range f.as {
					f.as[i] = mpd.NewAdaptationSet()
					p.AppendAdaptationSet(f.as[i])
				}
				f.as[0].AppendRepresentation(f.r)
				if decor > 0 {
					g.Fill(reflect.ValueOf(f.r).Elem(), decor, 1)
					for i := range f.as {
						rs := f.as[i].Representations
						g.Fill(reflect.ValueOf(f.as[i]).Elem(), decor, 5)
						f.as[i].Representations = rs
						f.as[i].SegmentTemplate, f.as[i].MimeType, f.as[i].Codecs, f.as[i].ContentProtections = nil, "", "", nil
					}
					f.r.SegmentTemplate, f.r.MimeType, f.r.Codecs, f.r.ContentProtections = nil, "", "", nil
				}
				f.r.Id, f.r.Bandwidth = "v", 7
				m.SetParents()
				return f
			}
			tpls := []string{"", "$RepresentationID$", "$Bandwidth$/x"}
			type chg struct {
				name string
				f    func(f *fam)
			}
			var chgs []chg
			for l := 0; l < 3; l++ {
				l := l
				at := []string{"Representation", "AdaptationSet 0", "AdaptationSet 1"}[l]
				on := func(f *fam) (st **mpd.SegmentTemplateType, mime, codecs *string, cps *[]*mpd.ContentProtectionType) {
					if l == 0 {
						return &f.r.SegmentTemplate, &f.r.MimeType, &f.r.Codecs, &f.r.ContentProtections
					}
					a := f.as[l-1]
					return &a.SegmentTemplate, &a.MimeType, &a.Codecs, &a.ContentProtections
				}
				for _, tpl := range tpls {
					tpl := tpl
					chgs = append(chgs, chg{fmt.Sprintf("template %q in %s", tpl, at), func(f *fam) {
						st, _, _, _ := on(f)
						if *st != nil {
							(*st).Media, (*st).Initialization = tpl, tpl // in place
							return
						}
						*st = &mpd.SegmentTemplateType{Media: tpl, Initialization: tpl}
					}})
				}
				chgs = append(chgs, chg{"no template in " + at, func(f *fam) { st, _, _, _ := on(f); *st = nil }})
				for _, v := range []string{"", " ", "video/mp4", "text/" + at} {
					v := v
					chgs = append(chgs, chg{fmt.Sprintf("MIME type and codecs %q in %s", v, at), func(f *fam) {
						_, mime, codecs, _ := on(f)
						*mime, *codecs = v, v+"c"
						if v == "" {
							*codecs = ""
						}
					}})
				}
				for n := -1; n < 3; n++ {
					n := n
					chgs = append(chgs, chg{fmt.Sprintf("%d protections in %s", n, at), func(f *fam) {
						_, _, _, cps := on(f)
						*cps = nil
						if n >= 0 {
							*cps = make([]*mpd.ContentProtectionType, 0, 4)
						}
						for i := 0; i < n; i++ {
							*cps = append(*cps, &mpd.ContentProtectionType{})
						}
					}})
				}
			}
			for to := -1; to < 2; to++ {
				to := to
				chgs = append(chgs, chg{fmt.Sprintf("move to AdaptationSet %d", to), func(f *fam) {
					for _, a := range f.as {
						a.Representations = nil
					}
					f.in = to
					f.r.SetParent(nil)
					if to >= 0 {
						f.as[to].AppendRepresentation(f.r)
					}
				}})
			}
			chgs = append(chgs,
				chg{"id", func(f *fam) { f.r.Id += "w" }},
				chg{"bandwidth", func(f *fam) { f.r.Bandwidth *= 10 }})
			ask := func(t *core.T, f *fam, after func() string) {
				var a *mpd.AdaptationSetType
				if f.in >= 0 {
					a = f.as[f.in]
				}
				wt, wm, wc, wp := f.r.SegmentTemplate, f.r.MimeType, f.r.Codecs, f.r.ContentProtections
				if a != nil {
					if wt == nil {
						wt = a.SegmentTemplate
					}
					if wm == "" {
						wm = a.MimeType
					}
					if wc == "" {
						wc = a.Codecs
					}
					if len(wp) == 0 {
						wp = a.ContentProtections
					}
				}
				gp := f.r.GetContentProtections()
				okp := len(gp) == len(wp)
				for i := range gp {
					okp = okp && gp[i] == wp[i]
				}
				if f.r.GetSegmentTemplate() != wt || f.r.GetMimeType() != wm || f.r.GetCodecs() != wc || !okp {
					t.Failf("sequence", "after %s: template %v, MIME type %q, codecs %q, %d protections; want %v %q %q %d", after(), f.r.GetSegmentTemplate(), f.r.GetMimeType(), f.r.GetCodecs(), len(gp), wt, wm, wc, len(wp))
				}
				gm, em := f.r.GetMedia()
				gi, ei := f.r.GetInit()
				switch {
				case a == nil:
					if gm+gi != "" || !errors.Is(em, mpd.ErrParentNotSet) || !errors.Is(ei, mpd.ErrParentNotSet) {
						t.Failf("sequence", "after %s: media %q, %v, init %q, %v without parent", after(), gm, em, gi, ei)
					}
				case wt == nil:
					if gm+gi != "" || !errors.Is(em, mpd.ErrSegmentTemplateNotSet) || !errors.Is(ei, mpd.ErrSegmentTemplateNotSet) {
						t.Failf("sequence", "after %s: media %q, %v, init %q, %v without template", after(), gm, em, gi, ei)
					}
				default:
					if wm, wi := refExpand(wt.Media, f.r.Id, f.r.Bandwidth), refExpand(wt.Initialization, f.r.Id, f.r.Bandwidth); gm != wm || gi != wi || em != nil || ei != nil {
						t.Failf("sequence", "after %s: media %q, %v, init %q, %v, want %q, %q", after(), gm, em, gi, ei, wm, wi)
					}
				}
				for i, a := range f.as {
					if a.GetSegmentTemplate() != a.SegmentTemplate || a.GetMimeType() != a.MimeType || a.GetCodecs() != a.Codecs || len(a.GetContentProtections()) != len(a.ContentProtections) {
						t.Failf("sequence", "after %s: AdaptationSet %d", after(), i)
					}
				}
				t.Step(14)
			}
			seqLen := c.Pick(4, 5)
			for decor := 0; decor < 2; decor++ {
				for i := range chgs {
					i, decor := i, decor
					c.Case(func() string { return fmt.Sprintf("sequences from %s, decoration %d", chgs[i].name, decor) }, func(t *core.T) {
						var search func(seq []int)
						search = func(seq []int) {
							f := mk(decor)
							for k, o := range seq {
								chgs[o].f(f)
								ask(t, f, func() string {
									var names []string
									for _, o := range seq[:k+1] {
										names = append(names, chgs[o].name)
									}
									return strings.Join(names, ", ")
								})
							}
							if len(seq) >= seqLen-decor {
								return
							}
							for k := range chgs {
								if t.Failed() {
									return
								}
								search(append(seq[:len(seq):len(seq)], k))
							}
						}
						search([]int{i})
						t.State(fmt.Sprint("seq", i, decor))
						t.Trace()
						t.Eval(true)
					})
				}
			}
			// Timescales.
			c.Case(func() string { return "timescales" }, func(t *core.T) {
				var s mpd.SegmentBaseType
				if s.GetTimescale() != 1 {
					t.Failf("default", "timescale of an empty value is %d", s.GetTimescale())
				}
				for e := 0; e <= 32; e++ {
					for dl := int64(-2); dl <= 2; dl++ {
						v := uint32(int64(1)<<e + dl)
						for prev := 0; prev < 3; prev++ {
							s := mpd.SegmentBaseType{}
							if prev > 0 {
								s.SetTimescale(uint32(90000 * (prev - 1)))
							}
							s.SetTimescale(v)
							t.Step(1)
							if s.GetTimescale() != v {
								t.Failf("timescale", "SetTimescale(%d): %d", v, s.GetTimescale())
							}
							st := &mpd.SegmentTemplateType{}
							st.SegmentBaseType = s
							if st.GetTimescale() != v || (v == 1) != (st.Timescale == nil) {
								t.Failf("timescale", "template timescale %d: %d", v, st.GetTimescale())
							}
							m := mpd.NewMPD("static")
							p := mpd.NewPeriod()
							p.SegmentTemplate = st
							m.AppendPeriod(p)
							out, _ := m.WriteToString("", false)
							r, err := mpd.ReadFromString(out)
							if err != nil || r.Periods[0].SegmentTemplate.GetTimescale() != v {
								t.Failf("timescale", "timescale %d in %s: %v", v, out, err)
							}
							t.State(fmt.Sprint(v))
						}
					}
				}
				t.Trace()
				t.Eval(true)
			})
		},
	})
}

// dollarAmbiguous reports templates in which a dollar sign may belong to
// either of two identifiers, as in $RepresentationID$Bandwidth$.
func dollarAmbiguous(s string) bool {
	return strings.Contains(s, "$RepresentationID$Bandwidth$") || strings.Contains(s, "$Bandwidth$RepresentationID$") || strings.Contains(s, "$RepresentationID$RepresentationID$") || strings.Contains(s, "$Bandwidth$Bandwidth$")
}
