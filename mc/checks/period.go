package checks

import (
	"errors"
	"fmt"
	"reflect"

	"verifmc/core"
	"verifmc/models"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// pm is the reference model of a manifest's timing: absent values are nil.
type pm struct {
	dynamic     bool
	start, dur  []*int64
	total       *int64 // presentation duration
	updates     bool   // minimum update period present
	typeMissing bool
}

func (m *pm) startOf(i int) (int64, bool) {
	sum := int64(0)
	for ; i >= 0; i-- {
		if m.start[i] != nil {
			return sum + *m.start[i], true
		}
		if i == 0 {
			return sum, !m.dynamic
		}
		if m.dur[i-1] == nil {
			return 0, false
		}
		sum += *m.dur[i-1]
	}
	return 0, false
}

func (m *pm) durOf(i int) (int64, bool) {
	if m.dur[i] != nil {
		return *m.dur[i], true
	}
	last := i == len(m.start)-1
	if m.dynamic {
		if m.start[i] == nil || last || m.start[i+1] == nil {
			return 0, false
		}
		return *m.start[i+1] - *m.start[i], true
	}
	if m.total == nil {
		return 0, false
	}
	s, ok := m.startOf(i)
	if !ok {
		return 0, false
	}
	if last {
		return *m.total - s, true
	}
	if m.start[i+1] == nil {
		return 0, false
	}
	return *m.start[i+1] - s, true
}

func (m *pm) typeOf(i int) mpd.PeriodType {
	prevDur := i > 0 && m.dur[i-1] != nil
	nextStart := i+1 < len(m.start) && m.start[i+1] != nil
	terminated := m.dur[i] != nil && (m.updates || nextStart)
	switch {
	case (m.start[i] != nil || prevDur) && terminated:
		return mpd.PTEarlyTerminated
	case m.start[i] != nil:
		return mpd.PTRegular
	case prevDur:
		return mpd.PTRegularOrEarlyTerminated
	case m.dynamic:
		return mpd.PTEarlyAvailable
	}
	return mpd.PTRegular
}

func init() {
	register(&core.Check{
		ID:     "C13",
		Rule:   "one case per chunk of timing configurations; each is built as a manifest (and for small ones also written and read) and every Period's start, duration, type, index and absolute start are compared with an independent formulation; non-trivial with more than one Period",
		Bounds: "1 to 5 (thorough 6) Periods, each start and duration absent, zero or positive; static, dynamic or absent type; with and without presentation duration and update period; chains of up to 2000 Periods; with nothing else set, with equal ids, and with all else filled; for up to 3 Periods, queried again after every single change of a value, and after Periods moved",
		Run: func(c *core.Ctx) {
			verify := func(t *core.T, ref *pm, m *mpd.MPD, how string) {
				names := map[mpd.PeriodType]string{mpd.PTRegular: "regular", mpd.PTEarlyAvailable: "early-available", mpd.PTEarlyTerminated: "early-terminated"}
				desc := func() string {
					s := how + " "
					v := func(p *int64) string {
						if p == nil {
							return "-"
						}
						return fmt.Sprint(*p / 1e9)
					}
					for i := range ref.start {
						s += fmt.Sprintf("[start %s dur %s]", v(ref.start[i]), v(ref.dur[i]))
					}
					return s + fmt.Sprintf(" dynamic %v total %s updates %v", ref.dynamic, v(ref.total), ref.updates)
				}
				for i, p := range m.Periods {
					idx, err := p.GetIndex()
					if err != nil || idx != i {
						t.Failf("index", "%s: GetIndex of %d = %d, %v", desc(), i, idx, err)
						return
					}
					ws, ok := ref.startOf(i)
					gs, err := p.GetStart()
					if ok != (err == nil) || ok && int64(gs) != ws || !ok && gs != 0 {
						t.Failf("start", "%s: GetStart of %d = %d, %v, want %d, %v", desc(), i, gs, err, ws, ok)
						return
					}
					wd, ok := ref.durOf(i)
					gd, err := p.GetDuration()
					if ok != (err == nil) || ok && int64(gd) != wd || !ok && gd != 0 {
						t.Failf("duration", "%s: GetDuration of %d = %d, %v, want %d, %v", desc(), i, gd, err, wd, ok)
						return
					}
					wt := ref.typeOf(i)
					gt, err := p.GetType()
					if err != nil || gt != wt {
						t.Failf("type", "%s: GetType of %d = %v, %v, want %v", desc(), i, gt, err, wt)
						return
					}
					if n := names[gt]; n != "" && gt.String() != n {
						t.Failf("typename", "%v is %q", n, gt.String())
						return
					}
				}
			}
			// decorate fills what timing does not depend on, with ids that repeat.
			decorate := func(m *mpd.MPD, how int) {
				g := &models.Gen{SCTENS: "http://www.scte.org/schemas/35/2016"}
				switch how {
				case 1:
					for _, p := range m.Periods {
						p.Id = "p"
					}
				case 2:
					for i, p := range m.Periods {
						p.Id = fmt.Sprint("p", i/2)
						a := mpd.NewAdaptationSet()
						a.Id = new(uint32)
						p.AppendAdaptationSet(a)
						a.AppendRepresentation(mpd.NewRepresentation())
					}
				case 3, 4:
					typ, total, mup := m.Type, m.MediaPresentationDuration, m.MinimumUpdatePeriod
					ps := m.Periods
					g.Fill(reflect.ValueOf(m).Elem(), 1, 3)
					m.Type, m.MediaPresentationDuration, m.MinimumUpdatePeriod, m.Periods = typ, total, mup, ps
					for i, p := range ps {
						st, du := p.Start, p.Duration
						g.Fill(reflect.ValueOf(p).Elem(), 1, i*(how-3))
						p.Start, p.Duration = st, du
					}
					m.SetParents()
				}
			}
			build := func(ref *pm) *mpd.MPD {
				typ := "static"
				if ref.dynamic {
					typ = "dynamic"
				}
				m := mpd.NewMPD(typ)
				if ref.typeMissing {
					m.Type = nil
				}
				if ref.total != nil {
					m.MediaPresentationDuration = dur(*ref.total)
				}
				if ref.updates {
					m.MinimumUpdatePeriod = dur(0)
				}
				for i := range ref.start {
					p := mpd.NewPeriod()
					if ref.start[i] != nil {
						p.Start = dur(*ref.start[i])
					}
					if ref.dur[i] != nil {
						p.Duration = dur(*ref.dur[i])
					}
					m.AppendPeriod(p)
				}
				return m
			}
			// Changes after queries: what was answered before must not matter.
			// Those of one value are undone, those of lists stay.
			change := func(t *core.T, ref *pm, m *mpd.MPD) {
				set := func(d **mpd.Duration, r **int64, v *int64) func() {
					od, or := *d, *r
					*r, *d = v, nil
					if v != nil {
						*d = dur(*v)
					}
					return func() { *d, *r = od, or }
				}
				flip := func(r *int64, v int64) *int64 {
					if r != nil {
						return nil
					}
					return &v
				}
				for i, p := range m.Periods {
					undo := set(&p.Start, &ref.start[i], flip(ref.start[i], int64(50*i+3)*1e9))
					verify(t, ref, m, "start toggled")
					undo()
					verify(t, ref, m, "start restored")
					undo = set(&p.Duration, &ref.dur[i], flip(ref.dur[i], int64(30*i+2)*1e9))
					verify(t, ref, m, "duration toggled")
					undo()
					if ref.dur[i] != nil {
						was := *ref.dur[i]
						*p.Duration += 1e9
						*ref.dur[i] += 1e9
						verify(t, ref, m, "duration increased in place")
						*p.Duration -= 1e9
						*ref.dur[i] = was
					}
				}
				undo := set(&m.MediaPresentationDuration, &ref.total, flip(ref.total, 4000e9))
				verify(t, ref, m, "presentation duration toggled")
				undo()
				upd := m.MinimumUpdatePeriod
				m.MinimumUpdatePeriod, ref.updates = nil, !ref.updates
				if ref.updates {
					m.MinimumUpdatePeriod = dur(2e9)
				}
				verify(t, ref, m, "update period toggled")
				m.MinimumUpdatePeriod, ref.updates = upd, !ref.updates
				typ, dyn := m.Type, ref.dynamic
				for _, d := range []bool{true, false} {
					ref.dynamic = d
					m.Type = mpd.Ptr(map[bool]string{true: mpd.DYNAMIC_TYPE, false: mpd.STATIC_TYPE}[d])
					verify(t, ref, m, "type changed")
				}
				m.Type, ref.dynamic = typ, dyn
				verify(t, ref, m, "all restored")
				// Periods come and go.
				n := len(m.Periods)
				first, fs, fd := m.Periods[0], ref.start[0], ref.dur[0]
				m.Periods, ref.start, ref.dur = m.Periods[1:], ref.start[1:], ref.dur[1:]
				verify(t, ref, m, "first removed")
				m.AppendPeriod(first)
				ref.start, ref.dur = append(ref.start, fs), append(ref.dur, fd)
				verify(t, ref, m, "first moved to the end")
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					m.Periods[i], m.Periods[j] = m.Periods[j], m.Periods[i]
					ref.start[i], ref.start[j] = ref.start[j], ref.start[i]
					ref.dur[i], ref.dur[j] = ref.dur[j], ref.dur[i]
				}
				verify(t, ref, m, "reversed")
				p := mpd.NewPeriod()
				p.Id = "p"
				p.SetParent(m)
				m.Periods = append([]*mpd.Period{p}, m.Periods...)
				ref.start, ref.dur = append([]*int64{nil}, ref.start...), append([]*int64{nil}, ref.dur...)
				verify(t, ref, m, "inserted in front")
				p.Duration, ref.dur[0] = dur(9e9), &[]int64{9e9}[0]
				verify(t, ref, m, "inserted in front, with duration")
				t.Step(4 * n * (5*n + 10))
			}
			maxN := c.Pick(5, 6)
			i64 := func(v int64) *int64 { return &v }
			for n := 1; n <= maxN; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= 9
				}
				const per = 729
				for from := 0; from < total; from += per {
					for cfg := 0; cfg < 18; cfg++ {
						if n == maxN && (cfg/6 == 2 || cfg/2%3 == 1) {
							continue
						}
						n, from, cfg := n, from, cfg
						c.Case(func() string { return fmt.Sprintf("%d periods, configurations from %d, options %d", n, from, cfg) }, func(t *core.T) {
							var ds core.Distinct
							for k := from; k < from+per && k < total && !t.Failed(); k++ {
								ref := &pm{dynamic: cfg/6 == 1, typeMissing: cfg/6 == 2, updates: cfg%2 == 1}
								switch cfg / 2 % 3 {
								case 1:
									ref.total = i64(0)
								case 2:
									ref.total = i64(10000e9)
								}
								x := k
								key := fmt.Sprint(n, cfg, k)
								for i := 0; i < n; i++ {
									s, d := x%3, x/3%3
									x /= 9
									ref.start = append(ref.start, [3]*int64{nil, i64(0), i64(int64(100*i+7) * 1e9)}[s])
									ref.dur = append(ref.dur, [3]*int64{nil, i64(0), i64(int64(10*i+11) * 1e9)}[d])
								}
								m := build(ref)
								decorate(m, k%3)
								verify(t, ref, m, "built")
								t.Step(4 * n)
								for how := 0; how < 5 && n <= 3 && !t.Failed(); how++ {
									m := build(ref)
									decorate(m, how)
									verify(t, ref, m, fmt.Sprint("decorated ", how))
									t.Step(4 * n)
								}
								if n <= 3 && !t.Failed() {
									out, err := m.WriteToString("", false)
									if err != nil {
										t.Failf("write", "%v", err)
										return
									}
									r, err := mpd.ReadFromString(out)
									if err != nil {
										t.Failf("read", "%v", err)
										return
									}
									t.Step(4*n + 2)
									verify(t, ref, r, "read")
									verify(t, ref, mpd.Clone(m), "cloned")
									if !t.Failed() {
										change(t, ref, m)
									}
								}
								ds.Add(key)
							}
							t.CountStates(&ds)
							t.Trace()
							t.Eval(n > 1)
						})
					}
				}
			}
			// Long chains, negative and huge values.
			for _, n := range []int{10, 100, 255, 256, 257, 1000, 2000} {
				for mode := 0; mode < 6; mode++ {
					n, mode := n, mode
					c.Case(func() string { return fmt.Sprintf("chain of %d periods, mode %d", n, mode) }, func(t *core.T) {
						ref := &pm{dynamic: mode >= 3, total: i64(1e15)}
						for i := 0; i < n; i++ {
							ref.start = append(ref.start, nil)
							ref.dur = append(ref.dur, i64(int64(i+1)*1e9))
						}
						switch mode % 3 {
						case 1:
							ref.start[0] = i64(5e9)
							ref.dur[n-1] = nil
						case 2:
							ref.start[n/2] = i64(77e9)
							ref.dur[n/3] = nil
						}
						m := build(ref)
						if n >= 1000 {
							// Only some, as each start walks back.
							for _, i := range []int{0, 1, n / 3, n/3 + 1, n / 2, n - 2, n - 1} {
								w, ok := ref.startOf(i)
								g, err := m.Periods[i].GetStart()
								if ok != (err == nil) || ok && int64(g) != w {
									t.Failf("start", "GetStart of %d = %d, %v, want %d, %v", i, g, err, w, ok)
								}
							}
						} else {
							verify(t, ref, m, "chain")
						}
						t.Step(n)
						t.State(fmt.Sprint(n, mode))
						t.Trace()
						t.Eval(true)
					})
				}
			}
			// Without parent, and not in the parent's list.
			c.Case(func() string { return "periods outside of manifests" }, func(t *core.T) {
				for _, s := range []*mpd.Duration{nil, dur(0), dur(5e9)} {
					for _, d := range []*mpd.Duration{nil, dur(0), dur(6e9)} {
						p := mpd.NewPeriod()
						p.Start, p.Duration = s, d
						if _, err := p.GetIndex(); !errors.Is(err, mpd.ErrParentNotSet) {
							t.Failf("index", "GetIndex without parent: %v", err)
						}
						if _, err := p.GetStart(); !errors.Is(err, mpd.ErrParentNotSet) {
							t.Failf("start", "GetStart without parent: %v", err)
						}
						if ty, err := p.GetType(); !errors.Is(err, mpd.ErrParentNotSet) || ty != mpd.PTBad {
							t.Failf("type", "GetType without parent: %v %v", ty, err)
						}
						g, err := p.GetDuration()
						if d != nil && (err != nil || g != *d) || d == nil && !errors.Is(err, mpd.ErrParentNotSet) {
							t.Failf("duration", "GetDuration without parent: %v %v", g, err)
						}
						// A parent that does not contain it.
						m := mpd.NewMPD("static")
						m.MediaPresentationDuration = dur(1e9)
						m.AppendPeriod(mpd.NewPeriod())
						p.SetParent(m)
						if i, err := p.GetIndex(); !errors.Is(err, mpd.ErrPeriodNotFound) {
							t.Failf("foreign", "GetIndex in a foreign manifest: %d %v", i, err)
						}
						if _, err := p.GetType(); err == nil {
							t.Failf("foreign", "GetType in a foreign manifest succeeds")
						}
						if _, err := p.GetStart(); (err == nil) != (s != nil) {
							t.Failf("foreign", "GetStart in a foreign manifest: %v", err)
						}
						if _, err := p.GetDuration(); (err == nil) != (d != nil) {
							t.Failf("foreign", "GetDuration in a foreign manifest: %v", err)
						}
						t.Step(8)
					}
				}
				t.State("outside")
				t.Trace()
				t.Eval(true)
			})
		},
	})
}
