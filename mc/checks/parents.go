package checks

import (
	"fmt"
	"strings"

	"verifmc/core"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// world is a set of model objects; every object ever made stays in it.
type world struct {
	ms        []*mpd.MPD
	ps        []*mpd.Period
	as        []*mpd.AdaptationSetType
	rs        []*mpd.RepresentationType
	ss        []*mpd.SubRepresentationType
	use       [5]int // objects that operations take part of
	linksOnly bool   // compare links, call no functions that use them
	notAtEnd  bool   // an element was appended, but is not at the end of the list
}

func (w *world) addM(m *mpd.MPD) {
	w.ms = append(w.ms, m)
	for _, p := range m.Periods {
		w.addP(p)
	}
}

func (w *world) addP(p *mpd.Period) {
	for _, q := range w.ps {
		if p == q {
			return
		}
	}
	w.ps = append(w.ps, p)
	for _, a := range p.AdaptationSets {
		w.addA(a)
	}
}

func (w *world) addA(a *mpd.AdaptationSetType) {
	for _, q := range w.as {
		if a == q {
			return
		}
	}
	w.as = append(w.as, a)
	for _, r := range a.Representations {
		w.addR(r)
	}
}

func (w *world) addR(r *mpd.RepresentationType) {
	for _, q := range w.rs {
		if r == q {
			return
		}
	}
	w.rs = append(w.rs, r)
	for _, s := range r.SubRepresentations {
		dup := false
		for _, q := range w.ss {
			dup = dup || q == s
		}
		if !dup {
			w.ss = append(w.ss, s)
		}
	}
}

// The worlds begin with unattached objects made by the constructors.
func newWorld(n [5]int) *world {
	w := &world{use: n}
	for i := 0; i < n[0]; i++ {
		m := mpd.NewMPD([]string{"static", "dynamic"}[i%2])
		w.ms = append(w.ms, m)
	}
	for i := 0; i < n[1]; i++ {
		p := mpd.NewPeriod()
		p.Id = fmt.Sprintf("p%d", i)
		w.ps = append(w.ps, p)
	}
	for i := 0; i < n[2]; i++ {
		a := mpd.NewAdaptationSet()
		a.MimeType = fmt.Sprintf("mime/%d", i)
		if i == 0 {
			a.SegmentTemplate = &mpd.SegmentTemplateType{Media: "m-$RepresentationID$"}
		}
		w.as = append(w.as, a)
	}
	for i := 0; i < n[3]; i++ {
		r := mpd.NewRepresentation()
		r.Id = fmt.Sprintf("r%d", i)
		w.rs = append(w.rs, r)
	}
	for i := 0; i < n[4]; i++ {
		w.ss = append(w.ss, mpd.NewSubRepresentation())
	}
	return w
}

func (w *world) appended(ok bool) { w.notAtEnd = w.notAtEnd || !ok }

// atEnd reports that l is old with x behind it.
func atEnd[T comparable](old, l []T, x T) bool {
	if len(l) != len(old)+1 || l[len(old)] != x {
		return false
	}
	for i := range old {
		if l[i] != old[i] {
			return false
		}
	}
	return true
}

type parentOp struct {
	name string
	f    func(w *world) bool // false: not applicable
}

func parentOps(n [5]int) []parentOp {
	var ops []parentOp
	add := func(name string, f func(w *world) bool) { ops = append(ops, parentOp{name, f}) }
	for i := 0; i < n[0]; i++ {
		i := i
		add(fmt.Sprintf("m%d.SetParents", i), func(w *world) bool { w.ms[i].SetParents(); return true })
		add(fmt.Sprintf("Clone m%d", i), func(w *world) bool {
			if len(w.ms) > n[0]+1 {
				return false
			}
			w.addM(mpd.Clone(w.ms[i]))
			return true
		})
		add(fmt.Sprintf("write and read m%d", i), func(w *world) bool {
			if len(w.ms) > n[0]+1 {
				return false
			}
			s, err := w.ms[i].WriteToString("", true)
			if err != nil {
				panic(err)
			}
			m, err := mpd.ReadFromString(s)
			if err != nil {
				panic(err)
			}
			w.addM(m)
			return true
		})
		for j := 0; j < n[1]; j++ {
			j := j
			add(fmt.Sprintf("m%d.Append p%d", i, j), func(w *world) bool {
				old := w.ms[i].Periods
				w.ms[i].AppendPeriod(w.ps[j])
				w.appended(atEnd(old, w.ms[i].Periods, w.ps[j]))
				return len(w.ms[i].Periods) < 4
			})
			add(fmt.Sprintf("m%d put p%d, SetParents", i, j), func(w *world) bool {
				w.ms[i].Periods = append([]*mpd.Period{w.ps[j]}, w.ms[i].Periods...)
				w.ms[i].SetParents()
				return len(w.ms[i].Periods) < 4
			})
		}
	}
	for i := 0; i < n[1]; i++ {
		i := i
		add(fmt.Sprintf("p%d.SetParents", i), func(w *world) bool { w.ps[i].SetParents(); return true })
		add(fmt.Sprintf("Clone p%d", i), func(w *world) bool {
			if len(w.ps) > n[1]+4 {
				return false
			}
			w.addP(w.ps[i].Clone())
			return true
		})
		for j := 0; j < n[2]; j++ {
			j := j
			add(fmt.Sprintf("p%d.Append a%d", i, j), func(w *world) bool {
				old := w.ps[i].AdaptationSets
				w.ps[i].AppendAdaptationSet(w.as[j])
				w.appended(atEnd(old, w.ps[i].AdaptationSets, w.as[j]))
				return len(w.ps[i].AdaptationSets) < 4
			})
			add(fmt.Sprintf("p%d put a%d, SetParents", i, j), func(w *world) bool {
				w.ps[i].AdaptationSets = append([]*mpd.AdaptationSetType{w.as[j]}, w.ps[i].AdaptationSets...)
				w.ps[i].SetParents()
				return len(w.ps[i].AdaptationSets) < 4
			})
		}
	}
	for i := 0; i < n[2]; i++ {
		i := i
		add(fmt.Sprintf("a%d.SetParents", i), func(w *world) bool { w.as[i].SetParents(); return true })
		add(fmt.Sprintf("Clone a%d", i), func(w *world) bool {
			if len(w.as) > n[2]+4 {
				return false
			}
			w.addA(w.as[i].Clone())
			return true
		})
		for j := 0; j < n[3]; j++ {
			j := j
			add(fmt.Sprintf("a%d.Append r%d", i, j), func(w *world) bool {
				old := w.as[i].Representations
				w.as[i].AppendRepresentation(w.rs[j])
				w.appended(atEnd(old, w.as[i].Representations, w.rs[j]))
				return len(w.as[i].Representations) < 4
			})
			add(fmt.Sprintf("a%d put r%d, SetParents", i, j), func(w *world) bool {
				w.as[i].Representations = append([]*mpd.RepresentationType{w.rs[j]}, w.as[i].Representations...)
				w.as[i].SetParents()
				return len(w.as[i].Representations) < 4
			})
		}
	}
	for i := 0; i < n[3]; i++ {
		i := i
		add(fmt.Sprintf("r%d.SetParents", i), func(w *world) bool { w.rs[i].SetParents(); return true })
		for j := 0; j < n[4]; j++ {
			j := j
			add(fmt.Sprintf("r%d.Append s%d", i, j), func(w *world) bool {
				old := w.rs[i].SubRepresentations
				w.rs[i].AppendSubRepresentation(w.ss[j])
				w.appended(atEnd(old, w.rs[i].SubRepresentations, w.ss[j]))
				return len(w.rs[i].SubRepresentations) < 4
			})
			add(fmt.Sprintf("r%d put s%d, SetParents", i, j), func(w *world) bool {
				w.rs[i].SubRepresentations = append([]*mpd.SubRepresentationType{w.ss[j]}, w.rs[i].SubRepresentations...)
				w.rs[i].SetParents()
				return len(w.rs[i].SubRepresentations) < 4
			})
		}
	}
	// Changes of a list below an element, then SetParents of the element: only
	// where it contains the changed list.
	lists := []struct {
		kind  string
		level int
		put   func(w *world, i, j int) int // returns the length
	}{
		{"p%d put a%d", 1, func(w *world, i, j int) int {
			w.ps[i].AdaptationSets = append([]*mpd.AdaptationSetType{w.as[j]}, w.ps[i].AdaptationSets...)
			return len(w.ps[i].AdaptationSets)
		}},
		{"a%d put r%d", 2, func(w *world, i, j int) int {
			w.as[i].Representations = append([]*mpd.RepresentationType{w.rs[j]}, w.as[i].Representations...)
			return len(w.as[i].Representations)
		}},
		{"r%d put s%d", 3, func(w *world, i, j int) int {
			w.rs[i].SubRepresentations = append([]*mpd.SubRepresentationType{w.ss[j]}, w.rs[i].SubRepresentations...)
			return len(w.rs[i].SubRepresentations)
		}},
	}
	for _, l := range lists {
		l := l
		for i := 0; i < n[l.level]; i++ {
			for j := 0; j < n[l.level+1]; j++ {
				for top := 0; top < l.level; top++ {
					for k := 0; k < n[top]; k++ {
						i, j, top, k := i, j, top, k
						add(fmt.Sprintf(l.kind+", %c%d.SetParents", i, j, "mpa"[top], k), func(w *world) bool {
							if !w.contains(top, k, l.level, i) {
								return false
							}
							n := l.put(w, i, j)
							switch top {
							case 0:
								w.ms[k].SetParents()
							case 1:
								w.ps[k].SetParents()
							case 2:
								w.as[k].SetParents()
							}
							return n < 4
						})
					}
				}
			}
		}
	}
	return ops
}

// contains reports that the object k of the level top contains object i of a
// lower level.
func (w *world) contains(top, k, level, i int) bool {
	lm, lp, la, lr := w.lists()
	all := [][][]int{lm, lp, la, lr}
	in := map[int]bool{k: true}
	for ; top < level; top++ {
		next := map[int]bool{}
		for x := range in {
			for _, c := range all[top][x] {
				next[c] = true
			}
		}
		in = next
	}
	return in[i]
}

func indexOf[T comparable](l []T, x T) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return -1
}

// lists is the canonical form of the containment lists.
func (w *world) lists() (m, p, a, r [][]int) {
	for _, x := range w.ms {
		var l []int
		for _, c := range x.Periods {
			l = append(l, indexOf(w.ps, c))
		}
		m = append(m, l)
	}
	for _, x := range w.ps {
		var l []int
		for _, c := range x.AdaptationSets {
			l = append(l, indexOf(w.as, c))
		}
		p = append(p, l)
	}
	for _, x := range w.as {
		var l []int
		for _, c := range x.Representations {
			l = append(l, indexOf(w.rs, c))
		}
		a = append(a, l)
	}
	for _, x := range w.rs {
		var l []int
		for _, c := range x.SubRepresentations {
			l = append(l, indexOf(w.ss, c))
		}
		r = append(r, l)
	}
	return
}

// holders gives the containers of each child.
func holders(lists [][]int, n int) [][]int {
	out := make([][]int, n)
	for i, l := range lists {
		for _, c := range l {
			if c >= 0 && indexOf(out[c], i) < 0 {
				out[c] = append(out[c], i)
			}
		}
	}
	return out
}

// check compares the parent links to the containers. It returns the state.
func (w *world) check() (state string, bad string) {
	lm, lp, la, lr := w.lists()
	var sb strings.Builder
	fmt.Fprint(&sb, lm, lp, la, lr)
	one := func(kind string, i, parent int, nilParent bool, in []int) string {
		fmt.Fprintf(&sb, " %d", parent)
		if nilParent {
			parent = -2
		}
		switch {
		case len(in) == 0 && !nilParent:
			return fmt.Sprintf("%s%d is in no container, but its parent is %d", kind, i, parent)
		case len(in) > 0 && indexOf(in, parent) < 0:
			return fmt.Sprintf("%s%d is in %v, but its parent is %d (-2: none, -1: unknown)", kind, i, in, parent)
		}
		return ""
	}
	hp, ha, hr, hs := holders(lm, len(w.ps)), holders(lp, len(w.as)), holders(la, len(w.rs)), holders(lr, len(w.ss))
	for i, p := range w.ps {
		if s := one("p", i, indexOf(w.ms, p.Parent()), p.Parent() == nil, hp[i]); s != "" {
			return "", s
		}
		if w.linksOnly {
			continue
		}
		idx, err := p.GetIndex()
		if p.Parent() == nil {
			if err == nil {
				return "", fmt.Sprintf("p%d has no parent, but GetIndex is %d", i, idx)
			}
			if _, err := p.GetType(); err == nil {
				return "", fmt.Sprintf("p%d has no parent, but a type", i)
			}
			if _, err := p.GetStart(); err == nil {
				return "", fmt.Sprintf("p%d has no parent, but a start", i)
			}
			if _, err := p.GetDuration(); err == nil {
				return "", fmt.Sprintf("p%d has no parent, but a duration", i)
			}
			if _, err := p.AbsoluteStart(w.ms[0]); err == nil {
				return "", fmt.Sprintf("p%d has no parent, but an absolute start", i)
			}
		} else if err != nil || idx != indexOf(p.Parent().Periods, p) {
			return "", fmt.Sprintf("p%d: GetIndex %d, %v", i, idx, err)
		}
	}
	for i, a := range w.as {
		if s := one("a", i, indexOf(w.ps, a.Parent()), a.Parent() == nil, ha[i]); s != "" {
			return "", s
		}
	}
	for i, r := range w.rs {
		if s := one("r", i, indexOf(w.as, r.Parent()), r.Parent() == nil, hr[i]); s != "" {
			return "", s
		}
		if w.linksOnly {
			continue
		}
		a := r.Parent()
		media, err := r.GetMedia()
		switch {
		case a == nil:
			if err == nil || r.GetMimeType() != "" || r.GetSegmentTemplate() != nil || len(r.GetContentProtections()) != 0 || r.GetCodecs() != "" {
				return "", fmt.Sprintf("r%d has no parent, but media %q, MIME type %q", i, media, r.GetMimeType())
			}
			if _, err := r.GetInit(); err == nil {
				return "", fmt.Sprintf("r%d has no parent, but an initialization", i)
			}
		case r.GetMimeType() != a.MimeType || r.GetSegmentTemplate() != a.SegmentTemplate || (err == nil) != (a.SegmentTemplate != nil) || err == nil && media != "m-"+r.Id:
			return "", fmt.Sprintf("r%d does not find the data of its parent: media %q, %v, MIME type %q", i, media, err, r.GetMimeType())
		}
	}
	for i, s := range w.ss {
		if s := one("s", i, indexOf(w.rs, s.Parent()), s.Parent() == nil, hs[i]); s != "" {
			return "", s
		}
	}
	return sb.String(), ""
}

func init() {
	register(&core.Check{
		ID:          "C14",
		Rule:        "one case per world and pair of first operations; states are containment lists with parent links, transitions are operations executed on the implementation after re-executing their history; non-trivial when something is contained",
		Bounds:      "explicit-state search over append, put and set parents, SetParents on every level, Clone on every level, write and read, on worlds with 1-2 manifests, 2 Periods, 2 AdaptationSets, 2 Representations, 1-2 SubRepresentations, all sequences of up to 4 (thorough 5) operations that reach new states; clones and read manifests join the world; all full trees of up to 3 children per level; and trees with up to 1,100 (thorough 4,200) children on one level, whose parents are set in 9 ways",
		Assumptions: []string{"no nil elements in lists", "an element that was put in several containers may refer to any of them"},
		Run:         runParents,
	})
}

func runParents(c *core.Ctx) {
	worlds := [][5]int{{1, 2, 2, 2, 1}, {2, 2, 1, 1, 1}, {1, 1, 2, 2, 2}, {1, 1, 1, 1, 1}}
	for wi, n := range worlds {
		n := n
		ops := parentOps(n)
		depth := c.Pick(4, 5)
		if wi == 3 {
			depth = c.Pick(6, 8)
		}
		for i := range ops {
			for j := range ops {
				i, j := i, j
				c.Case(func() string { return fmt.Sprintf("world %v: %s, %s, …", n, ops[i].name, ops[j].name) }, func(t *core.T) {
					seen := map[string]int{}
					var ds core.Distinct
					// run executes a history and checks its last state.
					run := func(seq []int) (string, bool) {
						w := newWorld(n)
						for _, o := range seq {
							t.Step(1)
							if !ops[o].f(w) {
								return "", false
							}
						}
						t.Trace()
						st, bad := w.check()
						if bad == "" && w.notAtEnd {
							bad = "the appended element is not behind the others"
						}
						if bad != "" {
							var names []string
							for _, o := range seq {
								names = append(names, ops[o].name)
							}
							t.Failf("parent", "after %s: %s", strings.Join(names, ", "), bad)
							return "", false
						}
						t.Eval(len(st) > 30)
						return st, true
					}
					if i == 0 && j == 0 {
						run(nil)
						for k := range ops {
							run([]int{k})
						}
					}
					var search func(seq []int)
					search = func(seq []int) {
						if t.Failed() {
							return
						}
						st, ok := run(seq)
						if !ok {
							return
						}
						left := depth - len(seq)
						if was, ok := seen[st]; ok && was >= left {
							return
						}
						seen[st] = left
						ds.Add(st)
						if left == 0 {
							return
						}
						for k := range ops {
							search(append(seq[:len(seq):len(seq)], k))
						}
					}
					search([]int{i, j})
					t.CountStates(&ds)
				})
			}
		}
	}
	wideTrees(c)
	// Full trees, built bottom-up and top-down, by appending or with lists.
	for np := 0; np <= 3; np++ {
		for na := 0; na <= 3; na++ {
			for nr := 0; nr <= 3; nr++ {
				for ns := 0; ns <= 2; ns++ {
					for mode := 0; mode < 4; mode++ {
						np, na, nr, ns, mode := np, na, nr, ns, mode
						c.Case(func() string { return fmt.Sprintf("tree %d %d %d %d mode %d", np, na, nr, ns, mode) }, func(t *core.T) {
							m := mpd.NewMPD("static")
							for i := 0; i < np; i++ {
								p := mpd.NewPeriod()
								if mode == 0 {
									m.AppendPeriod(p)
								}
								for j := 0; j < na; j++ {
									a := mpd.NewAdaptationSet()
									a.MimeType = fmt.Sprintf("%d/%d", i, j)
									if mode == 0 {
										p.AppendAdaptationSet(a)
									}
									for k := 0; k < nr; k++ {
										r := mpd.NewRepresentation()
										if mode == 0 {
											a.AppendRepresentation(r)
										}
										for l := 0; l < ns; l++ {
											s := mpd.NewSubRepresentation()
											if mode < 2 {
												r.AppendSubRepresentation(s)
											} else {
												r.SubRepresentations = append(r.SubRepresentations, s)
											}
										}
										if mode == 1 {
											a.AppendRepresentation(r)
										} else if mode > 1 {
											a.Representations = append(a.Representations, r)
										}
									}
									if mode == 1 {
										p.AppendAdaptationSet(a)
									} else if mode > 1 {
										p.AdaptationSets = append(p.AdaptationSets, a)
									}
								}
								if mode == 1 {
									m.AppendPeriod(p)
								} else if mode > 1 {
									m.Periods = append(m.Periods, p)
								}
							}
							switch mode {
							case 2:
								m.SetParents()
							case 3:
								m = mpd.Clone(m)
							}
							w := &world{}
							w.addM(m)
							st, bad := w.check()
							if bad != "" {
								t.Failf("parent", "%s", bad)
							}
							s, err := m.WriteToString(" ", true)
							if err == nil {
								if m2, err := mpd.MPDFromBytes([]byte(s)); err == nil {
									w2 := &world{}
									w2.addM(m2)
									if st2, bad := w2.check(); bad != "" || st2 != st {
										t.Failf("parent", "read: %s", bad)
									}
								} else {
									t.Failf("read", "%v", err)
								}
							}
							for _, p := range m.Periods {
								w2 := &world{ms: []*mpd.MPD{m}}
								w2.addP(p.Clone())
								if _, bad := w2.checkOrphan(); bad != "" {
									t.Failf("parent", "clone of period: %s", bad)
								}
							}
							t.Step(3)
							t.Trace()
							t.Eval(np > 0)
							t.State(st)
						})
					}
				}
			}
		}
	}
}

// checkOrphan checks a world whose manifests do not contain its Periods.
func (w *world) checkOrphan() (string, string) {
	ww := *w
	ww.ms = []*mpd.MPD{mpd.NewMPD("static")}
	return ww.check()
}

// linksBad compares all links below m with the containers; it returns the first
// that is wrong.
func linksBad(m *mpd.MPD) string {
	for i, p := range m.Periods {
		if p.Parent() != m {
			return fmt.Sprintf("Period %d", i)
		}
		if idx, err := p.GetIndex(); err != nil || idx != i {
			return fmt.Sprintf("index of Period %d: %d, %v", i, idx, err)
		}
		if s := linksBadP(p); s != "" {
			return fmt.Sprintf("Period %d: %s", i, s)
		}
	}
	return ""
}

func linksBadP(p *mpd.Period) string {
	for i, a := range p.AdaptationSets {
		if a.Parent() != p {
			return fmt.Sprintf("AdaptationSet %d", i)
		}
		if s := linksBadA(a); s != "" {
			return fmt.Sprintf("AdaptationSet %d: %s", i, s)
		}
	}
	return ""
}

func linksBadA(a *mpd.AdaptationSetType) string {
	for i, r := range a.Representations {
		if r.Parent() != a {
			return fmt.Sprintf("Representation %d", i)
		}
		if s := linksBadR(r); s != "" {
			return fmt.Sprintf("Representation %d: %s", i, s)
		}
	}
	return ""
}

func linksBadR(r *mpd.RepresentationType) string {
	for i, s := range r.SubRepresentations {
		if s.Parent() != r {
			return fmt.Sprintf("SubRepresentation %d", i)
		}
	}
	return ""
}

// wideTrees: many children on one level, or on all levels some, in every way to
// set the parents.
func wideTrees(c *core.Ctx) {
	build := func(n [4]int, appended bool) *mpd.MPD {
		m := mpd.NewMPD("static")
		for i := 0; i < n[0]; i++ {
			p := mpd.NewPeriod()
			for j := 0; j < n[1]; j++ {
				a := mpd.NewAdaptationSet()
				for k := 0; k < n[2]; k++ {
					r := mpd.NewRepresentation()
					for l := 0; l < n[3]; l++ {
						s := mpd.NewSubRepresentation()
						if appended {
							r.AppendSubRepresentation(s)
						} else {
							r.SubRepresentations = append(r.SubRepresentations, s)
						}
					}
					if appended {
						a.AppendRepresentation(r)
					} else {
						a.Representations = append(a.Representations, r)
					}
				}
				if appended {
					p.AppendAdaptationSet(a)
				} else {
					p.AdaptationSets = append(p.AdaptationSets, a)
				}
			}
			if appended {
				m.AppendPeriod(p)
			} else {
				m.Periods = append(m.Periods, p)
			}
		}
		return m
	}
	ways := []struct {
		name string
		f    func(t *core.T, n [4]int) string
	}{
		{"appended", func(t *core.T, n [4]int) string { return linksBad(build(n, true)) }},
		{"MPD.SetParents", func(t *core.T, n [4]int) string {
			m := build(n, false)
			m.SetParents()
			return linksBad(m)
		}},
		{"Period.SetParents", func(t *core.T, n [4]int) string {
			for _, p := range build(n, false).Periods {
				p.SetParents()
				if s := linksBadP(p); s != "" {
					return s
				}
			}
			return ""
		}},
		{"AdaptationSet.SetParents", func(t *core.T, n [4]int) string {
			for _, p := range build(n, false).Periods {
				for _, a := range p.AdaptationSets {
					a.SetParents()
					if s := linksBadA(a); s != "" {
						return s
					}
				}
			}
			return ""
		}},
		{"Representation.SetParents", func(t *core.T, n [4]int) string {
			for _, p := range build(n, false).Periods {
				for _, a := range p.AdaptationSets {
					for _, r := range a.Representations {
						r.SetParents()
						if s := linksBadR(r); s != "" {
							return s
						}
					}
				}
			}
			return ""
		}},
		{"Clone", func(t *core.T, n [4]int) string { return linksBad(mpd.Clone(build(n, true))) }},
		{"Period.Clone", func(t *core.T, n [4]int) string {
			for _, p := range build(n, true).Periods {
				if s := linksBadP(p.Clone()); s != "" {
					return s
				}
			}
			return ""
		}},
		{"AdaptationSet.Clone", func(t *core.T, n [4]int) string {
			for _, p := range build(n, true).Periods {
				for _, a := range p.AdaptationSets {
					if s := linksBadA(a.Clone()); s != "" {
						return s
					}
				}
			}
			return ""
		}},
		{"write and read", func(t *core.T, n [4]int) string {
			m := build(n, true)
			s, err := m.WriteToString("", true)
			if err != nil {
				return err.Error()
			}
			m2, err := mpd.ReadFromString(s)
			if err != nil {
				return err.Error()
			}
			if len(m2.Periods) != n[0] || n[0] > 0 && len(m2.Periods[n[0]-1].AdaptationSets) != n[1] {
				return "children are lost"
			}
			return linksBad(m2)
		}},
	}
	var shapes [][4]int
	for _, k := range sizes(c.Pick(1100, 4200)) {
		for l := 0; l < 4; l++ {
			n := [4]int{1, 1, 1, 1}
			n[l] = k
			shapes = append(shapes, n)
			if k <= 40 {
				for l2 := l + 1; l2 < 4; l2++ {
					n := n
					n[l2] = k
					shapes = append(shapes, n)
				}
			}
		}
	}
	for _, n := range shapes {
		n := n
		c.Case(func() string { return fmt.Sprintf("wide tree %v", n) }, func(t *core.T) {
			for _, w := range ways {
				t.Step(1)
				if s := w.f(t, n); s != "" {
					t.Failf("parent", "%s: %s", w.name, s)
					return
				}
			}
			t.Trace()
			t.Eval(true)
			t.State(fmt.Sprint(n))
		})
	}
}
