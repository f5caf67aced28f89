package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// dump is the exported content of a value, with the identity of nothing.
func dump(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("~")
			return
		}
		sb.WriteString("&")
		dump(sb, v.Elem())
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(sb, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i))
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				dump(sb, v.Field(i))
				sb.WriteString(";")
			}
		}
		sb.WriteString("}")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "%v", v.Interface())
	}
}

func dumpOf(v any) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v))
	return sb.String()
}

// mutate changes every exported leaf below v in place, then the links to it.
// It returns the number of changes.
func mutate(v reflect.Value, seen map[uintptr]bool) int {
	n := 0
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			if v.CanSet() {
				v.Set(reflect.New(v.Type().Elem()))
				n++
			}
			return n
		}
		if seen[v.Pointer()] && v.Elem().Type().Size() > 0 && v.Elem().Kind() == reflect.Struct {
			return 0
		}
		seen[v.Pointer()] = true
		n += mutate(v.Elem(), seen)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += mutate(v.Index(i), seen)
		}
		for i := 0; i < v.Len(); i++ {
			if v.Index(i).Kind() == reflect.Pointer {
				v.Index(i).Set(reflect.New(v.Type().Elem().Elem()))
				n++
			}
		}
		if v.CanSet() {
			// Use the spare capacity, too.
			if v.Cap() > v.Len() {
				ext := v.Slice(0, v.Cap())
				for i := v.Len(); i < v.Cap(); i++ {
					ext.Index(i).SetZero()
				}
			}
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			n++
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += mutate(v.Field(i), seen)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~")
			n++
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
		n++
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1)
		n++
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
		n++
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
		n++
	}
	return n
}

// memory collects the addresses that a value reaches: pointers, list backing
// arrays and maps, also in its unexported fields except the parent links.
func memory(v reflect.Value, path string, out map[uintptr]string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return
		}
		if _, ok := out[v.Pointer()]; ok {
			return
		}
		out[v.Pointer()] = path
		memory(v.Elem(), path, out)
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), path, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			if _, ok := out[v.Pointer()]; !ok {
				out[v.Pointer()] = path + "[]"
			}
		}
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if !v.IsNil() {
			out[v.Pointer()] = path + "{}"
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() {
				memory(v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

// cloneKind is one way to clone something of a manifest.
type cloneKind struct {
	name  string
	of    func(m *mpd.MPD) any // nil when there is none
	clone func(x any) any
	write func(x any) (string, error)
}

func cloneKinds() []cloneKind {
	kinds := []cloneKind{{"MPD", func(m *mpd.MPD) any { return m }, func(x any) any { return mpd.Clone(x.(*mpd.MPD)) },
		func(x any) (string, error) { return x.(*mpd.MPD).WriteToString(" ", true) }}}
	for i := 0; i < 2; i++ {
		i := i
		kinds = append(kinds, cloneKind{fmt.Sprintf("Period %d", i), func(m *mpd.MPD) any {
			if i < len(m.Periods) {
				return m.Periods[i]
			}
			return nil
		}, func(x any) any { return x.(*mpd.Period).Clone() }, func(x any) (string, error) { return x.(*mpd.Period).WriteToString("") }})
		for j := 0; j < 2; j++ {
			j := j
			kinds = append(kinds, cloneKind{fmt.Sprintf("AdaptationSet %d.%d", i, j), func(m *mpd.MPD) any {
				if i < len(m.Periods) && j < len(m.Periods[i].AdaptationSets) {
					return m.Periods[i].AdaptationSets[j]
				}
				return nil
			}, func(x any) any { return x.(*mpd.AdaptationSetType).Clone() }, func(x any) (string, error) {
				var sb strings.Builder
				_, err := mpd.WriteXML(x, &sb, "", false)
				return sb.String(), err
			}})
		}
	}
	return kinds
}

// worldOf is the world of an object and all below.
func worldOf(x any) *world {
	w := &world{linksOnly: true}
	switch x := x.(type) {
	case *mpd.MPD:
		w.addM(x)
	case *mpd.Period:
		w.ms = []*mpd.MPD{mpd.NewMPD("static")}
		w.addP(x)
	case *mpd.AdaptationSetType:
		w.ms = []*mpd.MPD{mpd.NewMPD("static")}
		w.addA(x)
	}
	return w
}

// checkClone runs one clone through all comparisons; it destroys the manifests.
func checkClone(t *core.T, k *cloneKind, mk func() *mpd.MPD) bool {
	for dir := 0; dir < 2; dir++ {
		m := mk()
		m.SetParents()
		x := k.of(m)
		if x == nil {
			return true
		}
		before := dumpOf(m)
		text, err := k.write(x)
		if err != nil {
			t.Failf("write", "%s: %v", k.name, err)
			return false
		}
		cl := k.clone(x)
		t.Step(1)
		t.Trace()
		t.Eval(true)
		if d := dumpOf(m); d != before {
			t.Failf("changed", "%s: cloning changes the original: %s", k.name, firstDiff(before, d))
			return false
		}
		if _, bad := worldOf(m).check(); dir == 0 && bad != "" {
			t.Failf("parents", "%s: parents of the original after cloning: %s", k.name, bad)
			return false
		}
		if d := models.Equal(x, cl); d != "" {
			t.Failf("unequal", "%s: clone differs: %s", k.name, d)
			return false
		}
		ctext, err := k.write(cl)
		if err != nil || ctext != text {
			t.Failf("written", "%s: clone is written differently: %v %s", k.name, err, firstDiff(text, ctext))
			return false
		}
		if _, bad := worldOf(cl).check(); bad != "" {
			t.Failf("parents", "%s: parents in the clone: %s", k.name, bad)
			return false
		}
		if dir == 0 {
			a, b := map[uintptr]string{}, map[uintptr]string{}
			memory(reflect.ValueOf(m), "", a)
			memory(reflect.ValueOf(cl), "", b)
			for p, path := range b {
				if o, ok := a[p]; ok {
					t.Failf("shared", "%s: %s of the clone is %s of the original", k.name, path, o)
					return false
				}
			}
		}
		// Change everything on one side.
		if dir == 0 {
			want := dumpOf(cl)
			mutate(reflect.ValueOf(m), map[uintptr]bool{})
			if d := dumpOf(cl); d != want {
				t.Failf("shared", "%s: changes of the original are seen in the clone: %s", k.name, firstDiff(want, d))
				return false
			}
		} else {
			mutate(reflect.ValueOf(cl), map[uintptr]bool{})
			if d := dumpOf(m); d != before {
				t.Failf("shared", "%s: changes of the clone are seen in the original: %s", k.name, firstDiff(before, d))
				return false
			}
		}
	}
	return true
}

func init() {
	register(&core.Check{
		ID:          "C15",
		Rule:        "one case per model value; transitions are clone calls of the manifest, its Periods and AdaptationSets; every reachable address of clone and original is compared, then every exported leaf, list and link of one side is changed and the other compared, in both directions; non-trivial when something was cloned",
		Bounds:      "all models of the C02 enumeration (each field of each type at each place alone, in pairs, all but one, lists to 65 (thorough 1025), saturated to depth 4 (7)), with parents set and also with shared pointers within the model; clones of clones",
		Assumptions: []string{"nil and empty lists are equal"},
		Run:         runClones,
	})
}

func runClones(c *core.Ctx) {
	kinds := cloneKinds()
	eachModel(c, modelOpt(c), func(name, scte string, mk func() *mpd.MPD) {
		if c.Mine() {
			c.Run(func() string { return name }, func(t *core.T) {
				for i := range kinds {
					if !checkClone(t, &kinds[i], mk) {
						return
					}
				}
				t.State(dumpOf(mk()))
			})
		}
	})
	// Read manifests, clones of clones, and shared parts.
	g := &models.Gen{SCTENS: vocab.SCTE}
	full := func(depth int) *mpd.MPD {
		m := g.Root()
		g.Fill(reflect.ValueOf(m).Elem(), depth, 1)
		return m
	}
	sources := map[string]func() *mpd.MPD{}
	for d := 1; d <= 3; d++ {
		d := d
		sources[fmt.Sprintf("read %d", d)] = func() *mpd.MPD {
			s, err := full(d).WriteToString("", true)
			if err != nil {
				panic(err)
			}
			m, err := mpd.ReadFromString(s)
			if err != nil {
				panic(err)
			}
			return m
		}
		sources[fmt.Sprintf("clone of clone %d", d)] = func() *mpd.MPD { return mpd.Clone(mpd.Clone(full(d))) }
		sources[fmt.Sprintf("clone of period %d", d)] = func() *mpd.MPD {
			m := mpd.NewMPD("static")
			p := full(d).Periods[0]
			m.AppendPeriod(p)
			m.AppendPeriod(p.Clone())
			if len(p.AdaptationSets) > 0 {
				p.AppendAdaptationSet(p.AdaptationSets[0].Clone())
			}
			return m
		}
		sources[fmt.Sprintf("shared %d", d)] = func() *mpd.MPD {
			m := full(d)
			p := m.Periods[0]
			du := p.Duration
			for _, q := range m.Periods {
				q.Start, q.Duration = du, du
				q.AdaptationSets = append(q.AdaptationSets[:len(q.AdaptationSets):len(q.AdaptationSets)], p.AdaptationSets...)
				q.BaseURLs = p.BaseURLs
			}
			return m
		}
		sources[fmt.Sprintf("spare capacity %d", d)] = func() *mpd.MPD {
			m := full(d)
			m.Periods = append(make([]*mpd.Period, 0, 64), m.Periods...)
			for _, p := range m.Periods {
				p.AdaptationSets = append(make([]*mpd.AdaptationSetType, 0, 64), p.AdaptationSets...)
				p.BaseURLs = append(make([]*mpd.BaseURLType, 0, 9), p.BaseURLs...)
			}
			return m
		}
	}
	for _, name := range core.SortedKeys(sources) {
		mk := sources[name]
		for i := range kinds {
			i := i
			c.Case(func() string { return name + " " + kinds[i].name }, func(t *core.T) {
				checkClone(t, &kinds[i], mk)
				t.State(name, kinds[i].name)
			})
		}
	}
}
