package checks

import (
	stdxml "encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/pair/fork"
	"verifmc/pair/std"

	"github.com/Eyevinn/dash-mpd/xml"
)

// structMatrix covers types with every combination of the marshaling and
// unmarshaling methods and of their receivers.
func structMatrix(c *core.Ctx) {
	fm, sm := fork.Matrix(), std.Matrix()
	tags := []string{"n", "n,attr", ",chardata", ",cdata", ",any", ",any,attr", ",comment", ",innerxml", "a>b", "n,omitempty", "n,attr,omitempty", ""}
	for i := range fm {
		base := ftype{fm[i].Name, fm[i].Type, sm[i].Type}
		c.Case(func() string { return "methods: " + base.name }, func(t *core.T) {
			t.State(base.name)
			wrapped := []ftype{base, base.ptr(), base.list(), base.ptr().list(), base.ptr().ptr(), base.list().ptr(), base.list().list(),
				{"[2]" + base.name, reflect.ArrayOf(2, base.f), reflect.ArrayOf(2, base.s)}}
			for wi, ty := range wrapped {
				for ti, tag := range tags {
					f := &fspec{t: ty, tag: tag}
					for xn := 0; xn < 7; xn += 6 {
						ft, st, ok := makeStruct(xn, []*fspec{f}, "")
						if !ok {
							continue
						}
						desc := func() string { return "struct with " + f.String() }
						if !structAgree(t, desc, ft, st, true, (wi+ti)%2 == 0) {
							return
						}
						if base.name[0] == 'U' && !sameErrors(t, desc, ft, st) {
							return
						}
					}
				}
				// In an interface, and alone.
				for _, tag := range tags {
					ft, st, ok := makeStruct(0, []*fspec{{t: same[any](), tag: tag}, {t: same[[]any](), tag: strings.Replace(tag, "n", "m", 1)}}, "")
					if !ok || strings.HasPrefix(tag, ",") && tag != ",any" && tag != ",any,attr" {
						ft, st, ok = makeStruct(0, []*fspec{{t: same[any](), tag: tag}}, "")
						if !ok {
							continue
						}
					}
					for variant := 0; variant < 4; variant++ {
						fill := func(ty, wt reflect.Type) reflect.Value {
							v, w := reflect.New(ty), reflect.New(wt)
							n := 0
							gfill(w.Elem(), variant, &n, 0)
							v.Elem().Field(1).Set(w.Elem())
							if v.Elem().NumField() > 2 {
								v.Elem().Field(2).Set(reflect.ValueOf([]any{w.Interface(), w.Elem().Interface()}))
							}
							if variant == 3 {
								v.Elem().Field(1).Set(w)
							}
							return v
						}
						fv, sv := fill(ft, ty.f), fill(st, ty.s)
						ref := attempt(func() (string, error) { b, err := stdxml.Marshal(sv.Interface()); return string(b), err })
						lib := attempt(func() (string, error) { b, err := xml.Marshal(fv.Interface()); return string(b), err })
						t.Step(2)
						t.Eval(ref.err == nil)
						if !agreeing(t, func() string { return fmt.Sprintf("any %q with %s, value %d", tag, ty.name, variant) }, lib, ref, false) {
							return
						}
					}
				}
			}
		})
	}
}

// sameErrors compares the errors that the methods of the types report.
func sameErrors(t *core.T, desc func() string, ft, st reflect.Type) bool {
	for _, doc := range structDocs {
		fv, sv := reflect.New(ft), reflect.New(st)
		ref := attempt(func() (string, error) { return "", stdxml.Unmarshal([]byte(doc), sv.Interface()) })
		lib := attempt(func() (string, error) { return "", xml.Unmarshal([]byte(doc), fv.Interface()) })
		if ref.err != nil && lib.err != nil && len(ref.err.Error()) > 1 && ref.err.Error()[1] == ':' && ref.err.Error() != lib.err.Error() {
			t.Failf("error differs", "%s: reading %s: %v; encoding/xml: %v", desc(), doc, lib.err, ref.err)
			return false
		}
	}
	return true
}

// deepPaths covers fields with paths of up to four names.
func deepPaths(c *core.Ctx) {
	var paths []string
	var grow func(p string, n int)
	grow = func(p string, n int) {
		for _, x := range []string{"a", "b"} {
			q := x
			if p != "" {
				q = p + ">" + x
			}
			paths = append(paths, q)
			if n > 1 {
				grow(q, n-1)
			}
		}
	}
	grow("", 4)
	var docs []string
	// All trees of two names to a depth, with other elements and texts between.
	var tree func(sb *strings.Builder, depth int, names []string, junk string, n *int)
	tree = func(sb *strings.Builder, depth int, names []string, junk string, n *int) {
		for _, x := range names {
			*n++
			fmt.Fprintf(sb, "<%s>%d", x, *n)
			sb.WriteString(junk)
			if depth > 1 {
				tree(sb, depth-1, names, junk, n)
			}
			sb.WriteString(junk)
			fmt.Fprintf(sb, "</%s>", x)
		}
	}
	for _, names := range [][]string{{"a", "b"}, {"b", "a"}, {"a", "b", "a"}, {"x", "a", "b"}} {
		for _, junk := range []string{"", "<x><a>7<b>8<a><a>9</a></a></b></a></x>"} {
			for _, depth := range []int{5, 3} {
				if len(names) > 2 && depth > 4 {
					depth = 4
				}
				var sb strings.Builder
				n := 0
				sb.WriteString("<r>")
				tree(&sb, depth, names, junk, &n)
				sb.WriteString("</r>")
				docs = append(docs, sb.String())
			}
		}
	}
	types := []ftype{same[string](), same[[]string](), same[*string](), same[struct {
		A string   `xml:"a,attr"`
		B []string `xml:"a"`
	}]()}
	check := func(t *core.T, fs ...*fspec) bool {
		ft, st, ok := makeStruct(0, fs, "")
		if !ok {
			return true
		}
		desc := func() string {
			var n []string
			for _, f := range fs {
				n = append(n, f.String())
			}
			return "struct with " + strings.Join(n, ", ")
		}
		t.State(desc())
		accepted := false
		for variant := 0; variant < 3; variant++ {
			fv, sv := reflect.New(ft), reflect.New(st)
			n1, n2 := 0, 0
			gfill(fv.Elem(), variant, &n1, 0)
			gfill(sv.Elem(), variant, &n2, 0)
			for mode := 0; mode < 2; mode++ {
				ref := attempt(func() (string, error) {
					b, err := stdxml.MarshalIndent(sv.Interface(), "", strings.Repeat(" ", mode))
					return string(b), err
				})
				lib := attempt(func() (string, error) {
					b, err := xml.MarshalIndent(fv.Interface(), "", strings.Repeat(" ", mode))
					return string(b), err
				})
				t.Step(2)
				if !agreeing(t, func() string { return fmt.Sprintf("%s: writing %s", desc(), gdumpOf(sv.Elem())) }, lib, ref, false) {
					return false
				}
				if ref.err != nil || ref.pan != nil {
					break
				}
				accepted = true
				if !readAgree(t, desc, ft, st, ref.out, 0) {
					return false
				}
			}
			if !accepted {
				break
			}
		}
		if accepted {
			for _, doc := range docs {
				if !readAgree(t, desc, ft, st, doc, 0) {
					return false
				}
			}
		}
		t.Eval(accepted)
		t.Trace()
		return true
	}
	for i, p := range paths {
		c.Case(func() string { return "paths, first " + p }, func(t *core.T) {
			for _, ty := range types {
				if !check(t, &fspec{t: ty, tag: p}) {
					return
				}
			}
			for j, q := range paths {
				for k, ty := range types {
					if (i+j+k)%2 == 0 || c.Thorough() {
						if !check(t, &fspec{t: types[(k+j)%4], tag: p}, &fspec{t: ty, tag: q}) {
							return
						}
					}
				}
				for k, r := range paths {
					if strings.Count(p, ">") > 1 && strings.Count(q, ">") > 1 && (strings.Count(r, ">") > 1 || c.Thorough()) && (c.Thorough() || (i+j+k)%3 == 0) {
						if !check(t, &fspec{t: types[i%2], tag: p}, &fspec{t: types[j%3], tag: q}, &fspec{t: types[k%4], tag: r}) {
							return
						}
					}
				}
			}
		})
	}
}

// byteSlices collects the byte slices of a value.
func byteSlices(v reflect.Value, l *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			byteSlices(v.Elem(), l)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				byteSlices(v.Field(i), l)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*l = append(*l, v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			byteSlices(v.Index(i), l)
		}
	}
}

// sharing tells for all pairs of byte slices whether writing to the first
// changes the second.
func sharing(v reflect.Value) (m [][]bool) {
	var l []reflect.Value
	byteSlices(v, &l)
	for i := range l {
		row := make([]bool, len(l))
		var before []string
		for j := range l {
			before = append(before, string(l[j].Bytes()))
		}
		b := l[i].Bytes()
		old := string(b)
		for k := range b {
			b[k] ^= 0x80
		}
		for j := range l {
			row[j] = j != i && string(l[j].Bytes()) != before[j]
		}
		copy(b, old)
		m = append(m, row)
	}
	return m
}

// ownBytes covers the independence of decoded byte slices of each other, of
// the decoder and of the ones that were in the target.
func ownBytes(c *core.Ctx) {
	by := same[[]byte]()
	nb := pairTypes()["NamedBytes"]
	var fs []*fspec
	for _, tag := range []string{"n", ",chardata", ",cdata", ",comment", ",innerxml", "n,attr", ",any", "a>b", ",any,attr", "m"} {
		fs = append(fs, &fspec{t: by, tag: tag})
	}
	fs = append(fs, &fspec{t: nb, tag: "n"}, &fspec{t: nb, tag: ",innerxml"}, &fspec{t: nb, tag: "n,attr"}, &fspec{t: by.list(), tag: "n"}, &fspec{t: by.list(), tag: "a>b"}, &fspec{t: by.ptr(), tag: "n"})
	docs := []string{
		`<r n="at"><n>one</n><n>two</n><n/><n>three</n><a><b>p</b><b>qq</b></a>text<!--co--><m>m</m>more<!--mm--></r>`,
		`<r n="zz"><n>abc</n></r>`, `<r>abc</r>`, `<r><!--abc--></r>`, `<r n="abc" m="abc"/>`, `<r/>`, `<r n=""><n></n></r>`, `<r><a><b>abc</b><b>de</b></a><x>abc</x></r>`,
		`<r><n><n>1<n>2</n></n><m>3</m></n><n n="4"><n>55</n><m>6<!--c--></m></n><n>abc</n></r>`,
		`<r><x n="1">ab<!--c--><n>1</n></x><x n="22">abcd<n>333</n></x><n>333</n><n>4444<n>5</n></n></r>`,
	}
	check := func(t *core.T, desc func() string, ft, st reflect.Type) bool {
		accepted := false
		for di, doc := range docs {
			for k := -1; k < 4; k++ {
				fv, sv := reflect.New(ft), reflect.New(st)
				var guards [][]byte
				if k >= 0 {
					var l1, l2 []reflect.Value
					byteSlices(fv.Elem(), &l1)
					byteSlices(sv.Elem(), &l2)
					for i := range l1 {
						g := []byte("0123456789abcdef")
						guards = append(guards, g)
						l1[i].SetBytes(g[:k])
						l2[i].SetBytes([]byte("0123456789abcdef")[:k])
					}
				}
				in := []byte(doc)
				ref := attempt(func() (string, error) {
					err := stdxml.Unmarshal([]byte(doc), sv.Interface())
					return gdumpOf(sv.Elem()), err
				})
				lib := attempt(func() (string, error) {
					err := xml.Unmarshal(in, fv.Interface())
					return gdumpOf(fv.Elem()), err
				})
				t.Step(2)
				what := func() string { return fmt.Sprintf("%s: reading %s over slices of %d bytes", desc(), doc, k) }
				if !agreeing(t, what, lib, ref, false) {
					return false
				}
				if string(in) != doc {
					t.Failf("input changed", "%s: input is now %s", what(), in)
					return false
				}
				for _, g := range guards {
					if string(g) != "0123456789abcdef" {
						t.Failf("old value changed", "%s: a slice that was in the target is now %q", what(), g)
						return false
					}
				}
				if ref.err != nil || ref.pan != nil {
					continue
				}
				accepted = true
				m1, m2 := sharing(fv.Elem()), sharing(sv.Elem())
				for i := range m1 {
					for j := range m1[i] {
						if m1[i][j] && !m2[i][j] {
							t.Failf("shared", "%s: byte slices %d and %d of %s share their bytes", what(), i, j, lib.out)
							return false
						}
					}
				}
				// The decoder goes on.
				if k < 0 {
					next := docs[(di+1)%len(docs)]
					d := xml.NewDecoder(strings.NewReader(doc + next + doc))
					v := reflect.New(ft)
					if err := d.Decode(v.Interface()); err != nil {
						t.Failf("error differs", "%s: from a stream: %v", what(), err)
						return false
					}
					was := gdumpOf(v.Elem())
					for i := 0; i < 2; i++ {
						w := reflect.New(ft)
						d.Decode(w.Interface())
					}
					for {
						if _, err := d.Token(); err != nil {
							break
						}
					}
					if now := gdumpOf(v.Elem()); now != was {
						t.Failf("changed later", "%s: %s became %s while the decoder read on", what(), was, now)
						return false
					}
				}
			}
		}
		t.Eval(accepted)
		t.Trace()
		return true
	}
	for _, f := range fs {
		c.Case(func() string { return "bytes: " + f.String() }, func(t *core.T) {
			for _, g := range fs {
				ft, st, ok := makeStruct(6, []*fspec{f, g}, "")
				if f == g {
					ft, st, ok = makeStruct(6, []*fspec{f}, "")
				}
				if !ok {
					continue
				}
				desc := func() string { return fmt.Sprintf("struct with %s, %s", f, g) }
				t.State(desc())
				if !check(t, desc, ft, st) {
					return
				}
				in := ftype{desc(), ft, st}
				for _, o := range []*fspec{{t: in.list(), tag: "n"}, {t: in.list(), tag: ",any"}, {t: in, tag: "n"}, {t: in.ptr().list(), tag: "x"}} {
					for _, extra := range []*fspec{nil, {t: by, tag: ",innerxml"}, {t: by, tag: ",comment"}} {
						l := []*fspec{o}
						if extra != nil {
							l = append(l, extra)
						}
						oft, ost, ok := makeStruct(6, l, "")
						if ok && !check(t, func() string { return fmt.Sprintf("struct with %v", l) }, oft, ost) {
							return
						}
					}
				}
			}
		})
	}
}

// attrSets covers the distribution of attributes to fields.
func attrSets(c *core.Ctx) {
	attrs := []string{`xmlns="u"`, `xmlns:p="v"`, `p:n="1"`, `n="2"`, `xml:lang="3"`, `q="4"`, `xmlns:n="w"`}
	p := pairTypes()
	at := p["xml.Attr"]
	if at.f == nil {
		at = p["Attr"]
	}
	var fields [][]*fspec
	for _, any := range []ftype{at, at.list(), at.ptr(), same[string](), same[[]string](), p["MAttr"], p["PMAttr"], p["Text"], p["MAttr"].list()} {
		fields = append(fields, []*fspec{{t: any, tag: ",any,attr"}})
		for _, tag := range []string{"n,attr", "u n,attr", "v n,attr", "xmlns,attr", "lang,attr", "p,attr"} {
			for _, ty := range []ftype{same[string](), same[[]string](), at, p["MAttr"]} {
				fields = append(fields, []*fspec{{t: ty, tag: tag}, {t: any, tag: ",any,attr"}}, []*fspec{{t: any, tag: ",any,attr"}, {t: ty, tag: tag}})
			}
		}
		for _, any2 := range []ftype{at, same[[]string]()} {
			fields = append(fields, []*fspec{{t: any, tag: ",any,attr"}, {t: any2, tag: ",any,attr"}})
		}
	}
	for _, fs := range fields {
		desc := func() string { return fmt.Sprintf("attributes to %v", fs) }
		c.Case(desc, func(t *core.T) {
			ft, st, ok := makeStruct(6, fs, "")
			if !ok {
				return
			}
			t.State(desc())
			for set := 0; set < 1<<len(attrs); set++ {
				for order := 0; order < 3; order++ {
					var l []string
					for i := range attrs {
						k := i
						if order == 1 {
							k = len(attrs) - 1 - i
						} else if order == 2 {
							k = (i * 3) % len(attrs)
						}
						if set>>k&1 == 1 {
							l = append(l, attrs[k])
						}
					}
					doc := "<r " + strings.Join(l, " ") + "/>"
					// The declarations of prefixes have another namespace in this fork.
					fv, sv := reflect.New(ft), reflect.New(st)
					ref := attempt(func() (string, error) {
						err := stdxml.Unmarshal([]byte(doc), sv.Interface())
						return strings.ReplaceAll(gdumpOf(sv.Elem()), `Space:"xmlns"`, `Space:"http://www.w3.org/2000/xmlns/"`), err
					})
					lib := attempt(func() (string, error) {
						err := xml.Unmarshal([]byte(doc), fv.Interface())
						return gdumpOf(fv.Elem()), err
					})
					t.Step(2)
					t.Eval(ref.err == nil)
					if strings.Contains(fmt.Sprint(fs), "n,attr") && set>>6&1 == 1 {
						// A declaration is not an attribute of its prefix's name here.
						continue
					}
					if strings.Contains(fmt.Sprint(fs), `"p,attr"`) && set>>1&1 == 1 {
						continue
					}
					if !agreeing(t, func() string { return desc() + ": reading " + doc }, lib, ref, false) {
						return
					}
				}
			}
		})
	}
}

// dashes covers all comments over a few characters.
func dashes(c *core.Ctx) {
	for _, ty := range []ftype{same[string](), same[[]byte](), same[*string](), same[*[]byte](), same[any](), pairTypes()["Named"], pairTypes()["NamedBytes"]} {
		for _, tag := range []string{",comment", ",cdata", ",chardata", ",innerxml", "n,attr", "n"} {
			c.Case(func() string { return "texts in " + ty.name + " " + tag }, func(t *core.T) {
				ft, st, ok := makeStruct(0, []*fspec{{t: ty, tag: tag}}, "")
				if !ok {
					return
				}
				var rec func(s string, n int) bool
				rec = func(s string, n int) bool {
					set := func(ty reflect.Type) reflect.Value {
						v := reflect.New(ty)
						f := v.Elem().Field(1)
						if f.Kind() == reflect.Pointer {
							f.Set(reflect.New(f.Type().Elem()))
							f = f.Elem()
						}
						switch f.Kind() {
						case reflect.String:
							f.SetString(s)
						case reflect.Slice:
							f.SetBytes([]byte(s))
						case reflect.Interface:
							f.Set(reflect.ValueOf(s))
						}
						return v
					}
					fv, sv := set(ft), set(st)
					ref := attempt(func() (string, error) { b, err := stdxml.Marshal(sv.Interface()); return string(b), err })
					lib := attempt(func() (string, error) { b, err := xml.Marshal(fv.Interface()); return string(b), err })
					t.Step(2)
					t.Eval(ref.err == nil)
					if !agreeing(t, func() string { return fmt.Sprintf("%s %q: writing %q", ty.name, tag, s) }, lib, ref, false) {
						return false
					}
					if n == 0 {
						return true
					}
					for _, x := range []string{"-", "a", ">", "]", "<", "\x01", "é", "\xff"} {
						if !rec(s+x, n-1) {
							return false
						}
					}
					return true
				}
				rec("", c.Pick(4, 5))
			})
		}
	}
}

// nests covers nests of structs to a depth with every kind of leaf, indented
// and not.
func nests(c *core.Ctx) {
	p := pairTypes()
	leaves := []*fspec{{t: same[string](), tag: "n"}, {t: same[string](), tag: ",chardata"}, {t: same[string](), tag: ",comment"}, {t: same[string](), tag: ",innerxml"}, {t: same[string](), tag: "n,attr"},
		{t: p["Text"], tag: "n"}, {t: p["Text"].ptr(), tag: "n"}, {t: p["VText"], tag: "n"}, {t: p["PText"].ptr(), tag: "n"}, {t: p["Marsh"], tag: "n"}, {t: p["PMarsh"].ptr(), tag: "n"}, {t: p["Text"].list(), tag: "a>b"}, {t: same[[]string](), tag: "n"}, {t: same[[]byte](), tag: "n"}, {t: same[any](), tag: "n"}, {t: p["Inner"].list(), tag: "n"}, {t: p["AnyNode"], tag: ",any"}}
	for _, a := range leaves {
		c.Case(func() string { return "nests of " + a.String() }, func(t *core.T) {
			for _, b := range leaves {
				fs := []*fspec{a, b}
				if a == b {
					fs = fs[:1]
				}
				for depth := 0; depth < 6; depth++ {
					ft, st, ok := makeStruct(0, fs, "")
					if !ok {
						break
					}
					desc := func() string { return fmt.Sprintf("%s, %s, %d deep", a, b, depth) }
					t.State(desc())
					for variant := 0; variant < 5; variant++ {
						for mode := 0; mode < 4; mode++ {
							fv, sv := reflect.New(ft), reflect.New(st)
							n1, n2 := 0, 0
							gfill(fv.Elem(), variant, &n1, -4)
							gfill(sv.Elem(), variant, &n2, -4)
							pre, ind := []string{"", "", ">", "."}[mode], []string{"", " ", "", "\t\t"}[mode]
							ref := attempt(func() (string, error) {
								b, err := stdxml.MarshalIndent(sv.Interface(), pre, ind)
								return string(b), err
							})
							lib := attempt(func() (string, error) { b, err := xml.MarshalIndent(fv.Interface(), pre, ind); return string(b), err })
							t.Step(2)
							t.Eval(ref.err == nil)
							if !agreeing(t, func() string { return fmt.Sprintf("%s: writing value %d", desc(), variant) }, lib, ref, false) {
								return
							}
						}
					}
					in := ftype{"s", ft, st}
					fs = []*fspec{{t: []ftype{in, in.ptr(), in.list()}[depth%3], tag: []string{"n", "a>n", "m"}[depth%3]}}
					if depth%2 == 1 {
						fs = append(fs, b)
					}
					// The names of the struct are its field's.
					ft2, st2, ok := makeStruct(6, fs, "")
					if !ok {
						break
					}
					in = ftype{"t", ft2, st2}
					fs = []*fspec{{t: in, tag: "r2"}}
				}
			}
			t.Trace()
		})
	}
}

// ignored covers long and deep content that is not asked for, and large
// numbers of everything that is.
func ignored(c *core.Ctx) {
	p := pairTypes()
	sub := struct {
		name string
		fs   []*fspec
	}{"fields", []*fspec{{t: same[string](), tag: "a"}, {t: same[[]string](), tag: "b"}, {t: p["Inner"], tag: "sub"}, {t: same[[]string](), tag: "p>q>a"}, {t: p["Text"].list(), tag: "t"}, {t: p["Marsh"].list(), tag: "m"}}}
	kinds := []struct {
		name string
		fs   []*fspec
	}{sub,
		{"any", append([]*fspec{{t: same[[]string](), tag: ",any"}, {t: same[[]string](), tag: ",any,attr"}}, sub.fs...)},
		{"raw", append([]*fspec{{t: same[[]byte](), tag: ",innerxml"}, {t: same[string](), tag: ",chardata"}, {t: same[string](), tag: ",comment"}}, sub.fs...)},
		{"pmarsh", append([]*fspec{{t: p["PMarsh"].list(), tag: ",any"}}, sub.fs...)},
	}
	junks := []struct {
		name string
		f    func(n int) string
	}{
		{"nested elements", func(n int) string { return strings.Repeat("<x>", n) + strings.Repeat("</x>", n) }},
		{"nested elements with known names", func(n int) string {
			return "<x>" + strings.Repeat("<a>1<b>2", n/2) + strings.Repeat("</b></a>", n/2) + "</x>"
		}},
		{"elements in a row", func(n int) string { return strings.Repeat("<x>7</x>", n) }},
		{"elements in a row in an element", func(n int) string { return "<x>" + strings.Repeat("<a/><x/>", n/2) + "</x>" }},
		{"comments", func(n int) string { return strings.Repeat("<!--c-->", n) }},
		{"texts", func(n int) string { return strings.Repeat("t<!---->", n) + strings.Repeat("<![CDATA[d]]>", n) }},
		{"attributes", func(n int) string {
			var sb strings.Builder
			sb.WriteString("<x")
			for i := 0; i < n && i < 3000; i++ {
				fmt.Fprintf(&sb, " a%d='%d'", i, i)
			}
			return sb.String() + "/>"
		}},
		{"fields", func(n int) string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "<b>%d</b>", i)
			}
			return sb.String()
		}},
		{"structs", func(n int) string { return strings.Repeat("<sub a='1'><b>2</b></sub>", n) }},
		{"paths", func(n int) string { return strings.Repeat("<p><q><a>1</a></q></p>", n) }},
		{"texts of unmarshalers", func(n int) string { return strings.Repeat("<t>1</t><m>2</m>", n/2) }},
	}
	counts := []int{}
	for n := 0; n <= c.Pick(40, 130); n++ {
		counts = append(counts, n)
	}
	for _, n := range sizesAround(6, c.Pick(13, 17), 2) {
		if n > counts[len(counts)-1] {
			counts = append(counts, n)
		}
	}
	counts = append(counts, 99, 100, 101, 999, 1000, 1001, 9998, 9999, 10000, 10001, 65536, 65537)
	for _, k := range kinds {
		for _, j := range junks {
			c.Case(func() string { return j.name + " into " + k.name }, func(t *core.T) {
				ft, st, ok := makeStruct(6, k.fs, "")
				if !ok {
					t.Failf("no type", "%s", k.name)
					return
				}
				for _, n := range counts {
					if n > 20000 && !c.Thorough() && !strings.HasPrefix(j.name, "nested") && j.name != "elements in a row" && j.name != "comments" {
						continue
					}
					x := j.f(n)
					doc := "<r>" + x + "<a>1</a>" + x + "<sub a='s'>" + x + "<b>2</b>" + x + "</sub><p>" + x + "<q>" + x + "<a>3</a></q></p><b>4</b><t>5" + x + "6</t><m>7</m></r>"
					if strings.HasPrefix(j.name, "struct") || strings.HasPrefix(j.name, "field") || strings.HasPrefix(j.name, "text") || strings.HasPrefix(j.name, "path") {
						doc = "<r>" + x + "<sub a='s'><b>2</b>" + x + "</sub>" + x + "<a>1</a><t>5" + x + "6</t><m>7</m></r>"
					}
					t.State(fmt.Sprint(k.name, j.name, n))
					fv, sv := reflect.New(ft), reflect.New(st)
					ref := attempt(func() (string, error) {
						err := stdxml.Unmarshal([]byte(doc), sv.Interface())
						return gdumpOf(sv.Elem()), err
					})
					lib := attempt(func() (string, error) {
						err := xml.Unmarshal([]byte(doc), fv.Interface())
						return gdumpOf(fv.Elem()), err
					})
					t.Step(2)
					t.Eval(ref.err == nil)
					t.Trace()
					if lib.out != ref.out || (lib.err == nil) != (ref.err == nil) || lib.pan != nil {
						t.Failf("result differs", "%d %s into %s: %.300s (%d bytes, %v); encoding/xml: %.300s (%d bytes, %v)", n, j.name, k.name, lib.out, len(lib.out), lib.err, ref.out, len(ref.out), ref.err)
						return
					}
					if n%2 == 1 || n > 3000 {
						continue
					}
					// The same by tokens and Skip.
					count := func(tok func() (string, bool, error), skip func() error) string {
						var s strings.Builder
						for {
							d, start, err := tok()
							if err == nil {
								s.WriteString(d)
								if start && d == "<x" {
									err = skip()
								}
							}
							if err == io.EOF {
								return s.String()
							}
							if err != nil {
								return s.String() + "!"
							}
						}
					}
					d1, d2 := xml.NewDecoder(strings.NewReader(doc)), stdxml.NewDecoder(strings.NewReader(doc))
					s1 := count(func() (string, bool, error) {
						tk, err := d1.Token()
						switch tk := tk.(type) {
						case xml.StartElement:
							return "<" + tk.Name.Local, true, err
						case xml.EndElement:
							return "/" + tk.Name.Local, false, err
						}
						return ".", false, err
					}, d1.Skip)
					s2 := count(func() (string, bool, error) {
						tk, err := d2.Token()
						switch tk := tk.(type) {
						case stdxml.StartElement:
							return "<" + tk.Name.Local, true, err
						case stdxml.EndElement:
							return "/" + tk.Name.Local, false, err
						}
						return ".", false, err
					}, d2.Skip)
					if s1 != s2 {
						t.Failf("skip", "%d %s: tokens and Skip give %.200s, encoding/xml %.200s", n, j.name, s1, s2)
						return
					}
				}
			})
		}
	}
}

// boxed covers fields of interface types that already hold something: values,
// pointers to them (filled, zero or nil) and pointers to pointers.
func boxed(c *core.Ctx) {
	main, more, _ := fieldTypes()
	types := append(append([]ftype(nil), main...), more...)
	tags := []string{"", "n", "n,omitempty", "n,attr", "n,attr,omitempty", ",chardata", ",cdata", ",innerxml", ",comment", ",any", ",any,attr", "a>b"}
	shapes := []ftype{same[any](), same[[]any](), same[*any](), same[[2]any]()}
	box := func(ty reflect.Type, kind int) reflect.Value {
		v := reflect.New(ty)
		n := 0
		switch kind {
		case 1, 4, 5:
			gfill(v.Elem(), 1, &n, 0)
		case 2:
			gfill(v.Elem(), 3, &n, 0)
		case 3:
			return reflect.Zero(v.Type())
		}
		if kind == 4 {
			return v.Elem()
		}
		if kind == 5 {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			return p
		}
		return v
	}
	set := func(f, x reflect.Value) {
		switch f.Kind() {
		case reflect.Interface:
			f.Set(x)
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 4))
			f.Index(0).Set(x)
			f.Index(1).Set(reflect.ValueOf("second"))
		case reflect.Array:
			f.Index(1).Set(x)
		case reflect.Pointer:
			f.Set(reflect.New(f.Type().Elem()))
			f.Elem().Set(x)
		}
	}
	for _, ty := range types {
		for _, shape := range shapes {
			if shape.name != "interface {}" && !c.Thorough() && ty.name != "string" && ty.name != main[9].name {
				continue
			}
			c.Case(func() string { return "boxed " + ty.name + " in " + shape.name }, func(t *core.T) {
				for _, tag := range tags {
					ft, st, ok := makeStruct(6, []*fspec{{t: shape, tag: tag}, {t: same[string](), tag: "m"}}, "")
					if !ok {
						continue
					}
					for kind := 0; kind < 6; kind++ {
						mk := func(s, ty reflect.Type) reflect.Value {
							v := reflect.New(s)
							set(v.Elem().Field(0), box(ty, kind))
							return v
						}
						what := func(s string) func() string {
							return func() string { return fmt.Sprintf("%s %q holding %s (%d): %s", shape.name, tag, ty.name, kind, s) }
						}
						lib := attempt(func() (string, error) {
							b, err := xml.Marshal(mk(ft, ty.f).Interface())
							return string(b), err
						})
						ref := attempt(func() (string, error) {
							b, err := stdxml.Marshal(mk(st, ty.s).Interface())
							return string(b), err
						})
						t.Step(2)
						if !agreeing(t, what("writing"), lib, ref, false) {
							return
						}
						for _, doc := range structDocs {
							lib := attempt(func() (string, error) {
								v := mk(ft, ty.f)
								err := xml.Unmarshal([]byte(doc), v.Interface())
								return gdumpOf(v.Elem()), err
							})
							ref := attempt(func() (string, error) {
								v := mk(st, ty.s)
								err := stdxml.Unmarshal([]byte(doc), v.Interface())
								return gdumpOf(v.Elem()), err
							})
							t.Step(2)
							if !agreeing(t, what("reading "+doc), lib, ref, false) {
								return
							}
						}
						t.Trace()
						t.Eval(ref.err == nil)
					}
				}
				t.State("boxed " + ty.name + shape.name)
			})
		}
	}
}
