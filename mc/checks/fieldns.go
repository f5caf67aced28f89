package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C30",
		Rule: "one case per first field of a struct type with namespaces in its tags; an evaluation is one struct type with all its values written by both packages, compared as name-space-expanded trees, cross-read, and all texts read by both; non-trivial when the type is accepted",
		Bounds: "struct types with a root name in 7 forms and one, two or three fields from 15 types and 30 tags with two namespaces, with and without preferred prefixes that agree or conflict (all 342 single fields, all ordered pairs of 155 fields, thorough: all; all triples of 24 fields, thorough: of all 26 with strings), embedded structs included; " +
			"4 values each; 3,120 texts for single fields, 30 for pairs (thorough 3,120 for every 7th pair), 12 for triples; fresh and filled targets; values written directly, by EncodeElement, indented and in succession on one encoder",
		Assumptions: []string{"encoding/xml, which knows no preferred prefixes, is given the same types without them", "an element without namespace in its tag is in the default namespace of its surroundings or in none, as encoding/xml leaves it, too", "what is written for a path with a namespace in its tag is not read back (its parents are written without namespace and looked for with it, in encoding/xml, too)", "where fields for attributes of one name with and without namespace compete, an attribute is given only to the one that names its namespace (encoding/xml gives it to both)", "names of declarations that are captured as attributes are normalized (documented difference)",
			"a name that is only known at run time (XMLName without tag) is given no namespace"},
		Run: runFieldNS,
	})
}

// nsField is a field whose tag has a namespace and maybe a prefix.
type nsField struct {
	t        ftype
	tag, std string
	embed    string
	noWrite  bool
}

func (f *nsField) String() string {
	if f.embed != "" {
		return fmt.Sprintf("embedded %s", f.t.name)
	}
	return fmt.Sprintf("%s %q", f.t.name, f.tag)
}

// noPrefix is the tag for encoding/xml.
func noPrefix(tag string) string {
	space, rest, ok := strings.Cut(tag, " ")
	if !ok {
		space, rest = "", tag
	}
	name, flags, _ := strings.Cut(rest, ",")
	parts := strings.Split(name, ">")
	for i, p := range parts {
		if _, l, ok := strings.Cut(p, ":"); ok {
			parts[i] = l
		}
	}
	rest = strings.Join(parts, ">") + strings.TrimPrefix(rest, name)
	_ = flags
	if ok {
		return space + " " + rest
	}
	return rest
}

// nsStruct builds the type in both worlds; root is the tag of XMLName, "-"
// without it.
func nsStruct(root string, fs ...*nsField) (ft, st reflect.Type, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var ff, sf []reflect.StructField
	tag := func(s string) reflect.StructTag {
		if s == "" {
			return ""
		}
		return reflect.StructTag(fmt.Sprintf(`xml:%q`, s))
	}
	if root != "-" {
		ff = append(ff, reflect.StructField{Name: "XMLName", Type: reflect.TypeFor[xml.Name](), Tag: tag(root)})
		sf = append(sf, reflect.StructField{Name: "XMLName", Type: reflect.TypeFor[stdxml.Name](), Tag: tag(noPrefix(root))})
	}
	for i, f := range fs {
		name := fmt.Sprintf("F%d", i)
		if f.embed != "" {
			name = f.embed
		}
		ff = append(ff, reflect.StructField{Name: name, Type: f.t.f, Tag: tag(f.tag), Anonymous: f.embed != ""})
		sf = append(sf, reflect.StructField{Name: name, Type: f.t.s, Tag: tag(f.std), Anonymous: f.embed != ""})
	}
	return reflect.StructOf(ff), reflect.StructOf(sf), true
}

func nsTypes() []ftype {
	pt := pairTypes()
	mk := func(name, root string, fs ...*nsField) ftype {
		for _, f := range fs {
			f.std = noPrefix(f.tag)
		}
		f, s, ok := nsStruct(root, fs...)
		if !ok {
			panic(name)
		}
		return ftype{name, f, s}
	}
	str, ptr := same[string](), same[*string]()
	in := mk("In", "A n", &nsField{t: ptr, tag: "B v,attr"}, &nsField{t: str, tag: ",chardata"})
	inP := mk("InP", "A p:n", &nsField{t: str, tag: "A p:v,attr"}, &nsField{t: str, tag: "B p:w,attr,omitempty"})
	inQ := mk("InQ", "B q:n", &nsField{t: ptr, tag: "A p:n"}, &nsField{t: str, tag: "v,attr"})
	plain := mk("Plain", "-", &nsField{t: ptr, tag: "w,attr"}, &nsField{t: ptr, tag: "A v,attr"}, &nsField{t: same[[]string](), tag: "B q:n"})
	noNS := mk("NoNS", "n", &nsField{t: ptr, tag: "n"}, &nsField{t: str, tag: "A v,attr"})
	captured := mk("Captured", "", &nsField{t: str, tag: "v,attr"})
	return []ftype{str, ptr, same[[]string](), same[int](), in, in.ptr(), inP.list(), inQ, plain, plain.ptr(), noNS, captured, pt["Marsh"], pt["MAttr"], pt["Text"].ptr()}
}

var nsTags = []string{"A n", "A p:n", "B n", "B q:n", "B p:n", "n", "A m", "A n,omitempty", "A p:n,omitempty",
	"A n,attr", "A p:n,attr", "B n,attr", "B q:n,attr", "B p:n,attr", "n,attr", "A m,attr,omitempty", "http://x/p p:n,attr", "http://www.w3.org/XML/1998/namespace n,attr",
	"A a>n", "A p:a>p:n", "A a>p:n", "B a>n", "B a>q:n", "a>n", "A a>m", "A n>n", ",any", "", "A ", "A ,attr"}

// nsDocs are the texts that are read: root, attributes and children.
func nsDocs() (all, some []string) {
	roots := []string{"<r", `<r xmlns="A"`, `<a:r`, `<r xmlns="B"`, `<b:r xmlns="A"`, `<x xmlns="A"`}
	attrs := []string{"", ` n="1"`, ` a:n="2"`, ` b:n="3"`, ` a:n="4" n="5"`, ` b:n="6" a:n="7" m="8"`, ` n="9" a:n="10" b:n="11" a:m="12" xml:n="13"`, ` n="14" c:n="15"`}
	kids := []string{"<n>1</n>", "<a:n>2</a:n>", "<b:n>3</b:n>", `<n xmlns="A">4</n>`, `<n xmlns="">5</n>`, "<a:m>6</a:m>", "<a><n>7</n></a>", "<a><a:n>8</a:n></a>",
		`<b:a><a:n>9</a:n><b:n>10</b:n></b:a>`, `<a:a xmlns="B"><n>11</n><a:m>12</a:m></a:a>`, `<a:n b:v="13" v="14" a:v="15"><b:n>16</b:n>17</a:n>`, `<b:n a:v="18"><n>19</n><a:n>20</a:n></b:n>`, `<a:n><a:n>21</a:n></a:n>`, `<m>22</m>`}
	decl := ` xmlns:a="A" xmlns:b="B" xmlns:c="http://x/p"`
	k := 0
	for ri, r := range roots {
		for ai, a := range attrs {
			var bodies []string
			bodies = append(bodies, "")
			for i, x := range kids {
				bodies = append(bodies, x)
				for j, y := range kids {
					if i < 6 && j < 6 || i == 7 && j > 5 || j == 8 && i > 6 {
						bodies = append(bodies, x+y)
					}
				}
			}
			for bi, b := range bodies {
				name := strings.TrimPrefix(strings.Fields(r)[0], "<")
				doc := r + decl + a + ">" + b + "</" + name + ">"
				all = append(all, doc)
				if (bi+ri*5+ai*11)%32 == 0 || ri < 3 && ai == 6 && bi%9 == 1 {
					some = append(some, doc)
				}
				k++
			}
		}
	}
	return all, some
}

// nsTree compares a written element with that of encoding/xml.
func nsTree(lib, ref *refxml.Node, path string) string {
	path += "/" + ref.Local
	if lib.Local != ref.Local {
		return fmt.Sprintf("%s: <%s> instead of <%s>", path, lib.Local, ref.Local)
	}
	own := func(n *refxml.Node) bool {
		for _, d := range n.Decls {
			if d.Local == "" {
				return true
			}
		}
		return false
	}
	if own(ref) {
		if lib.Space != ref.Space {
			return fmt.Sprintf("%s: in namespace %q instead of %q", path, lib.Space, ref.Space)
		}
	} else if lib.Prefix != "" || own(lib) {
		return fmt.Sprintf("%s: in namespace %q, prefix %q, although its tag has none", path, lib.Space, lib.Prefix)
	}
	if len(lib.Attrs) != len(ref.Attrs) {
		return fmt.Sprintf("%s: %d attributes instead of %d", path, len(lib.Attrs), len(ref.Attrs))
	}
	for i, a := range ref.Attrs {
		if b := lib.Attrs[i]; b.Space != a.Space || b.Local != a.Local || b.Value != a.Value {
			return fmt.Sprintf("%s: attribute {%s}%s=%q instead of {%s}%s=%q", path, b.Space, b.Local, b.Value, a.Space, a.Local, a.Value)
		}
	}
	lk, rk := lib.Kids, ref.Kids
	if len(lk) != len(rk) {
		return fmt.Sprintf("%s: %d instead of %d pieces of content", path, len(lk), len(rk))
	}
	for i := range rk {
		if lk[i].Kind != rk[i].Kind || lk[i].Data != rk[i].Data {
			return fmt.Sprintf("%s: content %d differs", path, i)
		}
		if rk[i].Kind == refxml.Elem {
			if d := nsTree(lk[i], rk[i], path); d != "" {
				return d
			}
		}
	}
	return ""
}

// nsRead compares what both packages read.
func nsRead(t *core.T, desc func() string, ft, st reflect.Type, forLib, forStd string, prefill int) bool {
	fv, sv := reflect.New(ft), reflect.New(st)
	if prefill > 0 {
		n1, n2 := 0, 0
		gfill(fv.Elem(), prefill, &n1, 0)
		gfill(sv.Elem(), prefill, &n2, 0)
	}
	ref := attempt(func() (string, error) {
		err := stdxml.Unmarshal([]byte(forStd), sv.Interface())
		return gdumpOf(sv.Elem()), err
	})
	lib := attempt(func() (string, error) {
		err := xml.Unmarshal([]byte(forLib), fv.Interface())
		return gdumpOf(fv.Elem()), err
	})
	t.Step(2)
	return agreeing(t, func() string { return fmt.Sprintf("%s: reading %s (filled %d)", desc(), forLib, prefill) }, lib, ref, false)
}

// shadowed reports fields for an attribute in a namespace and for one of the
// same name without.
func shadowed(fs []*nsField) bool {
	with, without := map[string]bool{}, map[string]bool{}
	for _, f := range fs {
		tags := []string{f.std}
		if f.embed != "" {
			tags = nil
			for i := 0; i < f.t.f.NumField(); i++ {
				tags = append(tags, f.t.f.Field(i).Tag.Get("xml"))
			}
		}
		for _, tag := range tags {
			if !strings.Contains(tag, ",attr") {
				continue
			}
			space, rest, ok := strings.Cut(tag, " ")
			if !ok {
				without[strings.Split(tag, ",")[0]] = true
			} else if space != "" {
				name := strings.Split(rest, ",")[0]
				with[name[strings.IndexByte(name, ':')+1:]] = true
			}
		}
	}
	for n := range without {
		if with[n] {
			return true
		}
	}
	return false
}

// attrFields covers structs with fields for attributes of one name in
// different namespaces and in any: an attribute is given to the field that
// names its namespace, and else to the one without.
func attrFields(c *core.Ctx) {
	tags := []string{"n,attr", "A n,attr", "B p:n,attr", "http://www.w3.org/XML/1998/namespace n,attr"}
	spaces := []string{"", "A", "B", refxml.XMLNS}
	attrs := []struct{ text, space string }{{"n", ""}, {"a:n", "A"}, {"b:n", "B"}, {"c:n", "C"}, {"xml:n", refxml.XMLNS}, {"a:m", "A"}, {"aa:k", "A"}}
	for mask := 1; mask < 16; mask++ {
		for rot := 0; rot < 4; rot++ {
			c.Case(func() string { return fmt.Sprintf("attributes of one name, fields %04b from %d", mask, rot) }, func(t *core.T) {
				var fs []*nsField
				var which []int
				for i := range tags {
					if x := (i + rot) % 4; mask>>x&1 == 1 {
						fs = append(fs, &nsField{t: same[*string](), tag: tags[x]})
						which = append(which, x)
					}
				}
				ft, _, ok := nsStruct("-", fs...)
				if !ok {
					t.Failf("type", "no type")
					return
				}
				n := len(attrs) + 1
				for k := 0; k < n*n*n*n; k++ {
					var sb strings.Builder
					sb.WriteString(`<r xmlns:a="A" xmlns:aa="A" xmlns:b="B" xmlns:c="C"`)
					want := make([]*string, len(fs))
					used := map[int]bool{}
					bad := false
					for i, x := 0, k; i < 4; i, x = i+1, x/n {
						if x%n == 0 {
							continue
						}
						a := attrs[x%n-1]
						bad = bad || used[x%n]
						used[x%n] = true
						v := fmt.Sprint("v", i)
						fmt.Fprintf(&sb, ` %s="%s"`, a.text, v)
						if a.text[len(a.text)-1] != 'n' {
							continue
						}
						to := -1
						for j, w := range which {
							if spaces[w] == a.space {
								to = j
							}
						}
						for j, w := range which {
							if to < 0 && w == 0 {
								to = j
							}
						}
						if to >= 0 {
							want[to] = &v
						}
					}
					if bad {
						continue
					}
					sb.WriteString("/>")
					v := reflect.New(ft)
					err := xml.Unmarshal([]byte(sb.String()), v.Interface())
					t.Step(1)
					if err != nil {
						t.Failf("error", "%s: %v", sb.String(), err)
						return
					}
					for j := range want {
						g := v.Elem().Field(j).Interface().(*string)
						if (g == nil) != (want[j] == nil) || g != nil && *g != *want[j] {
							t.Failf("attribute", "%s into %s: field %d has %s", sb.String(), ft, j, gdumpOf(v))
							return
						}
					}
				}
				t.State(fmt.Sprint(mask, rot))
				t.Eval(true)
				t.Trace()
			})
		}
	}
}

func nsAgree(t *core.T, root string, docs []string, fs ...*nsField) bool {
	ft, st, ok := nsStruct(root, fs...)
	if !ok || shadowed(fs) {
		return true
	}
	desc := func() string {
		var n []string
		for _, f := range fs {
			n = append(n, f.String())
		}
		return fmt.Sprintf("struct with XMLName %q, %s", root, strings.Join(n, ", "))
	}
	accepted := false
	captured := root == ""
	// An element without namespace that encoding/xml leaves in the default
	// namespace may be taken for one of that namespace there.
	mixed, with, without := false, root != "r" && root != "-", false
	for _, f := range fs {
		// Parents on a path are written without the namespace that their tag
		// has, and that is needed to read them: so in encoding/xml, too.
		captured = captured || f.t.name == "Captured" || f.t.name == "NoNS" || strings.Contains(f.tag, " ") && strings.Contains(f.tag, ">") || strings.Contains(f.t.name, ">")
	}
	for _, f := range fs {
		if f.embed != "" || f.tag == ",any" || !strings.Contains(f.tag, " ") && !strings.Contains(f.tag, ",attr") && f.tag != "" {
			without = true
		}
		if strings.Contains(f.tag, " ") && !strings.Contains(f.tag, ",attr") {
			with = true
		}
	}
	mixed = with && without
	for variant := 0; variant < 4; variant++ {
		fv, sv := reflect.New(ft), reflect.New(st)
		n1, n2 := 0, 0
		gfill(fv.Elem(), variant, &n1, 0)
		gfill(sv.Elem(), variant, &n2, 0)
		for mode := 0; mode < 4; mode++ {
			if mode > 0 && variant != 3 {
				continue
			}
			what := func() string {
				return fmt.Sprintf("%s: writing value %d, %s, mode %d", desc(), variant, gdumpOf(sv.Elem()), mode)
			}
			ref := attempt(func() (string, error) {
				var b bytes.Buffer
				e := stdxml.NewEncoder(&b)
				var err error
				switch mode {
				case 0:
					err = e.Encode(sv.Interface())
				case 1:
					err = e.EncodeElement(sv.Elem().Interface(), stdxml.StartElement{Name: stdxml.Name{Space: "B", Local: "s"}, Attr: []stdxml.Attr{{Name: stdxml.Name{Space: "A", Local: "sa"}, Value: "1"}}})
				case 2:
					e.Indent("", " ")
					err = e.Encode(sv.Interface())
				case 3:
					e.EncodeToken(stdxml.StartElement{Name: stdxml.Name{Local: "top"}})
					if err = e.Encode(sv.Interface()); err == nil {
						err = e.Encode(sv.Interface())
					}
					if err == nil {
						e.EncodeToken(stdxml.EndElement{Name: stdxml.Name{Local: "top"}})
						err = e.Close()
					}
				}
				return b.String(), err
			})
			lib := attempt(func() (string, error) {
				var b bytes.Buffer
				e := xml.NewEncoder(&b)
				var err error
				switch mode {
				case 0:
					err = e.Encode(fv.Interface())
				case 1:
					err = e.EncodeElement(fv.Elem().Interface(), xml.StartElement{Name: xml.Name{Space: "B", Local: "s"}, Attr: spare(xml.Attr{Name: xml.Name{Space: "A", Local: "sa"}, Value: "1"})})
					checkSpare(t, "A")
				case 2:
					e.Indent("", " ")
					err = e.Encode(fv.Interface())
				case 3:
					e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "top"}})
					if err = e.Encode(fv.Interface()); err == nil {
						err = e.Encode(fv.Interface())
					}
					if err == nil {
						e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "top"}})
						err = e.Close()
					}
				}
				return b.String(), err
			})
			t.Step(2)
			lo, ro := lib, ref
			lo.out, ro.out = "", ""
			if !agreeing(t, what, lo, ro, false) {
				return false
			}
			if ref.err != nil || ref.pan != nil {
				continue
			}
			accepted = true
			rt, err := refxml.Parse(ref.out)
			if err != nil {
				continue // encoding/xml writes what no parser accepts, such as lists of attributes
			}
			lt, err := refxml.Parse(lib.out)
			if err != nil {
				t.Failf("ill-formed", "%s: %s: %v", what(), lib.out, err)
				return false
			}
			if d := nsTree(lt, rt, ""); d != "" {
				t.Failf("tree", "%s: %s; %s, encoding/xml: %s", what(), d, lib.out, ref.out)
				return false
			}
			if mode == 0 && !captured {
				// Both read what each of them wrote, and get the same.
				for _, s := range [][2]string{{lib.out, lib.out}, {ref.out, ref.out}, {lib.out, ref.out}}[:3-b2i(mixed)] {
					if !nsRead(t, desc, ft, st, s[0], s[1], 0) {
						return false
					}
				}
			}
		}
	}
	for i, doc := range docs {
		if !nsRead(t, desc, ft, st, doc, doc, 0) || i%16 == 5 && !nsRead(t, desc, ft, st, doc, doc, 1) {
			return false
		}
	}
	t.Eval(accepted)
	t.Trace()
	return true
}

func runFieldNS(c *core.Ctx) {
	attrFields(c)
	types := nsTypes()
	all, some := nsDocs()
	roots := []string{"r", "A r", "A p:r", "B q:r", "B p:r", "", "-"}
	var fields, pairs, triple []*nsField
	for ti, ty := range types {
		for k, tag := range nsTags {
			f := &nsField{t: ty, tag: tag, std: noPrefix(tag)}
			attr := strings.Contains(tag, ",attr")
			if attr && (ti == 4 || ti > 5 && ti < 12) || ti > 6 && len(tag) > 8 {
				continue
			}
			fields = append(fields, f)
			if ti < 2 || (ti+k)%3 == 0 || c.Thorough() {
				pairs = append(pairs, f)
			}
			if ti == 0 && tag != "" && !strings.Contains(tag, " ,") && tag != "A " && !strings.Contains(tag, "omit") || ti == 1 && tag == "n" || ti == 6 && tag == "A n" {
				triple = append(triple, f)
			}
		}
	}
	// Embedded structs.
	for _, tags := range [][2]string{{"A n", "B n,attr"}, {"A p:n,attr", "B q:n"}, {"n", "n,attr"}, {"A a>n", "A p:m"}} {
		f, s, ok := nsStruct("-", &nsField{t: same[string](), tag: tags[0], std: noPrefix(tags[0])}, &nsField{t: same[string](), tag: tags[1], std: noPrefix(tags[1])})
		if ok {
			fields = append(fields, &nsField{t: ftype{fmt.Sprintf("struct%q", tags), f, s}, embed: "E"})
			pairs = append(pairs, fields[len(fields)-1])
		}
	}
	if !c.Thorough() && len(triple) > 24 {
		triple = triple[:24]
	}
	c.Count("texts", int64(len(all))*int64(b2i(c.Shard == 0)))
	c.Count("texts_in_pairs", int64(len(some)/2)*int64(b2i(c.Shard == 0)))
	c.Count("fields", int64(len(fields))*int64(b2i(c.Shard == 0)))
	c.Count("fields_in_pairs", int64(len(pairs))*int64(b2i(c.Shard == 0)))
	c.Count("fields_in_triples", int64(len(triple))*int64(b2i(c.Shard == 0)))
	for _, f := range fields {
		c.Case(func() string { return "one field: " + f.String() }, func(t *core.T) {
			t.State(f.String())
			for _, root := range roots {
				if !nsAgree(t, root, all, f) {
					return
				}
			}
		})
	}
	var half [2][]string
	for i, d := range some {
		half[i%2] = append(half[i%2], d)
	}
	for i, f := range pairs {
		c.Case(func() string { return "two fields, first: " + f.String() }, func(t *core.T) {
			for j, g := range pairs {
				docs := half[(i+j)%2]
				if c.Thorough() && (i+j)%7 == 0 {
					docs = all
				}
				t.State(f.String() + g.String())
				if f.embed != "" && g.embed != "" {
					h := *g
					h.embed = "E2"
					g = &h
				}
				if !nsAgree(t, roots[(i+2*j)%len(roots)], docs, f, g) {
					return
				}
			}
		})
	}
	var few []string
	for i, d := range some {
		if i%5 == 0 {
			few = append(few, d)
		}
	}
	for i, f := range triple {
		c.Case(func() string { return "three fields, first: " + f.String() }, func(t *core.T) {
			for j, g := range triple {
				for k, h := range triple {
					t.State(f.String() + g.String() + h.String())
					if !nsAgree(t, roots[(i+2*j+3*k)%5], few, f, g, h) {
						return
					}
				}
			}
		})
	}
}
