package checks

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"verifmc/core"
	"verifmc/pair/fork"
	"verifmc/pair/std"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C21",
		Rule: "one case per first field of a struct type; an evaluation is one struct type with all its values written and all texts read by both packages; non-trivial when the type is accepted",
		Bounds: "struct types built from 70 kinds of field types (basic, pointers, slices, arrays, interfaces, maps, functions, times, structs, recursive and generic types, (un)marshalers of every kind, text and attribute (un)marshalers, types that are refused) and 26 tags: all types with one field (7 kinds of XMLName), with two fields (of 560 in one order, thorough: of 1500 in both), with three fields (of 45, in one order and a quarter of the others; thorough 75, all orders), embedded structs included; all types with two fields inside another struct; fields that compete for 8 names and paths inside and outside of one or two embedded structs at one or two levels, in all orders; " +
			"5 values and 15 texts each, into empty and filled values, in one of both orders of writing and reading, each repeated; 90 other values and targets with start elements, indentation and sequences on one encoder or decoder; " +
			"162 types with every combination of the methods and their receivers in 8 kinds of wrapping and 12 tags; all pairs of fields with paths of up to 4 of 2 names and a third (thorough: all) of the triples of the longer ones, with 16 trees; pairs of byte slice fields alone and in 4 kinds of containers, over earlier slices of the caller, whether they share bytes and whether the decoder changes them later; all subsets of 7 attributes in 3 orders for 470 pairs of fields; all texts over 8 characters up to length 4 (thorough 5) in 7 types and 6 places; nests of 17 kinds of leaves up to 6 levels with 4 indentations; all counts up to 40 (thorough 130) and around powers of two and ten up to 10,001 (4 kinds up to 64 Ki; thorough all, up to 128 Ki) of 11 kinds of content, asked for or not, for 4 types; interface fields that already hold values, pointers and pointers to pointers of all main types under 12 tags",
		Assumptions: []string{"a struct does not take its name from an embedded struct whose XMLName has no name in its tag, unlike in encoding/xml: a documented difference", "tags and names without prefixes and namespaces", "texts without tabs and line breaks (see C18 for those)",
			"a nil pointer to an embedded struct and one to a zero struct are the same, since encoding/xml may initialise it for any attribute",
			"what the target contains after an error is not compared",
			"where encoding/xml panics (types that cannot carry their tag), nothing is compared"},
		GCPercent: 80,
		Run:       runStructs,
	})
}

// ftype is a type in both worlds.
type ftype struct {
	name string
	f, s reflect.Type
}

// fspec is a field.
type fspec struct {
	t     ftype
	tag   string
	embed bool
	name  string // of an embedded type without a name
}

func (s *fspec) String() string {
	if s.embed {
		return fmt.Sprintf("embedded %s %q", s.t.name, s.tag)
	}
	return fmt.Sprintf("%s %q", s.t.name, s.tag)
}

func same[T any]() ftype {
	t := reflect.TypeFor[T]()
	return ftype{t.String(), t, t}
}

func pairTypes() map[string]ftype {
	m := map[string]ftype{}
	f, s := fork.Types(), std.Types()
	for i := range f {
		m[f[i].Name] = ftype{f[i].Name, f[i].Type, s[i].Type}
	}
	return m
}

func (t ftype) ptr() ftype {
	return ftype{"*" + t.name, reflect.PointerTo(t.f), reflect.PointerTo(t.s)}
}
func (t ftype) list() ftype { return ftype{"[]" + t.name, reflect.SliceOf(t.f), reflect.SliceOf(t.s)} }

func fieldTypes() (main, more, embed []ftype) {
	p := pairTypes()
	main = []ftype{same[string](), same[int](), same[bool](), same[float64](), same[[]byte](), same[*string](), same[[]string](), same[any](), same[time.Time](),
		p["Inner"], p["Inner"].ptr(), p["Inner"].list(), p["Text"], p["MAttr"], p["Marsh"]}
	more = []ftype{same[int8](), same[uint16](), same[float32](), same[uint64](), same[**int](), same[[]int](), same[[2]int](), same[[3]byte](), same[*[]string](), same[[]*int](), same[[][]byte](), same[[][]string](), same[*any](), same[[]any](), same[*time.Time](), same[time.Duration](),
		same[map[string]string](), same[chan int](), same[func()](), same[complex64](), same[uintptr](), same[struct{}](), same[struct{ X string }](), same[[]struct {
			X int `xml:"b"`
		}](), same[[]bool](), same[*bool]()}
	for _, n := range []string{"NameNode", "PMarsh", "PMAttr", "PText", "AnyNode", "BadMarsh", "Greedy", "VText", "Named", "NamedInt", "NamedBytes", "NamedList", "EmbedName", "EmbedEmpty", "Deep", "Raw", "Doc", "Rec", "Gen[string]", "Gen[[]int]", "Ambiguous", "WrongName", "Bad1", "Bad2", "Bad3", "Bad4", "Unexported"} {
		more = append(more, p[n])
	}
	more = append(more, p["Attr"].orName(p, "xml.Attr"), p["xml.Attr"].list(), p["xml.Attr"].ptr(), p["xml.Name"], p["xml.CharData"], p["PMarsh"].ptr(), p["PMarsh"].list(), p["Marsh"].list(), p["Text"].ptr(), p["Text"].list(), p["MAttr"].list(), p["MAttr"].ptr(), p["PMAttr"].ptr(), p["NameNode"].ptr(), p["AnyNode"].list(), p["PText"].ptr(), p["Rec"].ptr(), p["Raw"].list(), p["xml.StartElement"])
	for _, n := range []string{"Embed", "EmbedName", "EmbedEmpty", "Deep", "Inner", "Doc", "NameNode", "Raw", "AnyNode", "Rec", "Unexported", "Bad1", "WrongName"} {
		embed = append(embed, p[n])
		if n == "Embed" || n == "Inner" || n == "Deep" || n == "EmbedName" {
			embed = append(embed, p[n].ptr())
		}
	}
	return main, more, embed
}

func (t ftype) orName(p map[string]ftype, n string) ftype {
	if t.f == nil {
		return p[n]
	}
	return t
}

var allTags = []string{"", "n", ",attr", "n,attr", "n,attr,omitempty", "n,omitempty", ",omitempty", ",chardata", ",cdata", ",innerxml", ",comment", ",any", ",any,attr", "a>b", "a>b,omitempty", "a>c", "a>", ">b", "a>b>d", "-", "n,foo", ",attr,chardata", ",any,omitempty", "a>b,attr", "any", "m"}

// gfill fills a value; the variant selects the contents.
func gfill(v reflect.Value, variant int, n *int, depth int) {
	*n++
	texts := []string{"", "v", "<&\">'é", " x ", "12"}
	s := texts[variant]
	if s != "" && variant < 4 {
		s = fmt.Sprintf("%s%d", s, *n)
	}
	switch v.Type() {
	case reflect.TypeFor[time.Time]():
		v.Set(reflect.ValueOf(time.Date(2000+variant, 1, 2, 3, 4, 5, 600, time.UTC)))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(-*n * (variant % 3)))
	case reflect.Uint8:
		if variant%3 > 0 {
			v.SetUint(uint64('a' + *n%20))
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(*n * (variant % 3)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1.5, math.Inf(1), math.NaN(), 1e21}[variant])
	case reflect.Bool:
		v.SetBool(variant%2 == 1)
	case reflect.Pointer:
		if depth > 3 || (variant == 2) == (*n%2 == 0) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		gfill(v.Elem(), variant, n, depth+1)
	case reflect.Slice:
		if depth > 3 {
			return
		}
		l := variant % 4
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if len(s) > 0 {
				v.SetBytes([]byte(s))
			}
			return
		}
		if variant == 4 {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			return
		}
		if l > 0 {
			v.Set(reflect.MakeSlice(v.Type(), l, l))
		}
		for i := 0; i < l; i++ {
			gfill(v.Index(i), variant, n, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			gfill(v.Index(i), variant, n, depth+1)
		}
	case reflect.Interface:
		if v.NumMethod() > 0 {
			return
		}
		x := []any{nil, "iv", 5, []string{"p", "q"}, []byte("by")}[(variant+*n)%5]
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Map:
		if variant > 0 {
			v.Set(reflect.MakeMap(v.Type()))
		}
	case reflect.Chan:
		if variant > 1 {
			v.Set(reflect.MakeChan(v.Type(), 0))
		}
	case reflect.Struct:
		if v.Type().Name() == "Name" && v.NumField() == 2 {
			if variant != 1 {
				v.Field(1).SetString([]string{"", "", "nm", "r", "n"}[variant])
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				gfill(v.Field(i), variant, n, depth+1)
			}
		}
	}
}

// gdump prints a value without the names of its types.
func gdump(sb *strings.Builder, v reflect.Value, embedded bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			if embedded {
				gdump(sb, reflect.Zero(v.Type().Elem()), true)
			} else {
				sb.WriteString("nil")
			}
			return
		}
		if !embedded {
			sb.WriteByte('&')
		}
		gdump(sb, v.Elem(), embedded)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "(%s)", v.Elem().Kind())
		gdump(sb, v.Elem(), false)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			sb.WriteString(t.String())
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			sb.WriteString(f.Name)
			sb.WriteByte(':')
			gdump(sb, v.Field(i), f.Anonymous)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			gdump(sb, v.Index(i), false)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Chan, reflect.Func, reflect.Map:
		fmt.Fprintf(sb, "%s nil:%v", v.Kind(), v.IsNil())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func gdumpOf(v reflect.Value) string {
	var sb strings.Builder
	gdump(&sb, v, false)
	return sb.String()
}

// result of an operation of one of the packages.
type result struct {
	out  string
	err  error
	pan  any
	stop bool
}

func (r result) String() string {
	switch {
	case r.pan != nil:
		return fmt.Sprintf("panic: %v", r.pan)
	case r.err != nil:
		return fmt.Sprintf("error: %v", r.err)
	}
	return r.out
}

func attempt(f func() (string, error)) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r = result{pan: p}
		}
	}()
	out, err := f()
	return result{out: out, err: err}
}

// agreeing compares the results of the two packages.
func agreeing(t *core.T, what func() string, lib, ref result, keepOut bool) bool {
	switch {
	case lib.pan != nil && ref.pan == nil:
		t.Failf("panic", "%s: %s; encoding/xml: %s", what(), lib, ref)
		return false
	case ref.pan != nil:
		return true
	case (lib.err == nil) != (ref.err == nil):
		t.Failf("error differs", "%s: %s; encoding/xml: %s", what(), lib, ref)
		return false
	case (lib.err == nil || keepOut) && lib.out != ref.out:
		t.Failf("result differs", "%s: %s; encoding/xml: %s", what(), lib.out, ref.out)
		return false
	}
	return true
}

var structDocs = []string{
	`<r/>`,
	`<r n="1" m="2" F0="3" F1="x" F2="true"/>`,
	`<r><n>1</n><m>2</m><F0>3</F0><F1>4</F1><F2>5</F2></r>`,
	`<r>text<n>1</n> 5 <a><b>6</b><c>7</c><b>8</b></a><!--com-->tail<![CDATA[cd]]><!--two--></r>`,
	`<r><a><b><d>1</d></b></a><a><b>2</b><n>9</n></a><any x="y"><deep/></any><n a="1"><b>2</b><n>3</n></n></r>`,
	`<r q="1" n="true"><n/><n>x</n><F0><F0>1</F0><a><b>3</b></a></F0><F1 v="w"><n v="u"/></F1></r>`,
	`<other n="1"><n>2</n></other>`,
	`<r><n>1</r>`,
	`<r><n>300</n><n>-1</n><n> 12 </n><n>1.5</n></r>`,
	`<r><n>2000-01-01T00:00:00Z</n><n>true</n>  17  <m e="1">&lt;x&gt;</m></r>`,
	`<r a="1" b="2" e="3" v="4" xml:lang="l"><b>1</b><e>2</e><x>3</x><emb><x>4</x></emb><w>5</w></r>`,
	`<r> 12 </r>`,
	`<r><F0>2000-01-01T00:00:00Z</F0><F1>x<!--c-->y</F1><F0 a="1" v="2"><b>1</b></F0><n><n><n/></n></n></r>`,
	`<r n="" F0="" F1=" 1 " F2="300"><n></n><F0></F0><a/><a><b/></a></r>`,
	`<!--c--><?p i?><r n="2000-01-01T00:00:00Z" F0="xyz" m="&lt;"><?q?><n>9</n></r><!-- end --><x/>`,
}

var indentStd = func(v any) ([]byte, error) { return stdxml.MarshalIndent(v, " ", "\t") }

// The attributes of a start element that is given to the encoder are the
// caller's, with room behind them that is his, too.
var spareAttrs [8]xml.Attr

func spare(a xml.Attr) []xml.Attr {
	for i := range spareAttrs {
		spareAttrs[i] = xml.Attr{Name: xml.Name{Local: "mine"}, Value: "mine"}
	}
	spareAttrs[0] = a
	return spareAttrs[:1]
}

func checkSpare(t *core.T, space string) {
	for i, a := range spareAttrs {
		if i > 0 && (a.Name != xml.Name{Local: "mine"} || a.Value != "mine") || i == 0 && (a.Name != xml.Name{Space: space, Local: "sa"} || a.Value != "1") {
			t.Failf("input changed", "attribute %d of the caller's slice became %v", i, a)
		}
	}
}

// structAgree compares both packages on a struct type.
func structAgree(t *core.T, desc func() string, ft, st reflect.Type, values bool, decodeFirst bool) bool {
	accepted := false
	ops := []func() bool{
		func() bool {
			for variant := 0; variant < 5; variant++ {
				fv, sv := reflect.New(ft), reflect.New(st)
				n1, n2 := 0, 0
				gfill(fv.Elem(), variant, &n1, 0)
				gfill(sv.Elem(), variant, &n2, 0)
				what := func() string { return fmt.Sprintf("%s: writing value %d, %s", desc(), variant, gdumpOf(sv.Elem())) }
				ref := attempt(func() (string, error) { b, err := stdxml.Marshal(sv.Interface()); return string(b), err })
				lib := attempt(func() (string, error) { b, err := xml.Marshal(fv.Interface()); return string(b), err })
				t.Step(2)
				if !agreeing(t, what, lib, ref, false) {
					return false
				}
				if ref.err == nil && ref.pan == nil {
					accepted = true
				}
				if variant == 1 {
					// By value; indented; in an element.
					ref = attempt(func() (string, error) { b, err := stdxml.Marshal(sv.Elem().Interface()); return string(b), err })
					lib = attempt(func() (string, error) { b, err := xml.Marshal(fv.Elem().Interface()); return string(b), err })
					if !agreeing(t, what, lib, ref, false) {
						return false
					}
				}
				if variant == 3 {
					ref = attempt(func() (string, error) {
						b, err := stdxml.MarshalIndent(sv.Interface(), " ", "\t")
						return string(b), err
					})
					lib = attempt(func() (string, error) {
						b, err := xml.MarshalIndent(fv.Interface(), " ", "\t")
						return string(b), err
					})
					if !agreeing(t, what, lib, ref, false) {
						return false
					}
					ref = attempt(func() (string, error) {
						var b bytes.Buffer
						err := stdxml.NewEncoder(&b).EncodeElement(sv.Interface(), stdxml.StartElement{Name: stdxml.Name{Local: "s"}, Attr: []stdxml.Attr{{Name: stdxml.Name{Local: "sa"}, Value: "1"}}})
						return b.String(), err
					})
					lib = attempt(func() (string, error) {
						var b bytes.Buffer
						err := xml.NewEncoder(&b).EncodeElement(fv.Interface(), xml.StartElement{Name: xml.Name{Local: "s"}, Attr: spare(xml.Attr{Name: xml.Name{Local: "sa"}, Value: "1"})})
						checkSpare(t, "")
						return b.String(), err
					})
					if strings.Contains(ref.out, ` sa="1"`) || ref.err != nil {
						if !agreeing(t, what, lib, ref, false) {
							return false
						}
					}
				}
				// What was written is read again.
				if ref.err == nil && ref.pan == nil && ref.out != "" && values {
					if !readAgree(t, desc, ft, st, ref.out, 0) {
						return false
					}
				}
			}
			return true
		},
		func() bool {
			for i, doc := range structDocs {
				if !readAgree(t, desc, ft, st, doc, 0) {
					return false
				}
				if i == 4 || i == 5 || i == 2 {
					if !readAgree(t, desc, ft, st, doc, 1) {
						return false
					}
				}
			}
			return true
		},
	}
	if decodeFirst {
		ops[0], ops[1] = ops[1], ops[0]
	}
	if !ops[0]() || !ops[1]() {
		return false
	}
	if !accepted && !ops[0]() {
		return false
	}
	t.Eval(accepted)
	t.Trace()
	return true
}

func readAgree(t *core.T, desc func() string, ft, st reflect.Type, doc string, prefill int) bool {
	fv, sv := reflect.New(ft), reflect.New(st)
	if prefill > 0 {
		n1, n2 := 0, 0
		gfill(fv.Elem(), prefill, &n1, 0)
		gfill(sv.Elem(), prefill, &n2, 0)
	}
	ref := attempt(func() (string, error) {
		err := stdxml.Unmarshal([]byte(doc), sv.Interface())
		return gdumpOf(sv.Elem()), err
	})
	lib := attempt(func() (string, error) {
		err := xml.Unmarshal([]byte(doc), fv.Interface())
		return gdumpOf(fv.Elem()), err
	})
	t.Step(2)
	return agreeing(t, func() string { return fmt.Sprintf("%s: reading %s (filled %d)", desc(), doc, prefill) }, lib, ref, false)
}

// makeStruct builds the type in both worlds; it fails where reflection cannot.
func makeStruct(xmlname int, fields []*fspec, mark string) (ft, st reflect.Type, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var ff, sf []reflect.StructField
	add := func(name string, f, s reflect.Type, tag string, embed bool) {
		tg := reflect.StructTag("")
		if tag != "" {
			tg = reflect.StructTag(fmt.Sprintf(`xml:%q`, tag))
		}
		if mark != "" {
			tg += reflect.StructTag(` mark:"` + mark + `"`)
		}
		ff = append(ff, reflect.StructField{Name: name, Type: f, Tag: tg, Anonymous: embed})
		sf = append(sf, reflect.StructField{Name: name, Type: s, Tag: tg, Anonymous: embed})
	}
	fn, sn := reflect.TypeFor[xml.Name](), reflect.TypeFor[stdxml.Name]()
	str := reflect.TypeFor[string]()
	switch xmlname {
	case 0:
		add("XMLName", fn, sn, "r", false)
	case 1:
		add("XMLName", fn, sn, "", false)
	case 2:
		add("XMLName", reflect.TypeFor[struct{}](), reflect.TypeFor[struct{}](), "r", false)
	case 3:
		add("XMLName", str, str, "r", false)
	case 4:
		add("XMLName", reflect.PointerTo(fn), reflect.PointerTo(sn), "r", false)
	case 5:
		add("XMLName", fn, sn, "n,attr", false)
	case 6: // none
	}
	for i, f := range fields {
		name := fmt.Sprintf("F%d", i)
		if f.embed {
			t := f.t.f
			if t.Kind() == reflect.Pointer {
				t = t.Elem()
			}
			name = t.Name()
			if f.name != "" {
				name = f.name
			}
		}
		add(name, f.t.f, f.t.s, f.tag, f.embed)
	}
	if xmlname == 6 && false {
		return nil, nil, false
	}
	return reflect.StructOf(ff), reflect.StructOf(sf), true
}

func runStructs(c *core.Ctx) {
	// First, as the types of the rest take memory.
	ignored(c)
	main, more, embed := fieldTypes()
	var all, two, three []*fspec
	for _, t := range main {
		for _, tag := range allTags {
			f := &fspec{t: t, tag: tag}
			all = append(all, f)
			two = append(two, f)
		}
	}
	for _, t := range more {
		for i, tag := range allTags {
			f := &fspec{t: t, tag: tag}
			all = append(all, f)
			if c.Thorough() && i < 14 || tag == "" || tag == "n,attr" {
				two = append(two, f)
			}
		}
	}
	for _, t := range embed {
		for i, tag := range []string{"", "n", ",any", "n,attr", ",chardata", "-"} {
			f := &fspec{t: t, tag: tag, embed: true}
			all = append(all, f)
			if c.Thorough() || i < 2 {
				two = append(two, f)
			}
		}
	}
	pick := map[string]bool{}
	for _, s := range []string{`string ""`, `string "n"`, `string ",attr"`, `string "n,attr"`, `string "n,attr,omitempty"`, `string ",chardata"`, `string ",cdata"`, `string ",innerxml"`, `string ",comment"`, `string ",any"`, `string ",any,attr"`, `string "a>b"`, `string "a>c"`, `string "a>b>d"`, `string "a>"`,
		`int "n"`, `int "n,attr"`, `int "a>b"`, `int "a>b,omitempty"`, `*string "n"`, `*string "n,attr"`, `[]string "n"`, `[]string "a>b"`, `[]string "n,attr"`, `[]string ",any"`, `[]byte ",innerxml"`, `[]byte ",chardata"`, `interface {} "n"`, `Inner "n"`, `*Inner "a>b"`, `[]Inner "n"`, `[]Inner ",any"`, `Inner ",any"`, `Marsh "n"`, `MAttr "n,attr"`, `Text "n"`, `Text ",chardata"`,
		`embedded Embed ""`, `embedded *Embed ""`, `embedded Deep ""`, `embedded *Inner ""`, `embedded EmbedName ""`, `embedded EmbedEmpty ""`, `AnyNode ",any"`, `xml.Attr ",any"`} {
		pick[s] = true
	}
	for _, f := range two {
		if pick[f.String()] {
			three = append(three, f)
		} else if c.Thorough() && len(three) < 75 && !f.embed && (f.tag == "n" || f.tag == "m" || f.tag == ",attr") {
			three = append(three, f)
		}
	}
	c.Count("fields", int64(len(all))*int64(b2i(c.Shard == 0)))
	c.Count("fields_in_pairs", int64(len(two))*int64(b2i(c.Shard == 0)))
	c.Count("fields_in_triples", int64(len(three))*int64(b2i(c.Shard == 0)))
	one := func(t *core.T, xn int, mark string, decodeFirst bool, fs ...*fspec) bool {
		ft, st, ok := makeStruct(xn, fs, mark)
		if !ok {
			return true
		}
		desc := func() string {
			var n []string
			for _, f := range fs {
				n = append(n, f.String())
			}
			return fmt.Sprintf("struct (XMLName %d) with %s", xn, strings.Join(n, ", "))
		}
		t.State(desc())
		return structAgree(t, desc, ft, st, true, decodeFirst)
	}
	for i, f := range all {
		c.Case(func() string { return "one field: " + f.String() }, func(t *core.T) {
			for xn := 0; xn < 7; xn++ {
				if !one(t, xn, "", false, f) || !one(t, xn, "d", true, f) {
					return
				}
			}
			_ = i
		})
	}
	for i, f := range two {
		c.Case(func() string { return "two fields, first: " + f.String() }, func(t *core.T) {
			for j, g := range two {
				if j < i && !c.Thorough() {
					continue
				}
				if !one(t, 0, "", (i+j)%2 == 0, f, g) {
					return
				}
			}
		})
	}
	for i, f := range three {
		for j, g := range three {
			c.Case(func() string { return "three fields, first: " + f.String() + ", " + g.String() }, func(t *core.T) {
				for k, h := range three {
					if (k < j || j < i) && (k+i+j)%4 > 0 && !c.Thorough() {
						continue
					}
					if !one(t, 0, "", (i+j+k)%2 == 0, f, g, h) {
						return
					}
				}
			})
		}
	}
	// Structs in structs: the types above as fields of others.
	for _, f := range all {
		c.Case(func() string { return "nested: " + f.String() }, func(t *core.T) {
			for gi, g := range three {
				if gi%6 != 0 && !c.Thorough() || nameless(f) || nameless(g) {
					continue
				}
				ft, st, ok := makeStruct(6, []*fspec{f, g}, "")
				if !ok {
					continue
				}
				inner := ftype{"struct", ft, st}
				for _, tag := range []string{"n", "a>b", ",any", "", "n,attr", ",chardata"} {
					if !c.Thorough() && tag != "n" && tag != ",any" && f.tag != "n" && f.tag != "n,attr" && f.tag != "a>b" {
						continue
					}
					if !one(t, 0, "", false, &fspec{t: ftype{fmt.Sprintf("struct{%s; %s}", f, g), inner.f, inner.s}, tag: tag}) {
						return
					}
				}
			}
		})
	}
	conflicts(c, one)
	otherValues(c)
	structMatrix(c)
	deepPaths(c)
	ownBytes(c)
	attrSets(c)
	dashes(c)
	nests(c)
	boxed(c)
}

// conflicts covers fields that compete for names and paths at several depths
// of embedding.
func conflicts(c *core.Ctx, one func(t *core.T, xn int, mark string, decodeFirst bool, fs ...*fspec) bool) {
	str := same[string]()
	list := func(tags ...string) (l []*fspec) {
		for _, tag := range tags {
			l = append(l, &fspec{t: str, tag: tag})
		}
		return l
	}
	embed := func(ptr bool, name string, fs ...*fspec) *fspec {
		ft, st, ok := makeStruct(6, fs, "")
		if !ok {
			panic("no type")
		}
		n := "{"
		for _, f := range fs {
			n += f.String() + "; "
		}
		ty := ftype{n + "}", ft, st}
		if ptr {
			ty = ty.ptr()
		}
		return &fspec{t: ty, embed: true, name: name}
	}
	wide := list("a", "a>b", "a>c", "a>b>c", "a,attr", "b", "", "a>")
	narrow := wide[:5]
	groups := func(fs []*fspec) (g [][]*fspec) {
		for _, f := range fs {
			g = append(g, []*fspec{f})
			for _, h := range fs {
				g = append(g, []*fspec{f, h})
			}
		}
		return g
	}
	wg, ng := groups(wide), groups(narrow)
	names := func(g []*fspec) string {
		n := ""
		for _, f := range g {
			n += f.String() + " "
		}
		return n
	}
	for _, g := range wg {
		c.Case(func() string { return "conflicts, one embedded: " + names(g) }, func(t *core.T) {
			e := embed(false, "E1", g...)
			for i, f := range wide {
				if !one(t, 0, "", i%2 == 0, f, e) || !one(t, 0, "", i%2 == 1, e, f) {
					return
				}
				for _, h := range wide {
					if !one(t, 0, "", i%2 == 0, f, e, h) {
						return
					}
				}
			}
			for i, g2 := range wg {
				if !one(t, 0, "", i%2 == 0, e, embed(i%3 == 0, "E2", g2...)) {
					return
				}
			}
		})
	}
	for _, g := range ng {
		c.Case(func() string { return "conflicts, two embedded and a field: " + names(g) }, func(t *core.T) {
			e := embed(false, "E1", g...)
			for i, g2 := range ng {
				e2 := embed(i%3 == 1, "E2", g2...)
				for j, f := range narrow {
					if !one(t, 0, "", j%2 == 0, e, e2, f) {
						return
					}
					if (i+j)%3 == 0 || c.Thorough() {
						if !one(t, 0, "", j%2 == 0, f, e, e2) || !one(t, 0, "", j%2 == 0, e, f, e2) {
							return
						}
					}
				}
			}
		})
		c.Case(func() string { return "conflicts, two levels: " + names(g) }, func(t *core.T) {
			in := embed(false, "E0", g...)
			for i, f := range narrow {
				for j, h := range narrow {
					for k := 0; k < 2; k++ {
						e := embed(k == 1, "E1", f, in)
						if k == 1 {
							e = embed(false, "E1", in, f)
						}
						if !one(t, 0, "", (i+j)%2 == 0, e, h) || !one(t, 0, "", (i+j)%2 == 0, h, e) ||
							!one(t, 0, "", (i+j)%2 == 0, embed(false, "E1", in), embed(false, "E2", f), h) ||
							!one(t, 0, "", (i+j)%2 == 0, e, embed(true, "E2", h)) {
							return
						}
						if c.Thorough() {
							for _, x := range narrow {
								if !one(t, 0, "", (i+j)%2 == 0, e, embed(true, "E2", h), x) {
									return
								}
							}
						}
					}
				}
			}
		})
	}
}

// nameless tells whether a field embeds a struct with an XMLName without name,
// from which encoding/xml takes the name for the outer struct.
func nameless(f *fspec) bool {
	return f.embed && (f.t.name == "EmbedEmpty" || f.t.name == "NameNode" || f.t.name == "AnyNode")
}

// otherValues covers values that are no structs, and sequences.
func otherValues(c *core.Ctx) {
	main, more, _ := fieldTypes()
	types := append(append([]ftype(nil), main...), more...)
	for _, ty := range types {
		ty := ty
		c.Case(func() string { return "value of type " + ty.name }, func(t *core.T) {
			t.State(ty.name)
			for variant := 0; variant < 5; variant++ {
				fv, sv := reflect.New(ty.f), reflect.New(ty.s)
				n1, n2 := 0, 0
				gfill(fv.Elem(), variant, &n1, 0)
				gfill(sv.Elem(), variant, &n2, 0)
				for mode := 0; mode < 8; mode++ {
					what := func() string { return fmt.Sprintf("%s: writing %s in mode %d", ty.name, gdumpOf(sv.Elem()), mode) }
					ref := attempt(func() (string, error) {
						var b bytes.Buffer
						e := stdxml.NewEncoder(&b)
						s := stdxml.StartElement{Name: stdxml.Name{Local: "s"}}
						var err error
						switch mode {
						case 0:
							err = e.Encode(sv.Interface())
						case 1:
							err = e.Encode(sv.Elem().Interface())
						case 2:
							e.Indent("", "  ")
							err = e.Encode(sv.Interface())
						case 3:
							err = e.EncodeElement(sv.Interface(), s)
						case 4:
							err = e.EncodeElement(sv.Elem().Interface(), s)
						case 5:
							err = e.EncodeElement(sv.Interface(), stdxml.StartElement{})
						case 6:
							e.EncodeToken(s)
							if err = e.Encode(sv.Interface()); err == nil {
								err = e.Encode(sv.Elem().Interface())
							}
							if err == nil {
								err = e.EncodeToken(s.End())
							}
							e.Close()
						case 7:
							err = e.Encode([]any{sv.Interface(), nil, sv.Elem().Interface()})
						}
						return b.String(), err
					})
					lib := attempt(func() (string, error) {
						var b bytes.Buffer
						e := xml.NewEncoder(&b)
						s := xml.StartElement{Name: xml.Name{Local: "s"}}
						var err error
						switch mode {
						case 0:
							err = e.Encode(fv.Interface())
						case 1:
							err = e.Encode(fv.Elem().Interface())
						case 2:
							e.Indent("", "  ")
							err = e.Encode(fv.Interface())
						case 3:
							err = e.EncodeElement(fv.Interface(), s)
						case 4:
							err = e.EncodeElement(fv.Elem().Interface(), s)
						case 5:
							err = e.EncodeElement(fv.Interface(), xml.StartElement{})
						case 6:
							e.EncodeToken(s)
							if err = e.Encode(fv.Interface()); err == nil {
								err = e.Encode(fv.Elem().Interface())
							}
							if err == nil {
								err = e.EncodeToken(s.End())
							}
							e.Close()
						case 7:
							err = e.Encode([]any{fv.Interface(), nil, fv.Elem().Interface()})
						}
						return b.String(), err
					})
					t.Step(2)
					t.Eval(ref.err == nil)
					if !agreeing(t, what, lib, ref, false) {
						return
					}
				}
			}
			// Reading: several elements from one stream, and targets that are not pointers.
			for _, doc := range append(append([]string(nil), structDocs...), `<s>1</s> <s a="2">x</s>`, `<n><b>1</b></n><n/>`, ``, `text`, `<s>`, `<s>true</s>`, `<!-- --> `, `<a>1.5</a><a>2000-01-01T00:00:00Z</a>`, `<s> 3 </s>`, `<s><![CDATA[4]]></s>`, `<s>5<!-- -->6</s>`) {
				for mode := 0; mode < 5; mode++ {
					ref := attempt(func() (string, error) {
						v := reflect.New(ty.s)
						d := stdxml.NewDecoder(strings.NewReader(doc))
						var err error
						switch mode {
						case 0:
							for i := 0; i < 3 && err == nil; i++ {
								err = d.Decode(v.Interface())
							}
							if err == io.EOF {
								err = nil
							}
						case 1:
							err = d.DecodeElement(v.Interface(), nil)
						case 2:
							for err == nil {
								var tok stdxml.Token
								tok, err = d.Token()
								if s, ok := tok.(stdxml.StartElement); ok && s.Name.Local != "r" {
									err = d.DecodeElement(v.Interface(), &s)
								}
							}
							if err == io.EOF {
								err = nil
							}
						case 3:
							err = stdxml.Unmarshal([]byte(doc), v.Elem().Interface())
						case 4:
							p := reflect.New(v.Type())
							err = stdxml.Unmarshal([]byte(doc), p.Interface())
							if err == nil && !p.Elem().IsNil() {
								v = p.Elem()
							}
						}
						return gdumpOf(v.Elem()), err
					})
					lib := attempt(func() (string, error) {
						v := reflect.New(ty.f)
						d := xml.NewDecoder(strings.NewReader(doc))
						var err error
						switch mode {
						case 0:
							for i := 0; i < 3 && err == nil; i++ {
								err = d.Decode(v.Interface())
							}
							if err == io.EOF {
								err = nil
							}
						case 1:
							err = d.DecodeElement(v.Interface(), nil)
						case 2:
							for err == nil {
								var tok xml.Token
								tok, err = d.Token()
								if s, ok := tok.(xml.StartElement); ok && s.Name.Local != "r" {
									err = d.DecodeElement(v.Interface(), &s)
								}
							}
							if err == io.EOF {
								err = nil
							}
						case 3:
							err = xml.Unmarshal([]byte(doc), v.Elem().Interface())
						case 4:
							p := reflect.New(v.Type())
							err = xml.Unmarshal([]byte(doc), p.Interface())
							if err == nil && !p.Elem().IsNil() {
								v = p.Elem()
							}
						}
						return gdumpOf(v.Elem()), err
					})
					t.Step(2)
					t.Eval(ref.err == nil)
					if !agreeing(t, func() string { return fmt.Sprintf("%s: reading %q in mode %d", ty.name, doc, mode) }, lib, ref, false) {
						return
					}
				}
			}
			t.Trace()
		})
	}
}
