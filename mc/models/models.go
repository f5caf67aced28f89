// Package models enumerates model values of the mpd package by reflection over
// its exported struct types, builds the document that the frozen vocabulary
// prescribes for a model value, and compares model values.
package models

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

var (
	nameType  = reflect.TypeOf(xml.Name{})
	attrsType = reflect.TypeOf([]xml.Attr{})
	durType   = reflect.TypeOf(mpd.Duration(0))
	listType  = reflect.TypeOf(mpd.StringNoWhitespaceVectorType{})
	mpdType   = reflect.TypeOf(mpd.MPD{})
)

// Field is one exported model field of a struct type, with embedded structs
// flattened.
type Field struct {
	Name  string // dotted path of Go names
	Index []int
	SF    reflect.StructField
	Tag   string // element name for fields that hold structs
	Flags map[string]bool
}

// Elem is the struct type that the field holds directly, by pointer or in a list.
func (f *Field) Elem() (t reflect.Type, list bool) {
	t = f.SF.Type
	if t.Kind() == reflect.Slice && t != attrsType && t != listType {
		list, t = true, t.Elem()
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return nil, list
	}
	return t, list
}

var fieldCache = map[reflect.Type][]Field{}

// Fields lists the data fields of a struct type.
func Fields(t reflect.Type) []Field {
	if fs, ok := fieldCache[t]; ok {
		return fs
	}
	fs := fields(t, nil, "")
	fieldCache[t] = fs
	return fs
}

func fields(t reflect.Type, index []int, path string) []Field {
	var out []Field
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		idx := append(append([]int(nil), index...), i)
		tag := sf.Tag.Get("xml")
		if sf.Anonymous && tag == "" {
			et := sf.Type
			if et.Kind() == reflect.Pointer {
				et = et.Elem()
			}
			if et.Kind() == reflect.Struct {
				out = append(out, fields(et, idx, path+sf.Name+".")...)
				continue
			}
		}
		if !sf.IsExported() || sf.Type == nameType || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if j := strings.LastIndexByte(name, ' '); j >= 0 {
			name = name[j+1:]
		}
		if j := strings.IndexByte(name, ':'); j >= 0 {
			name = name[j+1:]
		}
		fl := map[string]bool{}
		for _, p := range parts[1:] {
			fl[p] = true
		}
		if t == mpdType && name == "xmlns" {
			continue
		}
		out = append(out, Field{Name: path + sf.Name, Index: idx, SF: sf, Tag: name, Flags: fl})
	}
	return out
}

// At returns the settable field value, allocating embedded pointers.
func At(v reflect.Value, index []int) reflect.Value {
	for i, x := range index {
		if i > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v
}

// Captured reports that the type carries its namespace in an untagged XMLName.
func Captured(t reflect.Type) bool {
	f, ok := t.FieldByName("XMLName")
	return ok && f.Type == nameType && f.Tag.Get("xml") == ""
}

// Gen makes model values.
type Gen struct {
	SCTENS string
}

// New makes a zero struct for the element name with the namespace it needs.
func (g *Gen) New(t reflect.Type, elem string) reflect.Value {
	p := reflect.New(t)
	if Captured(t) {
		p.Elem().FieldByName("XMLName").Set(reflect.ValueOf(xml.Name{Space: g.SCTENS, Local: elem}))
	}
	return p
}

// Root is the smallest manifest.
func (g *Gen) Root() *mpd.MPD { return mpd.NewMPD(mpd.STATIC_TYPE) }

// AddElem puts a fresh struct into the field and returns it (addressable).
func (g *Gen) AddElem(parent reflect.Value, f *Field) reflect.Value {
	t, list := f.Elem()
	n := g.New(t, f.Tag)
	fv := At(parent, f.Index)
	if list {
		if f.SF.Type.Elem().Kind() == reflect.Pointer {
			fv.Set(reflect.Append(fv, n))
			return n.Elem()
		}
		fv.Set(reflect.Append(fv, n.Elem()))
		return fv.Index(fv.Len() - 1)
	}
	if f.SF.Type.Kind() == reflect.Pointer {
		fv.Set(n)
		return n.Elem()
	}
	fv.Set(n.Elem())
	return fv
}

// Place is a position of a struct type in the model.
type Place struct {
	Name  string
	T     reflect.Type
	First bool // first place of its type
	path  []Field
}

// Make builds the manifest and returns it with the struct at the place.
func (p *Place) Make(g *Gen) (*mpd.MPD, reflect.Value) {
	m := g.Root()
	v := reflect.ValueOf(m).Elem()
	for i := range p.path {
		v = g.AddElem(v, &p.path[i])
	}
	return m, v
}

// Places lists every position: the shortest way to each type followed by each of
// its struct fields.
func Places() []*Place {
	var out []*Place
	seen := map[reflect.Type]bool{mpdType: true}
	out = append(out, &Place{Name: "MPD", T: mpdType, First: true})
	for i := 0; i < len(out); i++ {
		p := out[i]
		if !p.First {
			continue
		}
		for _, f := range Fields(p.T) {
			t, _ := f.Elem()
			if t == nil {
				continue
			}
			q := &Place{Name: p.Name + "/" + f.Name, T: t, First: !seen[t], path: append(append([]Field(nil), p.path...), f)}
			seen[t] = true
			out = append(out, q)
		}
	}
	return out
}

// Values lists the values a scalar field is given.
func Values(f *Field) []reflect.Value {
	t := f.SF.Type
	if t == attrsType {
		return anyAttrs()
	}
	ptr := t.Kind() == reflect.Pointer
	if ptr {
		t = t.Elem()
	}
	var out []reflect.Value
	add := func(x any) {
		v := reflect.ValueOf(x).Convert(t)
		if ptr {
			p := reflect.New(t)
			p.Elem().Set(v)
			v = p.Convert(f.SF.Type)
		}
		out = append(out, v)
	}
	switch {
	case f.Flags["innerxml"]:
		for _, s := range RawValues() {
			add(s)
		}
	case t == durType:
		for _, d := range []int64{0, 1, 999, 499999, 1e6, 999e6, 1e9, 59999e6, 60e9, 61e9, 3599e9, 3600e9, 3661001e6, 86400e9, 86399999e6, 1e15, math.MaxInt64 / 1000000 * 1000000} {
			add(d)
		}
	case t == listType:
		add(mpd.StringNoWhitespaceVectorType{"a"})
		add(mpd.StringNoWhitespaceVectorType{"a", "b&<\"c", "d"})
		if ptr {
			add(mpd.StringNoWhitespaceVectorType{})
		}
	default:
		switch t.Kind() {
		case reflect.String:
			for _, s := range Strings() {
				add(s)
			}
		case reflect.Bool:
			add(true)
			add(false)
		case reflect.Float64:
			for _, x := range []float64{0, 1, 0.5, -2.25, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 100.0 / 3, 123456789.125} {
				add(x)
			}
			if t == reflect.TypeOf(mpd.FloatInf64(0)) {
				add(math.Inf(1))
			}
		case reflect.Float32:
			for _, x := range []float32{0, 1, 0.5, -2.25, 1e21, 1e-7, math.MaxFloat32, math.SmallestNonzeroFloat32, 100.0 / 3} {
				add(x)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b := t.Bits()
			for _, x := range []int64{0, 1, -1, 1<<(b-1) - 1, -1 << (b - 1)} {
				add(x)
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			b := t.Bits()
			for _, x := range []uint64{0, 1, 10, 1 << (b - 1), math.MaxUint64 >> (64 - b)} {
				add(x)
			}
		default:
			panic("no values for " + f.Name + " " + t.String())
		}
	}
	return out
}

// Strings is the text alphabet.
func Strings() []string {
	return []string{"a", "", " ", "a b", "x&y", "<", ">", "\"", "'", "]]>", " lead", "trail ", "\t", "\n", "\r", "a\r\nb", "é", "漢字", "😀",
		"\u0085", "\u2028", "\ufffd", "\ufeff", "\ue000", "\U0010ffff", "0", "&amp;", "&#65;", "<!--x-->", "<![CDATA[x]]>", "<?p?>", "%20$Time$", strings.Repeat("ab<", 200)}
}

// RawValues is well-formed extension content.
func RawValues() []string {
	return []string{"text", "<a></a>", "<a><b x=\"1\"></b>t</a>", "a<b/>c<d/>e", "&lt;&amp;", "<!-- c --><a/>", "<?pi x?>", "<![CDATA[<raw>&]]>",
		"<e:f xmlns:e=\"urn:e\" e:g=\"1\"><e:h/></e:f>", "<a xmlns=\"\"><b/></a>", "<a xmlns=\"urn:o\">x</a>", ""}
}

func anyAttrs() []reflect.Value {
	n := func(ns, l, v string) xml.Attr { return xml.Attr{Name: xml.Name{Space: ns, Local: l}, Value: v} }
	var many []xml.Attr
	for i := 0; i < 20; i++ {
		many = append(many, n("", fmt.Sprintf("x%d", i), fmt.Sprint(i)), n("urn:x-ext", fmt.Sprintf("y%d", i), fmt.Sprint(i)))
	}
	var out []reflect.Value
	for _, a := range [][]xml.Attr{{n("", "zz", "1")}, {n("", "zz", "")}, {n("urn:x-ext", "flag", "a&b")}, {n("", "zz", "1"), n("urn:x-ext", "zz", "2"), n("urn:y-ext", "zz", "3")},
		{n("http://www.w3.org/1999/xlink", "href", "u")}, many,
		{n("http://x/?a=1&b=<\"2'>", "k", "v")}, {n("http://x/y", "k", "1"), n("http://z/y", "k", "2"), n("http://z/y/", "k", "3"), n("y_1", "k", "4")},
		{n("http://é/ü ü", "k", "1"), n("a\tb\nc\rd", "k", "2"), n("/", "k", "3"), n("http://x/1a", "k", "4"), n("http://x/xmlA", "k", "5"), n("_", "k", "6"), n("http://x/a:b", "k", "7")},
		{n("http://www.w3.org/XML/1998/namespace", "lang", "en"), n("", "lang", "x"), n("http://dashif.org/x", "lang", "y")}, {n("]]>&amp;", "k", "<&>")}} {
		out = append(out, reflect.ValueOf(a))
	}
	return out
}

// SetDefault gives the field a plain non-zero value varied by seed, with structs
// filled down to the depth.
func (g *Gen) SetDefault(parent reflect.Value, f *Field, depth, seed int) {
	if t, list := f.Elem(); t != nil {
		if depth < 0 {
			return
		}
		n := 1
		if list {
			n = 2
		}
		for i := 0; i < n; i++ {
			g.Fill(g.AddElem(parent, f), depth, seed+i)
		}
		return
	}
	fv := At(parent, f.Index)
	t := f.SF.Type
	if t == attrsType {
		fv.Set(reflect.ValueOf([]xml.Attr{{Name: xml.Name{Local: "zz"}, Value: strconv.Itoa(seed)}, {Name: xml.Name{Space: "urn:x-ext", Local: "yy"}, Value: "v"}}))
		return
	}
	ptr := t.Kind() == reflect.Pointer
	if ptr {
		t = t.Elem()
	}
	x := reflect.New(t).Elem()
	switch {
	case f.Flags["innerxml"]:
		x.SetString(fmt.Sprintf("<q>%d</q>", seed))
	case t == durType:
		x.SetInt(int64(seed+1) * 1500e6)
	case t == listType:
		x.Set(reflect.ValueOf(mpd.StringNoWhitespaceVectorType{"k" + strconv.Itoa(seed), "l"}))
	default:
		switch t.Kind() {
		case reflect.String:
			x.SetString("s" + strconv.Itoa(seed))
		case reflect.Bool:
			x.SetBool(true)
		case reflect.Float32, reflect.Float64:
			x.SetFloat(float64(seed%100) + 0.5)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x.SetInt(int64(seed%100 + 1))
		default:
			x.SetUint(uint64(seed%200 + 1))
		}
	}
	if ptr {
		p := reflect.New(t)
		p.Elem().Set(x)
		fv.Set(p.Convert(f.SF.Type))
		return
	}
	fv.Set(x)
}

// fillOwn sets the scalar fields other than texts.
func (g *Gen) fillOwn(v reflect.Value, seed int) {
	fs := Fields(v.Type())
	for i := range fs {
		if t, _ := fs[i].Elem(); t == nil && !fs[i].Flags["chardata"] && !fs[i].Flags["innerxml"] {
			g.SetDefault(v, &fs[i], 0, seed+i)
		}
	}
}

// Fill saturates the struct: every field set, children down to the depth. The
// character data of a struct with child elements is left empty.
func (g *Gen) Fill(v reflect.Value, depth, seed int) {
	fs := Fields(v.Type())
	kids := false
	for i := range fs {
		if t, _ := fs[i].Elem(); t != nil && depth > 0 {
			kids = true
		}
	}
	for i := range fs {
		if fs[i].Flags["chardata"] && kids {
			continue
		}
		g.SetDefault(v, &fs[i], depth-1, seed+i)
	}
}

// Case is one enumerated model.
type Case struct {
	Name string
	Mk   func() *mpd.MPD
}

// Opt bounds the enumeration.
type Opt struct {
	AllPlaces bool // pairs and lists at every place instead of the first of each type
	MaxLen    int  // longest list
	Depth     int  // deepest saturation
	NoValues  bool // one value per field only
	NoPairs   bool
}

// Enumerate calls f for every model of the bounds.
func (g *Gen) Enumerate(o Opt, f func(name string, mk func() *mpd.MPD)) {
	f("empty", func() *mpd.MPD { return g.Root() })
	for _, p := range Places() {
		p := p
		f(p.Name, func() *mpd.MPD { m, _ := p.Make(g); return m })
		fs := Fields(p.T)
		for i := range fs {
			fd := &fs[i]
			t, list := fd.Elem()
			if t == nil {
				vals := Values(fd)
				if o.NoValues {
					vals = vals[:1]
				}
				for j, v := range vals {
					v := v
					f(fmt.Sprintf("%s.%s value %d", p.Name, fd.Name, j), func() *mpd.MPD {
						m, l := p.Make(g)
						At(l, fd.Index).Set(v)
						return m
					})
				}
				if fd.SF.Type.Kind() == reflect.Slice && fd.SF.Type != attrsType && fd.SF.Type != listType {
					panic("list of " + fd.SF.Type.String())
				}
				continue
			}
			if list && (p.First || o.AllPlaces) {
				for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 129, 257, 513, 1025} {
					if n > o.MaxLen {
						break
					}
					n := n
					f(fmt.Sprintf("%s.%s x%d", p.Name, fd.Name, n), func() *mpd.MPD {
						m, l := p.Make(g)
						for j := 0; j < n; j++ {
							e := g.AddElem(l, fd)
							if j%3 != 1 {
								g.Fill(e, 0, j)
							}
						}
						return m
					})
				}
			}
		}
		if (p.First || o.AllPlaces) && !o.NoPairs {
			for i := range fs {
				for j := i + 1; j < len(fs); j++ {
					i, j := i, j
					f(fmt.Sprintf("%s.{%s,%s}", p.Name, fs[i].Name, fs[j].Name), func() *mpd.MPD {
						m, l := p.Make(g)
						g.SetDefault(l, &fs[i], 0, i)
						g.SetDefault(l, &fs[j], 0, j)
						return m
					})
				}
			}
			for i := range fs {
				i := i
				f(fmt.Sprintf("%s all but %s", p.Name, fs[i].Name), func() *mpd.MPD {
					m, l := p.Make(g)
					for j := range fs {
						if j != i && !(fs[j].Flags["chardata"] && len(fs) > 12) {
							g.SetDefault(l, &fs[j], 0, j)
						}
					}
					return m
				})
			}
		}
		if (p.First || o.AllPlaces) && !o.NoValues && !o.NoPairs {
			// Every value with everything else set.
			for i := range fs {
				if t, _ := fs[i].Elem(); t != nil {
					continue
				}
				for j, v := range Values(&fs[i]) {
					i, v := i, v
					f(fmt.Sprintf("%s.%s value %d, others set", p.Name, fs[i].Name, j), func() *mpd.MPD {
						m, l := p.Make(g)
						for q := range fs {
							if t, _ := fs[q].Elem(); t == nil && q != i {
								g.SetDefault(l, &fs[q], 0, q)
							}
						}
						At(l, fs[i].Index).Set(v)
						return m
					})
				}
			}
		}
		f(p.Name+" in filled context", func() *mpd.MPD {
			m := g.Root()
			v := reflect.ValueOf(m).Elem()
			g.fillOwn(v, 3)
			for i := range p.path {
				v = g.AddElem(v, &p.path[i])
				g.fillOwn(v, i)
			}
			g.Fill(v, 1, 5)
			return m
		})
		for d := 0; d <= o.Depth; d++ {
			d := d
			f(fmt.Sprintf("%s full %d", p.Name, d), func() *mpd.MPD { m, l := p.Make(g); g.Fill(l, d, 1); return m })
		}
	}
}

// Mixed reports text next to child elements, or raw content, where indentation
// would add to the text.
func Mixed(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && Mixed(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if Mixed(v.Index(i)) {
				return true
			}
		}
		return false
	case reflect.Struct:
		if v.Type() == nameType || v.Type() == reflect.TypeOf(xml.Attr{}) {
			return false
		}
	default:
		return false
	}
	text, kids := false, false
	for _, f := range Fields(v.Type()) {
		fv, err := v.FieldByIndexErr(f.Index)
		if err != nil {
			continue
		}
		if t, _ := f.Elem(); t != nil {
			if !fv.IsZero() && !(fv.Kind() == reflect.Slice && fv.Len() == 0) {
				kids = true
			}
			if Mixed(fv) {
				return true
			}
			continue
		}
		if f.Flags["innerxml"] && !fv.IsZero() {
			return true
		}
		if f.Flags["chardata"] {
			text = true // indentation would show up as text
		}
	}
	return text && kids
}

// Equal compares two models in their exported data and describes the first
// difference.
func Equal(a, b any) string { return equal(reflect.ValueOf(a), reflect.ValueOf(b), "", nil) }

// EqualUnordered is Equal up to the order of extension attributes.
func EqualUnordered(a, b any) string {
	unordered = true
	defer func() { unordered = false }()
	return Equal(a, b)
}

var unordered bool

func equal(a, b reflect.Value, path string, f *reflect.StructField) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			if f != nil && strings.Contains(f.Tag.Get("xml"), "chardata") {
				x := a
				if a.IsNil() {
					x = b
				}
				if x.Elem().IsZero() {
					return ""
				}
			}
			return fmt.Sprintf("%s: %v and %v", path, show(a), show(b))
		}
		if a.IsNil() {
			return ""
		}
		return equal(a.Elem(), b.Elem(), path, nil)
	case reflect.Slice:
		if a.Type() == attrsType {
			return equalAttrs(a.Interface().([]xml.Attr), b.Interface().([]xml.Attr), path)
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d entries", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := equal(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), nil); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if !sf.IsExported() && !sf.Anonymous {
				continue
			}
			if sf.Type == nameType {
				if sf.Tag.Get("xml") == "" {
					x, y := a.Field(i).Interface().(xml.Name), b.Field(i).Interface().(xml.Name)
					if x != y {
						return fmt.Sprintf("%s.%s: %v and %v", path, sf.Name, x, y)
					}
				}
				continue
			}
			if d := equal(a.Field(i), b.Field(i), path+"."+sf.Name, &sf); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) && a.Float() != b.Float() {
			return fmt.Sprintf("%s: %v and %v", path, a, b)
		}
		return ""
	}
	if !a.Equal(b) {
		return fmt.Sprintf("%s: %s and %s", path, show(a), show(b))
	}
	return ""
}

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	}
	if v.Kind() == reflect.String {
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v)
}

func isDecl(a xml.Attr) bool {
	return a.Name.Space == "http://www.w3.org/2000/xmlns/" || a.Name.Space == "xmlns" || a.Name.Space == "" && (a.Name.Local == "xmlns" || strings.HasPrefix(a.Name.Local, "xmlns:"))
}

func equalAttrs(a, b []xml.Attr, path string) string {
	s := func(l []xml.Attr) string {
		var sb strings.Builder
		if unordered {
			l = append([]xml.Attr(nil), l...)
			sort.Slice(l, func(i, j int) bool {
				return l[i].Name.Space+" "+l[i].Name.Local < l[j].Name.Space+" "+l[j].Name.Local
			})
		}
		for _, x := range l {
			if !isDecl(x) {
				fmt.Fprintf(&sb, "{%s}%s=%q ", x.Name.Space, x.Name.Local, x.Value)
			}
		}
		return sb.String()
	}
	if x, y := s(a), s(b); x != y {
		return fmt.Sprintf("%s: %s and %s", path, x, y)
	}
	return ""
}

// FromModel builds the document that the vocabulary prescribes for the model.
func FromModel(b *vocab.Builder, m *mpd.MPD) *vocab.Node {
	n := &vocab.Node{Kind: "MPD", NS: vocab.DASH, Local: "MPD"}
	fromModel(b, n, reflect.ValueOf(m).Elem())
	return n
}

// FromPeriod is FromModel for a Period.
func FromPeriod(b *vocab.Builder, p *mpd.Period) *vocab.Node {
	n := &vocab.Node{Kind: "Period", NS: vocab.DASH, Local: "Period"}
	fromModel(b, n, reflect.ValueOf(p).Elem())
	return n
}

func format(typ string, v reflect.Value) string {
	switch typ {
	case "duration":
		d := v.Int()
		return fmt.Sprintf("PT%d.%09dS", d/1e9, d%1e9)
	case "strlist":
		return strings.Join(v.Interface().(mpd.StringNoWhitespaceVectorType), " ")
	case "floatinf":
		if math.IsInf(v.Float(), 1) {
			return "INF"
		}
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	}
	return strconv.FormatUint(v.Uint(), 10)
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

func fromModel(b *vocab.Builder, n *vocab.Node, v reflect.Value) {
	k := b.V.Kinds[n.Kind]
	if n.Kind[0] == '#' {
		n.AddText(format(k.TextType, v))
		return
	}
	for i := range k.Attrs {
		a := &k.Attrs[i]
		fv, ok := vocab.FieldAt(v, a.Field)
		if !ok {
			continue
		}
		if a.Ptr {
			if fv = deref(fv); !fv.IsValid() {
				continue
			}
		} else if !a.Always && fv.IsZero() {
			continue
		}
		b.SetAttr(n, a, format(a.Type, fv))
	}
	if k.Any {
		fv, _ := vocab.FieldAt(v, "AnyAttrs")
		for _, a := range fv.Interface().([]xml.Attr) {
			if !isDecl(a) {
				n.SetForeign(a.Name.Space, "", a.Name.Local, a.Value)
			}
		}
	}
	if k.Text != "" {
		if fv, ok := vocab.FieldAt(v, k.Text); ok {
			if fv = deref(fv); fv.IsValid() {
				n.AddText(format(k.TextType, fv))
			}
		}
	}
	if k.Inner {
		fv, _ := vocab.FieldAt(v, "InnerXML")
		n.Raw = fv.String()
	}
	for i := range k.Kids {
		kid := &k.Kids[i]
		fv, ok := vocab.FieldAt(v, kid.Field)
		if !ok {
			continue
		}
		add := func(x reflect.Value) {
			if x = deref(x); !x.IsValid() {
				return
			}
			c := &vocab.Node{Kind: kid.Kind, Local: kid.Local, Kid: kid, NS: kid.NS, Prefix: kid.Prefix}
			switch {
			case kid.NS != "":
			case b.V.Kinds[kid.Kind].Captured:
				xn, _ := vocab.FieldAt(x, "XMLName")
				c.NS = xn.Interface().(xml.Name).Space
			case k.Captured:
				c.NS = n.NS
			default:
				c.NS = vocab.DASH
			}
			n.Add(c)
			fromModel(b, c, x)
		}
		if kid.Multi {
			for j := 0; j < fv.Len(); j++ {
				add(fv.Index(j))
			}
			continue
		}
		if kid.ByValue && fv.IsZero() {
			continue
		}
		add(fv)
	}
}

// KeepsAttrs reports that some struct in the model keeps all attributes that it
// is read with, namespace declarations included.
func KeepsAttrs(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && KeepsAttrs(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if KeepsAttrs(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		if v.Type() == nameType {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type == attrsType {
				return true
			}
			if v.Type().Field(i).IsExported() && KeepsAttrs(v.Field(i)) {
				return true
			}
		}
	}
	return false
}
