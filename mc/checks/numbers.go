package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/refxml"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:   "C26",
		Rule: "one case per type and chunk of values or texts, or per attribute of the vocabulary; an evaluation is one value written and read, or one text read; non-trivial when the value is not zero, or the text is refused or has a value other than zero",
		Bounds: "all 15 numeric and boolean Go types in 7 positions (attribute, pointer attribute, element, pointer, list, text, nested path); all values of the 8 and 16 bit types, 2^k, 10^k and their neighbours for the others, all exponents with 24 mantissas for floats; all texts over 14 characters up to length 4 (thorough 5), every boundary value with 40 decorations; " +
			"every numeric and boolean attribute of the vocabulary with every boundary value and every decoration of it",
		Assumptions: []string{"the syntax and rounding of floating point numbers is that of Go's strconv.ParseFloat", "infinities and NaN other than INF of FloatInf64 are not used as values"},
		Run:         runNumbers,
	})
}

// refInt reads an integer of the given size; the text may be surrounded by space.
func refInt(s string, bits int, signed bool) (*big.Int, bool) {
	if s == "" {
		return new(big.Int), true
	}
	s = strings.TrimSpace(s)
	neg := false
	if signed && s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, false
	}
	v, ten := new(big.Int), big.NewInt(10)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		v.Mul(v, ten).Add(v, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		v.Neg(v)
	}
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return v, v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
}

// refNum is the value of a text of a type in a canonical form: integers in
// decimal, floats by their bits, booleans as true or false.
func refNum(typ, s string) (string, bool) {
	switch typ {
	case "bool":
		if s == "" {
			return "false", true
		}
		switch strings.TrimSpace(s) {
		case "1", "t", "T", "TRUE", "true", "True":
			return "true", true
		case "0", "f", "F", "FALSE", "false", "False":
			return "false", true
		}
		return "", false
	case "floatinf":
		if s == "INF" {
			return bitsOf(math.Inf(1)), true
		}
		f, err := strconv.ParseFloat(s, 64)
		return bitsOf(f), err == nil
	case "float32":
		if s == "" {
			return bitsOf(0), true
		}
		f, err := strconv.ParseFloat(strings.TrimSpace(s), 32)
		return bitsOf(f), err == nil
	case "float64":
		if s == "" {
			return bitsOf(0), true
		}
		f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
		return bitsOf(f), err == nil
	}
	bits := 64
	signed := !strings.HasPrefix(typ, "u")
	fmt.Sscanf(strings.TrimLeft(typ, "uint"), "%d", &bits)
	v, ok := refInt(s, bits, signed)
	if !ok {
		return "", false
	}
	return v.String(), true
}

func bitsOf(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

// numOf is the canonical form of a Go value.
func numOf(v reflect.Value) string {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return bitsOf(v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	}
	return strconv.FormatUint(v.Uint(), 10)
}

type numText[T any] struct {
	V T `xml:",chardata"`
}

type numDoc[T any] struct {
	XMLName struct{}    `xml:"n"`
	A       T           `xml:"a,attr"`
	P       *T          `xml:"p,attr"`
	E       T           `xml:"e"`
	F       *T          `xml:"f"`
	L       []*T        `xml:"l"`
	X       T           `xml:"g>h>x"`
	T       numText[T]  `xml:"t"`
	U       *numText[T] `xml:"u"`
	W       numCData[T] `xml:"w"`
}

type numCData[T any] struct {
	V *T `xml:",chardata"`
}

// numType is one Go type under test.
type numType struct {
	name  string
	write func(v reflect.Value) ([]byte, error)
	doc   func() any
	rt    reflect.Type
}

func mkNum[T any](name string) numType {
	return numType{name: name, rt: reflect.TypeOf((*T)(nil)).Elem(),
		write: func(v reflect.Value) ([]byte, error) {
			x := v.Interface().(T)
			y, z := x, x
			w := x
			return xml.Marshal(&numDoc[T]{A: x, P: &y, E: x, F: &z, L: []*T{&y, &x}, X: x, T: numText[T]{x}, U: &numText[T]{x}, W: numCData[T]{&w}})
		},
		doc: func() any { return &numDoc[T]{} }}
}

type (
	namedInt   int16
	namedFloat float32
	namedBool  bool
)

func numTypes() []numType {
	return []numType{mkNum[int8]("int8"), mkNum[int16]("int16"), mkNum[int32]("int32"), mkNum[int64]("int64"), mkNum[int]("int"),
		mkNum[uint8]("uint8"), mkNum[uint16]("uint16"), mkNum[uint32]("uint32"), mkNum[uint64]("uint64"), mkNum[uint]("uint"), mkNum[uintptr]("uint"),
		mkNum[float32]("float32"), mkNum[float64]("float64"), mkNum[bool]("bool"), mkNum[namedInt]("int16"), mkNum[namedFloat]("float32"), mkNum[namedBool]("bool")}
}

// latticeInts are boundary integers as texts.
func latticeInts() []string {
	seen := map[string]bool{}
	var out []string
	add := func(v *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(v, big.NewInt(d))
			for _, s := range []string{x.String(), new(big.Int).Neg(x).String()} {
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	for k := uint(0); k <= 72; k++ {
		add(new(big.Int).Lsh(big.NewInt(1), k))
	}
	ten := big.NewInt(10)
	p := big.NewInt(1)
	for k := 0; k <= 25; k++ {
		add(p)
		p = new(big.Int).Mul(p, ten)
	}
	add(new(big.Int).Lsh(big.NewInt(1), 128))
	add(new(big.Int).Lsh(big.NewInt(3), 63))
	add(new(big.Int).Lsh(big.NewInt(5), 31))
	return out
}

// latticeFloats are boundary floats as texts.
func latticeFloats() []string {
	out := []string{"0", "-0", "0.1", "0.2", "0.3", "33.333333333333336", "1e23", "8.5", "9007199254740993", "9007199254740991", "16777217", "16777215", "0.000001", "1e-7", "123456789.123456789", "5e-324", "2e-324", "3e-324", "2.2250738585072011e-308",
		"2.2250738585072014e-308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e308", "1e309", "3.4028234663852886e38", "3.4028235e38", "3.4028236e38", "1.401298464324817e-45", "7e-46", "1e-46", "0.5e-44", "1.17549435e-38", "2.5", "3.5", "1.00000005960464477539062", "1.00000005960464477539063"}
	for k := -50; k <= 50; k++ {
		for _, m := range []string{"1", "-9.75", "1.25", "7"} {
			out = append(out, fmt.Sprintf("%se%d", m, k))
		}
	}
	return out
}

// decorations of a number.
func decorate(s string) []string {
	out := []string{s, " " + s, s + " ", "\t" + s + "\n", "\r\n" + s, "  " + s + "  ", "\u00a0" + s, s + "\u2003", "0" + s, "000" + s, "+" + s, "-" + s, "+ " + s, "--" + s, s + ".", s + ".0", s + ".5", "." + s, s + "e0", s + "e1", s + "E1", s + "e-1",
		s + "x", "x" + s, "0x" + s, "0b" + s, "0o" + s, s + "0", s + s, s + " " + s, s + ",0", s + "_0", s + "L", s + "u", s + "%", "'" + s, s + "\u0660", "\uff11" + s, s + "/1", "(" + s + ")", s + "\u200b", s + "INF", "#" + s, s + ";"}
	if len(s) > 0 && s[0] == '-' {
		out = append(out, "-0"+s[1:], "-00000000000000000000000000"+s[1:], "- "+s[1:], s[1:], "\u2212"+s[1:])
	} else {
		out = append(out, "00000000000000000000000000000"+s)
	}
	return out
}

func runNumbers(c *core.Ctx) {
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;")
	// Values through writing and reading.
	roundTripNum := func(t *core.T, nt numType, v reflect.Value) bool {
		want := numOf(v)
		t.Eval(!v.IsZero())
		t.Step(2)
		b, err := nt.write(v)
		if err != nil {
			t.Failf("write", "%v of %s: %v", v, nt.rt, err)
			return false
		}
		root, err := refxml.Parse(string(b))
		if err != nil {
			t.Failf("ill-formed", "%v: %s", err, b)
			return false
		}
		n := 0
		judge := func(where, text string) bool {
			n++
			got, ok := refNum(nt.name, text)
			if !ok || got != want || text != strings.TrimSpace(text) || strings.HasPrefix(text, "+") && v.Kind() != reflect.Float64 && v.Kind() != reflect.Float32 {
				t.Failf("written", "%s %v is written as %q in %s: %s", nt.rt, v, text, where, b)
				return false
			}
			return true
		}
		var walk func(e *refxml.Node) bool
		walk = func(e *refxml.Node) bool {
			for _, a := range e.Attrs {
				if !judge("attribute "+a.Local, a.Value) {
					return false
				}
			}
			if len(e.Elems()) == 0 && !judge("element "+e.Local, e.Text()) {
				return false
			}
			for _, k := range e.Elems() {
				if !walk(k) {
					return false
				}
			}
			return true
		}
		if !walk(root) {
			return false
		}
		if n != 10 {
			t.Failf("lost", "%d of 10 values are written: %s", n, b)
			return false
		}
		d := nt.doc()
		if err := xml.Unmarshal(b, d); err != nil {
			t.Failf("read", "%v: %s", err, b)
			return false
		}
		dv := reflect.ValueOf(d).Elem()
		got := []reflect.Value{dv.Field(1), dv.Field(2), dv.Field(3), dv.Field(4), dv.Field(6), dv.Field(7).Field(0), dv.Field(9).Field(0)}
		if dv.Field(5).Len() != 2 || dv.Field(8).IsNil() {
			t.Failf("read", "values lost: %+v from %s", d, b)
			return false
		}
		got = append(got, dv.Field(5).Index(0), dv.Field(5).Index(1), dv.Field(8).Elem().Field(0))
		for i, g := range got {
			if numOf(g) != want {
				t.Failf("value", "%s %v is read back as %v (position %d): %s", nt.rt, v, g, i, b)
				return false
			}
		}
		t.Trace()
		return true
	}
	// Texts in every position.
	readNum := func(t *core.T, nt numType, s string) bool {
		want, ok := refNum(nt.name, s)
		t.Eval(!ok || want != "0" && want != "false")
		e := esc.Replace(s)
		for i, doc := range []string{"<n a=\"" + e + "\"/>", "<n p=\"" + e + "\"/>", "<n><e>" + e + "</e></n>", "<n><f>" + e + "</f></n>", "<n><l>" + e + "</l></n>", "<n><g><h><x>" + e + "</x></h></g></n>", "<n><t>" + e + "</t></n>", "<n><u>" + e + "</u></n>", "<n><w>" + e + "</w></n>"} {
			t.Step(1)
			d := nt.doc()
			err := xml.Unmarshal([]byte(doc), d)
			if (err == nil) != ok {
				t.Failf("accepted", "%s: error %v, want value %v %s: %q", nt.rt, err, ok, want, doc)
				return false
			}
			if !ok {
				continue
			}
			dv := reflect.ValueOf(d).Elem()
			var g reflect.Value
			switch i {
			case 4:
				if dv.Field(5).Len() != 1 {
					t.Failf("list", "%q: %+v", doc, d)
					return false
				}
				g = dv.Field(5).Index(0)
			case 6:
				g = dv.Field(7).Field(0)
			case 7:
				if dv.Field(8).IsNil() {
					t.Failf("list", "%q: %+v", doc, d)
					return false
				}
				g = dv.Field(8).Elem().Field(0)
			case 8:
				g = dv.Field(9).Field(0)
			default:
				g = dv.Field(i + 1)
				if i == 5 {
					g = dv.Field(6)
				}
			}
			if numOf(g) != want && !(s == "" && numOf(g) == "nil") {
				t.Failf("value", "%s is read as %v, want %s: %q", nt.rt, g, want, doc)
				return false
			}
		}
		t.Trace()
		return true
	}
	for ti, nt := range numTypes() {
		nt := nt
		name := fmt.Sprintf("%s (%d)", nt.rt, ti)
		set := func(f func(v reflect.Value)) reflect.Value {
			v := reflect.New(nt.rt).Elem()
			f(v)
			return v
		}
		// Values.
		chunk := func(what string, vals func(f func(reflect.Value) bool)) {
			c.Case(func() string { return name + " values " + what }, func(t *core.T) {
				var d core.Distinct
				vals(func(v reflect.Value) bool {
					d.Add(numOf(v))
					return roundTripNum(t, nt, v)
				})
				t.CountStates(&d)
			})
		}
		switch k := nt.rt.Kind(); k {
		case reflect.Bool:
			chunk("all", func(f func(reflect.Value) bool) {
				_ = f(set(func(v reflect.Value) { v.SetBool(true) })) && f(set(func(v reflect.Value) {}))
			})
		case reflect.Int8, reflect.Int16, reflect.Uint8, reflect.Uint16:
			bits := nt.rt.Bits()
			for lo := 0; lo < 1<<bits; lo += 4096 {
				lo := lo
				chunk(fmt.Sprintf("from %d", lo), func(f func(reflect.Value) bool) {
					for i := lo; i < lo+4096 && i < 1<<bits; i++ {
						v := set(func(v reflect.Value) {
							if v.CanInt() {
								v.SetInt(int64(i) - 1<<(bits-1))
							} else {
								v.SetUint(uint64(i))
							}
						})
						if !f(v) {
							return
						}
					}
				})
			}
		case reflect.Float32, reflect.Float64:
			mant := []uint64{0, 1, 2, 3, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x3333333333333, 0x8000000000000, 0x7ffffffffffff, 0xfffffffffffff, 0xffffffffffffe, 0x4000000000000, 0x1000000000000, 0x0123456789abc, 0xfedcba9876543, 0xc000000000000, 0x00000ffffffff, 0xf0f0f0f0f0f0f, 0x1, 0x80, 0x100000, 0x7fffff, 0x400000}
			if k == reflect.Float64 {
				for e := 0; e < 2047; e += 64 {
					e := e
					chunk(fmt.Sprintf("exponents from %d", e), func(f func(reflect.Value) bool) {
						for x := e; x < e+64 && x < 2047; x++ {
							for _, m := range mant {
								for sg := uint64(0); sg < 2; sg++ {
									if !f(set(func(v reflect.Value) { v.SetFloat(math.Float64frombits(sg<<63 | uint64(x)<<52 | m)) })) {
										return
									}
								}
							}
						}
					})
				}
			} else {
				for e := 0; e < 255; e += 32 {
					e := e
					chunk(fmt.Sprintf("exponents from %d", e), func(f func(reflect.Value) bool) {
						for x := e; x < e+32 && x < 255; x++ {
							for _, m := range mant {
								for sg := uint32(0); sg < 2; sg++ {
									if !f(set(func(v reflect.Value) {
										v.SetFloat(float64(math.Float32frombits(sg<<31 | uint32(x)<<23 | uint32(m)&0x7fffff)))
									})) {
										return
									}
								}
							}
						}
					})
				}
			}
		default:
			chunk("boundaries", func(f func(reflect.Value) bool) {
				for _, s := range latticeInts() {
					z, ok := refInt(s, nt.rt.Bits(), nt.name[0] == 'i')
					if !ok {
						continue
					}
					v := set(func(v reflect.Value) {
						if v.CanInt() {
							v.SetInt(z.Int64())
						} else {
							v.SetUint(z.Uint64())
						}
					})
					if !f(v) {
						return
					}
				}
			})
		}
		// All short texts.
		alpha := []string{"0", "1", "2", "5", "9", "+", "-", ".", "e", "x", "_", " ", "t", "I"}
		depth := c.Pick(4, 5)
		for _, a := range append([]string{""}, alpha...) {
			a := a
			for _, a2 := range append([]string{""}, alpha...) {
				a2 := a2
				if a == "" && a2 != "" {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s texts with prefix %q", name, a+a2) }, func(t *core.T) {
					var d core.Distinct
					var rec func(p string, n int) bool
					rec = func(p string, n int) bool {
						d.Add(p)
						if !readNum(t, nt, p) {
							return false
						}
						if n == 0 || a2 == "" {
							return true
						}
						for _, x := range alpha {
							if !rec(p+x, n-1) {
								return false
							}
						}
						return true
					}
					rec(a+a2, depth-2)
					t.CountStates(&d)
				})
			}
		}
		// Decorated boundaries.
		lattice := latticeInts()
		if nt.rt.Kind() == reflect.Float32 || nt.rt.Kind() == reflect.Float64 {
			lattice = append(latticeFloats(), "inf", "NaN", "Infinity", "INF", "nan", "infinit")
		} else if nt.rt.Kind() == reflect.Bool {
			lattice = []string{"true", "false", "True", "False", "TRUE", "FALSE", "t", "f", "T", "F", "0", "1", "2", "yes", "no", "tRUE", "falsE", "on", "off", "y", "n"}
		}
		for lo := 0; lo < len(lattice); lo += 40 {
			lo := lo
			c.Case(func() string { return fmt.Sprintf("%s decorated boundaries from %d", name, lo) }, func(t *core.T) {
				var d core.Distinct
				for _, s := range lattice[lo:min(lo+40, len(lattice))] {
					for _, x := range decorate(s) {
						d.Add(x)
						if !readNum(t, nt, x) {
							return
						}
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// The attributes of the model.
	b := vocab.NewBuilder()
	for _, k := range b.V.KindNames() {
		kind := b.V.Kinds[k]
		for ai := range kind.Attrs {
			a := &kind.Attrs[ai]
			var texts []string
			switch {
			case a.Type == "bool":
				texts = []string{"true", "false", "1", "0", "t", "F", "TRUE", "True", "2", "yes", ""}
			case strings.HasPrefix(a.Type, "float"):
				texts = append(latticeFloats(), "INF", "inf", "+Inf", "", "1 2")
			case strings.HasPrefix(a.Type, "int") || strings.HasPrefix(a.Type, "uint"):
				texts = append(latticeInts(), "")
			default:
				continue
			}
			c.Case(func() string { return fmt.Sprintf("attribute %s@%s %s", k, a.Local, a.Type) }, func(t *core.T) {
				var d core.Distinct
				root, leaf := b.Doc(b.V.Path(k))
				b.SetAttr(leaf, a, "@@@@")
				tmpl := b.Serialize(root, vocab.Style{})
				at := strings.Index(tmpl, "@@@@")
				kids := pathKids(leaf, root)
				for _, base := range texts {
					xs := []string{base}
					if strings.HasPrefix(a.Type, "float") || len(base) < 4 || c.Thorough() {
						xs = decorate(base)
					} else {
						xs = append(xs, " "+base, base+"0", "0"+base, "+"+base, base+".0", base+"x")
					}
					for _, x := range xs {
						want, ok := refNum(a.Type, x)
						d.Add(x)
						t.Step(1)
						t.Eval(!ok || want != "0" && want != "false")
						doc := tmpl[:at] + esc.Replace(x) + tmpl[at+4:]
						m, err := mpd.ReadFromString(doc)
						if (err == nil) != ok {
							t.Failf("accepted", "%s %q: error %v, want value %v %s\n%s", a.Type, x, err, ok, want, doc)
							return
						}
						if !ok {
							continue
						}
						v, found := vocab.FieldAt(leafValue(m, kids), a.Field)
						if !found || v.Kind() == reflect.Pointer && v.IsNil() || numOf(v) != want {
							t.Failf("value", "%s %q is read as %v, want %s\n%s", a.Type, x, v, want, doc)
							return
						}
						f := 1.0
						if v.Kind() == reflect.Pointer {
							v = v.Elem()
						} else if v.IsZero() && !a.Always {
							f = math.Inf(1)
						}
						if v.CanFloat() {
							f = v.Float()
						}
						if math.IsNaN(f) || math.IsInf(f, 0) && a.Type != "floatinf" || f == 0 || math.IsInf(f, -1) {
							continue
						}
						if v.IsZero() && math.IsInf(f, 1) {
							continue
						}
						out, err := m.WriteToString("", false)
						t.Step(1)
						if err != nil {
							t.Failf("write", "%v\n%s", err, doc)
							return
						}
						m2, err := mpd.ReadFromString(out)
						t.Step(1)
						if err != nil {
							t.Failf("reread", "%v\n%s", err, out)
							return
						}
						if df := models.Equal(m, m2); df != "" {
							t.Failf("reread", "%s\n%s", df, out)
							return
						}
						rt, err := refxml.Parse(out)
						if err != nil {
							t.Failf("ill-formed", "%v\n%s", err, out)
							return
						}
						text, ok := leafAttr(rt, kids, a)
						if !ok {
							t.Failf("written", "attribute is missing for %q\n%s", x, out)
							return
						}
						got, ok := refNum(a.Type, text)
						if !ok || got != want || text != strings.TrimSpace(text) {
							t.Failf("written", "%s %q is written as %q\n%s", a.Type, x, text, out)
							return
						}
					}
				}
				t.Trace()
				t.CountStates(&d)
			})
		}
	}
}

// pathKids lists the edges from the root to the leaf of a chain.
func pathKids(leaf, root *vocab.Node) []*vocab.Kid {
	var out []*vocab.Kid
	n := root
	for n != leaf {
		var next *vocab.Node
		for _, it := range n.Items {
			if it.Node != nil {
				next = it.Node
			}
		}
		out = append(out, next.Kid)
		n = next
	}
	return out
}

// leafValue walks the model along the edges.
func leafValue(m *mpd.MPD, kids []*vocab.Kid) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	for _, k := range kids {
		f, ok := vocab.FieldAt(v, k.Field)
		if !ok {
			panic("no field " + k.Field)
		}
		if k.Multi {
			f = f.Index(f.Len() - 1)
		}
		for f.Kind() == reflect.Pointer {
			f = f.Elem()
		}
		v = f
	}
	return v
}

// leafAttr finds the written attribute.
func leafAttr(n *refxml.Node, kids []*vocab.Kid, a *vocab.Attr) (string, bool) {
	for _, k := range kids {
		var next *refxml.Node
		for _, e := range n.Elems() {
			if e.Local == k.Local {
				next = e
			}
		}
		if next == nil {
			return "", false
		}
		n = next
	}
	return n.Attr(a.NS, a.Local)
}
