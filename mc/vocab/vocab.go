package vocab

import (
	_ "embed"
	"encoding/json"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

//go:embed vocab.json
var frozen []byte

// Namespaces of the vocabulary.
const (
	DASH   = "urn:mpeg:dash:schema:mpd:2011"
	SCTE   = "http://www.scte.org/schemas/35"
	SCTE16 = "http://www.scte.org/schemas/35/2016"
)

// Load returns the frozen vocabulary.
func Load() *Vocab {
	v := &Vocab{}
	if err := json.Unmarshal(frozen, v); err != nil {
		panic(err)
	}
	return v
}

// Edge is one parent-child relation.
type Edge struct {
	Parent string
	Kid    Kid
}

// Edges lists all relations in a fixed order.
func (v *Vocab) Edges() []Edge {
	var out []Edge
	for _, k := range v.KindNames() {
		for _, c := range v.Kinds[k].Kids {
			out = append(out, Edge{k, c})
		}
	}
	return out
}

// KindNames lists the kinds, sorted.
func (v *Vocab) KindNames() []string {
	var ks []string
	for k := range v.Kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Path returns the shortest chain of edges from MPD to the kind.
func (v *Vocab) Path(kind string) []Edge {
	type st struct {
		kind string
		path []Edge
	}
	seen := map[string]bool{"MPD": true}
	q := []st{{"MPD", nil}}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		if c.kind == kind {
			return c.path
		}
		for _, k := range v.Kinds[c.kind].Kids {
			if !seen[k.Kind] {
				seen[k.Kind] = true
				q = append(q, st{k.Kind, append(append([]Edge(nil), c.path...), Edge{c.kind, k})})
			}
		}
	}
	panic("no path to " + kind)
}

// NAttr is an attribute of a specification node.
type NAttr struct {
	NS, Prefix, Local, Value string
	Spec                     *Attr // nil for foreign attributes
}

// Item is a piece of content.
type Item struct {
	Node *Node
	Text string
}

// Node is a specification element.
type Node struct {
	Kind              string
	NS, Prefix, Local string
	Attrs             []NAttr
	Items             []Item
	Kid               *Kid   // the edge that leads here
	Raw               string // raw content of an Ext element
}

// Value alphabets per type. Every value is in its canonical written form unless
// the comparison is by value.
func values(typ string) []string {
	switch typ {
	case "string":
		return []string{"a", "a b", "x&y", "<", ">", "\"", "'", "]]>", " lead", "trail ", "\t", "\n", "a\r\nb", "é", "漢字", "😀", "0", "-1", "true",
			"http://e.x/p?a=1&b=2#f", "urn:mpeg:dash:role:2011", "$RepresentationID$/$Number%05d$.m4s", "2024-01-01T00:00:00Z", "&amp;", "&#65;", "<!--", "<![CDATA[",
			"%20", "\u00a0", "\u2028", "\ufffd", "\ufeff", "\ue000", strings.Repeat("x", 300)}
	case "bool":
		return []string{"true", "false", "1", "0"}
	case "duration":
		return []string{"PT1S", "PT0.5S", "PT2M", "PT1M1S", "PT1H", "PT1H0.001S", "PT24H", "P1D", "PT100H59M59.999S", "PT0S", "PT0.0002S", "PT10M", "PT60S", "PT3600S"}
	case "floatinf":
		return []string{"1", "0.5", "INF", "1234567.125", "1e3", "-1", "0.000001", "-0.25", "1e21", "100000000000000000000000"}
	case "float64":
		return []string{"1", "0.5", "1e-7", "1.7976931348623157e+308", "5e-324", "-2.5", "1e+21", "33.333333333333336"}
	case "float32":
		return []string{"1", "0.5", "1e-07", "3.4028235e+38", "-2.5", "16777216"}
	case "strlist":
		return []string{"a", "a b", "a b c", "urn:x y"}
	case "int":
		return []string{"1", "-1", "0", "9223372036854775807", "-9223372036854775808", "007", "+5"}
	}
	if strings.HasPrefix(typ, "int") {
		b, _ := strconv.Atoi(typ[3:])
		return []string{"1", "-1", "0", strconv.FormatInt(1<<(b-1)-1, 10), strconv.FormatInt(-1<<(b-1), 10)}
	}
	if strings.HasPrefix(typ, "uint") {
		b, _ := strconv.Atoi(typ[4:])
		return []string{"1", "0", "10", strconv.FormatUint(1<<(b-1), 10), strconv.FormatUint(math.MaxUint64>>(64-b), 10), strconv.FormatUint(math.MaxUint64>>(64-b)-1, 10), "007"}
	}
	panic("no values for " + typ)
}

// IsZero reports whether the value is the zero of a type that is elided when zero.
func IsZero(typ, val string) bool {
	switch typ {
	case "string":
		return val == ""
	case "bool":
		return val == "false" || val == "0"
	case "duration":
		d, ok := RefDuration(val)
		return ok && d == 0
	case "strlist":
		return false
	}
	f, err := strconv.ParseFloat(val, 64)
	return err == nil && f == 0
}

// Values lists the values of an attribute that its model field represents
// distinctly from absence.
func (a *Attr) Values() []string {
	var out []string
	for _, v := range values(a.Type) {
		if !a.Ptr && !a.Always && IsZero(a.Type, v) {
			continue
		}
		out = append(out, v)
	}
	return out
}

// TextValues lists text contents.
func TextValues() []string {
	return append(values("string"), "a\nb\tc", "  ", "x > y", "1 ]] > 2")
}

// Default is a plain non-zero value for the type, varied by n.
func Default(typ string, n int) string {
	switch typ {
	case "string":
		return "s" + strconv.Itoa(n)
	case "bool":
		return "true"
	case "duration":
		return "PT" + strconv.Itoa(n%59+1) + "S"
	case "floatinf", "float64", "float32":
		return strconv.FormatFloat(float64(n%100)+0.5, 'g', -1, 64)
	case "strlist":
		return "k" + strconv.Itoa(n) + " l"
	case "uint8":
		return strconv.Itoa(n%200 + 1)
	}
	return strconv.Itoa(n + 1)
}

// RefDuration parses a canonical duration exactly, in nanoseconds.
func RefDuration(s string) (int64, bool) {
	orig := s
	_ = orig
	if !strings.HasPrefix(s, "P") || len(s) < 3 {
		return 0, false
	}
	s = s[1:]
	var tot int64
	last := 0
	inT := false
	seen := false
	for len(s) > 0 {
		if s[0] == 'T' {
			if inT {
				return 0, false
			}
			inT = true
			s = s[1:]
			if s == "" {
				return 0, false
			}
			continue
		}
		i := 0
		for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
			i++
		}
		if i == 0 || i == len(s) {
			return 0, false
		}
		num, unit := s[:i], s[i]
		s = s[i+1:]
		rank := strings.IndexByte("DHMS", unit) + 1
		if rank == 0 || rank <= last || (unit == 'D') == inT {
			return 0, false
		}
		last = rank
		frac := ""
		if d := strings.IndexByte(num, '.'); d >= 0 {
			if unit != 'S' {
				return 0, false
			}
			num, frac = num[:d], num[d+1:]
			if num == "" || frac == "" || strings.Contains(frac, ".") {
				return 0, false
			}
		}
		n, err := strconv.ParseInt(num, 10, 64)
		if err != nil {
			return 0, false
		}
		mul := map[byte]int64{'D': 86400e9, 'H': 3600e9, 'M': 60e9, 'S': 1e9}[unit]
		if n > (math.MaxInt64-tot)/mul {
			return 0, false
		}
		tot += n * mul
		if frac != "" {
			r := frac
			for len(r) < 10 {
				r += "0"
			}
			ns, _ := strconv.ParseInt(r[:9], 10, 64)
			if r[9] >= '5' {
				ns++
			}
			tot += ns
		}
		seen = true
	}
	return tot, seen
}

// SameValue compares a written with an expected attribute value by the type.
func SameValue(typ, want, got string) bool {
	switch typ {
	case "string", "":
		return want == got
	case "bool":
		b := func(s string) string {
			switch s {
			case "1":
				return "true"
			case "0":
				return "false"
			}
			return s
		}
		return b(want) == b(got) && (got == "true" || got == "false" || got == "1" || got == "0")
	case "duration":
		a, ok1 := RefDuration(want)
		b, ok2 := RefDuration(got)
		return ok1 && ok2 && a == b
	case "floatinf", "float64":
		if want == "INF" || got == "INF" {
			return want == got
		}
		a, e1 := strconv.ParseFloat(want, 64)
		b, e2 := strconv.ParseFloat(got, 64)
		return e1 == nil && e2 == nil && a == b && !math.IsInf(b, 0)
	case "float32":
		a, e1 := strconv.ParseFloat(want, 32)
		b, e2 := strconv.ParseFloat(got, 32)
		return e1 == nil && e2 == nil && a == b
	case "strlist":
		return reflect.DeepEqual(strings.Fields(want), strings.Fields(got))
	}
	trim := func(s string) string {
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimLeft(strings.TrimLeft(s, "+-"), "0")
		if s == "" {
			return "0"
		}
		if neg {
			return "-" + s
		}
		return s
	}
	return trim(want) == trim(got)
}
