// Package vocab holds the frozen MPD vocabulary: for each element kind its
// attributes, children and text, with data types and the exported model field
// that carries each. The JSON file was extracted once from the struct tags,
// then reviewed against the DASH, SCTE 35 and SCTE 214 schemas, and is from then
// on the specification the implementation is compared with.
package vocab

import (
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// Attr is one attribute of a kind.
type Attr struct {
	NS     string `json:"ns,omitempty"`
	Prefix string `json:"prefix,omitempty"`
	Local  string `json:"local"`
	Field  string `json:"field"`
	Type   string `json:"type"`
	Ptr    bool   `json:"ptr,omitempty"`    // presence is represented
	Always bool   `json:"always,omitempty"` // written even when zero
}

// Kid is one child element of a kind.
type Kid struct {
	NS      string `json:"ns,omitempty"` // "" means the DASH namespace or the parent's captured namespace
	Prefix  string `json:"prefix,omitempty"`
	Local   string `json:"local"`
	Field   string `json:"field"`
	Kind    string `json:"kind"`
	Multi   bool   `json:"multi,omitempty"`
	ByValue bool   `json:"byvalue,omitempty"`
}

// Kind is an element kind.
type Kind struct {
	Attrs    []Attr `json:"attrs,omitempty"`
	Kids     []Kid  `json:"kids,omitempty"`
	Text     string `json:"text,omitempty"` // field with the character data
	TextType string `json:"texttype,omitempty"`
	Any      bool   `json:"anyattr,omitempty"`
	Inner    bool   `json:"inner,omitempty"`
	Captured bool   `json:"captured,omitempty"` // the element namespace is captured and replayed
}

// Vocab is the whole vocabulary.
type Vocab struct {
	Kinds map[string]*Kind `json:"kinds"`
}

// Extract reads the vocabulary off the struct tags.
func Extract() *Vocab {
	v := &Vocab{Kinds: map[string]*Kind{}}
	v.kind(reflect.TypeOf(mpd.MPD{}))
	return v
}

func simpleType(t reflect.Type) string {
	switch t {
	case reflect.TypeOf(mpd.Duration(0)):
		return "duration"
	case reflect.TypeOf(mpd.FloatInf64(0)):
		return "floatinf"
	case reflect.TypeOf(mpd.StringNoWhitespaceVectorType(nil)):
		return "strlist"
	}
	switch t.Kind() {
	case reflect.String:
		return "string"
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return t.Kind().String()
	}
	return ""
}

func (v *Vocab) kind(t reflect.Type) string {
	if s := simpleType(t); s != "" {
		n := "#" + s
		if v.Kinds[n] == nil {
			v.Kinds[n] = &Kind{Text: ".", TextType: s}
		}
		return n
	}
	if v.Kinds[t.Name()] != nil {
		return t.Name()
	}
	k := &Kind{}
	v.Kinds[t.Name()] = k
	fields := allFields(t, nil)
	for _, f := range fields {
		if !f.IsExported() {
			continue
		}
		if f.Type == reflect.TypeOf(xml.Name{}) {
			if len(f.Index) == 1 && f.Tag.Get("xml") == "" {
				k.Captured = true
			}
			continue
		}
		tag := f.Tag.Get("xml")
		if tag == "-" {
			continue
		}
		fname := f.Name
		if g, ok := t.FieldByName(f.Name); !ok || !reflect.DeepEqual(g.Index, f.Index) {
			// Shadowed in Go, but not in XML when the names differ.
			fname = ""
			for i := 1; i <= len(f.Index); i++ {
				if i > 1 {
					fname += "."
				}
				fname += t.FieldByIndex(f.Index[:i]).Name
			}
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		ns := ""
		if i := strings.LastIndexByte(name, ' '); i >= 0 {
			ns, name = name[:i], name[i+1:]
		}
		prefix := ""
		if i := strings.IndexByte(name, ':'); i >= 0 {
			prefix, name = name[:i], name[i+1:]
		}
		flags := map[string]bool{}
		for _, p := range parts[1:] {
			flags[p] = true
		}
		ft := f.Type
		ptr, multi := false, false
		if ft.Kind() == reflect.Pointer {
			ptr, ft = true, ft.Elem()
		} else if ft.Kind() == reflect.Slice && simpleType(ft) == "" {
			multi, ft = true, ft.Elem()
			if ft.Kind() == reflect.Pointer {
				ptr, ft = true, ft.Elem()
			}
		}
		switch {
		case flags["any"]:
			k.Any = true
		case flags["innerxml"]:
			k.Inner = true
		case flags["chardata"]:
			k.Text, k.TextType = fname, simpleType(ft)
		case flags["attr"]:
			k.Attrs = append(k.Attrs, Attr{NS: ns, Prefix: prefix, Local: name, Field: fname, Type: simpleType(ft), Ptr: ptr,
				Always: !ptr && !flags["omitempty"]})
		default:
			kid := Kid{NS: ns, Prefix: prefix, Local: name, Field: fname, Multi: multi, ByValue: !ptr}
			kid.Kind = v.kind(ft)
			k.Kids = append(k.Kids, kid)
		}
	}
	return t.Name()
}

// allFields flattens the untagged embedded structs.
func allFields(t reflect.Type, index []int) []reflect.StructField {
	var out []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		f.Index = append(append([]int(nil), index...), i)
		if f.Anonymous && f.Tag.Get("xml") == "" {
			et := f.Type
			if et.Kind() == reflect.Pointer {
				et = et.Elem()
			}
			out = append(out, allFields(et, f.Index)...)
			continue
		}
		out = append(out, f)
	}
	return out
}
