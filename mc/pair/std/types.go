// Package std holds types that use encoding/xml. Package fork is the same text
// for the XML package of the repository; tools/genpair.sh makes it.
package std

import (
	xml "encoding/xml"
	"errors"
	"io"
	"reflect"
	"strings"
)

// Type is a named type of this package.
type Type struct {
	Name string
	Type reflect.Type
}

type NameNode struct {
	XMLName xml.Name
	A       string `xml:"a,attr"`
	V       string `xml:"b"`
}

type Marsh struct{ S string }

func (m Marsh) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "mk"}, Value: "1"})
	return e.EncodeElement("m"+m.S, start)
}

func (m *Marsh) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "<" + start.Name.Local + ">" + s
	return nil
}

type PMarsh struct{ S string }

func (m *PMarsh) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	if err := e.EncodeElement(7, xml.StartElement{Name: xml.Name{Local: "in"}}); err != nil {
		return err
	}
	if err := e.EncodeToken(xml.CharData(m.S)); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}

func (m *PMarsh) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case xml.StartElement:
			m.S += "(" + t.Name.Local
			if err := d.Skip(); err != nil {
				return err
			}
		case xml.CharData:
			m.S += string(t)
		case xml.EndElement:
			return nil
		}
	}
}

type BadMarsh struct{ S string }

func (m BadMarsh) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if m.S == "" {
		return nil
	}
	e.EncodeToken(start)
	if strings.Contains(m.S, "1") {
		return e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "wrong"}})
	}
	return nil // not closed
}

func (m *BadMarsh) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if len(start.Attr) > 0 {
		return errors.New("attributes refused")
	}
	return nil // consumes nothing
}

// Greedy reads more than its element.
type Greedy struct{ N int }

func (m *Greedy) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {
		_, err := d.Token()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		m.N++
	}
}

type MAttr string

func (m MAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	switch {
	case m == "":
		return xml.Attr{}, nil
	case strings.Contains(string(m), "&"):
		return xml.Attr{}, errors.New("refused")
	}
	return xml.Attr{Name: name, Value: "x" + string(m)}, nil
}

func (m *MAttr) UnmarshalXMLAttr(a xml.Attr) error {
	if a.Value == "true" {
		return errors.New("refused")
	}
	*m += MAttr(a.Name.Local + "=" + a.Value)
	return nil
}

type PMAttr struct{ S string }

func (m *PMAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: xml.Name{Local: name.Local + "p"}, Value: m.S}, nil
}

func (m *PMAttr) UnmarshalXMLAttr(a xml.Attr) error { m.S = a.Value + "!"; return nil }

type Text struct{ S string }

func (m Text) MarshalText() ([]byte, error) { return []byte("t" + m.S), nil }
func (m *Text) UnmarshalText(b []byte) error {
	if strings.HasPrefix(string(b), "x") {
		return errors.New("refused")
	}
	m.S += string(b) + ";"
	return nil
}

type PText string

func (m *PText) MarshalText() ([]byte, error) {
	if *m == "" {
		return nil, errors.New("empty")
	}
	return []byte(*m), nil
}
func (m *PText) UnmarshalText(b []byte) error { *m = PText(strings.ToUpper(string(b))); return nil }

// VText marshals as text only.
type VText int

func (m VText) MarshalText() ([]byte, error) { return []byte("<v>"), nil }

type Named string
type NamedInt int16
type NamedBytes []byte
type NamedList []Inner

type Inner struct {
	A string `xml:"a,attr"`
	B int    `xml:"b"`
}

type Embed struct {
	E string `xml:"e,attr"`
	N string `xml:"n"`
	A []int  `xml:"a>b"`
}

type EmbedName struct {
	XMLName xml.Name `xml:"emb"`
	X       string   `xml:"x"`
}

// EmbedEmpty has an XMLName without a name.
type EmbedEmpty struct {
	XMLName xml.Name
	Y       string `xml:"m"`
}

type Deep struct {
	Embed
	*Inner
	M string `xml:"m"`
}

type AnyNode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Kids    []AnyNode  `xml:",any"`
}

type Raw struct {
	Attrs []xml.Attr `xml:",any,attr"`
	Inner string     `xml:",innerxml"`
}

type Doc struct {
	C string `xml:",comment"`
	D string `xml:",cdata"`
	V []byte `xml:"v,attr"`
}

type Rec struct {
	V    string `xml:"v,attr,omitempty"`
	Next *Rec   `xml:"n"`
}

type Gen[T any] struct {
	V T `xml:"b"`
}

type Ambiguous struct {
	Deep
	Doc
	Rec2
}

type Rec2 struct {
	V string `xml:"v,attr"`
	N string `xml:"n"`
}

type WrongName struct {
	XMLName xml.Name `xml:"w"`
	V       string   `xml:",chardata"`
}

type Bad1 struct {
	A string `xml:"a,attr"`
	B string `xml:"a,attr"`
}

type Bad2 struct {
	A string `xml:"a>b"`
	B string `xml:"a"`
}

type Bad3 struct {
	A string `xml:"a,attr,chardata"`
}

type Bad4 struct {
	Inner Bad1 `xml:"n"`
}

type Unexported struct {
	a string
	B string `xml:"b"`
	c int    `xml:"c,attr"`
}

// Types lists the types.
func Types() []Type {
	var out []Type
	add := func(vs ...any) {
		for _, v := range vs {
			t := reflect.TypeOf(v).Elem()
			out = append(out, Type{strings.NewReplacer("std.", "", "fork.", "").Replace(t.String()), t})
		}
	}
	add((*NameNode)(nil), (*Marsh)(nil), (*PMarsh)(nil), (*MAttr)(nil), (*PMAttr)(nil), (*Text)(nil), (*PText)(nil), (*Inner)(nil), (*AnyNode)(nil), (*xml.Attr)(nil),
		(*BadMarsh)(nil), (*Greedy)(nil), (*VText)(nil), (*Named)(nil), (*NamedInt)(nil), (*NamedBytes)(nil), (*NamedList)(nil), (*Embed)(nil), (*EmbedName)(nil), (*EmbedEmpty)(nil), (*Deep)(nil),
		(*Raw)(nil), (*Doc)(nil), (*Rec)(nil), (*Gen[string])(nil), (*Gen[[]int])(nil), (*Ambiguous)(nil), (*WrongName)(nil), (*Bad1)(nil), (*Bad2)(nil), (*Bad3)(nil), (*Bad4)(nil), (*Unexported)(nil), (*xml.Name)(nil), (*xml.CharData)(nil), (*xml.StartElement)(nil))
	return out
}
