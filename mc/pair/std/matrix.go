package std

import (
	xml "encoding/xml"
	"errors"
	"reflect"
)

// Made by tools/genmatrix.py.

type MSnnn struct{ S string }

type MSnnv struct{ S string }

func (m MSnnv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSnnp struct{ S string }

func (m *MSnnp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSnvn struct{ S string }

func (m MSnvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSnvv struct{ S string }

func (m MSnvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSnvv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSnvp struct{ S string }

func (m MSnvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSnvp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSnpn struct{ S string }

func (m *MSnpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSnpv struct{ S string }

func (m *MSnpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSnpv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSnpp struct{ S string }

func (m *MSnpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSnpp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvnn struct{ S string }

func (m MSvnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

type MSvnv struct{ S string }

func (m MSvnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSvnv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvnp struct{ S string }

func (m MSvnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSvnp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvvn struct{ S string }

func (m MSvvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSvvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSvvv struct{ S string }

func (m MSvvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSvvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSvvv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvvp struct{ S string }

func (m MSvvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSvvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSvvp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvpn struct{ S string }

func (m MSvpn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSvpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSvpv struct{ S string }

func (m MSvpv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSvpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSvpv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSvpp struct{ S string }

func (m MSvpp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSvpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSvpp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSpnn struct{ S string }

func (m *MSpnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

type MSpnv struct{ S string }

func (m *MSpnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSpnv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSpnp struct{ S string }

func (m *MSpnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSpnp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSpvn struct{ S string }

func (m *MSpvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSpvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSpvv struct{ S string }

func (m *MSpvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSpvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSpvv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSpvp struct{ S string }

func (m *MSpvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m MSpvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSpvp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSppn struct{ S string }

func (m *MSppn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSppn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

type MSppv struct{ S string }

func (m *MSppv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSppv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m MSppv) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type MSppp struct{ S string }

func (m *MSppp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+m.S, start)
}

func (m *MSppp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + m.S}, nil
}

func (m *MSppp) MarshalText() ([]byte, error) { return []byte("T" + m.S), nil }

type USnnn struct{ S string }

type USnnv struct{ S string }

func (m USnnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USnnp struct{ S string }

func (m *USnnp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USnvn struct{ S string }

func (m USnvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type USnvv struct{ S string }

func (m USnvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m USnvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USnvp struct{ S string }

func (m USnvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *USnvp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USnpn struct{ S string }

func (m *USnpn) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

type USnpv struct{ S string }

func (m *USnpv) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m USnpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USnpp struct{ S string }

func (m *USnpp) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m *USnpp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USvnn struct{ S string }

func (m USvnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

type USvnv struct{ S string }

func (m USvnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m USvnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USvnp struct{ S string }

func (m USvnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *USvnp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USvvn struct{ S string }

func (m USvvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m USvvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type USvvv struct{ S string }

func (m USvvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m USvvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m USvvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USvvp struct{ S string }

func (m USvvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m USvvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *USvvp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USvpn struct{ S string }

func (m USvpn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *USvpn) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

type USvpv struct{ S string }

func (m USvpv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *USvpv) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m USvpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USvpp struct{ S string }

func (m USvpp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *USvpp) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m *USvpp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USpnn struct{ S string }

func (m *USpnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

type USpnv struct{ S string }

func (m *USpnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m USpnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USpnp struct{ S string }

func (m *USpnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m *USpnp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USpvn struct{ S string }

func (m *USpvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m USpvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type USpvv struct{ S string }

func (m *USpvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m USpvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m USpvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USpvp struct{ S string }

func (m *USpvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m USpvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *USpvp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type USppn struct{ S string }

func (m *USppn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m *USppn) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

type USppv struct{ S string }

func (m *USppv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m *USppv) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m USppv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type USppp struct{ S string }

func (m *USppp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	m.S += "X" + s
	return nil
}

func (m *USppp) UnmarshalXMLAttr(a xml.Attr) error {
	m.S += "A" + a.Value
	return nil
}

func (m *USppp) UnmarshalText(b []byte) error {
	m.S += "T" + string(b)
	return nil
}

type MNnnn string

type MNnnv string

func (m MNnnv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNnnp string

func (m *MNnnp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNnvn string

func (m MNnvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

type MNnvv string

func (m MNnvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m MNnvv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNnvp string

func (m MNnvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m *MNnvp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNnpn string

func (m *MNnpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

type MNnpv string

func (m *MNnpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m MNnpv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNnpp string

func (m *MNnpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m *MNnpp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNvnn string

func (m MNvnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

type MNvnv string

func (m MNvnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m MNvnv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNvnp string

func (m MNvnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m *MNvnp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNvvn string

func (m MNvvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m MNvvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

type MNvvv string

func (m MNvvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m MNvvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m MNvvv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNvvp string

func (m MNvvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m MNvvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m *MNvvp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNvpn string

func (m MNvpn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m *MNvpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

type MNvpv string

func (m MNvpv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m *MNvpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m MNvpv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNvpp string

func (m MNvpp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(m), start)
}

func (m *MNvpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m *MNvpp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNpnn string

func (m *MNpnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

type MNpnv string

func (m *MNpnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m MNpnv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNpnp string

func (m *MNpnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m *MNpnp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNpvn string

func (m *MNpvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m MNpvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

type MNpvv string

func (m *MNpvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m MNpvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m MNpvv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNpvp string

func (m *MNpvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m MNpvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(m)}, nil
}

func (m *MNpvp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type MNppn string

func (m *MNppn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m *MNppn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

type MNppv string

func (m *MNppv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m *MNppv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m MNppv) MarshalText() ([]byte, error) { return []byte("T" + string(m)), nil }

type MNppp string

func (m *MNppp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+string(*m), start)
}

func (m *MNppp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + string(*m)}, nil
}

func (m *MNppp) MarshalText() ([]byte, error) { return []byte("T" + string(*m)), nil }

type UNnnn string

type UNnnv string

func (m UNnnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNnnp string

func (m *UNnnp) UnmarshalText(b []byte) error {
	*m += UNnnp("T" + string(b))
	return nil
}

type UNnvn string

func (m UNnvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type UNnvv string

func (m UNnvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m UNnvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNnvp string

func (m UNnvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *UNnvp) UnmarshalText(b []byte) error {
	*m += UNnvp("T" + string(b))
	return nil
}

type UNnpn string

func (m *UNnpn) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNnpn("A" + a.Value)
	return nil
}

type UNnpv string

func (m *UNnpv) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNnpv("A" + a.Value)
	return nil
}

func (m UNnpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNnpp string

func (m *UNnpp) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNnpp("A" + a.Value)
	return nil
}

func (m *UNnpp) UnmarshalText(b []byte) error {
	*m += UNnpp("T" + string(b))
	return nil
}

type UNvnn string

func (m UNvnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

type UNvnv string

func (m UNvnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m UNvnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNvnp string

func (m UNvnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *UNvnp) UnmarshalText(b []byte) error {
	*m += UNvnp("T" + string(b))
	return nil
}

type UNvvn string

func (m UNvvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m UNvvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type UNvvv string

func (m UNvvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m UNvvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m UNvvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNvvp string

func (m UNvvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m UNvvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *UNvvp) UnmarshalText(b []byte) error {
	*m += UNvvp("T" + string(b))
	return nil
}

type UNvpn string

func (m UNvpn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *UNvpn) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNvpn("A" + a.Value)
	return nil
}

type UNvpv string

func (m UNvpv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *UNvpv) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNvpv("A" + a.Value)
	return nil
}

func (m UNvpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNvpp string

func (m UNvpp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *UNvpp) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNvpp("A" + a.Value)
	return nil
}

func (m *UNvpp) UnmarshalText(b []byte) error {
	*m += UNvpp("T" + string(b))
	return nil
}

type UNpnn string

func (m *UNpnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpnn("X" + s)
	return nil
}

type UNpnv string

func (m *UNpnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpnv("X" + s)
	return nil
}

func (m UNpnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNpnp string

func (m *UNpnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpnp("X" + s)
	return nil
}

func (m *UNpnp) UnmarshalText(b []byte) error {
	*m += UNpnp("T" + string(b))
	return nil
}

type UNpvn string

func (m *UNpvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpvn("X" + s)
	return nil
}

func (m UNpvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type UNpvv string

func (m *UNpvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpvv("X" + s)
	return nil
}

func (m UNpvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m UNpvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNpvp string

func (m *UNpvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNpvp("X" + s)
	return nil
}

func (m UNpvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *UNpvp) UnmarshalText(b []byte) error {
	*m += UNpvp("T" + string(b))
	return nil
}

type UNppn string

func (m *UNppn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNppn("X" + s)
	return nil
}

func (m *UNppn) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNppn("A" + a.Value)
	return nil
}

type UNppv string

func (m *UNppv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNppv("X" + s)
	return nil
}

func (m *UNppv) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNppv("A" + a.Value)
	return nil
}

func (m UNppv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type UNppp string

func (m *UNppp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m += UNppp("X" + s)
	return nil
}

func (m *UNppp) UnmarshalXMLAttr(a xml.Attr) error {
	*m += UNppp("A" + a.Value)
	return nil
}

func (m *UNppp) UnmarshalText(b []byte) error {
	*m += UNppp("T" + string(b))
	return nil
}

type MLnnn []string

type MLnnv []string

func (m MLnnv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLnnp []string

func (m *MLnnp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLnvn []string

func (m MLnvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

type MLnvv []string

func (m MLnvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m MLnvv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLnvp []string

func (m MLnvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m *MLnvp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLnpn []string

func (m *MLnpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

type MLnpv []string

func (m *MLnpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m MLnpv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLnpp []string

func (m *MLnpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m *MLnpp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLvnn []string

func (m MLvnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

type MLvnv []string

func (m MLvnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m MLvnv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLvnp []string

func (m MLvnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m *MLvnp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLvvn []string

func (m MLvvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m MLvvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

type MLvvv []string

func (m MLvvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m MLvvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m MLvvv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLvvp []string

func (m MLvvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m MLvvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m *MLvvp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLvpn []string

func (m MLvpn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m *MLvpn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

type MLvpv []string

func (m MLvpv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m *MLvpv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m MLvpv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLvpp []string

func (m MLvpp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(m), start)
}

func (m *MLvpp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m *MLvpp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLpnn []string

func (m *MLpnn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

type MLpnv []string

func (m *MLpnv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m MLpnv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLpnp []string

func (m *MLpnp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m *MLpnp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLpvn []string

func (m *MLpvn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m MLpvn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

type MLpvv []string

func (m *MLpvv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m MLpvv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m MLpvv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLpvp []string

func (m *MLpvp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m MLpvp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(m)}, nil
}

func (m *MLpvp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type MLppn []string

func (m *MLppn) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m *MLppn) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

type MLppv []string

func (m *MLppv) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m *MLppv) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m MLppv) MarshalText() ([]byte, error) { return []byte("T" + cat(m)), nil }

type MLppp []string

func (m *MLppp) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("X"+cat(*m), start)
}

func (m *MLppp) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "A" + cat(*m)}, nil
}

func (m *MLppp) MarshalText() ([]byte, error) { return []byte("T" + cat(*m)), nil }

type ULnnn []string

type ULnnv []string

func (m ULnnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULnnp []string

func (m *ULnnp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULnvn []string

func (m ULnvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type ULnvv []string

func (m ULnvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m ULnvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULnvp []string

func (m ULnvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *ULnvp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULnpn []string

func (m *ULnpn) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

type ULnpv []string

func (m *ULnpv) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m ULnpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULnpp []string

func (m *ULnpp) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m *ULnpp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULvnn []string

func (m ULvnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

type ULvnv []string

func (m ULvnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m ULvnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULvnp []string

func (m ULvnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *ULvnp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULvvn []string

func (m ULvvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m ULvvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type ULvvv []string

func (m ULvvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m ULvvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m ULvvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULvvp []string

func (m ULvvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m ULvvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *ULvvp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULvpn []string

func (m ULvpn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *ULvpn) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

type ULvpv []string

func (m ULvpv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *ULvpv) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m ULvpv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULvpp []string

func (m ULvpp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	return errors.New("X:" + s)
}

func (m *ULvpp) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m *ULvpp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULpnn []string

func (m *ULpnn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

type ULpnv []string

func (m *ULpnv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m ULpnv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULpnp []string

func (m *ULpnp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m *ULpnp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULpvn []string

func (m *ULpvn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m ULpvn) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

type ULpvv []string

func (m *ULpvv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m ULpvv) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m ULpvv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULpvp []string

func (m *ULpvp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m ULpvp) UnmarshalXMLAttr(a xml.Attr) error {
	return errors.New("A:" + a.Value)
}

func (m *ULpvp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

type ULppn []string

func (m *ULppn) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m *ULppn) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

type ULppv []string

func (m *ULppv) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m *ULppv) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m ULppv) UnmarshalText(b []byte) error {
	return errors.New("T:" + string(b))
}

type ULppp []string

func (m *ULppp) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	*m = append(*m, "X"+s)
	return nil
}

func (m *ULppp) UnmarshalXMLAttr(a xml.Attr) error {
	*m = append(*m, "A"+a.Value)
	return nil
}

func (m *ULppp) UnmarshalText(b []byte) error {
	*m = append(*m, "T"+string(b))
	return nil
}

func cat(l []string) (s string) {
	for _, x := range l {
		s += x
	}
	return s
}

// Matrix lists the types of this file.
func Matrix() []Type {
	return []Type{
		{"MSnnn", reflect.TypeFor[MSnnn]()},
		{"MSnnv", reflect.TypeFor[MSnnv]()},
		{"MSnnp", reflect.TypeFor[MSnnp]()},
		{"MSnvn", reflect.TypeFor[MSnvn]()},
		{"MSnvv", reflect.TypeFor[MSnvv]()},
		{"MSnvp", reflect.TypeFor[MSnvp]()},
		{"MSnpn", reflect.TypeFor[MSnpn]()},
		{"MSnpv", reflect.TypeFor[MSnpv]()},
		{"MSnpp", reflect.TypeFor[MSnpp]()},
		{"MSvnn", reflect.TypeFor[MSvnn]()},
		{"MSvnv", reflect.TypeFor[MSvnv]()},
		{"MSvnp", reflect.TypeFor[MSvnp]()},
		{"MSvvn", reflect.TypeFor[MSvvn]()},
		{"MSvvv", reflect.TypeFor[MSvvv]()},
		{"MSvvp", reflect.TypeFor[MSvvp]()},
		{"MSvpn", reflect.TypeFor[MSvpn]()},
		{"MSvpv", reflect.TypeFor[MSvpv]()},
		{"MSvpp", reflect.TypeFor[MSvpp]()},
		{"MSpnn", reflect.TypeFor[MSpnn]()},
		{"MSpnv", reflect.TypeFor[MSpnv]()},
		{"MSpnp", reflect.TypeFor[MSpnp]()},
		{"MSpvn", reflect.TypeFor[MSpvn]()},
		{"MSpvv", reflect.TypeFor[MSpvv]()},
		{"MSpvp", reflect.TypeFor[MSpvp]()},
		{"MSppn", reflect.TypeFor[MSppn]()},
		{"MSppv", reflect.TypeFor[MSppv]()},
		{"MSppp", reflect.TypeFor[MSppp]()},
		{"USnnn", reflect.TypeFor[USnnn]()},
		{"USnnv", reflect.TypeFor[USnnv]()},
		{"USnnp", reflect.TypeFor[USnnp]()},
		{"USnvn", reflect.TypeFor[USnvn]()},
		{"USnvv", reflect.TypeFor[USnvv]()},
		{"USnvp", reflect.TypeFor[USnvp]()},
		{"USnpn", reflect.TypeFor[USnpn]()},
		{"USnpv", reflect.TypeFor[USnpv]()},
		{"USnpp", reflect.TypeFor[USnpp]()},
		{"USvnn", reflect.TypeFor[USvnn]()},
		{"USvnv", reflect.TypeFor[USvnv]()},
		{"USvnp", reflect.TypeFor[USvnp]()},
		{"USvvn", reflect.TypeFor[USvvn]()},
		{"USvvv", reflect.TypeFor[USvvv]()},
		{"USvvp", reflect.TypeFor[USvvp]()},
		{"USvpn", reflect.TypeFor[USvpn]()},
		{"USvpv", reflect.TypeFor[USvpv]()},
		{"USvpp", reflect.TypeFor[USvpp]()},
		{"USpnn", reflect.TypeFor[USpnn]()},
		{"USpnv", reflect.TypeFor[USpnv]()},
		{"USpnp", reflect.TypeFor[USpnp]()},
		{"USpvn", reflect.TypeFor[USpvn]()},
		{"USpvv", reflect.TypeFor[USpvv]()},
		{"USpvp", reflect.TypeFor[USpvp]()},
		{"USppn", reflect.TypeFor[USppn]()},
		{"USppv", reflect.TypeFor[USppv]()},
		{"USppp", reflect.TypeFor[USppp]()},
		{"MNnnn", reflect.TypeFor[MNnnn]()},
		{"MNnnv", reflect.TypeFor[MNnnv]()},
		{"MNnnp", reflect.TypeFor[MNnnp]()},
		{"MNnvn", reflect.TypeFor[MNnvn]()},
		{"MNnvv", reflect.TypeFor[MNnvv]()},
		{"MNnvp", reflect.TypeFor[MNnvp]()},
		{"MNnpn", reflect.TypeFor[MNnpn]()},
		{"MNnpv", reflect.TypeFor[MNnpv]()},
		{"MNnpp", reflect.TypeFor[MNnpp]()},
		{"MNvnn", reflect.TypeFor[MNvnn]()},
		{"MNvnv", reflect.TypeFor[MNvnv]()},
		{"MNvnp", reflect.TypeFor[MNvnp]()},
		{"MNvvn", reflect.TypeFor[MNvvn]()},
		{"MNvvv", reflect.TypeFor[MNvvv]()},
		{"MNvvp", reflect.TypeFor[MNvvp]()},
		{"MNvpn", reflect.TypeFor[MNvpn]()},
		{"MNvpv", reflect.TypeFor[MNvpv]()},
		{"MNvpp", reflect.TypeFor[MNvpp]()},
		{"MNpnn", reflect.TypeFor[MNpnn]()},
		{"MNpnv", reflect.TypeFor[MNpnv]()},
		{"MNpnp", reflect.TypeFor[MNpnp]()},
		{"MNpvn", reflect.TypeFor[MNpvn]()},
		{"MNpvv", reflect.TypeFor[MNpvv]()},
		{"MNpvp", reflect.TypeFor[MNpvp]()},
		{"MNppn", reflect.TypeFor[MNppn]()},
		{"MNppv", reflect.TypeFor[MNppv]()},
		{"MNppp", reflect.TypeFor[MNppp]()},
		{"UNnnn", reflect.TypeFor[UNnnn]()},
		{"UNnnv", reflect.TypeFor[UNnnv]()},
		{"UNnnp", reflect.TypeFor[UNnnp]()},
		{"UNnvn", reflect.TypeFor[UNnvn]()},
		{"UNnvv", reflect.TypeFor[UNnvv]()},
		{"UNnvp", reflect.TypeFor[UNnvp]()},
		{"UNnpn", reflect.TypeFor[UNnpn]()},
		{"UNnpv", reflect.TypeFor[UNnpv]()},
		{"UNnpp", reflect.TypeFor[UNnpp]()},
		{"UNvnn", reflect.TypeFor[UNvnn]()},
		{"UNvnv", reflect.TypeFor[UNvnv]()},
		{"UNvnp", reflect.TypeFor[UNvnp]()},
		{"UNvvn", reflect.TypeFor[UNvvn]()},
		{"UNvvv", reflect.TypeFor[UNvvv]()},
		{"UNvvp", reflect.TypeFor[UNvvp]()},
		{"UNvpn", reflect.TypeFor[UNvpn]()},
		{"UNvpv", reflect.TypeFor[UNvpv]()},
		{"UNvpp", reflect.TypeFor[UNvpp]()},
		{"UNpnn", reflect.TypeFor[UNpnn]()},
		{"UNpnv", reflect.TypeFor[UNpnv]()},
		{"UNpnp", reflect.TypeFor[UNpnp]()},
		{"UNpvn", reflect.TypeFor[UNpvn]()},
		{"UNpvv", reflect.TypeFor[UNpvv]()},
		{"UNpvp", reflect.TypeFor[UNpvp]()},
		{"UNppn", reflect.TypeFor[UNppn]()},
		{"UNppv", reflect.TypeFor[UNppv]()},
		{"UNppp", reflect.TypeFor[UNppp]()},
		{"MLnnn", reflect.TypeFor[MLnnn]()},
		{"MLnnv", reflect.TypeFor[MLnnv]()},
		{"MLnnp", reflect.TypeFor[MLnnp]()},
		{"MLnvn", reflect.TypeFor[MLnvn]()},
		{"MLnvv", reflect.TypeFor[MLnvv]()},
		{"MLnvp", reflect.TypeFor[MLnvp]()},
		{"MLnpn", reflect.TypeFor[MLnpn]()},
		{"MLnpv", reflect.TypeFor[MLnpv]()},
		{"MLnpp", reflect.TypeFor[MLnpp]()},
		{"MLvnn", reflect.TypeFor[MLvnn]()},
		{"MLvnv", reflect.TypeFor[MLvnv]()},
		{"MLvnp", reflect.TypeFor[MLvnp]()},
		{"MLvvn", reflect.TypeFor[MLvvn]()},
		{"MLvvv", reflect.TypeFor[MLvvv]()},
		{"MLvvp", reflect.TypeFor[MLvvp]()},
		{"MLvpn", reflect.TypeFor[MLvpn]()},
		{"MLvpv", reflect.TypeFor[MLvpv]()},
		{"MLvpp", reflect.TypeFor[MLvpp]()},
		{"MLpnn", reflect.TypeFor[MLpnn]()},
		{"MLpnv", reflect.TypeFor[MLpnv]()},
		{"MLpnp", reflect.TypeFor[MLpnp]()},
		{"MLpvn", reflect.TypeFor[MLpvn]()},
		{"MLpvv", reflect.TypeFor[MLpvv]()},
		{"MLpvp", reflect.TypeFor[MLpvp]()},
		{"MLppn", reflect.TypeFor[MLppn]()},
		{"MLppv", reflect.TypeFor[MLppv]()},
		{"MLppp", reflect.TypeFor[MLppp]()},
		{"ULnnn", reflect.TypeFor[ULnnn]()},
		{"ULnnv", reflect.TypeFor[ULnnv]()},
		{"ULnnp", reflect.TypeFor[ULnnp]()},
		{"ULnvn", reflect.TypeFor[ULnvn]()},
		{"ULnvv", reflect.TypeFor[ULnvv]()},
		{"ULnvp", reflect.TypeFor[ULnvp]()},
		{"ULnpn", reflect.TypeFor[ULnpn]()},
		{"ULnpv", reflect.TypeFor[ULnpv]()},
		{"ULnpp", reflect.TypeFor[ULnpp]()},
		{"ULvnn", reflect.TypeFor[ULvnn]()},
		{"ULvnv", reflect.TypeFor[ULvnv]()},
		{"ULvnp", reflect.TypeFor[ULvnp]()},
		{"ULvvn", reflect.TypeFor[ULvvn]()},
		{"ULvvv", reflect.TypeFor[ULvvv]()},
		{"ULvvp", reflect.TypeFor[ULvvp]()},
		{"ULvpn", reflect.TypeFor[ULvpn]()},
		{"ULvpv", reflect.TypeFor[ULvpv]()},
		{"ULvpp", reflect.TypeFor[ULvpp]()},
		{"ULpnn", reflect.TypeFor[ULpnn]()},
		{"ULpnv", reflect.TypeFor[ULpnv]()},
		{"ULpnp", reflect.TypeFor[ULpnp]()},
		{"ULpvn", reflect.TypeFor[ULpvn]()},
		{"ULpvv", reflect.TypeFor[ULpvv]()},
		{"ULpvp", reflect.TypeFor[ULpvp]()},
		{"ULppn", reflect.TypeFor[ULppn]()},
		{"ULppv", reflect.TypeFor[ULppv]()},
		{"ULppp", reflect.TypeFor[ULppp]()},
	}
}
