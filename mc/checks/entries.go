package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/core"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&core.Check{
		ID:          "C24",
		Rule:        "one case per document or model; transitions are calls of the entry points, compared to each other; non-trivial when the document is read without error, or the model is not empty",
		Bounds:      "documents: all of the C01 enumeration (quick: one presentation), every prefix of 6 manifests, all one-byte replacements of a small manifest, sizes up to 2 MB, byte order marks, empty input; files in a scratch directory; models: all of the C02 enumeration, 3 indentations, with and without header",
		Assumptions: []string{"the file does not change while it is read"},
		Run:         runEntries,
	})
}

// sameRead reads the document through all entry points.
func sameRead(t *core.T, dir, doc string) bool {
	data := []byte(doc)
	m, err := mpd.MPDFromBytes(data)
	t.Step(1)
	if string(data) != doc {
		t.Failf("input", "MPDFromBytes changes its input\n%q", clip(doc))
		return false
	}
	same := func(name string, m2 *mpd.MPD, err2 error) bool {
		t.Step(1)
		t.Trace()
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			t.Failf("error", "MPDFromBytes: error %v, %s: error %v\n%q", err, name, err2, clip(doc))
			return false
		}
		if err2 != nil {
			if m2 != nil {
				t.Failf("both", "%s: model and error %v\n%q", name, err2, clip(doc))
				return false
			}
			return true
		}
		if m2 == nil {
			t.Failf("nil", "%s: neither model nor error\n%q", name, clip(doc))
			return false
		}
		if d := dumpOf(m2); d != dumpOf(m) {
			t.Failf("differs", "%s: model differs from MPDFromBytes: %s\n%q", name, firstDiff(dumpOf(m), d), clip(doc))
			return false
		}
		if _, bad := worldOf(m2).check(); bad != "" {
			t.Failf("parents", "%s: %s\n%q", name, bad, clip(doc))
			return false
		}
		return true
	}
	if !same("MPDFromBytes", m, err) {
		return false
	}
	m2, err2 := mpd.ReadFromString(doc)
	if !same("ReadFromString", m2, err2) {
		return false
	}
	if m != nil && m2 == m {
		t.Failf("shared", "two reads give the same model")
		return false
	}
	path := filepath.Join(dir, fmt.Sprintf("f%d.mpd", os.Getpid()))
	if werr := os.WriteFile(path, data, 0o600); werr != nil {
		panic(werr)
	}
	m3, err3 := mpd.ReadFromFile(path)
	if !same("ReadFromFile", m3, err3) {
		return false
	}
	after, _ := os.ReadFile(path)
	if string(after) != doc {
		t.Failf("input", "ReadFromFile changes the file\n%q", clip(doc))
		return false
	}
	// The decoders of the xml package, apart from the parents.
	var m4 mpd.MPD
	err4 := xml.Unmarshal(data, &m4)
	var m5 mpd.MPD
	err5 := xml.NewDecoder(bytes.NewReader(data)).Decode(&m5)
	t.Step(2)
	if fmt.Sprint(err4) != fmt.Sprint(err5) || (err4 == nil) != (err == nil) || dumpOf(&m4) != dumpOf(&m5) {
		t.Failf("unmarshal", "Unmarshal: %v, Decode: %v, MPDFromBytes: %v\n%q", err4, err5, err, clip(doc))
		return false
	}
	if err == nil {
		m4.XMLNs, m.XMLNs = "", "" // set by the read functions from the name
		d4, d := dumpOf(&m4), dumpOf(m)
		if d4 != d {
			t.Failf("unmarshal", "Unmarshal differs from MPDFromBytes: %s\n%q", firstDiff(d, d4), clip(doc))
			return false
		}
	}
	if string(data) != doc {
		t.Failf("input", "Unmarshal changes its input\n%q", clip(doc))
		return false
	}
	t.Eval(err == nil)
	return true
}

func clip(s string) string {
	if len(s) > 2000 {
		return s[:2000] + "…"
	}
	return s
}

func runEntries(c *core.Ctx) {
	dir, err := os.MkdirTemp("", "verif-c24-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	read := func(name, doc string) {
		c.Case(func() string { return name }, func(t *core.T) {
			sameRead(t, dir, doc)
			t.State(doc)
		})
	}
	b := vocab.NewBuilder()
	n := 0
	genDocs(c, b, func(name string, mk func() *vocab.Node) {
		n++
		for i, st := range []vocab.Style{{}, {RootDecls: true, SCTEPrefix: "scte35", DeclsFirst: true}} {
			if !c.Thorough() && i != n%2 {
				continue
			}
			if c.Mine() {
				c.Run(func() string { return fmt.Sprintf("read %s style %d", name, i) }, func(t *core.T) {
					doc := b.Serialize(mk(), st)
					sameRead(t, dir, doc)
					t.State(doc)
				})
			}
		}
	})
	for i, doc := range damageDocs {
		for k := 0; k <= len(doc); k++ {
			read(fmt.Sprintf("prefix %d %d", i, k), doc[:k])
		}
		for _, pre := range []string{"\ufeff", " ", "\n", "\xfe\xff", "x", "<!-- -->"} {
			read(fmt.Sprintf("%q before %d", pre, i), pre+doc)
			read(fmt.Sprintf("%q after %d", pre, i), doc+pre)
		}
		for _, n := range []int{512, 4096, 5000, 65536, 1 << 20, 2 << 20} {
			for d := -1; d <= 1; d++ {
				pad := n + d - len(doc)
				if pad > 10 {
					read(fmt.Sprintf("size %d %d", i, n+d), strings.Replace(doc, "</", "<!--"+strings.Repeat("c", pad-7)+"--></", 1))
				}
			}
		}
		if i == 4 || c.Thorough() {
			for k := 0; k < len(doc); k++ {
				for _, ch := range []byte("\x00<>&\"' /=:x9\xff\r") {
					read(fmt.Sprintf("byte %d of %d is %q", k, i, ch), doc[:k]+string(rune(ch))+doc[k+1:])
				}
			}
		}
	}
	c.Case(func() string { return "no file" }, func(t *core.T) {
		for _, p := range []string{filepath.Join(dir, "none"), dir, ""} {
			m, err := mpd.ReadFromFile(p)
			t.Step(1)
			t.Eval(true)
			if err == nil || m != nil {
				t.Failf("nofile", "ReadFromFile(%q): %v", p, err)
			}
		}
	})
	// Writing.
	var other bytes.Buffer
	eachModel(c, modelOpt(c), func(name, scte string, mk func() *mpd.MPD) {
		if !c.Mine() {
			return
		}
		c.Run(func() string { return "write " + name }, func(t *core.T) {
			m := mk()
			before := dumpOf(m)
			t.State(before)
			t.Eval(name != "empty")
			for _, indent := range []string{"", "  ", "\t"} {
				plain := ""
				for _, header := range []bool{false, true} {
					s, err := m.WriteToString(indent, header)
					if err != nil {
						t.Failf("error", "WriteToString: %v", err)
						return
					}
					if !header {
						plain = s
					} else if s != xml.Header+plain {
						t.Failf("header", "with header: %s", firstDiff(xml.Header+plain, s))
						return
					}
					var buf bytes.Buffer
					n, err := m.Write(&buf, indent, header)
					if err != nil || n != len(s) || buf.String() != s {
						t.Failf("differs", "Write: count %d, error %v: %s", n, err, firstDiff(s, buf.String()))
						return
					}
					buf.Reset()
					n, err = mpd.WriteXML(m, &buf, indent, header)
					if err != nil || n != len(s) || buf.String() != s {
						t.Failf("differs", "WriteXML: count %d, error %v: %s", n, err, firstDiff(s, buf.String()))
						return
					}
					t.Step(3)
					t.Trace()
				}
				data, err := xml.MarshalIndent(m, "", indent)
				if err != nil || string(data) != plain {
					t.Failf("differs", "MarshalIndent: %v: %s", err, firstDiff(plain, string(data)))
					return
				}
				other.Reset()
				e := xml.NewEncoder(&other)
				e.Indent("", indent)
				if err := e.Encode(m); err != nil || other.String() != plain {
					t.Failf("differs", "Encoder: %v: %s", err, firstDiff(plain, other.String()))
					return
				}
				for i, p := range m.Periods {
					if i > 3 {
						break
					}
					s, err := p.WriteToString(indent)
					if err != nil {
						t.Failf("error", "Period.WriteToString: %v", err)
						return
					}
					var buf bytes.Buffer
					n, err := p.Write(&buf, indent)
					if err != nil || n != len(s) || buf.String() != s {
						t.Failf("differs", "Period.Write: count %d, error %v: %s", n, err, firstDiff(s, buf.String()))
						return
					}
					buf.Reset()
					n, err = mpd.WriteXML(p, &buf, indent, false)
					if err != nil || n != len(s) || buf.String() != s {
						t.Failf("differs", "WriteXML of a Period: count %d, error %v: %s", n, err, firstDiff(s, buf.String()))
						return
					}
					if indent == "" && !strings.Contains(plain, s) {
						t.Failf("part", "the Period is written as\n%s\nbut not so in its manifest\n%s", clip(s), clip(plain))
						return
					}
					t.Step(3)
					t.Trace()
				}
			}
			if d := dumpOf(m); d != before {
				t.Failf("changed", "writing changes the model: %s", firstDiff(before, d))
			}
		})
	})
}
