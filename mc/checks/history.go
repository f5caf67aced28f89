package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"weak"

	"verifmc/core"
	"verifmc/models"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// histState is what a sequence of encodings carries from one to the next.
type histState struct {
	held *xml.Encoder
	buf  *bytes.Buffer
}

// histOp is one encoding (or part of one); its outcome is bytes and error.
type histOp struct {
	name string
	f    func(s *histState) string
}

func outcome(b []byte, err error) string {
	if err != nil {
		return fmt.Sprintf("%q error %v", b, err)
	}
	return fmt.Sprintf("%q", b)
}

type hFailing struct {
	A string `xml:"a,attr"`
	B struct {
		T string   `xml:"urn:b t"`
		C chan int `xml:"c"`
	} `xml:"urn:a b"`
}

type hMarshal struct{ mode int }

func (h hMarshal) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Name = xml.Name{Space: "urn:m", Local: "p:m"}
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	switch h.mode {
	case 0:
		return errors.New("marshal failed")
	case 1:
		panic(errDest)
	case 2:
		return nil // not closed
	case 3:
		_ = e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "wrong"}})
	case 4:
		// Another encoding in the middle of this one.
		m := mpd.NewMPD("static")
		m.AppendPeriod(mpd.NewPeriod())
		s, err := m.WriteToString("\t", true)
		if err != nil {
			return err
		}
		if err := e.EncodeToken(xml.CharData(s)); err != nil {
			return err
		}
	case 5:
		return e.Close()
	}
	return e.EncodeToken(xml.EndElement{Name: start.Name})
}

type hAttr struct{}

func (hAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{}, errors.New("attribute failed")
}

type hNS struct {
	XMLName xml.Name   `xml:"urn:a r"`
	Any     []xml.Attr `xml:",any,attr"`
	X       struct {
		Y string `xml:"urn:c/x y:q,attr"`
		Z string `xml:"urn:c/x q"`
	} `xml:"urn:b y:x"`
}

func histOps() []histOp {
	small := mpd.NewMPD("static")
	small.Id = "é&"
	small.AppendPeriod(mpd.NewPeriod())
	small.Periods[0].AppendAdaptationSet(mpd.NewAdaptationSet())
	small.Periods[0].AdaptationSets[0].AppendRepresentation(mpd.NewRepresentationWithID("1", "c", "m", 5))
	g := &models.Gen{SCTENS: vocab.SCTE16}
	scte := g.Root()
	es := &mpd.EventStreamType{SchemeIdUri: "urn:scte:scte35:2014:xml+bin"}
	_ = es
	per := mpd.NewPeriod()
	scte.AppendPeriod(per)
	ev := &mpd.EventType{}
	sg := mpd.NewSignal()
	sg.SpliceInfoSection = mpd.NewSpliceInfoSection()
	ev.Signal = sg
	per.EventStreams = append(per.EventStreams, &mpd.EventStreamType{Events: []*mpd.EventType{ev}})
	mk := func(v any, indent string, header bool) func(*histState) string {
		return func(*histState) string {
			var b bytes.Buffer
			var n int
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic %v", p)
					}
				}()
				n, err = mpd.WriteXML(v, &b, indent, header)
			}()
			if err == nil && n != b.Len() {
				return fmt.Sprintf("count %d of %d", n, b.Len())
			}
			return outcome(b.Bytes(), err)
		}
	}
	failAt := func(v any, indent string, k, mode int) func(*histState) string {
		return func(*histState) string {
			w := &faultWriter{limit: k, mode: mode}
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic %v", p)
					}
				}()
				_, err = mpd.WriteXML(v, w, indent, true)
			}()
			return outcome(w.got, err)
		}
	}
	pooled := func(f func(e *xml.Encoder) error) func(*histState) string {
		return func(*histState) string {
			var b bytes.Buffer
			e := xml.AcquireEncoder(&b)
			err := f(e)
			xml.ReleaseEncoder(e)
			n := b.Len()
			_ = n
			return outcome(b.Bytes(), err)
		}
	}
	st := func(space, local string, a ...xml.Attr) xml.StartElement {
		return xml.StartElement{Name: xml.Name{Space: space, Local: local}, Attr: a}
	}
	conflict := &hNS{Any: []xml.Attr{{Name: xml.Name{Space: "urn:p/x", Local: "k"}, Value: "1"}, {Name: xml.Name{Space: "urn:q/x", Local: "k"}, Value: "2"}, {Name: xml.Name{Space: "urn:r/x", Local: "k"}, Value: "3"}}}
	long := mpd.NewMPD("static")
	long.Id = strings.Repeat("long ", 1000)
	return []histOp{
		{"write", mk(small, "", false)},
		{"write indented", mk(small, "  ", true)},
		{"write tab", mk(small.Periods[0], "\t", false)},
		{"write scte", mk(scte, "", true)},
		{"write scte indented", mk(scte, " ", false)},
		{"write list", mk(small.Periods, " ", true)},
		{"conflicting prefixes", mk(conflict, "", false)},
		{"conflicting prefixes indented", mk(conflict, "--", false)},
		{"bad value", mk(&hFailing{A: "a"}, "", false)},
		{"bad value indented", mk(&hFailing{A: "a"}, "    ", true)},
		{"marshaler fails", mk(struct {
			XMLName xml.Name `xml:"urn:o o"`
			M       hMarshal
		}{M: hMarshal{0}}, " ", false)},
		{"marshaler panics", mk(struct {
			XMLName xml.Name `xml:"urn:o o"`
			M       hMarshal
		}{M: hMarshal{1}}, "  ", false)},
		{"marshaler leaves open", mk(struct {
			XMLName xml.Name `xml:"urn:o o"`
			M       hMarshal
		}{M: hMarshal{2}}, "", false)},
		{"marshaler wrong end", mk([]hMarshal{{3}}, "", false)},
		{"encoding within encoding", mk([]hMarshal{{4}, {4}}, " ", true)},
		{"marshaler closes encoder", mk([]hMarshal{{5}, {4}}, " ", true)},
		{"attribute fails", mk(struct {
			XMLName xml.Name `xml:"o"`
			A       hAttr    `xml:"a,attr"`
		}{}, " ", true)},
		{"nil", mk(nil, " ", true)},
		{"destination fails at 0", failAt(small, " ", 0, fPartial)},
		{"destination fails at header", failAt(small, "", 10, fPartial)},
		{"destination fails in body", failAt(small, "  ", 60, fPartial)},
		{"destination short", failAt(small, "  ", 60, fShort)},
		{"destination panics", failAt(small, " ", 60, fPanic)},
		{"destination fails in long value", failAt(long, " ", 4200, fAll)},
		{"abandoned", pooled(func(e *xml.Encoder) error {
			e.Indent(">", "..")
			return e.EncodeToken(st("urn:z", "z:a", xml.Attr{Name: xml.Name{Space: "urn:y", Local: "z:b"}, Value: "v"}))
		})},
		{"abandoned, flushed", pooled(func(e *xml.Encoder) error {
			_ = e.EncodeToken(st("urn:z", "a"))
			_ = e.EncodeToken(st("", "b"))
			return e.Flush()
		})},
		{"closed", pooled(func(e *xml.Encoder) error {
			e.Indent("", " ")
			_ = e.EncodeToken(st("", "b"))
			_ = e.EncodeToken(st("", "b").End())
			return e.Close()
		})},
		{"used after close", pooled(func(e *xml.Encoder) error {
			_ = e.Close()
			return e.EncodeToken(st("", "b"))
		})},
		{"closed with open element", pooled(func(e *xml.Encoder) error {
			e.Indent("", " ")
			_ = e.EncodeToken(st("u", "p:b"))
			return e.Close()
		})},
		{"declaration", pooled(func(e *xml.Encoder) error {
			_ = e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte("version=\"1.0\"")})
			_ = e.EncodeToken(st("u", "p:b"))
			_ = e.EncodeToken(st("u", "p:b").End())
			return e.Close()
		})},
		{"wrong end", pooled(func(e *xml.Encoder) error {
			_ = e.EncodeToken(st("u", "p:b"))
			err := e.EncodeToken(st("u", "p:c").End())
			return errors.Join(err, e.Flush())
		})},
		{"element", pooled(func(e *xml.Encoder) error {
			e.Indent("  ", " ")
			return e.EncodeElement(small.Periods[0], st("urn:e", "q:e", xml.Attr{Name: xml.Name{Local: "k"}, Value: "v"}))
		})},
		{"write to string", func(*histState) string {
			s, err := small.WriteToString("  ", false)
			s2, err2 := small.Periods[0].WriteToString("")
			return outcome([]byte(s+s2), errors.Join(err, err2))
		}},
		{"marshal", func(*histState) string {
			b, err := xml.MarshalIndent(conflict, "", " ")
			b2, err2 := xml.Marshal(small)
			return outcome(append(b, b2...), errors.Join(err, err2))
		}},
		{"two encoders", func(*histState) string {
			var b1, b2 bytes.Buffer
			e1 := xml.AcquireEncoder(&b1)
			e2 := xml.AcquireEncoder(&b2)
			e1.Indent("", " ")
			err := errors.Join(e1.EncodeToken(st("urn:1", "a:b")), e2.Encode(small), e1.EncodeElement("x", st("urn:1", "c")), e1.EncodeToken(st("urn:1", "a:b").End()), e1.Close())
			xml.ReleaseEncoder(e1)
			err = errors.Join(err, e2.Encode(scte))
			xml.ReleaseEncoder(e2)
			return outcome([]byte(b1.String()+"|"+b2.String()), err)
		}},
		{"hold", func(s *histState) string {
			if s.held != nil {
				return "held"
			}
			s.buf = &bytes.Buffer{}
			s.held = xml.AcquireEncoder(s.buf)
			s.held.Indent("", "  ")
			return outcome(nil, errors.Join(s.held.EncodeToken(st("urn:h", "p:h")), s.held.EncodeToken(st("", "i"))))
		}},
		{"finish", func(s *histState) string {
			if s.held == nil {
				return "none"
			}
			err := errors.Join(s.held.EncodeToken(st("", "i").End()), s.held.Encode(small.Periods[0]), s.held.EncodeToken(st("urn:h", "p:h").End()), s.held.Close())
			xml.ReleaseEncoder(s.held)
			s.held = nil
			return outcome(s.buf.Bytes(), err)
		}},
	}
}

// histBaseline is the outcome of each operation in a fresh process.
func histBaseline() ([]string, error) {
	cmd := exec.Command(os.Args[0], "probe", "C09")
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "MC_PROGRESS=", "MC_OUT=")
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var out []string
	return out, json.Unmarshal(b, &out)
}

// ProbeC09 prints the outcome of every operation, each in its own process.
func ProbeC09() {
	ops := histOps()
	if s := os.Getenv("MC_PROBE"); s != "" {
		var i int
		fmt.Sscan(s, &i)
		s := &histState{}
		if ops[i].name == "finish" {
			ops[i-1].f(s)
		}
		b, _ := json.Marshal(ops[i].f(s))
		os.Stdout.Write(b)
		return
	}
	var out []string
	for i := range ops {
		cmd := exec.Command(os.Args[0], "probe", "C09")
		cmd.Env = append(os.Environ(), fmt.Sprintf("MC_PROBE=%d", i))
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var s string
		_ = json.Unmarshal(b, &s)
		out = append(out, s)
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

func init() {
	register(&core.Check{
		ID:          "C09",
		Rule:        "one case per pair of first operations; an evaluation is one sequence of encodings whose every outcome (bytes, count, error) is compared to the outcome in a fresh process; non-trivial when the sequence has at least two operations",
		Bounds:      "all sequences of 3 (thorough 4) out of 37 operations that succeed, fail (value, marshaler, attribute, destination at different places, panic), are abandoned, closed, nested or overlap, on an initially empty pool with one processor; released encoders are checked for references to their destination",
		Assumptions: []string{"an encoder is not used after its release and released once"},
		GCPercent:   10000,
		Run:         runHistory,
	})
}

func runHistory(c *core.Ctx) {
	base, err := histBaseline()
	if err != nil {
		panic(err)
	}
	ops := histOps()
	hold, finish := -1, -1
	for i := range ops {
		switch ops[i].name {
		case "hold":
			hold = i
		case "finish":
			finish = i
		}
	}
	check := func(t *core.T, seq []int) bool {
		runtime.GC()
		runtime.GC()
		s := &histState{}
		for k, o := range seq {
			want := base[o]
			if o == hold && s.held != nil {
				want = "held"
			}
			if o == finish && s.held == nil {
				want = "none"
			}
			got := ops[o].f(s)
			t.Step(1)
			if got != want {
				var names []string
				for _, o := range seq[:k+1] {
					names = append(names, ops[o].name)
				}
				t.Failf("differs", "after %s: outcome %s\nin a fresh process %s", strings.Join(names, ", "), got, want)
				return false
			}
		}
		if s.held != nil {
			xml.ReleaseEncoder(s.held)
		}
		t.Trace()
		t.Eval(len(seq) > 1)
		return true
	}
	depth := c.Pick(3, 4)
	for i := range ops {
		for j := range ops {
			i, j := i, j
			c.Case(func() string { return fmt.Sprintf("%s, %s, …", ops[i].name, ops[j].name) }, func(t *core.T) {
				t.State(ops[i].name, ops[j].name, base[j])
				for k := range ops {
					if depth == 3 {
						if !check(t, []int{i, j, k}) {
							return
						}
						continue
					}
					for l := range ops {
						if !check(t, []int{i, j, k, l}) {
							return
						}
					}
				}
			})
		}
	}
	// References of a released encoder.
	type dest struct {
		bytes.Buffer
		pad [4096]byte
	}
	for i := 0; i < 4; i++ {
		i := i
		c.Case(func() string { return fmt.Sprintf("reference %d", i) }, func(t *core.T) {
			e := xml.AcquireEncoder(io.Discard)
			xml.ReleaseEncoder(e)
			var wp weak.Pointer[dest]
			func() {
				d := &dest{}
				wp = weak.Make(d)
				m := mpd.NewMPD("static")
				switch i {
				case 0:
					_, _ = m.Write(d, " ", true)
				case 1:
					e2 := xml.AcquireEncoder(d)
					_ = e2.EncodeToken(xml.StartElement{Name: xml.Name{Local: "a"}})
					xml.ReleaseEncoder(e2)
				case 2:
					_, _ = mpd.WriteXML(&hFailing{}, d, " ", true)
				case 3:
					e2 := xml.AcquireEncoder(d)
					_ = e2.EncodeToken(xml.StartElement{Name: xml.Name{Local: "a"}})
					_ = e2.Close()
					xml.ReleaseEncoder(e2)
				}
			}()
			t.Step(1)
			t.Eval(true)
			t.State(fmt.Sprint(i))
			for k := 0; k < 3; k++ {
				runtime.GC()
			}
			if wp.Value() != nil {
				t.Failf("reference", "a released encoder keeps its destination alive")
			}
			runtime.KeepAlive(e)
		})
	}
}
