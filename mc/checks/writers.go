package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/models"
	"verifmc/vocab"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

var errDest = errors.New("destination failed")

// fault modes of a destination
const (
	fPartial   = iota // takes the bytes up to the limit and fails
	fNothing          // takes nothing of the write that crosses the limit and fails
	fAll              // takes all of the write that crosses the limit and fails
	fShort            // takes the bytes up to the limit and reports no error
	fShortNone        // takes nothing and reports no error
	fPanic            // takes the bytes up to the limit and panics
	nFaults
)

// faultWriter fails once at the limit and, when it recovers, accepts later writes.
type faultWriter struct {
	limit    int
	mode     int
	recovers bool
	got      []byte
	faulted  bool
	done     bool // the write function has returned
	late     int  // calls after that
	calls    int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.done {
		w.late++
	}
	if w.faulted {
		if w.recovers {
			w.got = append(w.got, p...)
			return len(p), nil
		}
		return 0, errDest
	}
	if len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.faulted = true
	part := p[:w.limit-len(w.got)]
	switch w.mode {
	case fPartial:
		w.got = append(w.got, part...)
		return len(part), errDest
	case fNothing:
		return 0, errDest
	case fAll:
		w.got = append(w.got, p...)
		return len(p), errDest
	case fShort:
		w.got = append(w.got, part...)
		return len(part), nil
	case fShortNone:
		return 0, nil
	}
	w.got = append(w.got, part...)
	panic(errDest)
}

// stringFaultWriter also takes strings and single bytes.
type stringFaultWriter struct{ *faultWriter }

func (w stringFaultWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w stringFaultWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

// writeOp is one way to write something; n is -1 when there is no count.
type writeOp struct {
	name string
	f    func(w io.Writer) (n int, err error)
}

// writeDocs are the models that are written to failing destinations.
func writeDocs(depth int) map[string]*mpd.MPD {
	g := &models.Gen{SCTENS: vocab.SCTE}
	small := mpd.NewMPD("static")
	small.AppendPeriod(mpd.NewPeriod())
	medium := mpd.NewMPD("dynamic")
	for i := 0; i < 3; i++ {
		p := mpd.NewPeriod()
		p.Id = fmt.Sprintf("p%d", i)
		a := mpd.NewAdaptationSetWithParams("video", "video/mp4", true, 1)
		for j := 0; j < 8; j++ {
			a.AppendRepresentation(mpd.NewVideoRepresentation(fmt.Sprintf("v%d & <%d>", i, j), "avc1.64001e", "video/mp4", "25", 1000*j, 640, 360))
		}
		p.AppendAdaptationSet(a)
		medium.AppendPeriod(p)
	}
	wide := mpd.NewMPD("static")
	p := mpd.NewPeriod()
	a := mpd.NewAdaptationSet()
	a.Lang = strings.Repeat("é", 5000) // one value beyond the buffer
	p.AppendAdaptationSet(a)
	wide.AppendPeriod(p)
	full := g.Root()
	pl := g.AddElem(reflect.ValueOf(full).Elem(), fieldOf(reflect.TypeOf(*full), "Periods"))
	g.Fill(pl, depth, 1)
	return map[string]*mpd.MPD{"small": small, "medium": medium, "wide": wide, "full": full}
}

func fieldOf(t reflect.Type, name string) *models.Field {
	fs := models.Fields(t)
	for i := range fs {
		if fs[i].Name == name {
			return &fs[i]
		}
	}
	panic("no field " + name)
}

// writeOps are the ways to write a model.
func writeOps(m *mpd.MPD) []writeOp {
	var ops []writeOp
	for _, indent := range []string{"", "  "} {
		for _, header := range []bool{false, true} {
			indent, header := indent, header
			ops = append(ops, writeOp{fmt.Sprintf("MPD.Write(%q, %v)", indent, header), func(w io.Writer) (int, error) { return m.Write(w, indent, header) }})
		}
		indent := indent
		ops = append(ops, writeOp{fmt.Sprintf("Period.Write(%q)", indent), func(w io.Writer) (int, error) { return m.Periods[0].Write(w, indent) }})
	}
	var toks []xml.Token
	if s, err := m.WriteToString(" ", true); err == nil {
		d := xml.NewDecoder(strings.NewReader(s))
		for {
			t, err := d.RawToken()
			if err != nil {
				break
			}
			t = xml.CopyToken(t)
			if se, ok := t.(xml.StartElement); ok {
				se.Name.Space = ""
				for i := range se.Attr {
					se.Attr[i].Name.Space = ""
				}
				t = se
			}
			if ee, ok := t.(xml.EndElement); ok {
				ee.Name.Space = ""
				t = ee
			}
			toks = append(toks, t)
		}
	}
	start := xml.StartElement{Name: xml.Name{Local: "R"}, Attr: []xml.Attr{{Name: xml.Name{Local: "a"}, Value: "b"}}}
	ops = append(ops,
		writeOp{"WriteXML(periods)", func(w io.Writer) (int, error) { return mpd.WriteXML(m.Periods, w, "\t", true) }},
		writeOp{"WriteXML(period value)", func(w io.Writer) (int, error) { return mpd.WriteXML(*m.Periods[0], w, "", true) }},
		writeOp{"Encoder.Encode", func(w io.Writer) (int, error) { return -1, xml.NewEncoder(w).Encode(m) }},
		writeOp{"Encoder.EncodeElement", func(w io.Writer) (int, error) { return -1, xml.NewEncoder(w).EncodeElement(m.Periods, start) }},
		writeOp{"pooled encoder, twice", func(w io.Writer) (int, error) {
			e := xml.AcquireEncoder(w)
			defer xml.ReleaseEncoder(e)
			e1 := e.Encode(m)
			e2 := e.Encode(m.Periods[0])
			return -1, errors.Join(e1, e2, e.Close())
		}},
		writeOp{"tokens", func(w io.Writer) (int, error) {
			e := xml.NewEncoder(w)
			var first error
			for _, t := range toks {
				if err := e.EncodeToken(t); err != nil && first == nil {
					first = err
				}
			}
			ferr := e.Flush()
			if first != nil && ferr == nil {
				return -1, nil // Flush must report it, too
			}
			return -1, ferr
		}},
		writeOp{"Encoder over bufio.Writer", func(w io.Writer) (int, error) {
			bw := bufio.NewWriterSize(w, 8192)
			return -1, xml.NewEncoder(bw).Encode(m)
		}},
		writeOp{"tokens and Close", func(w io.Writer) (int, error) {
			e := xml.NewEncoder(w)
			for i := 0; i < 110; i++ {
				_ = e.EncodeToken(start)
				_ = e.EncodeToken(xml.CharData("text & more"))
				_ = e.EncodeToken(xml.Comment("c"))
				_ = e.EncodeToken(xml.ProcInst{Target: "p", Inst: []byte("i")})
				_ = e.EncodeToken(xml.Directive("d"))
				_ = e.EncodeToken(start.End())
			}
			return -1, e.Close()
		}})
	return ops
}

func init() {
	register(&core.Check{
		ID:          "C07",
		Rule:        "one case per model, write function, fault mode, kind of destination and block of fault positions; an evaluation is one write to a destination that fails at that byte; non-trivial when the failure happened",
		Bounds:      "4 models of 0.2 to 30 kB x 18 write functions x 6 fault modes (fails taking part, nothing or all of a write; short write; panic) x lasting or passing faults x plain or string writer x every byte of the output; all enumerated models to accepting destinations; EscapeText and Escape at every byte",
		Assumptions: []string{"a destination returns 0 <= n <= len(p)"},
		Run:         runWriters,
	})
}

func runWriters(c *core.Ctx) {
	docs := writeDocs(c.Pick(1, 2))
	ref := mpd.NewMPD("dynamic")
	ref.Id = "reference"
	ref.AppendPeriod(mpd.NewPeriod())
	refOut := ""
	later := func(t *core.T) bool {
		s, err := ref.WriteToString(" ", true)
		if refOut == "" {
			refOut = s
		}
		if err != nil || s != refOut {
			t.Failf("later", "after a failed write another model is written as %q, error %v; want %q", s, err, refOut)
			return false
		}
		return true
	}
	one := func(t *core.T, op *writeOp, want []byte, w *faultWriter, dst io.Writer) bool {
		t.Step(1)
		t.Trace()
		var n int
		var err error
		var pan any
		func() {
			defer func() {
				pan = recover()
				w.done = true
			}()
			n, err = op.f(dst)
		}()
		t.Eval(w.faulted)
		where := fmt.Sprintf("%s, fault %d at byte %d of %d, recovers %v", op.name, w.mode, w.limit, len(want), w.recovers)
		if pan != nil && !(w.mode == fPanic && pan == any(errDest)) {
			t.Failf("panic", "%s: %v", where, pan)
			return false
		}
		if !bytes.HasPrefix(want, w.got) {
			t.Failf("prefix", "%s: the destination got %d bytes that are not a prefix of the output: %s", where, len(w.got), firstDiff(string(want), string(w.got)))
			return false
		}
		if w.mode == fPanic && w.faulted {
			return later(t)
		}
		if n >= 0 && n != len(w.got) {
			t.Failf("count", "%s: count %d, but the destination took %d bytes", where, n, len(w.got))
			return false
		}
		if w.faulted {
			if err == nil {
				t.Failf("success", "%s: reported as success, %d bytes", where, len(w.got))
				return false
			}
			wantErr := errDest
			if w.mode == fShort || w.mode == fShortNone {
				wantErr = io.ErrShortWrite
			}
			if !errors.Is(err, wantErr) {
				t.Failf("error", "%s: error %v does not tell %v", where, err, wantErr)
				return false
			}
		} else if err != nil || len(w.got) != len(want) {
			t.Failf("error", "%s: nothing failed, but error %v and %d bytes", where, err, len(w.got))
			return false
		}
		return true
	}
	for _, name := range core.SortedKeys(docs) {
		m := docs[name]
		ops := writeOps(m)
		for oi := range ops {
			op := &ops[oi]
			if op.name == "tokens and Close" && name != "small" {
				continue
			}
			if !c.Thorough() && (name == "wide" || name == "full") {
				switch op.name {
				case `MPD.Write("  ", true)`, `Period.Write("")`, "Encoder.EncodeElement", "pooled encoder, twice":
				default:
					continue
				}
			}
			var want []byte
			get := func() []byte {
				if want == nil {
					var buf bytes.Buffer
					_, _ = op.f(&buf)
					want = buf.Bytes()
				}
				return want
			}
			size := len(get())
			const block = 512
			for mode := 0; mode < nFaults; mode++ {
				for from := 0; from <= size; from += block {
					for v := 0; v < 4; v++ {
						if v&2 != 0 && !(c.Thorough() || size < 2000 || mode == fPartial && size < 6000) {
							continue
						}
						mode, from, v := mode, from, v
						c.Case(func() string {
							return fmt.Sprintf("%s %s fault %d variant %d bytes %d-%d", name, op.name, mode, v, from, from+block)
						}, func(t *core.T) {
							want := get()
							var ws []*faultWriter
							t.State(name, op.name, fmt.Sprint(mode, v, from))
							for k := from; k < from+block && k <= size; k++ {
								w := &faultWriter{limit: k, mode: mode, recovers: v&1 != 0}
								var dst io.Writer = w
								if v&2 != 0 {
									dst = stringFaultWriter{w}
								}
								if !one(t, op, want, w, dst) {
									return
								}
								ws = append(ws, w)
								if k%16 == 0 && !later(t) {
									return
								}
							}
							if !later(t) {
								return
							}
							for _, w := range ws {
								if w.late > 0 {
									t.Failf("late", "%s: destination written to after the function returned", op.name)
									return
								}
							}
						})
					}
				}
			}
		}
	}
	// Counts of complete writes.
	eachModel(c, modelOpt(c), func(name, scte string, mk func() *mpd.MPD) {
		c.Case(func() string { return "count " + name }, func(t *core.T) {
			m := mk()
			for _, indent := range []string{"", "  "} {
				for _, header := range []bool{false, true} {
					var buf bytes.Buffer
					n, err := m.Write(&buf, indent, header)
					t.Step(1)
					t.Eval(false)
					t.Trace()
					if err != nil || n != buf.Len() {
						t.Failf("count", "Write(%q, %v): count %d error %v, %d bytes", indent, header, n, err, buf.Len())
						return
					}
				}
			}
		})
	})
	// A value that cannot be written and a destination that fails.
	type bad struct {
		A string   `xml:"a,attr"`
		T string   `xml:"t"`
		C chan int `xml:"c"`
	}
	for _, size := range []int{1, 3000, 4090, 4096, 5000, 9000} {
		for _, header := range []bool{false, true} {
			size, header := size, header
			c.Case(func() string { return fmt.Sprintf("bad value after %d bytes, header %v", size, header) }, func(t *core.T) {
				v := &bad{A: "a", T: strings.Repeat("t", size), C: make(chan int)}
				for mode := 0; mode < fPanic; mode++ {
					for k := 0; k <= size+100; k += 1 {
						w := &faultWriter{limit: k, mode: mode}
						n, err := mpd.WriteXML(v, w, "", header)
						w.done = true
						t.Step(1)
						t.Trace()
						t.Eval(true)
						if err == nil || n != len(w.got) || bytes.Contains(w.got, []byte("</bad>")) {
							t.Failf("bad", "unwritable value: count %d error %v, destination took %d bytes", n, err, len(w.got))
							return
						}
						if k%16 == 0 && !later(t) {
							return
						}
						if w.late > 0 {
							t.Failf("late", "destination written to after the function returned")
							return
						}
					}
				}
				t.State(fmt.Sprint(size, header))
			})
		}
	}
	// Escaping into a failing destination.
	for _, s := range []string{"", "plain text", "a&b<c>d\"e'f\tg\nh\ri", "\xffé\x00漢\U0001f600]]>", strings.Repeat("x&", 40)} {
		s := s
		c.Case(func() string { return fmt.Sprintf("escape %q", s) }, func(t *core.T) {
			var buf bytes.Buffer
			if err := xml.EscapeText(&buf, []byte(s)); err != nil {
				t.Failf("error", "EscapeText: %v", err)
				return
			}
			t.State(buf.String())
			for k := 0; k <= buf.Len(); k++ {
				for mode := 0; mode < fShort; mode++ {
					w := &faultWriter{limit: k, mode: mode}
					err := xml.EscapeText(w, []byte(s))
					w2 := &faultWriter{limit: k, mode: mode}
					xml.Escape(w2, []byte(s))
					t.Step(2)
					t.Trace()
					t.Eval(w.faulted)
					if w.faulted != (err != nil) || w.faulted && !errors.Is(err, errDest) {
						t.Failf("escape", "EscapeText(%q) to a destination that fails at byte %d: error %v", s, k, err)
						return
					}
					if !bytes.HasPrefix(buf.Bytes(), w.got) || !bytes.HasPrefix(buf.Bytes(), w2.got) {
						t.Failf("prefix", "EscapeText(%q) to a destination that fails at byte %d wrote %q", s, k, w.got)
						return
					}
				}
			}
		})
	}
}
