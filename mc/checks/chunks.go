package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"verifmc/core"
	"verifmc/models"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// chunkReader delivers data in the given chunks; mode says how.
type chunkReader struct {
	data  string
	cuts  []int // ascending offsets where a Read ends
	every int   // or a fixed chunk size
	zero  int   // empty reads before each chunk
	eof   bool  // deliver the final error together with the last chunk
	err   error // final error (io.EOF by default)
	pos   int
	z     int
	calls int
	after int // reads after the final error
}

func (r *chunkReader) final() error {
	if r.err != nil {
		return r.err
	}
	return io.EOF
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.calls++
	if r.pos >= len(r.data) {
		r.after++
		return 0, r.final()
	}
	if r.z < r.zero {
		r.z++
		return 0, nil
	}
	r.z = 0
	end := len(r.data)
	if r.every > 0 {
		end = min(end, r.pos+r.every)
	}
	for _, c := range r.cuts {
		if c > r.pos {
			end = min(end, c)
			break
		}
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.eof && r.pos == len(r.data) {
		return n, r.final()
	}
	return n, nil
}

// byteReader is the same source as an io.ByteReader.
type byteReader struct{ *chunkReader }

func (r byteReader) ReadByte() (byte, error) {
	r.calls++
	if r.pos >= len(r.data) {
		r.after++
		return 0, r.final()
	}
	r.pos++
	return r.data[r.pos-1], nil
}

// tokenTrace is the observable behaviour of a decoder.
type tokenTrace struct {
	toks []string
	text []string // content of texts, "\x00" for other tokens
	ends []int64
	err  error
}

func (tr *tokenTrace) String() string {
	return fmt.Sprintf("%s error %v", strings.Join(tr.toks, " "), tr.err)
}

func describe(t xml.Token) string {
	switch t := t.(type) {
	case xml.StartElement:
		var sb strings.Builder
		fmt.Fprintf(&sb, "<{%s}%s", t.Name.Space, t.Name.Local)
		for _, a := range t.Attr {
			fmt.Fprintf(&sb, " {%s}%s=%q", a.Name.Space, a.Name.Local, a.Value)
		}
		return sb.String() + ">"
	case xml.EndElement:
		return fmt.Sprintf("</{%s}%s>", t.Name.Space, t.Name.Local)
	case xml.CharData:
		return fmt.Sprintf("%q", string(t))
	case xml.Comment:
		return fmt.Sprintf("<!--%q-->", string(t))
	case xml.ProcInst:
		return fmt.Sprintf("<?%s %q?>", t.Target, string(t.Inst))
	case xml.Directive:
		return fmt.Sprintf("<!%q>", string(t))
	}
	return fmt.Sprintf("%T", t)
}

// trace runs the decoder to its end or error. The returned error text is that
// of the decoder; err is the error itself.
func trace(r io.Reader, raw bool, setup func(d *xml.Decoder)) *tokenTrace {
	d := xml.NewDecoder(r)
	if setup != nil {
		setup(d)
	}
	tr := &tokenTrace{}
	for {
		var t xml.Token
		var err error
		if raw {
			t, err = d.RawToken()
		} else {
			t, err = d.Token()
		}
		line, col := d.InputPos()
		if err != nil {
			tr.err = err
			tr.toks = append(tr.toks, fmt.Sprintf("end@%d:%d:%d", d.InputOffset(), line, col))
			// The error is sticky.
			for i := 0; i < 2; i++ {
				var e2 error
				if raw {
					t, e2 = d.RawToken()
				} else {
					t, e2 = d.Token()
				}
				if t != nil || e2 == nil || e2.Error() != err.Error() {
					tr.toks = append(tr.toks, fmt.Sprintf("then %v %v", t, e2))
				}
			}
			return tr
		}
		tr.toks = append(tr.toks, fmt.Sprintf("%s@%d:%d:%d", describe(t), d.InputOffset(), line, col))
		tr.ends = append(tr.ends, d.InputOffset())
		if cd, ok := t.(xml.CharData); ok {
			tr.text = append(tr.text, string(cd))
		} else {
			tr.text = append(tr.text, "\x00")
		}
	}
}

// chunkDocs are small documents with every construct, well-formed and not.
var chunkDocs = []string{
	"<a/>", "<a></a>", "<a>t</a>", "<a b='c'/>", "<!--x--><a/>", "<?p i?><a/>", "<!D><a/>", "<a><![CDATA[x]]></a>", "<a>&lt;&#65;&#x42;</a>", "<a>\r\n\r</a>", "<é ü=\"ö\">漢😀</é>",
	"<p:a xmlns:p='u'><p:b p:c='d'/></p:a>", "<a xmlns='u'><b xmlns=''/></a>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<a/>\n", "<a b=\"&quot;&#10;\n\"/>",
	"<a>]] > ]]&gt;</a>", "<!DOCTYPE a [<!-- <x> --><!ENTITY e \"'>'\">]><a/>", "<a ><b >x</b ></a >", "<a b = '1' c = '2' />", " \n\t<a/> x <b/>",
	"<a>", "</a>", "<a></b>", "<a", "<a b", "<a b=", "<a b='", "<a b=c>", "<", "<!", "<!-", "<!--", "<!--x--y-->", "<![", "<![CDATA[", "<?", "<?xml?>", "<?xml version='1.1'?>", "&", "&x;", "<a>&amp</a>", "<a>\x00</a>", "<a>\xff</a>", "<a>\xc3</a>", "]]>", "", "x", "<a>]]></a>", "<1/>", "<a:b:c/>",
	"<a/>\xe2\x82", "<a>&#0;</a>", "<a>&#x110000;</a>", "<?xml version='1.0' encoding='latin1'?><a/>",
}

var errSource = errors.New("source failed")

func init() {
	register(&core.Check{
		ID:          "C06",
		Rule:        "one case per document and family of deliveries (split points, chunk sizes, empty reads, data with error, byte reader, failing source); an evaluation is one delivery, compared token by token, with offsets and positions, to the delivery in one piece; non-trivial when the delivery has more than one Read with data or fails",
		Bounds:      "55 documents with every construct, also ill-formed; all pairs of split points (all sets of split points for documents up to 13 bytes, thorough 17), chunk sizes 1 to 17, 0 to 3 empty reads per chunk, EOF with and after data, with and without ReadByte; source errors at every byte; Token, RawToken, strict and lenient decoders; every construct at every offset around the 4096 and 8192 byte buffer limits; manifests decoded into the model under the same deliveries",
		Assumptions: []string{"readers keep the contract of io.Reader"},
		Run:         runChunks,
	})
}

func runChunks(c *core.Ctx) {
	lenient := func(d *xml.Decoder) {
		d.Strict = false
		d.AutoClose = []string{"br", "b"}
		d.Entity = map[string]string{"x": "ex", "nbsp": "\u00a0"}
		d.DefaultSpace = "urn:d"
	}
	setups := []func(d *xml.Decoder){nil, lenient}
	same := func(t *core.T, what string, want, got *tokenTrace) bool {
		w, g := want.String(), got.String()
		if w != g {
			t.Failf("differs", "%s\nin one piece: %s\ndelivered:    %s", what, w, g)
			return false
		}
		return true
	}
	deliver := func(t *core.T, doc string, want *tokenTrace, raw bool, setup func(d *xml.Decoder), r *chunkReader, name string) bool {
		t.Step(1)
		t.Trace()
		t.Eval(true)
		rr := *r
		return same(t, name, want, trace(&rr, raw, setup)) && same(t, name+" as ByteReader", want, trace(byteReader{&chunkReader{data: r.data, err: r.err}}, raw, setup))
	}
	for di, doc := range chunkDocs {
		doc := doc
		for si, setup := range setups {
			for _, raw := range []bool{false, true} {
				si, setup, raw := si, setup, raw
				c.Case(func() string { return fmt.Sprintf("document %d %q raw=%v setup=%d", di, doc, raw, si) }, func(t *core.T) {
					want := trace(bytes.NewReader([]byte(doc)), raw, setup)
					t.State(want.String())
					ok := func(r chunkReader, name string) bool {
						r.data = doc
						return deliver(t, doc, want, raw, setup, &r, name)
					}
					for _, eof := range []bool{false, true} {
						for zero := 0; zero <= 3; zero++ {
							for every := 0; every <= 17; every++ {
								if !ok(chunkReader{every: every, zero: zero, eof: eof}, fmt.Sprintf("chunks of %d, %d empty reads, eof with data %v", every, zero, eof)) {
									return
								}
							}
						}
						if len(doc) <= c.Pick(13, 17) {
							for mask := 0; mask < 1<<max(0, len(doc)-1); mask++ {
								var cuts []int
								for i := 1; i < len(doc); i++ {
									if mask>>(i-1)&1 != 0 {
										cuts = append(cuts, i)
									}
								}
								if !ok(chunkReader{cuts: cuts, eof: eof}, fmt.Sprintf("cut at %v, eof with data %v", cuts, eof)) {
									return
								}
							}
						}
						for i := 1; i < len(doc); i++ {
							for j := i; j < len(doc); j++ {
								if !ok(chunkReader{cuts: []int{i, j}, eof: eof, zero: (i + j) % 2}, fmt.Sprintf("cut at %d and %d", i, j)) {
									return
								}
							}
						}
					}
				})
			}
		}
		// Source errors, in strict mode.
		{
			si, setup := 0, setups[0]
			c.Case(func() string { return fmt.Sprintf("failing source, document %d %q setup=%d", di, doc, si) }, func(t *core.T) {
				full := trace(bytes.NewReader([]byte(doc)), false, setup)
				for _, raw := range []bool{false, true} {
					if raw {
						full = trace(bytes.NewReader([]byte(doc)), true, setup)
					}
					for k := 0; k <= len(doc); k++ {
						for _, srcErr := range []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
							for v := 0; v < 4; v++ {
								t.Step(1)
								t.Eval(true)
								t.Trace()
								var r io.Reader
								cr := &chunkReader{data: doc[:k], err: srcErr, eof: v&1 != 0, every: v >> 1}
								r = cr
								got := trace(r, raw, setup)
								if !failing(t, full, got, doc, k, srcErr) {
									return
								}
								got = trace(byteReader{&chunkReader{data: doc[:k], err: srcErr}}, raw, setup)
								if !failing(t, full, got, doc, k, srcErr) {
									return
								}
							}
						}
					}
				}
			})
		}
	}
	// Constructs across buffer limits.
	body := "<e a='b\r\n&amp;c' xmlns:q=\"u\"><q:f/>text\r\n&#x41;é<![CDATA[]]]]>漢</e><!-- -c- --><?pi a?b?>"
	for _, limit := range []int{512, 4096, 8192} {
		for off := -len(body) - 3; off <= 3; off++ {
			limit, off := limit, off
			c.Case(func() string { return fmt.Sprintf("construct at %d%+d", limit, off) }, func(t *core.T) {
				pads := []string{strings.Repeat("x", limit+off-3), strings.Repeat("\r\n", (limit+off-3)/2), "<!--" + strings.Repeat("c", limit+off-10) + "-->", "<l a=\"" + strings.Repeat("v", limit+off-12) + "\"/>", "<" + strings.Repeat("n", limit+off-6) + "/>"}
				for pi, pad := range pads {
					doc := "<r>" + pad + body + "</r>"
					want := trace(strings.NewReader(doc), false, nil)
					t.State(want.String())
					for _, r := range []chunkReader{{}, {every: 4096}, {every: 4095}, {every: 1}, {every: 7, zero: 1}, {eof: true}, {cuts: []int{limit + off, limit + off + 5}}, {every: limit + off, eof: true}, {every: 16384}} {
						r.data = doc
						if !deliver(t, doc, want, false, nil, &r, fmt.Sprintf("padding %d chunks %d", pi, r.every)) {
							return
						}
					}
				}
			})
		}
	}
	// Manifests into the model.
	for di, doc := range damageDocs {
		di, doc := di, doc
		c.Case(func() string { return fmt.Sprintf("manifest %d", di) }, func(t *core.T) {
			read := func(r io.Reader) (*mpd.MPD, int64, error) {
				m := &mpd.MPD{}
				d := xml.NewDecoder(r)
				err := d.Decode(m)
				return m, d.InputOffset(), err
			}
			want, off, err := read(strings.NewReader(doc))
			if err != nil {
				t.Failf("read", "%v\n%s", err, doc)
				return
			}
			t.State(doc)
			for i := 1; i < len(doc); i++ {
				for _, r := range []chunkReader{{cuts: []int{i}}, {every: i}, {cuts: []int{i}, zero: 2, eof: true}} {
					r.data = doc
					t.Step(1)
					t.Eval(true)
					t.Trace()
					m, o, err := read(&r)
					if err != nil || o != off {
						t.Failf("read", "cut at %d: %v at offset %d (want %d)\n%s", i, err, o, off, doc)
						return
					}
					if d := models.Equal(want, m); d != "" {
						t.Failf("differs", "cut at %d: %s\n%s", i, d, doc)
						return
					}
				}
				for _, eof := range []bool{false, true} {
					_, _, err := read(&chunkReader{data: doc[:i], err: errSource, eof: eof})
					if err != errSource && (err == nil || utf8.ValidString(doc[:i]) || !strings.Contains(err.Error(), "invalid UTF-8")) {
						t.Failf("source", "source failed after %d bytes but Decode returns %v\n%s", i, err, doc)
						return
					}
				}
			}
		})
	}
}

// failing checks the outcome of a source that fails after k bytes.
func failing(t *core.T, full, got *tokenTrace, doc string, k int, srcErr error) bool {
	n := len(got.ends)
	for i := 0; i < n; i++ {
		if i == n-1 && i < len(full.ends) && got.text[i] != "\x00" && strings.HasPrefix(full.text[i], got.text[i]) {
			continue // the start of a text, before the error
		}
		if i >= len(full.ends) || got.toks[i] != full.toks[i] {
			if i == n-1 && i == len(full.ends) && got.text[i] != "\x00" && full.err != io.EOF {
				continue // the start of a text that is refused later
			}
			t.Failf("source", "source fails after %d bytes of %q: token %d is %s, but the whole document has %s", k, doc, i, got.toks[i], full.String())
			return false
		}
	}
	// Tokens that end before the failure, except a text that might go on, have come.
	for i, e := range full.ends {
		if e < int64(k) && i >= n {
			t.Failf("source", "source fails after %d bytes of %q: token %s is missing: %s", k, doc, full.toks[i], got.String())
			return false
		}
	}
	if got.err == srcErr {
		return true
	}
	// What arrived may be ill-formed itself, as when it ends in a character.
	if !utf8.ValidString(doc[:k]) && strings.Contains(fmt.Sprint(got.err), "invalid UTF-8") {
		return true
	}
	// The document may be refused before the failure is seen.
	if full.err != nil && got.err != nil && got.err.Error() == full.err.Error() && full.err != io.EOF {
		return true
	}
	t.Failf("source", "source fails after %d bytes of %q with %v, but the decoder says %s (whole document: %s)", k, doc, srcErr, got.String(), full.String())
	return false
}
