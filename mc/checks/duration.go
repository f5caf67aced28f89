package checks

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"verifmc/core"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

const nsPerMS = 1_000_000

// checkFormatted judges the text of a duration by exact integer arithmetic.
func checkFormatted(d int64, s string) string {
	neg := d < 0
	a := uint64(d)
	if neg {
		a = -a
	}
	// Expected value in ns.
	ms := a / nsPerMS
	if a%nsPerMS >= nsPerMS/2 {
		ms++
	}
	want, decimals := ms*nsPerMS, 3
	if ms == 0 {
		want, decimals = a, 9
	}
	if d == 0 {
		if s != "PT0S" {
			return "zero is written " + s
		}
		return ""
	}
	r := s
	if neg {
		if !strings.HasPrefix(r, "-") {
			return "no sign"
		}
		r = r[1:]
	}
	if !strings.HasPrefix(r, "PT") {
		return "does not start with PT"
	}
	r = r[2:]
	var got uint64
	last := -1
	n := 0
	lastZero := false
	for len(r) > 0 {
		i := 0
		for i < len(r) && r[i] >= '0' && r[i] <= '9' {
			i++
		}
		if i == 0 || i == len(r) {
			return "not a duration"
		}
		if i > 1 && r[0] == '0' {
			return "leading zero"
		}
		v, err := strconv.ParseUint(r[:i], 10, 63)
		if err != nil {
			return "component too big"
		}
		r = r[i:]
		frac := ""
		if r[0] == '.' {
			j := 1
			for j < len(r) && r[j] >= '0' && r[j] <= '9' {
				j++
			}
			frac = r[1:j]
			r = r[j:]
			if frac == "" || frac[len(frac)-1] == '0' || len(frac) > decimals || r == "" || r[0] != 'S' {
				return "bad decimals"
			}
		}
		u := strings.IndexByte("HMS", r[0])
		r = r[1:]
		if u <= last {
			return "bad unit order"
		}
		last = u
		if n == 0 && v == 0 && frac == "" {
			return "leading zero component"
		}
		lastZero = v == 0 && frac == ""
		n++
		switch u {
		case 0:
			got += v * 3600e9
		case 1:
			if v > 59 {
				return "minutes out of range"
			}
			got += v * 60e9
		case 2:
			if v > 59 {
				return "seconds out of range"
			}
			f, _ := strconv.ParseUint((frac + "000000000")[:9], 10, 64)
			got += v*1e9 + f
		}
	}
	if n == 0 {
		return "no components"
	}
	if lastZero {
		return "trailing zero component"
	}
	if got != want {
		return fmt.Sprintf("stands for %d ns, want %d", got, want)
	}
	return ""
}

// durationValues enumerates duration values in chunks.
func durationChunks(c *core.Ctx, chunk func(name string, gen func(f func(int64)))) {
	rng := func(name string, from, to, step int64) {
		const n = 20000
		for s := from; s <= to && s >= 0; s += n * step {
			s := s
			chunk(fmt.Sprintf("%s from %d", name, s), func(f func(int64)) {
				for i := int64(0); i < n; i++ {
					v := s + i*step
					if v > to || v < s {
						break
					}
					f(v)
					f(-v)
				}
			})
		}
	}
	rng("ns", 0, int64(c.Pick(2_100_000, 21_000_000)), 1)
	rng("ms", 0, int64(c.Pick(4_000_000, 90_000_000))*nsPerMS, nsPerMS)
	rng("half ms", nsPerMS/2, 2*nsPerMS*1000, nsPerMS)
	rng("half ms-1", nsPerMS/2-1, 62*nsPerMS*1000, nsPerMS)
	rng("half ms+", nsPerMS/2, 3700*nsPerMS*1000, nsPerMS)
	rng("s", 0, int64(c.Pick(200_000, 4_000_000))*1e9, 1e9)
	rng("min", 0, int64(c.Pick(200_000, 4_000_000))*60e9, 60e9)
	rng("h", 0, 2562047*3600e9, 3600e9)
	for _, off := range []int64{-1, 1, 499_999, 500_000, 500_001, -500_000, -500_001, -499_999, 999_500_000, 999_499_999, 59_999_500_000, 59_999_499_999, 3_599_999_500_000} {
		rng(fmt.Sprintf("s%+d", off), 1e9+off, 100_000*1e9+off, 1e9)
		rng(fmt.Sprintf("min%+d", off), 60e9+off, 20_000*60e9+off, 60e9)
		rng(fmt.Sprintf("h%+d", off), 3600e9+off, 20_000*3600e9+off, 3600e9)
	}
	// Around powers and limits.
	chunk("powers", func(f func(int64)) {
		for e := 0; e < 63; e++ {
			for dl := int64(-1200); dl <= 1200; dl++ {
				f(int64(1)<<e + dl)
				f(-(int64(1) << e) + dl)
			}
		}
		p := int64(1)
		for e := 0; e <= 18; e++ {
			for k := int64(1); k <= 9; k++ {
				for dl := int64(-1200); dl <= 1200; dl++ {
					f(p*k + dl)
					f(-p*k + dl)
				}
			}
			if e < 18 {
				p *= 10
			}
		}
		for dl := int64(0); dl < 2_000_000; dl += 7 {
			f(math.MaxInt64 - dl)
			f(math.MinInt64 + dl)
		}
	})
	// Component grid.
	for _, h := range []int64{0, 1, 2, 9, 10, 11, 19, 23, 24, 25, 47, 48, 59, 60, 99, 100, 101, 167, 168, 999, 1000, 8760, 100000, 2562046} {
		for m := int64(0); m < 60; m++ {
			h, m := h, m
			chunk(fmt.Sprintf("grid %dh%dm", h, m), func(f func(int64)) {
				for s := int64(0); s < 60; s++ {
					for _, ms := range []int64{0, 1, 2, 5, 9, 10, 11, 49, 50, 90, 99, 100, 101, 110, 120, 123, 250, 500, 505, 900, 990, 998, 999} {
						for _, ns := range []int64{0, 1, 100, 1000, 499_999, 500_000, 500_001, 999_999} {
							v := h*3600e9 + m*60e9 + s*1e9 + ms*nsPerMS + ns
							f(v)
							f(-v)
						}
					}
				}
			})
		}
	}
}

func init() {
	register(&core.Check{
		ID:     "C10",
		Rule:   "one case per chunk of enumerated duration values; each value is formatted and judged by exact integer arithmetic; every value counts",
		Bounds: "every ns up to 2.1 ms (thorough 21 ms), every ms up to 4e6 (9e7), every s and min up to 2e5 (4e6), every hour of the int64 range, offsets around each boundary, powers of 2 and 10 +-1200 ns, both ends of the range, full grid of components; both signs",
		Run: func(c *core.Ctx) {
			durationChunks(c, func(name string, gen func(f func(int64))) {
				c.Case(func() string { return "durations " + name }, func(t *core.T) {
					n := 0
					var ds core.Distinct
					gen(func(v int64) {
						if t.Failed() {
							return
						}
						d := mpd.Duration(v)
						s := d.String()
						n++
						if e := checkFormatted(v, s); e != "" {
							t.Failf("format", "Duration(%d).String() = %q: %s", v, s, e)
							return
						}
						if d != mpd.Duration(v) {
							t.Failf("changed", "String changed the duration %d to %d", v, d)
						}
						ds.Add(s)
						if n%64 == 1 {
							a, err := d.MarshalXMLAttr(xml.Name{Space: "u", Local: "a"})
							if err != nil || a.Value != s || a.Name.Local != "a" || a.Name.Space != "u" {
								t.Failf("attr", "MarshalXMLAttr of Duration(%d) = %v, %v", v, a, err)
							}
							if got, want := d.Seconds(), float64(v)/1e9; got != want {
								t.Failf("seconds", "Duration(%d).Seconds() = %v, want %v", v, got, want)
							}
						}
					})
					t.Step(n)
					t.CountStates(&ds)
					t.Trace()
					t.Eval(true)
				})
			})
			// In manifests: by value and by pointer.
			for i, v := range []int64{1, 999_499, 999_500, nsPerMS, 999_999_999, 1e9, 59_999_999_999, 60e9, 3600e9, 3661e9 + nsPerMS, 360000e9, math.MaxInt64} {
				v := v
				c.Case(func() string { return fmt.Sprintf("manifest duration %d", v) }, func(t *core.T) {
					m := mpd.NewMPD("static")
					m.MediaPresentationDuration = mpd.Ptr(mpd.Duration(v))
					m.MinBufferTime = mpd.Ptr(mpd.Duration(v))
					p := mpd.NewPeriod()
					p.Start = mpd.Ptr(mpd.Duration(v))
					as := mpd.NewAdaptationSet()
					as.SegmentTemplate = mpd.NewSegmentTemplate()
					as.SegmentTemplate.TimeShiftBufferDepth = mpd.Duration(v)
					p.AppendAdaptationSet(as)
					m.AppendPeriod(p)
					out, err := m.WriteToString("", i%2 == 0)
					t.Step(1)
					if err != nil {
						t.Failf("write", "%v", err)
						return
					}
					want := `="` + m.MediaPresentationDuration.String() + `"`
					for _, a := range []string{"mediaPresentationDuration", "minBufferTime", "start", "timeShiftBufferDepth"} {
						if !strings.Contains(out, " "+a+want) {
							t.Failf("manifest", "no %s%s in %s", a, want, out)
						}
					}
					t.State(out)
					t.Eval(true)
					t.Trace()
				})
			}
		},
	})
}

// refDur is the reference parser: an exact rational number of ns.
// class: 0 reject, 1 accept, 2 tolerated spelling (a point without digits on
// one side, or a T without components after days), 3 value out of range.
func refDur(s string) (class int, ns *big.Rat) {
	if len(s) == 0 || s[0] != 'P' {
		return 0, nil
	}
	i := 1
	lenient := false
	total := new(big.Rat)
	afterT := false
	last := 0
	n, nT := 0, 0
	for i < len(s) {
		if s[i] == 'T' {
			if afterT {
				return 0, nil
			}
			afterT = true
			i++
			continue
		}
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		in := s[st:i]
		fr := ""
		dot := false
		if i < len(s) && s[i] == '.' {
			dot = true
			i++
			st = i
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
			fr = s[st:i]
		}
		if in == "" && fr == "" || i >= len(s) {
			return 0, nil
		}
		u := strings.IndexByte("DHMS", s[i]) + 1
		i++
		if u == 0 || u <= last || u > 1 != afterT || dot && u != 4 {
			return 0, nil
		}
		if dot && (in == "" || fr == "") {
			lenient = true
		}
		last = u
		n++
		if afterT {
			nT++
		}
		unit := []int64{86400e9, 3600e9, 60e9, 1e9}[u-1]
		num, ok := new(big.Int).SetString("0"+in+fr, 10)
		if !ok {
			return 0, nil
		}
		r := new(big.Rat).SetFrac(num, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fr))), nil))
		total.Add(total, r.Mul(r, new(big.Rat).SetInt64(unit)))
	}
	if n == 0 {
		return 0, nil
	}
	if afterT && nT == 0 {
		lenient = true
	}
	if total.Cmp(new(big.Rat).SetFrac(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(2), 62), big.NewInt(-1)), big.NewInt(1))) > 0 {
		// Above MaxInt64; the last half nanosecond may be either.
		return 3, total
	}
	if lenient {
		return 2, total
	}
	return 1, total
}

func checkParsed(s string) (string, int) {
	class, ns := refDur(s)
	d, err := mpd.ParseDuration(s)
	if err != nil {
		if d != 0 {
			return fmt.Sprintf("ParseDuration(%q) = %d with error %v", s, d, err), class
		}
		if class == 1 {
			return fmt.Sprintf("ParseDuration(%q) is rejected: %v", s, err), class
		}
		return "", class
	}
	switch class {
	case 0:
		return fmt.Sprintf("ParseDuration(%q) is accepted as %d", s, d), class
	case 3:
		lim := new(big.Rat).SetFrac(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
		if ns.Cmp(lim) >= 0 {
			return fmt.Sprintf("ParseDuration(%q) overflows but is accepted as %d", s, d), class
		}
	}
	diff := new(big.Rat).Sub(ns, new(big.Rat).SetInt64(int64(d)))
	f, _ := diff.Float64()
	if math.Abs(f) > 0.500001 {
		return fmt.Sprintf("ParseDuration(%q) = %d ns, want %s", s, d, ns.FloatString(3)), class
	}
	return "", class
}

func init() {
	register(&core.Check{
		ID:     "C11",
		Rule:   "one case per chunk of strings; each is parsed and compared with an exact rational reference parser; non-trivial cases contain accepted strings",
		Bounds: "all strings up to length 4 over 24 characters and all strings starting with P up to length 7 (thorough 8) over 16; all combinations of component values from boundary alphabets; all single insertions, deletions and substitutions in valid durations; all formatted grid values",
		Assumptions: []string{
			"spellings with a decimal point that has digits on one side only, and a T without time components, may be accepted (with the right value) or rejected"},
		Run: func(c *core.Ctx) {
			one := func(t *core.T, s string) bool {
				e, class := checkParsed(s)
				if e != "" {
					t.Failf("parse", "%s", e)
				}
				return class == 1
			}
			full := "PTDHMSYW.-+0159 eE_,:xp\n"
			var rec func(buf []byte, n int, alpha string, f func(string))
			rec = func(buf []byte, n int, alpha string, f func(string)) {
				f(string(buf))
				if n == 0 {
					return
				}
				for i := 0; i < len(alpha); i++ {
					rec(append(buf, alpha[i]), n-1, alpha, f)
				}
			}
			enum := func(alpha, pre string, split, max int) {
				rec([]byte(pre), split, alpha, func(p string) {
					c.Case(func() string { return fmt.Sprintf("strings %q*", p) }, func(t *core.T) {
						n := 0
						acc := 0
						var ds core.Distinct
						sub := max - split
						if len(p) < len(pre)+split {
							sub = 0
						}
						rec([]byte(p), sub, alpha, func(s string) {
							if t.Failed() {
								return
							}
							n++
							if one(t, s) {
								acc++
								ds.Add(s)
							}
						})
						t.CountStates(&ds)
						t.Step(n)
						t.Trace()
						t.Eval(acc > 0)
					})
				})
			}
			enum(full, "", 2, 4)
			enum("PTDHMSYW.-0159 e", "P", 3, c.Pick(6, 7))
			enum("TDHMS.05", "P", 4, c.Pick(8, 9))
			// Component combinations.
			ds := []string{"", "0", "1", "7", "30", "31", "365", "106751", "106752", "99999999999999999999", "18446744073709551615", "18446744073709551616", "213503982334602", "007"}
			hs := []string{"", "0", "1", "9", "23", "24", "25", "100", "2562047", "2562048", "5124095576030431", "9223372036854775807", "18446744073709551615", "00024"}
			ms := []string{"", "0", "1", "59", "60", "61", "1440", "153722867", "153722868", "307445734561825861", "18446744073709551616", "010"}
			ss := []string{"", "0", "1", "9", "10", "59", "60", "61", "3600", "86399", "86400", "999999", "4294967295", "4294967296", "9007199255", "9223372035", "9223372036", "9223372037", "18446744073", "18446744074",
				"9223372036854775807", "18446744073709551615", "18446744073709551616", "100000000000000000000000000", "00000000000000000000000000000059"}
			fr := []string{"", ".", ".0", ".1", ".5", ".25", ".9", ".04", ".001", ".0010", ".999", ".9995", ".9999", ".000001", ".000000001", ".123456789", ".999999999", ".1234567891", ".9999999991", ".99999999951", ".00000000049", ".0000000006",
				".854775806", ".854775807", ".854775808", ".8547758074", ".000000000000000000000000000000000001", ".3333333333333333333333333333333", ".100000000000000000000000000000000000000000000000000000"}
			for _, d := range ds {
				for _, h := range hs {
					d, h := d, h
					c.Case(func() string { return fmt.Sprintf("components D=%s H=%s", d, h) }, func(t *core.T) {
						n, acc := 0, 0
						var dist core.Distinct
						for _, m := range ms {
							for _, s := range ss {
								for fi, f := range fr {
									if s == "" && fi > 4 {
										continue
									}
									str := "P"
									if d != "" {
										str += d + "D"
									}
									str += "T"
									if h != "" {
										str += h + "H"
									}
									if m != "" {
										str += m + "M"
									}
									if s != "" || f != "" {
										str += s + f + "S"
									}
									n++
									if one(t, str) {
										acc++
										dist.Add(str)
									}
									if t.Failed() {
										return
									}
								}
							}
						}
						t.Step(n)
						t.CountStates(&dist)
						t.Trace()
						t.Eval(acc > 0)
					})
				}
			}
			// Mutations.
			seeds := []string{"PT1S", "P1D", "P1DT2H3M4.5S", "PT10H20M30.125S", "PT0.001S", "P10675DT23H47M16.854S", "PT59M59S", "PT24H", "P3DT7M", "PT1H0M0S", "PT5M0.25S"}
			for _, s := range seeds {
				s := s
				for pos := 0; pos <= len(s); pos++ {
					pos := pos
					c.Case(func() string { return fmt.Sprintf("mutations of %q at %d", s, pos) }, func(t *core.T) {
						n := 0
						ins := func(x string) {
							n += 2
							one(t, s[:pos]+x+s[pos:])
							if pos < len(s) {
								one(t, s[:pos]+x+s[pos+1:])
							}
							if pos+1 < len(s) {
								one(t, s[:pos]+x+s[pos+2:])
							}
						}
						for b := 0; b < 256; b++ {
							ins(string([]byte{byte(b)}))
						}
						for _, x := range []string{"", "٣", "１", "−", "P", "PT", "T", "1", "00", "1D", "2H", "3M", "4S", "1Y", "2W", "..", ".5", "e1", "1e1", "0x1", "_1", "1_0", "INF", "NaN", "inf", " ", "\t", "T1H", "T1S", "-1S", "+1S", "1.0M", "1.0H", "1.0D", "1,5S"} {
							ins(x)
						}
						// Swap of neighbours and repetition.
						if pos+1 < len(s) {
							b := []byte(s)
							b[pos], b[pos+1] = b[pos+1], b[pos]
							one(t, string(b))
						}
						one(t, s[:pos]+s)
						one(t, s[pos:])
						one(t, s[:pos])
						t.Step(n)
						t.Trace()
						t.Eval(true)
					})
				}
			}
			// Long texts.
			for _, n := range sizes(c.Pick(4097, 65537)) {
				n := n
				c.Case(func() string { return fmt.Sprintf("texts of %d digits", n) }, func(t *core.T) {
					for _, dg := range []string{"0", "1", "9"} {
						x := strings.Repeat(dg, n)
						for _, s := range []string{"P" + x + "D", "PT" + x + "H", "PT" + x + "M", "PT" + x + "S", "PT1." + x + "S", "PT" + x + "1S", "PT" + x + ".5S", "P" + x, x, "PT" + strings.Repeat("1H", n) + "S", "P" + strings.Repeat("T", n) + "1S", "PT1S" + strings.Repeat(" ", n)} {
							one(t, s)
						}
					}
					t.Step(36)
					t.Trace()
					t.Eval(true)
				})
			}
			// Formatting and parsing again.
			durationChunks(c, func(name string, gen func(f func(int64))) {
				if !c.Thorough() && strings.HasPrefix(name, "grid") && c.Seed < 0 {
					return
				}
				c.Case(func() string { return "format and parse " + name }, func(t *core.T) {
					n := 0
					gen(func(v int64) {
						if v < 0 || v%nsPerMS != 0 || t.Failed() {
							return
						}
						n++
						d := mpd.Duration(v)
						s := d.String()
						p, err := mpd.ParseDuration(s)
						if err != nil || int64(p) != v {
							t.Failf("reparse", "Duration(%d) is written %q and parsed as %d, %v", v, s, p, err)
							return
						}
						if n%64 == 1 {
							var u mpd.Duration
							if err := u.UnmarshalXMLAttr(xml.Attr{Value: s}); err != nil || u != d {
								t.Failf("attr", "UnmarshalXMLAttr(%q) = %d, %v", s, u, err)
							}
						}
					})
					t.Step(2 * n)
					t.Trace()
					t.Eval(n > 0)
				})
			})
			// As attributes of manifests.
			for _, s := range append([]string{"", "P", "PT", "1", "PT1X", "-PT1S", "P1Y", "P1M", "P1W", "PT1M1H", "PT1S ", " PT1S", "PT99999999999H", "PT1.5H", "P1D", "P1DT1H", "PT0S", "PT1H30M"}, seeds...) {
				s := s
				c.Case(func() string { return fmt.Sprintf("manifest attribute %q", s) }, func(t *core.T) {
					class, ns := refDur(s)
					get := []func(m *mpd.MPD) *mpd.Duration{
						func(m *mpd.MPD) *mpd.Duration { return m.MediaPresentationDuration },
						func(m *mpd.MPD) *mpd.Duration { return m.Periods[0].Start },
						func(m *mpd.MPD) *mpd.Duration { return &m.Periods[0].SegmentTemplate.TimeShiftBufferDepth },
					}
					for i, a := range []string{"A", "B", "C"} {
						doc := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="x" A><Period B><SegmentTemplate C/></Period></MPD>`
						for j, b := range []string{"A", "B", "C"} {
							v := ""
							if i == j {
								v = []string{"mediaPresentationDuration", "start", "timeShiftBufferDepth"}[i] + `="` + s + `"`
							}
							doc = strings.Replace(doc, " "+b, " "+v, 1)
						}
						m, err := mpd.ReadFromString(doc)
						t.Step(1)
						if class != 1 {
							if err == nil || m != nil {
								t.Failf("accepted", "%s is accepted at %s", doc, a)
							}
							continue
						}
						if err != nil {
							t.Failf("rejected", "%s: %v", doc, err)
							return
						}
						w, _ := ns.Float64()
						if g := get[i](m); g == nil || float64(*g) != w {
							t.Failf("value", "%s: got %v", doc, g)
						}
					}
					t.State(s)
					t.Trace()
					t.Eval(class == 1)
				})
			}
		},
	})
}
