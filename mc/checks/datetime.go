package checks

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"verifmc/core"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// Independent proleptic Gregorian calendar, by counting.
func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

var monthLen = [12]int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func mlen(y int64, m int) int64 {
	if m == 1 && leap(y) {
		return 29
	}
	return monthLen[m]
}

// yearStart[y] is the number of days from 1970-01-01 to the first day of the year.
var yearStart = func() []int64 {
	ys := make([]int64, 10002)
	d := int64(0)
	for y := int64(1970); y <= 10000; y++ {
		ys[y] = d
		d += 365
		if leap(y) {
			d++
		}
	}
	ys[10001] = d
	d = 0
	for y := int64(1969); y >= 0; y-- {
		d -= 365
		if leap(y) {
			d--
		}
		ys[y] = d
	}
	return ys
}()

func floorDiv(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r < 0 {
		q--
		r += b
	}
	return
}

// refDateTime writes the UTC date-time of ms milliseconds since 1970.
func refDateTime(ms int64) string {
	sec, frac := floorDiv(ms, 1000)
	day, s := floorDiv(sec, 86400)
	// Search the year.
	lo, hi := 0, 10000
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if yearStart[mid] <= day {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	y := int64(lo)
	d := day - yearStart[lo]
	m := 0
	for d >= mlen(y, m) {
		d -= mlen(y, m)
		m++
	}
	out := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m+1, d+1, s/3600, s/60%60, s%60)
	if frac != 0 {
		out += strings.TrimRight(fmt.Sprintf(".%03d", frac), "0")
	}
	return out + "Z"
}

func near(got float64, want *big.Rat) bool {
	w, _ := want.Float64()
	if got == w {
		return true
	}
	ulp := math.Nextafter(math.Abs(w), math.Inf(1)) - math.Abs(w)
	return math.Abs(got-w) <= max(ulp, 0x1p-52)
}

func init() {
	register(&core.Check{
		ID:     "C12",
		Rule:   "one case per chunk of instants or texts; every conversion is compared with an independent calendar computed by counting days; all count",
		Bounds: "every day from year 1 to 9999 at 5 instants, every second and millisecond around selected boundaries, float seconds at ms, us and ns fractions, all zone offsets to 14 h, all fraction lengths to 9 digits, invalid dates of every kind, all combinations for absolute starts",
		Run: func(c *core.Ctx) {
			minS, maxS := yearStart[1]*86400, yearStart[10000]*86400-1
			check := func(t *core.T, ms int64) {
				want := refDateTime(ms)
				if got := string(mpd.ConvertToDateTimeMS(ms)); got != want {
					t.Failf("ms", "ConvertToDateTimeMS(%d) = %s, want %s", ms, got, want)
					return
				}
				dt := mpd.DateTime(want)
				back, err := dt.ConvertToSeconds()
				if err != nil || !near(back, big.NewRat(ms, 1000)) {
					t.Failf("back", "DateTime(%s).ConvertToSeconds() = %v, %v, want %d ms", want, back, err, ms)
					return
				}
				if ms%1000 == 0 {
					s := ms / 1000
					if back != float64(s) {
						t.Failf("backs", "DateTime(%s).ConvertToSeconds() = %v, want %d", want, back, s)
						return
					}
					if got := string(mpd.ConvertToDateTimeS(s)); got != want {
						t.Failf("s", "ConvertToDateTimeS(%d) = %s, want %s", s, got, want)
						return
					}
					if got := string(mpd.ConvertToDateTime(float64(s))); got != want {
						t.Failf("f", "ConvertToDateTime(%d) = %s, want %s", s, got, want)
					}
				}
			}
			chunk := func(name string, from, to, step int64, offs ...int64) {
				const n = 4000
				for s := from; s <= to; s += n * step {
					s := s
					c.Case(func() string { return fmt.Sprintf("%s from %d ms", name, s) }, func(t *core.T) {
						k := 0
						var ds core.Distinct
						for i := int64(0); i < n && s+i*step <= to && !t.Failed(); i++ {
							for _, o := range offs {
								ms := s + i*step + o
								if ms < minS*1000 || ms > maxS*1000+999 {
									continue
								}
								k++
								check(t, ms)
								ds.Add(fmt.Sprint(ms))
							}
						}
						t.CountStates(&ds)
						t.Step(4 * k)
						t.Trace()
						t.Eval(k > 0)
					})
				}
			}
			chunk("days", minS*1000, maxS*1000, 86400000, 0, 999, 86399000, 86399999, 43200001)
			for _, y := range []int{1, 2, 4, 5, 99, 100, 101, 400, 999, 1000, 1582, 1600, 1677, 1678, 1700, 1899, 1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2016, 2024, 2038, 2100, 2106, 2261, 2262, 2263, 2400, 4000, 9998, 9999} {
				b := yearStart[y] * 86400000
				chunk(fmt.Sprintf("ms around year %d", y), b-3000, b+3000, 1, 0)
				chunk(fmt.Sprintf("s around year %d", y), b-100000_000, b+100000_000, 1000, 0)
				feb := b + 58*86400000
				chunk(fmt.Sprintf("february %d", y), feb-2000, feb+2*86400000+2000, 997, 0, 1)
			}
			for _, s := range []int64{math.MinInt32, math.MaxInt32, math.MaxUint32, 1 << 33, -(1 << 33), 9223372036, -9223372036, 9223372037, -9223372037, 1e9, 1e10, 1e11, 253402300799} {
				chunk(fmt.Sprintf("ms around %d", s), s*1000-3000, s*1000+3000, 1, 0)
			}
			// Fractional seconds.
			for _, base := range []int64{0, 1, 59, 60, 86399, 86400, 1700000000, 4102444800, 9223372036, 9223372037, 100000000000, 253402300798, -1, -2, -86400, -62135596800 + 1, -11644473600} {
				base := base
				c.Case(func() string { return fmt.Sprintf("fractions at %d s", base) }, func(t *core.T) {
					var ds core.Distinct
					k := 0
					try := func(f float64) {
						k++
						x := new(big.Rat).SetFloat64(f)
						x.Mul(x, big.NewRat(1000, 1))
						lo := ratFloor(x)
						hi := ratFloor(new(big.Rat).Add(x, big.NewRat(1, 1000000)))
						got := string(mpd.ConvertToDateTime(f))
						if got != refDateTime(lo) && got != refDateTime(hi) {
							t.Failf("float", "ConvertToDateTime(%v) = %s, want %s", f, got, refDateTime(lo))
						}
						ds.Add(got)
					}
					for i := 0; i < 10000 && !t.Failed(); i++ {
						try(float64(base) + float64(i)/10000)
						try(float64(base) + float64(i)/8192)
						try(float64(base) + float64(i)/1e6)
						try(float64(base) + float64(i)/1e9)
					}
					v := float64(base)
					for i := 0; i < 100; i++ {
						try(v)
						v = math.Nextafter(v, math.Inf(1))
					}
					v = float64(base)
					for i := 0; i < 100; i++ {
						if v > -62135596800 {
							try(v)
						}
						v = math.Nextafter(v, math.Inf(-1))
					}
					t.CountStates(&ds)
					t.Step(k)
					t.Trace()
					t.Eval(true)
				})
			}
			// Texts: zone offsets and fractions.
			stamps := []struct {
				s  string
				at int64
			}{{"1970-01-01T00:00:00", 0}, {"2000-02-29T23:59:59", yearStart[2000]*86400 + 60*86400 - 1}, {"1969-12-31T23:59:59", -1}, {"2024-12-31T12:34:56", yearStart[2025]*86400 - 86400 + 12*3600 + 34*60 + 56},
				{"0001-01-02T00:00:00", minS + 86400}, {"9999-12-30T00:00:00", maxS + 1 - 2*86400}, {"2262-04-11T23:47:17", 9223372037}, {"1600-03-01T10:00:01", yearStart[1600]*86400 + 60*86400 + 36001}}
			for _, st := range stamps {
				st := st
				c.Case(func() string { return "zones of " + st.s }, func(t *core.T) {
					k := 0
					var ds core.Distinct
					for off := -14 * 60; off <= 14*60; off++ {
						sign, a := "+", off
						if off < 0 {
							sign, a = "-", -off
						}
						for _, fr := range []string{"", ".5", ".001", ".999999999"} {
							s := fmt.Sprintf("%s%s%s%02d:%02d", st.s, fr, sign, a/60, a%60)
							want := new(big.Rat).SetInt64(st.at - int64(off)*60)
							if fr != "" {
								f, _ := new(big.Rat).SetString("0" + fr)
								want.Add(want, f)
							}
							k++
							g, err := mpd.DateTime(s).ConvertToSeconds()
							if err != nil || !near(g, want) {
								t.Failf("zone", "DateTime(%s).ConvertToSeconds() = %v, %v, want %s", s, g, err, want.FloatString(9))
								return
							}
							ds.Add(s)
						}
					}
					for n := 1; n <= 9; n++ {
						for _, dg := range []string{"0", "1", "5", "9"} {
							for pos := 0; pos < n; pos++ {
								fr := strings.Repeat("0", pos) + dg + strings.Repeat("0", n-1-pos)
								full := strings.Repeat(dg, n)
								for _, f := range []string{fr, full} {
									s := st.s + "." + f + "Z"
									want, _ := new(big.Rat).SetString("0." + f)
									want.Add(want, new(big.Rat).SetInt64(st.at))
									k++
									g, err := mpd.DateTime(s).ConvertToSeconds()
									if err != nil || !near(g, want) {
										t.Failf("fraction", "DateTime(%s).ConvertToSeconds() = %v, %v, want %s", s, g, err, want.FloatString(12))
										return
									}
								}
							}
						}
					}
					t.CountStates(&ds)
					t.Step(k)
					t.Trace()
					t.Eval(true)
				})
			}
			// Invalid texts.
			for y := 1; y <= 2100; y += 1 {
				if y > 12 && y < 1890 && y%100 > 4 {
					continue
				}
				y := y
				c.Case(func() string { return fmt.Sprintf("days of year %d", y) }, func(t *core.T) {
					for m := 0; m <= 13; m++ {
						for d := int64(0); d <= 32; d++ {
							s := fmt.Sprintf("%04d-%02d-%02dT01:02:03Z", y, m, d)
							g, err := mpd.DateTime(s).ConvertToSeconds()
							t.Step(1)
							ok := m >= 1 && m <= 12 && d >= 1 && d <= mlen(int64(y), m-1)
							if ok != (err == nil) {
								t.Failf("valid", "DateTime(%s).ConvertToSeconds() = %v, %v", s, g, err)
								return
							}
							if !ok && g != 0 {
								t.Failf("value", "DateTime(%s).ConvertToSeconds() = %v with %v", s, g, err)
								return
							}
							if ok {
								day := yearStart[y] + d - 1
								for i := 0; i < m-1; i++ {
									day += mlen(int64(y), i)
								}
								if g != float64(day*86400+3723) {
									t.Failf("day", "DateTime(%s).ConvertToSeconds() = %v", s, g)
									return
								}
							}
						}
					}
					t.State(fmt.Sprint(y))
					t.Trace()
					t.Eval(true)
				})
			}
			bad := []string{"", "x", "2024", "2024-01-01", "2024-01-01T", "2024-01-01T00:00Z", "2024-01-01T00:00:60Z", "2024-01-01T00:60:00Z", "2024-01-01T25:00:00Z", "2024-01-01 00:00:00Z", "2024-1-1T00:00:00Z", "24-01-01T00:00:00Z",
				"2024-01-01T00:00:00+1:00", "2024-01-01T00:00:00ZZ", "2024-01-01T00:00:00Z ", " 2024-01-01T00:00:00Z", "2024-01-01T00:00:00.Z", "2024/01/01T00:00:00Z", "+2024-01-01T00:00:00Z", "PT1S", "2024-01-01T00:00:00+01", "1700000000"}
			type sh struct {
				name     string
				start    *mpd.Duration
				prev     *mpd.Duration
				prevd    *mpd.Duration
				two      bool
				dyn      bool
				noParent bool
				want     int64
				ok       bool
			}
			shapes := []sh{{name: "own start", start: dur(10e9), want: 10e9, ok: true}, {name: "own zero start", start: dur(0), ok: true}, {name: "start in ns", start: dur(1_234_567_891), want: 1_234_567_891, ok: true},
				{name: "long start", start: dur(3600e9 * 24 * 365 * 60), want: 3600e9 * 24 * 365 * 60, ok: true}, {name: "dynamic own start", start: dur(7e9), dyn: true, want: 7e9, ok: true},
				{name: "first of static", ok: true}, {name: "first of dynamic", dyn: true}, {name: "after previous", two: true, prev: dur(5e9), prevd: dur(6e9), dyn: true, want: 11e9, ok: true},
				{name: "after previous without start", two: true, prevd: dur(6e9), want: 6e9, ok: true}, {name: "after previous without duration", two: true, prev: dur(1e9)}, {name: "no parent", noParent: true}, {name: "no parent but start", noParent: true, start: dur(1e9)}}
			for _, s := range shapes {
				for _, ast := range append([]string{"1970-01-01T00:00:00Z", "1969-12-31T23:59:59.5Z", "2024-02-29T12:00:00.25+02:00", "2300-01-01T00:00:00Z", "1600-01-01T00:00:00Z"}, bad...) {
					s, ast := s, ast
					c.Case(func() string { return fmt.Sprintf("absolute start, %s, availability start %q", s.name, ast) }, func(t *core.T) {
						typ := "static"
						if s.dyn {
							typ = "dynamic"
						}
						m := mpd.NewMPD(typ)
						m.AvailabilityStartTime = mpd.DateTime(ast)
						p := mpd.NewPeriod()
						p.Start = s.start
						if s.two {
							q := mpd.NewPeriod()
							q.Start, q.Duration = s.prev, s.prevd
							m.AppendPeriod(q)
						}
						if !s.noParent {
							m.AppendPeriod(p)
						}
						g, err := p.AbsoluteStart(m)
						t.Step(1)
						as, aerr := mpd.DateTime(ast).ConvertToSeconds()
						isBad := false
						for _, b := range bad {
							isBad = isBad || b == ast
						}
						if isBad != (aerr != nil) {
							t.Failf("invalid", "DateTime(%q).ConvertToSeconds() = %v, %v", ast, as, aerr)
							return
						}
						if ok := s.ok && !isBad; ok != (err == nil) {
							t.Failf("error", "AbsoluteStart = %v, %v", g, err)
							return
						}
						if err == nil {
							w := new(big.Rat).SetFloat64(as)
							w.Add(w, big.NewRat(s.want, 1e9))
							if !near(g, w) {
								t.Failf("sum", "AbsoluteStart = %v, want %s", g, w.FloatString(9))
							}
						} else if g != 0 {
							t.Failf("value", "AbsoluteStart = %v with error %v", g, err)
						}
						t.State(s.name, ast)
						t.Trace()
						t.Eval(s.ok && !isBad)
					})
				}
			}
		},
	})
}

func ratFloor(x *big.Rat) int64 {
	q, m := new(big.Int).DivMod(x.Num(), x.Denom(), new(big.Int))
	_ = m
	return q.Int64()
}

func dur(ns int64) *mpd.Duration { d := mpd.Duration(ns); return &d }
