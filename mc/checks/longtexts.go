package checks

import (
	"fmt"
	"strings"

	"verifmc/core"

	stdxml "encoding/xml"

	"github.com/Eyevinn/dash-mpd/xml"
)

// sizesAround lists the sizes around powers of two in a range of bits, with
// all sizes closer than near to one of them.
func sizesAround(lo, hi, near int) (l []int) {
	for b := lo; b <= hi; b++ {
		for d := -near; d <= near; d++ {
			if n := 1<<b + d; n > 0 && (len(l) == 0 || n > l[len(l)-1]) {
				l = append(l, n)
			}
		}
	}
	return l
}

// longTexts covers tokens of all sizes around powers of two with a special
// piece at their beginning, in their middle and at their end.
func longTexts(c *core.Ctx) {
	contexts := []struct {
		name string
		w    [2]string
	}{
		{"content", [2]string{"<r>", "</r>"}},
		{"attribute", [2]string{"<r b='1' a=\"", "\" c='2'/>"}},
		{"attribute in single quotes", [2]string{"<r a='", "'/>"}},
		{"CDATA", [2]string{"<r>x<![CDATA[", "]]>y</r>"}},
		{"comment", [2]string{"<r><!--", "--></r>"}},
		{"instruction", [2]string{"<r><?p ", "?></r>"}},
		{"directive", [2]string{"<!DOCTYPE r", "><r/>"}},
		{"element name", [2]string{"<r", "/>"}},
		{"prefix", [2]string{"<r xmlns:p", "='u'/>"}},
		{"start tag", [2]string{"<r", "></r>"}},
		{"end tag", [2]string{"<r></r", ">"}},
		{"reference", [2]string{"<r>&", ";</r>"}},
	}
	fillers := []string{"x", "é", "1 ", "\n", "&lt;", "€"}
	items := []string{"", "\x01", "\xff", "\xe2\x82", "]]>", "]]&gt;", "&no;", "&#0;", "&#xD800;", "\r\n", "\r", "\uFFFE", "&amp;", "<", ">", "--", "?", "\"", "'", "\t", "\U00010000"}
	sizes := sizesAround(c.Pick(5, 4), 13, c.Pick(1, 4))
	if c.Thorough() {
		sizes = append(sizes, sizesAround(14, 17, 2)...)
	} else {
		sizes = append(sizes, 16384, 65536, 65537)
	}
	for _, ctx := range contexts {
		for _, n := range sizes {
			c.Case(func() string { return fmt.Sprintf("%d bytes in %s", n, ctx.name) }, func(t *core.T) {
				var d core.Distinct
				for fi, f := range fillers {
					if (fi > 2 || n > 5000 && fi > 0) && !c.Thorough() && n > 600 {
						break
					}
					for _, it := range items {
						for pos := 0; pos < 5; pos++ {
							if it == "" && pos > 0 {
								break
							}
							k := (n - len(it)) / len(f)
							if k < 1 {
								continue
							}
							var a, b int
							switch pos {
							case 0:
								a = 0
							case 1:
								a = k / 2
							case 2:
								a = k
							case 3:
								a = k - 1
							case 4:
								a = 1
							}
							b = k - a
							pad := n - len(it) - k*len(f)
							s := ctx.w[0] + strings.Repeat("y", pad) + strings.Repeat(f, a) + it + strings.Repeat(f, b) + ctx.w[1]
							d.Add(s)
							t.Eval(decodeText(t, s, false))
							if t.Failed() {
								return
							}
						}
					}
				}
				t.CountStates(&d)
			})
		}
	}
	// Sequences of tokens of several sizes.
	type piece struct{ kind, n int }
	var ps []piece
	for kind := 0; kind < 6; kind++ {
		for _, n := range []int{0, 1, 63, 65, 1025, 5000} {
			ps = append(ps, piece{kind, n})
		}
	}
	render := func(sb *strings.Builder, p piece, ch byte) {
		x := strings.Repeat(string(ch), p.n)
		switch p.kind {
		case 0:
			sb.WriteString(x)
		case 1:
			sb.WriteString("<e a='" + x + "' b='" + x + "'/>")
		case 2:
			sb.WriteString("<![CDATA[" + x + "]]>")
		case 3:
			sb.WriteString("<!--" + x + "-->")
		case 4:
			sb.WriteString("<n" + x + " a" + x + "='1'></n" + x + ">")
		case 5:
			sb.WriteString("<?p " + x + "?>")
		}
	}
	for _, p := range ps {
		c.Case(func() string { return fmt.Sprintf("tokens, first %v", p) }, func(t *core.T) {
			var d core.Distinct
			for _, q := range ps {
				for _, r := range ps {
					if !c.Thorough() && q.n+r.n+p.n > 6000 {
						continue
					}
					var sb strings.Builder
					sb.WriteString("<r>")
					render(&sb, p, 'p')
					render(&sb, q, 'q')
					render(&sb, r, 'r')
					sb.WriteString("</r>")
					d.Add(sb.String())
					t.Eval(decodeText(t, sb.String(), false))
					if t.Failed() {
						return
					}
				}
			}
			t.CountStates(&d)
		})
	}
	manyNames(c)
	spaces(c)
}

// manyNames covers documents with many names that differ in one place.
func manyNames(c *core.Ctx) {
	counts := append([]int{1, 2, 3, 5, 9, 17, 33}, sizesAround(6, c.Pick(12, 14), 2)...)
	for _, n := range counts {
		for kind := 0; kind < 5; kind++ {
			c.Case(func() string { return fmt.Sprintf("%d names of kind %d", n, kind) }, func(t *core.T) {
				name := func(i int) string { return fmt.Sprintf("name%05d", i) }
				var sb strings.Builder
				sb.WriteString("<root>")
				put := func(s string) {
					switch kind {
					case 0:
						sb.WriteString("<" + s + "/>")
					case 1:
						sb.WriteString("<e " + s + "='1'/>")
					case 2:
						sb.WriteString("<" + s + ":e xmlns:" + s + "='u" + s + "' " + s + ":a='1'/>")
					case 3:
						sb.WriteString("<?" + s + " x?>")
					case 4:
						sb.WriteString("<" + s + ">" + s + "</" + s + ">")
					}
				}
				for i := 0; i < n; i++ {
					put(name(i))
				}
				// Names that are close to earlier ones, and earlier ones again.
				for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
					if i < 0 {
						continue
					}
					s := name(i)
					for j := range s {
						for _, ch := range "ANz9" {
							if j == 0 && ch == '9' {
								continue
							}
							put(s[:j] + string(ch) + s[j+1:])
						}
						if j > 0 {
							put(s[:j])
							put(s[:j] + s[j+1:])
						}
						put(s[:j] + "n" + s[j:])
					}
					put(s)
				}
				for i := 0; i < n; i += 1 + n/50 {
					put(name(i))
				}
				sb.WriteString("</root>")
				t.State(fmt.Sprint(n, kind))
				t.Eval(decodeText(t, sb.String(), n < 70))
			})
		}
	}
}

// spaces covers the default namespace of the application with declarations
// that set and take back the default namespace.
func spaces(c *core.Ctx) {
	alpha := []string{"<a>", "</a>", "<a xmlns='u'>", "<a xmlns=''>", "<p:a xmlns:p='q'>", "</p:a>", "<a xmlns='urn:d' x='1' p:x='2'/>"}
	set := func(name string) (func(d *xml.Decoder), func(d *stdxml.Decoder)) {
		return func(d *xml.Decoder) { d.DefaultSpace = name }, func(d *stdxml.Decoder) { d.DefaultSpace = name }
	}
	for _, space := range []string{"", "urn:d", "u", "p"} {
		sa, sb := set(space)
		for _, first := range alpha {
			for _, second := range alpha {
				c.Case(func() string { return fmt.Sprintf("default space %q, texts from %q", space, first+second) }, func(t *core.T) {
					var d core.Distinct
					var rec func(p string, n int)
					rec = func(p string, n int) {
						d.Add(p)
						want := stdTrace(p, false, sb)
						got := trace(strings.NewReader(p), false, sa)
						t.Step(2)
						t.Trace()
						t.Eval(got.err == nil || len(got.toks) > 1)
						w := ""
						for _, s := range want.steps {
							w += fmt.Sprintf("%s@%d:%d:%d ", s.desc, s.off, s.line, s.col)
						}
						g := strings.Join(got.toks[:len(got.toks)-1], " ")
						if strings.TrimSpace(w) != g {
							t.Failf("token", "default space %q: %q gives %s %v, encoding/xml %s %v", space, p, g, got.err, w, want.err)
							return
						}
						if n == 0 || want.err != nil && !strings.Contains(want.err.Error(), "unexpected EOF") {
							return
						}
						for _, x := range alpha {
							rec(p+x, n-1)
							if t.Failed() {
								return
							}
						}
					}
					rec(first+second, c.Pick(4, 5))
					t.CountStates(&d)
				})
			}
		}
	}
}

// longDamage covers damage in and behind long parts of a manifest.
func longDamage(c *core.Ctx) {
	places := []struct {
		name string
		w    [2]string
		attr bool
	}{
		{"Location", [2]string{"<MPD><Location>", "</Location></MPD>"}, false},
		{"CDATA", [2]string{"<MPD><Location><![CDATA[", "]]></Location></MPD>"}, false},
		{"comment", [2]string{"<MPD><!--", "--><Location>l</Location></MPD>"}, false},
		{"profiles", [2]string{"<MPD profiles=\"", "\"><Period/></MPD>"}, true},
		{"serviceLocation", [2]string{"<MPD><BaseURL serviceLocation='", "'>b</BaseURL></MPD>"}, true},
		{"between elements", [2]string{"<MPD><Period>", "</Period></MPD>"}, false},
		{"unknown element", [2]string{"<MPD><x><y>", "</y></x><Period/></MPD>"}, false},
		{"unknown attribute", [2]string{"<MPD><Period z='", "'/></MPD>"}, true},
		{"instruction", [2]string{"<?p ", "?><MPD/>"}, false},
		{"event", [2]string{"<MPD><Period><EventStream><Event>", "</Event></EventStream></Period></MPD>"}, false},
	}
	fill := []string{"x", "é ", "<S/>", "<a b='c'>d</a>", "&amp;", "<![CDATA[z]]>"}
	damages := []string{"", "\x01", "\xff", "\xe2\x82", "]]>", "&no;", "&", "&#0;", "<", "<a>", "</a>", "</MPD>", "<a b='1' b2=2/>", "<a b='\x02'/>", "\uFFFF", "--", "\""}
	sizes := sizesAround(5, c.Pick(13, 16), c.Pick(1, 3))
	sizes = append(sizes, 65536)
	for _, pl := range places {
		for _, n := range sizes {
			c.Case(func() string { return fmt.Sprintf("damage in %d bytes of %s", n, pl.name) }, func(t *core.T) {
				var d core.Distinct
				for fi, f := range fill {
					if pl.attr && strings.Contains(f, "<") || n > 9000 && fi > 2 && !c.Thorough() {
						continue
					}
					k := n / len(f)
					for _, dam := range damages {
						for pos := 0; pos < 4; pos++ {
							a := []int{0, k / 2, k, k - 1}[pos]
							doc := pl.w[0] + strings.Repeat(f, a) + dam + strings.Repeat(f, k-a) + pl.w[1]
							d.Add(doc)
							t.Eval(damageRead(t, doc, n < 300))
							if t.Failed() {
								return
							}
							if dam == "" {
								break
							}
						}
					}
					// Behind it.
					for _, tail := range []string{"", "</MPD>", "<", "<MPD/>", "&", "\x01", "x", "</x>"} {
						for cut := 0; cut < len(pl.w[1]); cut++ {
							if tail != "" && cut > 0 {
								break
							}
							doc := pl.w[0] + strings.Repeat(f, k) + pl.w[1][:len(pl.w[1])-cut] + tail
							d.Add(doc)
							t.Eval(damageRead(t, doc, n < 300))
							if t.Failed() {
								return
							}
						}
					}
				}
				t.CountStates(&d)
			})
		}
	}
}
