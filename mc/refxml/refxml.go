// Package refxml is a small strict namespace-aware XML 1.0 parser. It shares no
// code with the parser under test and serves as the oracle for written
// documents: whatever it rejects is not a namespace-well-formed document.
package refxml

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	XMLNS  = "http://www.w3.org/XML/1998/namespace"
	XMLNSN = "http://www.w3.org/2000/xmlns/"
)

// Attr is an attribute with its resolved namespace.
type Attr struct {
	Prefix, Local, Space, Value string
}

// Kinds of nodes.
const (
	Elem = iota
	Text
	Comment
	PI
)

// Node is an element or a piece of content.
type Node struct {
	Kind                 int
	Prefix, Local, Space string
	Attrs                []Attr // without namespace declarations
	Decls                []Attr // namespace declarations: Local is the prefix, Value the URI
	Kids                 []*Node
	Data                 string // text, comment or PI content
	CDATA                bool
	Line                 int
}

var xmlDecl = regexp.MustCompile(`^<\?xml[ \t\r\n]+version=("1\.0"|'1\.0')([ \t\r\n]+encoding=("[Uu][Tt][Ff]-8"|'[Uu][Tt][Ff]-8'))?([ \t\r\n]+standalone=("(yes|no)"|'(yes|no)'))?[ \t\r\n]*\?>$`)

type parser struct {
	s      string
	pos    int
	skip   [][2]int // comments, instructions, document type
	keepWS bool     // do not normalize white space in attribute values
}

type perr struct{ format, msg string }

// Err is a parse error; Reason is its message without the particulars.
type Err struct{ Reason, Msg string }

func (e *Err) Error() string { return "refxml: " + e.Msg }

func (p *parser) fail(format string, a ...any) {
	panic(perr{format, fmt.Sprintf("offset %d: ", p.pos) + fmt.Sprintf(format, a...)})
}

// Parse parses a complete document and returns its root element.
func Parse(doc string) (root *Node, err error) {
	_, root, err = ParseDoc(doc)
	return
}

// ParseDoc also returns all top-level nodes.
func ParseDoc(doc string) (top []*Node, root *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				root, top, err = nil, nil, &Err{e.format, e.msg}
				return
			}
			panic(r)
		}
	}()
	if err := chars(doc); err != nil {
		return nil, nil, err
	}
	p := &parser{s: doc}
	p.s = strings.TrimPrefix(p.s, "\uFEFF")
	top, root = p.document(false)
	return top, root, nil
}

func chars(doc string) error {
	if !utf8.ValidString(doc) {
		return &Err{"invalid UTF-8", "invalid UTF-8"}
	}
	for _, r := range doc {
		if !validChar(r) {
			return &Err{"illegal character", fmt.Sprintf("illegal character %U", r)}
		}
	}
	return nil
}

// ParseRoot parses up to the end of the root element and ignores what follows.
// Other than Parse, as encoding/xml, it does not normalize white space in attribute
// values, and does not look at characters in comments and instructions.
func ParseRoot(doc string) (root *Node, err error) {
	p := &parser{s: doc, keepWS: true}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				root, err = nil, &Err{e.format, e.msg}
				// A character that is illegal anyway explains the error better.
				if ce := chars(p.kept()); ce != nil {
					err = ce
				}
				return
			}
			panic(r)
		}
	}()
	p.s = strings.TrimPrefix(p.s, "\uFEFF")
	_, root = p.document(true)
	if err := chars(p.kept()); err != nil {
		return nil, err
	}
	return root, nil
}

// kept is the parsed part without comments, instructions and the document type.
func (p *parser) kept() string {
	var sb strings.Builder
	at := 0
	for _, s := range p.skip {
		sb.WriteString(p.s[at:s[0]])
		at = s[1]
	}
	if at < p.pos {
		sb.WriteString(p.s[at:p.pos])
	}
	return sb.String()
}

func (p *parser) document(first bool) (top []*Node, root *Node) {
	if strings.HasPrefix(p.s, "<?xml") && len(p.s) > 5 && isSpace(p.s[5]) {
		i := strings.Index(p.s, "?>")
		if i < 0 {
			p.fail("unterminated XML declaration")
		}
		if !xmlDecl.MatchString(p.s[:i+2]) {
			p.fail("bad XML declaration")
		}
		p.pos = i + 2
		p.skip = append(p.skip, [2]int{0, p.pos})
	}
	for p.pos < len(p.s) {
		switch {
		case isSpace(p.s[p.pos]):
			p.pos++
		case p.has("<!--"):
			top = append(top, p.comment())
		case p.has("<?"):
			top = append(top, p.pi())
		case p.has("<!DOCTYPE"):
			if root != nil {
				p.fail("DOCTYPE after root")
			}
			p.doctype()
		case p.has("<![") || p.has("<!-"):
			p.fail("bad markup %.10q", p.s[p.pos:])
		case p.has("<!"):
			p.fail("markup declaration %.10q", p.s[p.pos:])
		case p.has("<"):
			if root != nil {
				p.fail("second root element")
			}
			root = p.element(map[string]string{"xml": XMLNS})
			top = append(top, root)
			if first {
				return top, root
			}
		default:
			p.fail("text outside the root element: %.20q", p.s[p.pos:])
		}
	}
	if root == nil {
		p.fail("no root element")
	}
	return top, root
}

func validChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func (p *parser) has(s string) bool { return strings.HasPrefix(p.s[p.pos:], s) }

func (p *parser) doctype() {
	start := p.pos
	defer func() { p.skip = append(p.skip, [2]int{start, p.pos}) }()
	depth, quote := 0, byte(0)
	for p.pos < len(p.s) {
		c := p.s[p.pos]
		p.pos++
		switch {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '"' || c == '\'':
			quote = c
		case c == '[':
			depth++
		case c == ']':
			depth--
		case c == '>' && depth == 0:
			return
		}
	}
	p.fail("unterminated DOCTYPE")
}

func (p *parser) comment() *Node {
	i := strings.Index(p.s[p.pos+4:], "--")
	if i < 0 {
		p.fail("unterminated comment")
	}
	d := p.s[p.pos+4 : p.pos+4+i]
	p.pos += 4 + i
	if !p.has("-->") {
		p.fail("-- inside comment")
	}
	p.pos += 3
	p.skip = append(p.skip, [2]int{p.pos - 3 - len(d), p.pos})
	return &Node{Kind: Comment, Data: d}
}

func (p *parser) pi() *Node {
	p.pos += 2
	t := p.ncname("PI target")
	if strings.EqualFold(t, "xml") {
		p.fail("misplaced XML declaration")
	}
	i := strings.Index(p.s[p.pos:], "?>")
	if i < 0 {
		p.fail("unterminated PI")
	}
	d := p.s[p.pos : p.pos+i]
	if d != "" && !isSpace(d[0]) {
		p.fail("PI target not followed by space")
	}
	p.pos += i + 2
	p.skip = append(p.skip, [2]int{p.pos - 2 - len(d), p.pos})
	return &Node{Kind: PI, Local: t, Data: strings.TrimLeft(d, " \t\r\n")}
}

func nameStart(r rune) bool {
	return r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 ||
		r >= 0xF8 && r <= 0x2FF || r >= 0x370 && r <= 0x37D || r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D ||
		r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF ||
		r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func nameChar(r rune) bool {
	return nameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func (p *parser) ncname(what string) string {
	st := p.pos
	for p.pos < len(p.s) {
		r, n := utf8.DecodeRuneInString(p.s[p.pos:])
		if p.pos == st && !nameStart(r) || !nameChar(r) {
			break
		}
		p.pos += n
	}
	if p.pos == st {
		p.fail("expected %s, found %.10q", what, p.s[p.pos:])
	}
	return p.s[st:p.pos]
}

func (p *parser) qname(what string) (prefix, local string) {
	n := p.ncname(what)
	if p.has(":") {
		p.pos++
		if r, _ := utf8.DecodeRuneInString(p.s[p.pos:]); nameChar(r) && !nameStart(r) {
			p.fail("bad start of local part %.10q", p.s[p.pos:])
		}
		l := p.ncname(what)
		if p.has(":") {
			p.fail("two colons in name")
		}
		return n, l
	}
	return "", n
}

func (p *parser) space() bool {
	st := p.pos
	for p.pos < len(p.s) && isSpace(p.s[p.pos]) {
		p.pos++
	}
	return p.pos > st
}

func (p *parser) ref() string {
	i := strings.IndexByte(p.s[p.pos:], ';')
	if i < 0 {
		p.fail("& without ;")
	}
	n := p.s[p.pos+1 : p.pos+i]
	p.pos += i + 1
	switch n {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "quot":
		return "\""
	case "apos":
		return "'"
	}
	var v, base rune
	d := ""
	if strings.HasPrefix(n, "#x") {
		base, d = 16, n[2:]
	} else if strings.HasPrefix(n, "#") {
		base, d = 10, n[1:]
	} else {
		p.fail("unknown entity %q", n)
	}
	if d == "" || len(d) > 8 {
		p.fail("bad character reference %q", n)
	}
	for _, c := range d {
		var x rune
		switch {
		case c >= '0' && c <= '9':
			x = c - '0'
		case base == 16 && c >= 'a' && c <= 'f':
			x = c - 'a' + 10
		case base == 16 && c >= 'A' && c <= 'F':
			x = c - 'A' + 10
		default:
			p.fail("bad character reference %q", n)
		}
		v = v*base + x
	}
	if !validChar(v) {
		if v >= 0xd800 && v <= 0xdfff {
			p.fail("character reference to surrogate")
		}
		p.fail("character reference to illegal %U", v)
	}
	return string(v)
}

func (p *parser) attval() string {
	if p.pos >= len(p.s) || p.s[p.pos] != '"' && p.s[p.pos] != '\'' {
		p.fail("attribute value not quoted")
	}
	q := p.s[p.pos]
	p.pos++
	var sb strings.Builder
	for {
		if p.pos >= len(p.s) {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.pos]
		switch {
		case c == q:
			p.pos++
			return sb.String()
		case c == '<':
			p.fail("< in attribute value")
		case c == '&':
			sb.WriteString(p.ref())
		case c == '\r':
			p.pos++
			if p.pos < len(p.s) && p.s[p.pos] == '\n' {
				p.pos++
			}
			if p.keepWS {
				sb.WriteByte('\n')
			} else {
				sb.WriteByte(' ')
			}
		case (c == '\n' || c == '\t') && !p.keepWS:
			p.pos++
			sb.WriteByte(' ')
		default:
			sb.WriteByte(c)
			p.pos++
		}
	}
}

func (p *parser) element(ns map[string]string) *Node {
	n := &Node{Kind: Elem}
	p.pos++
	n.Prefix, n.Local = p.qname("element name")
	type raw struct{ prefix, local, val string }
	var raws []raw
	seen := map[string]bool{}
	empty := false
	for {
		sp := p.space()
		if p.has("/>") {
			p.pos += 2
			empty = true
			break
		}
		if p.has(">") {
			p.pos++
			break
		}
		if p.pos >= len(p.s) {
			p.fail("unterminated start tag <%s", n.Local)
		}
		if !sp {
			p.fail("no space before attribute in <%s", n.Local)
		}
		pr, lo := p.qname("attribute name")
		q := pr + ":" + lo
		if seen[q] {
			p.fail("duplicate attribute %s in <%s", q, n.Local)
		}
		seen[q] = true
		p.space()
		if !p.has("=") {
			p.fail("attribute %s without value", lo)
		}
		p.pos++
		p.space()
		raws = append(raws, raw{pr, lo, p.attval()})
	}
	scope := ns
	for _, a := range raws {
		var pfx string
		switch {
		case a.prefix == "" && a.local == "xmlns":
			pfx = ""
		case a.prefix == "xmlns":
			pfx = a.local
			if a.val == "" {
				p.fail("prefix %s undeclared by empty namespace", pfx)
			}
			if pfx == "xmlns" {
				p.fail("prefix xmlns must not be declared")
			}
		default:
			continue
		}
		if pfx == "xml" && a.val != XMLNS || pfx != "xml" && a.val == XMLNS || a.val == XMLNSN {
			p.fail("illegal namespace binding %s=%q", pfx, a.val)
		}
		if len(scope) == len(ns) {
			c := make(map[string]string, len(ns)+2)
			for k, v := range scope {
				c[k] = v
			}
			scope = c
		}
		scope[pfx] = a.val
		n.Decls = append(n.Decls, Attr{Prefix: "xmlns", Local: pfx, Space: XMLNSN, Value: a.val})
	}
	resolve := func(prefix string, attr bool) string {
		if prefix == "" && attr {
			return ""
		}
		u, ok := scope[prefix]
		if !ok {
			if prefix == "" {
				return ""
			}
			p.fail("prefix %q not declared (element %s)", prefix, n.Local)
		}
		return u
	}
	n.Space = resolve(n.Prefix, false)
	exp := map[string]bool{}
	for _, a := range raws {
		if a.prefix == "xmlns" || a.prefix == "" && a.local == "xmlns" {
			continue
		}
		at := Attr{Prefix: a.prefix, Local: a.local, Value: a.val, Space: resolve(a.prefix, true)}
		k := at.Space + "\x00" + at.Local
		if exp[k] {
			p.fail("two attributes %s in namespace %q on <%s", at.Local, at.Space, n.Local)
		}
		exp[k] = true
		n.Attrs = append(n.Attrs, at)
	}
	if empty {
		return n
	}
	var text strings.Builder
	flush := func() {
		if text.Len() > 0 {
			n.Kids = append(n.Kids, &Node{Kind: Text, Data: text.String()})
			text.Reset()
		}
	}
	for {
		if p.pos >= len(p.s) {
			p.fail("element <%s> not closed", n.Local)
		}
		c := p.s[p.pos]
		switch {
		case p.has("</"):
			flush()
			p.pos += 2
			pr, lo := p.qname("end tag name")
			p.space()
			if !p.has(">") {
				p.fail("bad end tag </%s", lo)
			}
			p.pos++
			if pr != n.Prefix || lo != n.Local {
				p.fail("<%s:%s> closed by </%s:%s>", n.Prefix, n.Local, pr, lo)
			}
			return n
		case p.has("<!--"):
			flush()
			n.Kids = append(n.Kids, p.comment())
		case p.has("<![CDATA["):
			i := strings.Index(p.s[p.pos:], "]]>")
			if i < 0 {
				p.fail("unterminated CDATA")
			}
			text.WriteString(normNL(p.s[p.pos+9 : p.pos+i]))
			p.pos += i + 3
		case p.has("<![") || p.has("<!-"):
			p.fail("bad markup %.10q", p.s[p.pos:])
		case p.has("<!"):
			p.fail("markup declaration %.10q", p.s[p.pos:])
		case p.has("<?"):
			flush()
			n.Kids = append(n.Kids, p.pi())
		case c == '<':
			flush()
			n.Kids = append(n.Kids, p.element(scope))
		case c == '&':
			text.WriteString(p.ref())
		case p.has("]]>"):
			p.fail("]]> in text")
		case c == '\r':
			p.pos++
			if p.pos < len(p.s) && p.s[p.pos] == '\n' {
				p.pos++
			}
			text.WriteByte('\n')
		default:
			text.WriteByte(c)
			p.pos++
		}
	}
}

func normNL(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// Elems returns the child elements.
func (n *Node) Elems() []*Node {
	var out []*Node
	for _, k := range n.Kids {
		if k.Kind == Elem {
			out = append(out, k)
		}
	}
	return out
}

// Text returns the concatenated direct text.
func (n *Node) Text() string {
	var sb strings.Builder
	for _, k := range n.Kids {
		if k.Kind == Text {
			sb.WriteString(k.Data)
		}
	}
	return sb.String()
}

// Attr returns an attribute value.
func (n *Node) Attr(space, local string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Space == space && a.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

// Canon is a canonical dump of the element: expanded names, sorted attributes,
// direct text (white space only text is dropped next to child elements when
// ws is false) and children in order.
func (n *Node) Canon(ws bool) string {
	var sb strings.Builder
	n.canon(&sb, ws)
	return sb.String()
}

func (n *Node) canon(sb *strings.Builder, ws bool) {
	fmt.Fprintf(sb, "<{%s}%s", n.Space, n.Local)
	as := append([]Attr(nil), n.Attrs...)
	sort.Slice(as, func(i, j int) bool {
		if as[i].Space != as[j].Space {
			return as[i].Space < as[j].Space
		}
		return as[i].Local < as[j].Local
	})
	for _, a := range as {
		fmt.Fprintf(sb, " {%s}%s=%q", a.Space, a.Local, a.Value)
	}
	sb.WriteByte('>')
	hasElem := len(n.Elems()) > 0
	for _, k := range n.Kids {
		switch k.Kind {
		case Elem:
			k.canon(sb, ws)
		case Text:
			if ws || !hasElem || strings.TrimLeft(k.Data, " \t\r\n") != "" {
				fmt.Fprintf(sb, "%q", k.Data)
			}
		}
	}
	sb.WriteString("</>")
}
