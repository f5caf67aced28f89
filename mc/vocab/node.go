package vocab

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/refxml"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// Builder makes specification nodes.
type Builder struct {
	V      *Vocab
	SCTENS string // namespace used for captured kinds
	n      int
}

// NewBuilder returns a builder over the frozen vocabulary.
func NewBuilder() *Builder { return &Builder{V: Load(), SCTENS: SCTE} }

// Root returns a minimal MPD node.
func (b *Builder) Root() *Node {
	n := &Node{Kind: "MPD", NS: DASH, Local: "MPD"}
	b.required(n)
	return n
}

func (b *Builder) required(n *Node) {
	k := b.V.Kinds[n.Kind]
	for i := range k.Attrs {
		if k.Attrs[i].Always {
			b.SetAttr(n, &k.Attrs[i], Default(k.Attrs[i].Type, i))
		}
	}
}

// SetAttr sets an attribute from the vocabulary.
func (b *Builder) SetAttr(n *Node, a *Attr, val string) {
	if a.Local == "xmlns" && a.NS == "" {
		return // the namespace declaration is the serializer's job
	}
	for i := range n.Attrs {
		if n.Attrs[i].NS == a.NS && n.Attrs[i].Local == a.Local {
			n.Attrs[i].Value = val
			return
		}
	}
	n.Attrs = append(n.Attrs, NAttr{NS: a.NS, Prefix: a.Prefix, Local: a.Local, Value: val, Spec: a})
}

// SetForeign sets an attribute outside of the vocabulary.
func (n *Node) SetForeign(ns, prefix, local, val string) {
	n.Attrs = append(n.Attrs, NAttr{NS: ns, Prefix: prefix, Local: local, Value: val})
}

// NewKid makes a minimal child node for the edge under the parent.
func (b *Builder) NewKid(parent *Node, kid *Kid) *Node {
	n := &Node{Kind: kid.Kind, Local: kid.Local, Kid: kid}
	pk := b.V.Kinds[parent.Kind]
	switch {
	case kid.NS != "":
		n.NS, n.Prefix = kid.NS, kid.Prefix
	case pk.Captured:
		n.NS, n.Prefix = parent.NS, parent.Prefix
	case b.V.Kinds[kid.Kind].Captured:
		n.NS = b.SCTENS
	default:
		n.NS = DASH
	}
	b.required(n)
	if kid.Kind[0] == '#' {
		n.Items = []Item{{Text: "t"}}
	}
	return n
}

// Add appends a child.
func (n *Node) Add(k *Node) *Node {
	n.Items = append(n.Items, Item{Node: k})
	return k
}

// AddText appends text.
func (n *Node) AddText(s string) { n.Items = append(n.Items, Item{Text: s}) }

// Doc builds the chain of nodes along a path and returns the root and the last node.
func (b *Builder) Doc(path []Edge) (root, last *Node) {
	root = b.Root()
	last = root
	for i := range path {
		last = last.Add(b.NewKid(last, &path[i].Kid))
	}
	return
}

// Saturate sets all attributes and text with values varied by seed.
func (b *Builder) Saturate(n *Node, seed int) {
	k := b.V.Kinds[n.Kind]
	for i := range k.Attrs {
		b.SetAttr(n, &k.Attrs[i], Default(k.Attrs[i].Type, seed+i))
	}
	if k.Text != "" && n.Kind[0] != '#' && k.TextType != "" {
		n.AddText(Default(k.TextType, seed))
	}
}

// Full saturates n and adds all children down to the depth.
func (b *Builder) Full(n *Node, depth, seed int) {
	k := b.V.Kinds[n.Kind]
	b.Saturate(n, seed)
	if depth == 0 || n.Mixed(b.V) {
		return
	}
	for i := range k.Kids {
		c := n.Add(b.NewKid(n, &k.Kids[i]))
		b.Full(c, depth-1, seed+i)
		if k.Kids[i].Multi {
			c := n.Add(b.NewKid(n, &k.Kids[i]))
			b.Full(c, depth-1, seed+i+7)
		}
	}
}

// Mixed reports that the kind allows both text and children and n has text.
func (n *Node) Mixed(v *Vocab) bool {
	if len(v.Kinds[n.Kind].Kids) == 0 {
		return false
	}
	for _, it := range n.Items {
		if it.Node == nil && it.Text != "" {
			return true
		}
	}
	return false
}

// HasMixed reports mixed content anywhere (text with child elements).
func (n *Node) HasMixed() bool {
	t, e := false, false
	for _, it := range n.Items {
		if it.Node == nil {
			t = t || it.Text != ""
		} else {
			e = true
			if it.Node.HasMixed() {
				return true
			}
		}
	}
	return t && e
}

// Style selects the presentation of a document.
type Style struct {
	DashPrefix  string // "" for the default namespace
	OtherNS     string // default namespace on the root, if DashPrefix is set
	RootDecls   bool   // declare foreign prefixes on the root
	SCTEPrefix  string // "" for a default namespace declaration
	Rename      bool   // use other prefixes than the customary ones
	Single      bool   // single quotes
	Reverse     bool   // reverse attribute order
	CharRefs    int    // 0 named entities, 1 decimal, 2 hexadecimal, 3..5 escape every char (hexadecimal; padded upper case; padded decimal)
	CDATA       bool   // text as CDATA where possible
	SelfClose   bool   // <a/> for empty elements
	Space       string // white space between elements (element-only content)
	TagSpace    string // white space inside tags
	Header      string // before the root
	Trailer     string // after the root
	Comments    string // inserted around children (comment or PI)
	SplitText   string // inserted in the middle of texts (comment or PI)
	Unknown     string // raw unknown element inserted in element-only content
	UnknownAttr string // raw unknown attribute inserted into start tags
	DeclsFirst  bool
	CRLF        bool // line ends written as CR LF
}

type ser struct {
	st Style
	sb strings.Builder
	v  *Vocab
}

// Serialize writes the document in the given style.
func (b *Builder) Serialize(n *Node, st Style) string {
	s := &ser{st: st, v: b.V}
	s.sb.WriteString(st.Header)
	s.node(n, map[string]string{}, true)
	s.sb.WriteString(st.Trailer)
	if st.CRLF {
		return strings.ReplaceAll(s.sb.String(), "\n", "\r\n")
	}
	return s.sb.String()
}

func (s *ser) prefixFor(ns, pref string) string {
	switch {
	case ns == DASH:
		return s.st.DashPrefix
	case ns == SCTE || ns == SCTE16:
		return s.st.SCTEPrefix
	case s.st.Rename:
		return "q" + strconv.Itoa(len(ns))
	case pref == "":
		return "ext"
	}
	return pref
}

func (s *ser) foreign(n *Node, m map[string]string) {
	if n.NS != DASH && n.NS != SCTE && n.NS != SCTE16 {
		m[s.prefixFor(n.NS, n.Prefix)] = n.NS
	}
	for _, a := range n.Attrs {
		if a.NS != "" {
			m[s.prefixFor(a.NS, a.Prefix)] = a.NS
		}
	}
	for _, it := range n.Items {
		if it.Node != nil {
			s.foreign(it.Node, m)
		}
	}
}

func (s *ser) node(n *Node, scope map[string]string, root bool) {
	decl := map[string]string{}
	need := func(p, ns string) {
		if scope[p] != ns {
			decl[p] = ns
		}
	}
	if root && s.st.RootDecls {
		f := map[string]string{}
		s.foreign(n, f)
		for p, u := range f {
			// An ambiguous prefix is declared locally instead.
			if p != "" {
				decl[p] = u
			}
		}
	}
	p := s.prefixFor(n.NS, n.Prefix)
	need(p, n.NS)
	if root && p != "" && s.st.OtherNS != "" {
		decl[""] = s.st.OtherNS
	}
	for _, a := range n.Attrs {
		if a.NS != "" {
			ap := s.prefixFor(a.NS, a.Prefix)
			need(ap, a.NS)
		}
	}
	q := "\""
	if s.st.Single {
		q = "'"
	}
	name := n.Local
	if p != "" {
		name = p + ":" + n.Local
	}
	var attrs, decls []string
	for _, dp := range sortedKeys(decl) {
		k := "xmlns"
		if dp != "" {
			k = "xmlns:" + dp
		}
		decls = append(decls, k+s.st.TagSpace+"="+s.st.TagSpace+q+s.esc(decl[dp], true)+q)
	}
	for _, a := range n.Attrs {
		an := a.Local
		if a.NS != "" {
			an = s.prefixFor(a.NS, a.Prefix) + ":" + an
		}
		attrs = append(attrs, an+s.st.TagSpace+"="+s.st.TagSpace+q+s.esc(a.Value, true)+q)
	}
	if s.st.UnknownAttr != "" && n.Kind != "" && !s.v.Kinds[n.Kind].Any {
		attrs = append(attrs, s.st.UnknownAttr)
	}
	if s.st.DeclsFirst {
		attrs = append(append([]string{}, decls...), attrs...)
	} else {
		attrs = append(attrs, decls...)
	}
	if s.st.Reverse {
		for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	s.sb.WriteString("<" + name)
	for _, a := range attrs {
		if s.st.TagSpace != "" {
			s.sb.WriteString(s.st.TagSpace)
		} else {
			s.sb.WriteByte(' ')
		}
		s.sb.WriteString(a)
	}
	s.sb.WriteString(s.st.TagSpace)
	if len(n.Items) == 0 && n.Raw == "" && s.st.SelfClose {
		s.sb.WriteString("/>")
		return
	}
	s.sb.WriteString(">")
	in := map[string]string{}
	for k, v := range scope {
		in[k] = v
	}
	for k, v := range decl {
		in[k] = v
	}
	elemOnly := len(n.Items) > 0
	for _, it := range n.Items {
		if it.Node == nil {
			elemOnly = false
		}
	}
	k := s.v.Kinds[n.Kind]
	if k != nil && k.Text != "" {
		elemOnly = false
	}
	s.sb.WriteString(n.Raw)
	for _, it := range n.Items {
		if it.Node == nil {
			s.text(it.Text)
			continue
		}
		if elemOnly {
			s.sb.WriteString(s.st.Space + s.st.Unknown)
		}
		if k == nil || !k.Inner {
			s.sb.WriteString(s.st.Comments)
		}
		s.node(it.Node, in, false)
	}
	if elemOnly {
		s.sb.WriteString(s.st.Unknown + s.st.Space)
	}
	if k == nil || !k.Inner {
		s.sb.WriteString(s.st.Comments)
	}
	s.sb.WriteString("</" + name + s.st.TagSpace + ">")
}

func (s *ser) text(t string) {
	if s.st.SplitText != "" && len(t) > 1 {
		i := len(t) / 2
		for i < len(t) && t[i]&0xC0 == 0x80 {
			i++
		}
		s.text1(t[:i])
		s.sb.WriteString(s.st.SplitText)
		s.text1(t[i:])
		return
	}
	s.text1(t)
}

func (s *ser) text1(t string) {
	if s.st.CDATA && !strings.Contains(t, "]]>") && !strings.Contains(t, "\r") {
		s.sb.WriteString("<![CDATA[" + t + "]]>")
		return
	}
	s.sb.WriteString(s.esc(t, false))
}

func (s *ser) esc(t string, attr bool) string {
	var sb strings.Builder
	for _, r := range t {
		special := r == '<' || r == '&' || r == '>' || r == '"' || r == '\'' || r == '\r' || attr && (r == '\t' || r == '\n')
		if r == '\n' && s.st.CRLF {
			special = true
		}
		if !special && s.st.CharRefs < 3 {
			sb.WriteRune(r)
			continue
		}
		switch {
		case s.st.CharRefs == 1:
			fmt.Fprintf(&sb, "&#%d;", r)
		case s.st.CharRefs == 4:
			fmt.Fprintf(&sb, "&#x%08X;", r)
		case s.st.CharRefs == 5:
			fmt.Fprintf(&sb, "&#%09d;", r)
		case s.st.CharRefs >= 2:
			fmt.Fprintf(&sb, "&#x%x;", r)
		default:
			switch r {
			case '<':
				sb.WriteString("&lt;")
			case '>':
				sb.WriteString("&gt;")
			case '&':
				sb.WriteString("&amp;")
			case '"':
				sb.WriteString("&quot;")
			case '\'':
				sb.WriteString("&apos;")
			default:
				fmt.Fprintf(&sb, "&#%d;", r)
			}
		}
	}
	return sb.String()
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Diff compares an expected node with a parsed element. ws says that white
// space may have been added in element-only content.
func (b *Builder) Diff(n *Node, g *refxml.Node, ws bool) string {
	return b.diff(n, g, "/"+n.Local, ws)
}

func (b *Builder) diff(n *Node, g *refxml.Node, path string, ws bool) string {
	if g.Space != n.NS || g.Local != n.Local {
		return fmt.Sprintf("%s: element is {%s}%s, want {%s}%s", path, g.Space, g.Local, n.NS, n.Local)
	}
	got := map[string]string{}
	for _, a := range g.Attrs {
		got[a.Space+" "+a.Local] = a.Value
	}
	for _, a := range n.Attrs {
		k := a.NS + " " + a.Local
		v, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s: attribute {%s}%s=%q is lost", path, a.NS, a.Local, a.Value)
		}
		typ := "string"
		if a.Spec != nil {
			typ = a.Spec.Type
		}
		if !SameValue(typ, a.Value, v) {
			return fmt.Sprintf("%s: attribute {%s}%s=%q became %q", path, a.NS, a.Local, a.Value, v)
		}
		delete(got, k)
	}
	for k, v := range got {
		return fmt.Sprintf("%s: attribute %s=%q appeared", path, k, v)
	}
	if n.Raw != "" {
		want, err := refxml.Parse("<r xmlns=\"" + n.NS + "\">" + n.Raw + "</r>")
		if err != nil {
			return path + ": bad raw content in the specification: " + err.Error()
		}
		w, h := kidsCanon(want), kidsCanon(g)
		if w != h {
			return fmt.Sprintf("%s: extension content became %s, want %s", path, h, w)
		}
		return ""
	}
	// Group children by name; order within a name is kept.
	type grp struct{ kids []*refxml.Node }
	gk := map[string]*grp{}
	ge := g.Elems()
	for _, e := range ge {
		k := e.Space + " " + e.Local
		if gk[k] == nil {
			gk[k] = &grp{}
		}
		gk[k].kids = append(gk[k].kids, e)
	}
	text := ""
	cnt := map[string]int{}
	nk := 0
	for _, it := range n.Items {
		if it.Node == nil {
			text += it.Text
			continue
		}
		nk++
		c := it.Node
		k := c.NS + " " + c.Local
		i := cnt[k]
		cnt[k]++
		if gk[k] == nil || i >= len(gk[k].kids) {
			return fmt.Sprintf("%s: child {%s}%s[%d] is lost", path, c.NS, c.Local, i)
		}
		if d := b.diff(c, gk[k].kids[i], fmt.Sprintf("%s/%s[%d]", path, c.Local, i), ws); d != "" {
			return d
		}
	}
	if nk != len(ge) {
		return fmt.Sprintf("%s: %d child elements, want %d", path, len(ge), nk)
	}
	gt := g.Text()
	kind := b.V.Kinds[n.Kind]
	if kind != nil && kind.Text == "" || text == "" && ws && nk > 0 {
		if strings.Trim(gt, " \t\r\n") != "" || !ws && gt != "" {
			return fmt.Sprintf("%s: text %q appeared", path, gt)
		}
		return ""
	}
	if text != gt {
		return fmt.Sprintf("%s: text %q became %q", path, text, gt)
	}
	return ""
}

func kidsCanon(n *refxml.Node) string {
	var sb strings.Builder
	for _, k := range n.Kids {
		switch k.Kind {
		case refxml.Elem:
			sb.WriteString(k.Canon(true))
		case refxml.Text:
			fmt.Fprintf(&sb, "%q", k.Data)
		}
	}
	return sb.String()
}

// CheckModel compares the expected node with the exported fields of the model.
func (b *Builder) CheckModel(n *Node, v reflect.Value) string {
	return b.model(n, v, n.Local)
}

// FieldAt returns the field at a dotted path; ok is false behind a nil pointer.
func FieldAt(v reflect.Value, path string) (reflect.Value, bool) {
	for _, f := range strings.Split(path, ".") {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		sf, ok := v.Type().FieldByName(f)
		if !ok {
			panic("model field " + f + " of " + v.Type().String() + " does not exist")
		}
		var err error
		v, err = v.FieldByIndexErr(sf.Index)
		if err != nil {
			return reflect.Value{}, false
		}
	}
	return v, true
}

func (b *Builder) model(n *Node, v reflect.Value, path string) string {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return path + ": model value is nil"
		}
		v = v.Elem()
	}
	k := b.V.Kinds[n.Kind]
	if n.Kind[0] == '#' {
		return simpleEq(k.TextType, n.text(), v, path)
	}
	for i := range k.Attrs {
		a := &k.Attrs[i]
		if a.NS == "" && a.Local == "xmlns" {
			continue
		}
		var na *NAttr
		for j := range n.Attrs {
			if n.Attrs[j].Spec != nil && n.Attrs[j].NS == a.NS && n.Attrs[j].Local == a.Local {
				na = &n.Attrs[j]
			}
		}
		fv, ok := FieldAt(v, a.Field)
		p := path + "." + a.Field
		if na == nil {
			if ok && !fv.IsZero() {
				return fmt.Sprintf("%s: attribute is absent but the model has %v", p, fv)
			}
			continue
		}
		if !ok {
			return p + ": attribute is present but the model has none"
		}
		if d := simpleEq(a.Type, na.Value, fv, p); d != "" {
			return d
		}
	}
	if k.Text != "" {
		fv, ok := FieldAt(v, k.Text)
		t := n.text()
		if !ok {
			if t != "" {
				return path + ": text is present but the model has none"
			}
		} else if t == "" && fv.Kind() == reflect.Pointer && fv.IsNil() {
		} else if d := simpleEq(k.TextType, t, fv, path+"."+k.Text); d != "" {
			return d
		}
	}
	if k.Captured {
		if fv, ok := FieldAt(v, "XMLName.Space"); !ok || fv.String() != n.NS {
			return fmt.Sprintf("%s: namespace of the model is %q, want %q", path, fv, n.NS)
		}
	}
	for i := range k.Kids {
		kid := &k.Kids[i]
		var want []*Node
		for _, it := range n.Items {
			if it.Node != nil && it.Node.Kid != nil && it.Node.Kid.Field == kid.Field {
				want = append(want, it.Node)
			}
		}
		fv, ok := FieldAt(v, kid.Field)
		p := path + "." + kid.Field
		if !ok {
			if len(want) > 0 {
				return p + ": children are present but the model has none"
			}
			continue
		}
		if kid.Multi {
			if fv.Len() != len(want) {
				return fmt.Sprintf("%s: model has %d, want %d", p, fv.Len(), len(want))
			}
			for j, w := range want {
				if d := b.model(w, fv.Index(j), fmt.Sprintf("%s[%d]", p, j)); d != "" {
					return d
				}
			}
			continue
		}
		if len(want) == 0 {
			if !fv.IsZero() {
				return p + ": child is absent but the model has one"
			}
			continue
		}
		if d := b.model(want[len(want)-1], fv, p); d != "" {
			return d
		}
	}
	return ""
}

func (n *Node) text() string {
	t := ""
	for _, it := range n.Items {
		if it.Node == nil {
			t += it.Text
		}
	}
	return t
}

func simpleEq(typ, want string, v reflect.Value, path string) string {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return fmt.Sprintf("%s: model is nil, want %q", path, want)
		}
		v = v.Elem()
	}
	bad := func() string { return fmt.Sprintf("%s: model has %v, want %q", path, v, want) }
	switch typ {
	case "string":
		if v.String() != want {
			return fmt.Sprintf("%s: model has %q, want %q", path, v.String(), want)
		}
	case "bool":
		if v.Bool() != (want == "true" || want == "1") {
			return bad()
		}
	case "duration":
		d, _ := RefDuration(want)
		if v.Int() != d {
			return bad()
		}
	case "strlist":
		if strings.Join(v.Interface().(mpd.StringNoWhitespaceVectorType), "|") != strings.Join(strings.Fields(want), "|") {
			return bad()
		}
	case "floatinf", "float64", "float32":
		f := math.Inf(1)
		if want != "INF" {
			bits := 64
			if typ == "float32" {
				bits = 32
			}
			f, _ = strconv.ParseFloat(want, bits)
		}
		if v.Float() != f {
			return bad()
		}
	default:
		if strings.HasPrefix(typ, "uint") {
			u, _ := strconv.ParseUint(want, 10, 64)
			if v.Uint() != u {
				return bad()
			}
		} else {
			i, _ := strconv.ParseInt(want, 10, 64)
			if v.Int() != i {
				return bad()
			}
		}
	}
	return ""
}
