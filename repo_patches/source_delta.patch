From 40719fc3ed4c8258bfd087df3b7d2df5dd7b77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 01/27] fix: render durations that round up to one second as
 PT1S instead of PT0S

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..0356307 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -78,7 +78,7 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
+	case s == 0 && ms < 1000:
 		// Time smaller than 1s, return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
-- 
2.43.0


From 379c0aa894d9757f660989806e3b9fbf3f269116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 02/27] fix: reject durations that overflow and round seconds
 to the nearest nanosecond

---
 mpd/duration.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 0356307..90637f0 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -167,6 +167,16 @@ func fmtInt(buf []byte, v uint64) int {
 	return w
 }
 
+// addUnits adds n units to total. It reports false, and leaves total unchanged,
+// if the sum does not fit in a time.Duration.
+func addUnits(total *time.Duration, n uint64, unit time.Duration) bool {
+	if n > uint64((math.MaxInt64-*total)/unit) {
+		return false
+	}
+	*total += time.Duration(n) * unit
+	return true
+}
+
 // ParseDuration parses an xsd Duration string and returns corresponding time.Duration.
 func ParseDuration(str string) (time.Duration, error) {
 	if len(str) < 3 {
@@ -262,25 +272,34 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
+			if !addUnits(&total, n, 24*time.Hour) {
+				return 0, newParseDurationError("duration out of range")
+			}
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
+			if !addUnits(&total, n, time.Hour) {
+				return 0, newParseDurationError("duration out of range")
+			}
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
+			if !addUnits(&total, n, time.Minute) {
+				return 0, newParseDurationError("duration out of range")
+			}
 		case 'S':
 			f, err := strconv.ParseFloat(numStr, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
+			ns := math.Round(f * float64(time.Second))
+			if ns >= math.MaxInt64 || !addUnits(&total, uint64(ns), time.Nanosecond) {
+				return 0, newParseDurationError("duration out of range")
+			}
 		}
 	}
 	if !seenAny {
-- 
2.43.0


From 15a97799d9b6f03f3c08f9e259f6aeac7f5f12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 03/27] fix: put the xlink attributes of AdaptationSet and
 SegmentList in the xlink namespace

---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..f45e41d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -844,7 +844,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 3c4c277e5a78805b4736e534c90dc18d6a88a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 04/27] fix: carry Switching@interval as an attribute

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index f45e41d..3d5ead6 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -756,7 +756,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From c3ca2d6844910a1561938ad13eb71cbc1b901fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 05/27] fix: read and write GroupLabel, InitializationGroup,
 InitializationPresentation and QualityLatency

---
 mpd/mpd.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d5ead6..e556f2c 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -333,18 +333,16 @@ type PlaybackRestrictionsType struct {
 
 // UIntPairsWithIDType is UInt Pairs With ID.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
 // UIntVWithIDType is UInt Vector With ID
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
@@ -710,11 +708,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// It therefore has no XMLName.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From f2fc7043153bfb4a3130268ec507124b414a2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 06/27] fix: carry lists of strings without whitespace as one
 attribute

---
 mpd/mpd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index e556f2c..cb68f29 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -993,6 +993,18 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+func (s *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if s == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*s, " ")}, nil
+}
+
+func (s *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*s = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From 52f74c9b865450cc476a18191ebecd8acbae8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 07/27] fix: leave the timescale unset when it is set to its
 default value

---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index cb68f29..b3b1963 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -802,6 +802,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From ce133961b9460f76ff20b8ead10c69278b559ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 08/27] fix: do not panic in accessors of a Representation
 without parent

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b3b1963..34febc0 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -554,7 +554,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -599,7 +599,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -607,7 +607,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -615,7 +615,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From 38f29fddb3b9e83906518dbdbc692b80880a5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 09/27] fix: convert dates outside 1678-2262 to seconds

---
 mpd/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c99e587 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,5 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 98b9d698f1fb0a456e697d0ea7a9ef61f1fa6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 10/27] fix: derive the duration of a static period without
 start attribute

---
 mpd/period.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..2d10637 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -155,10 +155,11 @@ func (p *Period) GetDuration() (Duration, error) {
 			}
 			end = *m.Periods[idx+1].Start
 		}
-		if p.Start == nil {
+		start, err := p.GetStart()
+		if err != nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return end - *p.Start, nil
+		return end - start, nil
 	default: // dynamic
 		if p.Start == nil {
 			// Early available period
-- 
2.43.0


From fc93a0d3b1e9b5c06676c9b71965a2487064f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 11/27] fix: accept a literal > in character data

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From 529f70d04c88a056de1cfd0815503efb4afcca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 12/27] fix: keep the attributes of the start element given to
 EncodeElement

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..7e97d2c 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -611,7 +611,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
 	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+		start.Attr = append(make([]Attr, 0, len(start.Attr)+tinfo.nAttrs), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0


From 66ca5cf4a793ef4bc78b92b8c118b9746af051e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 13/27] fix: do not panic when an attribute is behind a nil
 embedded pointer

---
 xml/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 7e97d2c..79aec29 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -622,6 +622,11 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 		}
 
 		fv := finfo.value(val, dontInitNilPointers)
+		if !fv.IsValid() {
+			// The attribute is behind an anonymous struct field that's
+			// nil. Skip it.
+			continue
+		}
 
 		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
 			continue
-- 
2.43.0


From b090dc254e3489c849f9e25403b05840fd50361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 14/27] fix: do not take a namespace declaration for an
 attribute with the name of its prefix

---
 xml/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 1c19b12..98b89ff 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -480,8 +480,9 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		for _, a := range start.Attr {
 			// Try exact match (namespace + local name) first.
 			fi, ok := tinfo.attrs[attrKey{a.Name.Space, a.Name.Local}]
-			if !ok {
-				// A field registered with empty xmlns matches any namespace.
+			if !ok && a.Name.Space != xmlnsURL {
+				// A field registered with empty xmlns matches any namespace,
+				// but a namespace declaration is not an attribute of that name.
 				fi, ok = tinfo.attrs[attrKey{"", a.Name.Local}]
 			}
 			if ok {
-- 
2.43.0


From 9002cd50cfaf103047e1d0a5e42803f263a9a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 15/27] fix: keep the namespace of an MPD element that is read
 with a prefix

---
 mpd/io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index c99e587..44a83da 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -32,6 +32,7 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	mpd.keepNamespace()
 	mpd.SetParents()
 	return &mpd, nil
 }
@@ -48,10 +49,19 @@ func MPDFromBytes(data []byte) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	mpd.keepNamespace()
 	mpd.SetParents()
 	return &mpd, nil
 }
 
+// keepNamespace makes the namespace that the MPD element was read in the one that
+// it is written in, also if it was read with a prefix: it is written without one.
+func (m *MPD) keepNamespace() {
+	if m.XMLName.Space != "" {
+		m.XMLNs = m.XMLName.Space
+	}
+}
+
 // WriteXML streams the XML encoding of elem to w, with indentation according to
 // indent and optionally prefixing an XML declaration header.  It returns the
 // number of bytes written.  The encoder is pooled for efficiency; do not hold w
-- 
2.43.0


From bce826487ebcccd2ce3eb41d096df18f51ec25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 16/27] fix: keep elements and attributes in their namespace
 when writing nested namespaces

The default namespace was taken from any ancestor, a prefix could be bound
twice on one element, and the binding of a prefix that is in use could change.
---
 xml/marshal.go | 156 +++++++++++++++++++++++++++----------------------
 1 file changed, 86 insertions(+), 70 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 79aec29..055e69b 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -371,12 +371,16 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	tagPrefix  string // prefix asked for in the name, prefix is the one written
+	setsNS     bool   // whether the default namespace is known to be defaultNS in the element
+	defaultNS  string
 }
 
 func newElement(name Name) element {
 	var e element
 	e.xmlns = name.Space
 	e.prefix, e.name = splitPrefixed(name.Local)
+	e.tagPrefix = e.prefix
 	return e
 }
 
@@ -426,7 +430,7 @@ func (p *printer) getPrefix(uri string) string {
 		if prefix != "" {
 			// Look for prefix collision deeper in the tree
 			for i++; i < len(p.elements); i++ {
-				if p.elements[i].prefixToNS[prefix] != "" {
+				if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
 					return ""
 				}
 			}
@@ -436,27 +440,64 @@ func (p *printer) getPrefix(uri string) string {
 	return ""
 }
 
+// lookupPrefix finds the namespace URI that the given prefix is bound to.
+func (p *printer) lookupPrefix(prefix string) string {
+	for i := len(p.elements) - 1; i >= 0; i-- {
+		if ns := p.elements[i].prefixToNS[prefix]; ns != "" {
+			return ns
+		}
+	}
+	return ""
+}
+
+// lookupDefault finds the default namespace URI that is in scope around the current element,
+// if it is the one of the element that sets it.
+func (p *printer) lookupDefault() string {
+	for i := len(p.elements) - 2; i >= 0; i-- {
+		if e := &p.elements[i]; e.setsNS {
+			if e.prefix == "" && e.xmlns == e.defaultNS {
+				return e.xmlns
+			}
+			return ""
+		}
+	}
+	return ""
+}
+
+// bind records that prefix stands for uri in the element, so that it is not given another meaning there.
+func (e *element) bind(prefix, uri string) {
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
+	if e.nsToPrefix[uri] == "" {
+		e.nsToPrefix[uri] = prefix
+	}
+	e.prefixToNS[prefix] = uri
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
-		return prefix, false
-	}
-
 	if len(p.elements) == 0 {
 		return "", false
 	}
-
-	// Need to define a new namespace prefix
 	e := &p.elements[len(p.elements)-1]
-	if e.nsToPrefix == nil {
-		e.nsToPrefix = make(map[string]string)
-		e.prefixToNS = make(map[string]string)
+
+	prefix := p.getPrefix(uri)
+	if preferred != "" && prefix != xmlPrefix && p.lookupPrefix(preferred) == uri {
+		prefix = preferred
+	}
+	if prefix != "" && (prefix == preferred || preferred == "" || prefix == xmlPrefix) {
+		e.bind(prefix, uri)
+		return prefix, false
 	}
 
+	// Need to define a new namespace prefix
+
 	// Pick a name. Try to use the final element of the path but fall back to _.
-	prefix := preferred
+	prefix = preferred
 	if prefix == "" || e.prefixToNS[prefix] != "" {
 		prefix = strings.TrimRight(uri, "/")
 	}
@@ -483,10 +524,7 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 		}
 	}
 
-	if e.nsToPrefix[uri] == "" {
-		e.nsToPrefix[uri] = prefix
-	}
-	e.prefixToNS[prefix] = uri
+	e.bind(prefix, uri)
 
 	return prefix, true
 }
@@ -825,67 +863,46 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	// Take note of the namespaces that the attributes declare
+	for _, attr := range start.Attr {
+		switch {
+		case attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value != "":
+			_, local := splitPrefixed(attr.Name.Local)
+			e.bind(local, attr.Value)
+		case attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && !e.setsNS:
+			e.setsNS, e.defaultNS = true, attr.Value
+		}
+	}
+
 	// Set the namespace prefix, if necessary
-	var spaceDefined bool
+	var prefixCreated, declareDefault bool
 	if e.xmlns != "" {
-		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
-		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
-		if !spaceDefined && e.prefix == "" {
-			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
-					break
-				}
-			}
-		}
-		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
-		if !spaceDefined && e.prefix == "" {
-			// Look for an xmlns:prefix="uri" attribute that matches tag
-			for _, attr := range start.Attr {
-				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
-					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
-					spaceDefined = true
-					break
-				}
-			}
+		if e.prefix != "" {
+			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
+		} else if e.setsNS && e.defaultNS == e.xmlns || !e.setsNS && p.lookupDefault() == e.xmlns {
+			// The default namespace is the one of the element: no need for a prefix.
+		} else if prefix := p.getPrefix(e.xmlns); prefix != "" || e.setsNS {
+			// Use a prefix if there is one, or if the default namespace is declared as another one.
+			e.prefix, prefixCreated = p.createPrefix(e.xmlns, prefix)
+		} else {
+			declareDefault = true
 		}
-		if !spaceDefined && e.prefix == "" {
-			e.prefix = p.getPrefix(e.xmlns)
-			if e.prefix != "" {
-				spaceDefined = true
-			}
+		if e.prefix == "" {
+			e.setsNS, e.defaultNS = true, e.xmlns
 		}
 	}
 
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
-	if e.prefix != "" {
-		var prefixCreated bool
-		if e.xmlns != "" && !spaceDefined {
-			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
-		}
-		p.WriteString(e.prefix)
-		p.WriteByte(':')
-		p.WriteString(e.name)
-		if prefixCreated {
-			p.WriteByte(' ')
-			p.writePrefixAttr(e.prefix, e.xmlns)
-		}
-	} else if e.xmlns != "" {
-		p.WriteString(e.name)
-		if !spaceDefined {
-			p.WriteString(` xmlns="`)
-			p.EscapeString(e.xmlns)
-			p.WriteByte('"')
-		}
-	} else {
-		p.WriteString(e.name)
+	p.WriteString(joinPrefixed(e.prefix, e.name))
+	if prefixCreated {
+		p.WriteByte(' ')
+		p.writePrefixAttr(e.prefix, e.xmlns)
+	}
+	if declareDefault {
+		p.WriteString(` xmlns="`)
+		p.EscapeString(e.xmlns)
+		p.WriteByte('"')
 	}
 
 	// Attributes
@@ -896,7 +913,6 @@ func (p *printer) writeStart(start *StartElement) error {
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
@@ -928,7 +944,7 @@ func (p *printer) writeEnd(name Name) error {
 	e := p.elements[len(p.elements)-1]
 	prefix, local := splitPrefixed(name.Local)
 	// Tag prefixes do not match
-	if prefix != "" && e.prefix != "" && prefix != e.prefix {
+	if prefix != "" && e.prefix != "" && prefix != e.prefix && prefix != e.tagPrefix {
 		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
 	}
 	// Tag names do not match
-- 
2.43.0


From 6536d71003479a1926b2bd001809edfe7230a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 17/27] fix: parse the seconds of long durations exactly

---
 mpd/duration.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 90637f0..7ef0367 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -292,12 +293,20 @@ func ParseDuration(str string) (time.Duration, error) {
 				return 0, newParseDurationError("duration out of range")
 			}
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
+			intStr, fracStr, _ := strings.Cut(numStr, ".")
+			n, err := uint64(0), error(nil)
+			if intStr != "" || fracStr == "" {
+				n, err = strconv.ParseUint(intStr, 10, 64)
+			}
+			if err != nil {
+				return 0, newParseDurationError("error parsing Seconds")
+			}
+			f, err := strconv.ParseFloat("0."+fracStr, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			ns := math.Round(f * float64(time.Second))
-			if ns >= math.MaxInt64 || !addUnits(&total, uint64(ns), time.Nanosecond) {
+			if !addUnits(&total, n, time.Second) ||
+				!addUnits(&total, uint64(math.Round(f*float64(time.Second))), time.Nanosecond) {
 				return 0, newParseDurationError("duration out of range")
 			}
 		}
-- 
2.43.0


From bf6e67078eb3c19966a3e52a52950a683e7d4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 18/27] fix: reject days in the time part of a duration

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 7ef0367..4010588 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -256,7 +256,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit != 'D') != afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
-- 
2.43.0


From 01a4b479c0278129685819ee89a9384b5c663718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 19/27] fix: report a header that is written only in part

---
 mpd/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index 44a83da..1b5368c 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -18,6 +18,9 @@ type countingWriter struct {
 func (cw *countingWriter) Write(p []byte) (int, error) {
 	n, err := cw.w.Write(p)
 	cw.n += n
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
 	return n, err
 }
 
-- 
2.43.0


From 9bfa25ba6bf066a00267e72523880e0490d2ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 20/27] fix: refuse comment tokens that would end the comment
 early or make it ill-formed

---
 xml/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 055e69b..2628e60 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -270,6 +270,10 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t, endComment) {
 			return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")
 		}
+		// A comment must not contain -- and not end in -, also not followed by >.
+		if bytes.Contains(t, ddBytes) || bytes.HasSuffix(t, ddBytes[:1]) {
+			return fmt.Errorf("xml: EncodeToken of Comment containing -- or ending in -")
+		}
 		p.WriteString("<!--")
 		p.Write(t)
 		p.WriteString("-->")
-- 
2.43.0


From 74bae29860308cc9e4ab1781bd408f604e7d2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 21/27] fix: refuse directive tokens that do not read back as a
 directive

---
 xml/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 2628e60..57cecb0 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -298,6 +298,11 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		}
 		p.WriteString("?>")
 	case Directive:
+		// What starts like this is not a directive: <!-- is a comment, <![ is a CDATA section,
+		// and the first byte is not looked at for brackets and quotes.
+		if len(t) == 0 || bytes.IndexByte([]byte("-[<'\""), t[0]) >= 0 {
+			return fmt.Errorf("xml: EncodeToken of Directive that is empty or starts with one of - [ < ' \"")
+		}
 		if !isValidDirective(t) {
 			return fmt.Errorf("xml: EncodeToken of Directive containing wrong < or > markers")
 		}
-- 
2.43.0


From 2fb2eeee986eb3c73c476f1a2349e06d6131135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 22/27] fix: refuse an XML declaration after other output also
 when it has been flushed

---
 xml/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 57cecb0..8f9d71b 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -191,6 +191,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
 	enc.p.closed = false
+	enc.p.started = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
 	enc.p.elements = enc.p.elements[:0]
@@ -281,7 +282,7 @@ func (enc *Encoder) EncodeToken(t Token) error {
 	case ProcInst:
 		// First token to be encoded which is also a ProcInst with target of xml
 		// is the xml declaration. The only ProcInst where target of xml is allowed.
-		if t.Target == "xml" && p.w.Buffered() != 0 {
+		if t.Target == "xml" && p.started {
 			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
 		}
 		if !isNameString(t.Target) {
@@ -419,6 +420,7 @@ type printer struct {
 	putNewline bool
 	elements   []element
 	closed     bool
+	started    bool // whether anything has been written
 	err        error
 }
 
@@ -1190,6 +1192,7 @@ func (p *printer) Write(b []byte) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(b) > 0
 		n, p.err = p.w.Write(b)
 	}
 	return n, p.err
@@ -1201,6 +1204,7 @@ func (p *printer) WriteString(s string) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(s) > 0
 		n, p.err = p.w.WriteString(s)
 	}
 	return n, p.err
@@ -1212,6 +1216,7 @@ func (p *printer) WriteByte(c byte) error {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = true
 		p.err = p.w.WriteByte(c)
 	}
 	return p.err
-- 
2.43.0


From 054f39e55b636b7b65a454141e000b9acc8be498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 23/27] fix: do not write xmlns="" twice when the attributes
 already set the namespace

---
 xml/marshal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 8f9d71b..6e91c17 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -691,10 +692,12 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 		}
 	}
 
-	// If an empty name was found, namespace is overridden with an empty space
+	// If an empty name was found, namespace is overridden with an empty space,
+	// unless the attributes set the namespace
 	if tinfo.xmlname != nil && start.Name.Space == "" &&
 		tinfo.xmlname.xmlns == "" && tinfo.xmlname.name == "" &&
-		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {
+		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" &&
+		!slices.ContainsFunc(start.Attr, func(a Attr) bool { return a.Name == Name{Local: xmlnsPrefix} }) {
 		start.Attr = append(start.Attr, Attr{Name{Space: "", Local: xmlnsPrefix}, ""})
 	}
 
-- 
2.43.0


From 4c525d99dbaee40b4b1439941fdc095bf0a326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:06 +0000
Subject: [PATCH 24/27] fix: count the open elements against the depth limit
 also when an Unmarshaler calls DecodeElement

---
 xml/read.go | 2 ++
 xml/xml.go  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/xml/read.go b/xml/read.go
index 98b89ff..6729e0e 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -323,6 +323,8 @@ var errUnmarshalDepth = errors.New("exceeded max depth")
 
 // Unmarshal a single XML element into val.
 func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) error {
+	// The open elements count as well, since depth starts again when an Unmarshaler calls DecodeElement.
+	depth = max(depth, d.stkDepth-1)
 	if depth >= maxUnmarshalDepth || runtime.GOARCH == "wasm" && depth >= maxUnmarshalDepthWasm {
 		return errUnmarshalDepth
 	}
diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..7349bfe 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -216,6 +216,7 @@ type Decoder struct {
 	linestart      int64
 	offset         int64
 	unmarshalDepth int
+	stkDepth       int               // number of open elements
 	nameIntern     map[string]string // per-Decoder intern map for element/attribute names
 }
 
@@ -436,6 +437,9 @@ func (d *Decoder) push(kind int) *stack {
 	s.next = d.stk
 	s.kind = kind
 	d.stk = s
+	if kind == stkStart {
+		d.stkDepth++
+	}
 	return s
 }
 
@@ -445,6 +449,9 @@ func (d *Decoder) pop() *stack {
 		d.stk = s.next
 		s.next = d.free
 		d.free = s
+		if s.kind == stkStart {
+			d.stkDepth--
+		}
 	}
 	return s
 }
-- 
2.43.0


From 5081d27e395f75a5a78b98cf5c8e903a8d6c0a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:01 +0000
Subject: [PATCH 25/27] fix: a lenient decoder keeps the byte after an
 attribute without a value

---
 xml/xml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xml/xml.go b/xml/xml.go
index 7349bfe..6c768a9 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -878,6 +878,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


From af477efa7423c069814b5515e8bf311b8561dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:54 +0000
Subject: [PATCH 26/27] fix: write the inherited children of a type before its
 own ones, as the schema has them

---
 mpd/mpd.go | 64 +++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 34febc0..7ffd174 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -256,23 +256,23 @@ type SelectionType struct {
 
 // InitializationSetType is Initialization Set.
 type InitializationSetType struct {
-	XMLName         xml.Name               `xml:"InitializationSet"`
-	XlinkHref       string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate    string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType       string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	Id              uint32                 `xml:"id,attr"`
-	InAllPeriods    *bool                  `xml:"inAllPeriods,attr"` // default is true
-	ContentType     RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	Par             RatioType              `xml:"par,attr,omitempty"`
-	MaxWidth        uint32                 `xml:"maxWidth,attr,omitempty"`
-	MaxHeight       uint32                 `xml:"maxHeight,attr,omitempty"`
-	MaxFrameRate    string                 `xml:"maxFrameRate,attr,omitempty"`
-	Initialization  AnyURI                 `xml:"initialization,attr,omitempty"`
-	Accessibilities []*DescriptorType      `xml:"Accessibility"`
-	Roles           []*DescriptorType      `xml:"Role"`
-	Ratings         []*DescriptorType      `xml:"Rating"`
-	Viewpoints      []*DescriptorType      `xml:"Viewpoint"`
+	XMLName        xml.Name               `xml:"InitializationSet"`
+	XlinkHref      string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate   string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType      string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	Id             uint32                 `xml:"id,attr"`
+	InAllPeriods   *bool                  `xml:"inAllPeriods,attr"` // default is true
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	Par            RatioType              `xml:"par,attr,omitempty"`
+	MaxWidth       uint32                 `xml:"maxWidth,attr,omitempty"`
+	MaxHeight      uint32                 `xml:"maxHeight,attr,omitempty"`
+	MaxFrameRate   string                 `xml:"maxFrameRate,attr,omitempty"`
+	Initialization AnyURI                 `xml:"initialization,attr,omitempty"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // ServiceDescriptionType is Service Description.
@@ -734,11 +734,11 @@ type PreselectionType struct {
 	PreselectionComponents *StringVectorType     `xml:"preselectionComponents,attr"`
 	Lang                   string                `xml:"lang,attr,omitempty"`
 	Order                  PreselectionOrderType `xml:"order,attr,omitempty"`
-	Accessibilities        []*DescriptorType     `xml:"Accessibility"`
-	Roles                  []*DescriptorType     `xml:"Role"`
-	Ratings                []*DescriptorType     `xml:"Rating"`
-	Viewpoints             []*DescriptorType     `xml:"Viewpoint"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // AudioSamplingRateType is UIntVectorType with 1 or 2 components.
@@ -809,15 +809,15 @@ func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 
 // MultipleSegmentBaseType is Multiple Segment information base.
 type MultipleSegmentBaseType struct {
-	Duration           *uint32              `xml:"duration,attr,omitempty"`
-	Tolerance          *float64             `xml:"tolerance,attr,omitempty"`
-	StartNumber        *uint32              `xml:"startNumber,attr,omitempty"`
-	EndNumber          *uint32              `xml:"endNumber,attr,omitempty"`
-	EndSubNumber       *uint64              `xml:"endSubNumber,attr,omitempty"`
-	K                  *uint64              `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	Duration     *uint32  `xml:"duration,attr,omitempty"`
+	Tolerance    *float64 `xml:"tolerance,attr,omitempty"`
+	StartNumber  *uint32  `xml:"startNumber,attr,omitempty"`
+	EndNumber    *uint32  `xml:"endNumber,attr,omitempty"`
+	EndSubNumber *uint64  `xml:"endSubNumber,attr,omitempty"`
+	K            *uint64  `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	SegmentBaseType
 	SegmentTimeline    *SegmentTimelineType `xml:"SegmentTimeline"`
 	BitstreamSwitching *URLType             `xml:"BitstreamSwitching"`
-	SegmentBaseType
 }
 
 // URLType is Segment Info item URL/range.
@@ -840,12 +840,12 @@ type FailoverContentType struct {
 
 // SegmentListType is Segment List.
 type SegmentListType struct {
-	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
-	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
+	XlinkHref    string `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate string `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType    string `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	XlinkShow    string `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	MultipleSegmentBaseType
+	SegmentURL []*SegmentURLType `xml:"SegmentURL"`
 }
 
 // SegmentURLType is Segment URL.
-- 
2.43.0


From 132494acbca9aff72e0c477e39c1e97ecd457b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:28 +0000
Subject: [PATCH 27/27] fix: a comment in an encoded directive is not closed by
 its own opening

EncodeToken accepted a Directive like "a <!--> " as if <!--> were a whole
comment. A decoder reads on behind it, and so the rest of the document was lost.
---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 6e91c17..2c69d08 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -325,12 +325,13 @@ func isValidDirective(dir Directive) bool {
 		depth     int
 		inquote   uint8
 		incomment bool
+		bodyStart int // of the current comment
 	)
 	for i, c := range dir {
 		switch {
 		case incomment:
 			if c == '>' {
-				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
+				if n := 1 + i - len(endComment); n >= bodyStart && bytes.Equal(dir[n:i+1], endComment) {
 					incomment = false
 				}
 			}
@@ -345,6 +346,7 @@ func isValidDirective(dir Directive) bool {
 		case c == '<':
 			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
 				incomment = true
+				bodyStart = i + len(begComment)
 			} else {
 				depth++
 			}
-- 
2.43.0

