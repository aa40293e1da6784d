package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// ---------------------------------------------------------------- S05: hostile data

func (c *C) evilFloat() float64 {
	return pick(c, 0.0, math.Copysign(0, -1), -1, 1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, 1e-9, 1e308, 91, 181, -181, 720, 1e19, c.Range(-1e3, 1e3))
}

func (c *C) evilInt() int64 {
	return pick[int64](c, 0, -1, 1, 2, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<32, 1<<40, 3600, 100, int64(c.IntN(10)))
}

func (c *C) evilString() string {
	return pick(c, "", "x", "ab", "\x00", "{}", "null", "[]", "#zz", "#ffffff", strings.Repeat("n", 257), strings.Repeat("i", 40), "NaN", c.text(0, 12), "🛰", "\u202e")
}

func (c *C) evilValue(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(c.Chance(0.5))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(c.evilString())
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(pick(c, "", "{", "null", "[]", "{}", "{\"a\":1}", "{\"a\":{\"b\":[null,true]}}", "1", "\"s\"", "\xff\xfe", "{\"a\":1}{")))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(c.evilFloat())
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(c.evilFloat()))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(c.evilInt()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(c.evilInt())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(c.evilInt()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(c.evilInt()))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(c.evilInt()))
	}
	return f.Default()
}

// spoil changes one random field somewhere in a message and says which.
func (c *C) spoil(m protoreflect.Message, path string) string {
	fs := m.Descriptor().Fields()
	f := fs.Get(c.IntN(fs.Len()))
	p := path + "." + string(f.Name())
	switch {
	case f.IsList():
		l := m.Mutable(f).List()
		isMsg := f.Kind() == protoreflect.MessageKind
		switch {
		case l.Len() > 0 && isMsg && c.Chance(0.65):
			k := c.IntN(l.Len())
			return c.spoil(l.Get(k).Message(), fmt.Sprintf("%s[%d]", p, k))
		case l.Len() > 0 && c.Chance(0.3):
			l.Truncate(c.IntN(l.Len()))
			return p + " cut"
		case l.Len() > 1 && c.Chance(0.5):
			i, j := c.IntN(l.Len()), c.IntN(l.Len())
			if isMsg {
				l.Set(i, protoreflect.ValueOfMessage(proto.Clone(l.Get(j).Message().Interface()).ProtoReflect()))
			} else {
				l.Set(i, l.Get(j))
			}
			return p + " duplicated"
		case isMsg:
			l.Append(l.NewElement())
			return p + " extended"
		default:
			l.Append(c.evilValue(f))
			return p + " extended"
		}
	case f.IsMap():
		return p
	case f.Kind() == protoreflect.MessageKind:
		if !m.Has(f) || c.Chance(0.12) {
			if c.Chance(0.7) {
				m.Clear(f)
				return p + " cleared"
			}
			m.Set(f, m.NewField(f))
			return p + " emptied"
		}
		return c.spoil(m.Mutable(f).Message(), p)
	default:
		v := c.evilValue(f)
		m.Set(f, v)
		return fmt.Sprintf("%s=%s", p, clip(v.String(), 20))
	}
}

// mangle corrupts bytes without looking at their structure.
func (c *C) mangle(b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := c.Int(1, 5); k > 0; k-- {
		if len(b) == 0 {
			return []byte{byte(c.IntN(256))}
		}
		i := c.IntN(len(b))
		switch c.IntN(7) {
		case 0:
			b[i] ^= 1 << c.IntN(8)
		case 1:
			b[i] = pick[byte](c, 0, 0xff, 0x80, 0x7f, '{', '}', '"', '<', '>', '0', byte(c.IntN(256)))
		case 2:
			b = b[:i]
		case 3:
			j := min(len(b), i+c.Int(1, 12))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := min(len(b), i+c.Int(1, 40))
			part := append([]byte(nil), b[i:j]...)
			b = append(b[:i:i], append(part, b[i:]...)...)
		case 5:
			ins := make([]byte, c.Int(1, 6))
			for k := range ins {
				ins[k] = byte(c.IntN(256))
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
		default: // move a piece
			j, d := min(len(b), i+c.Int(1, 30)), c.IntN(len(b))
			part := append([]byte(nil), b[i:j]...)
			copy(b[d:], part)
		}
	}
	return b
}

// jsonSlot is a place in a JSON tree.
type jsonSlot struct {
	key    string // of an object, "" in an array
	weight float64
	val    any
	set    func(any)
	remove func()
	twice  func()
}

// jsonSlots lists the places of a tree. Numbers deep in lists of coordinates are many and alike, so they weigh little.
func jsonSlots(v any, w float64, out []jsonSlot, set func(any)) []jsonSlot {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedMap(x) {
			k := k
			out = append(out, jsonSlot{k, w, x[k], func(n any) { x[k] = n }, func() { delete(x, k) }, func() { x[k+"2"] = x[k] }})
			out = jsonSlots(x[k], w, out, func(n any) { x[k] = n })
		}
	case []any:
		for i := range x {
			i := i
			put := func(n any) { x[i] = n }
			out = append(out, jsonSlot{"", w / float64(len(x)), x[i], put,
				func() { set(append(append([]any{}, x[:i]...), x[i+1:]...)) },
				func() { set(append(append([]any{}, x[:i+1]...), x[i:]...)) }})
			out = jsonSlots(x[i], w/float64(len(x)), out, put)
		}
	}
	return out
}

// jsonCoords is a nest of arrays, any of which may be of any length.
func (c *C) jsonCoords(depth int) any {
	if depth <= 0 {
		if c.Chance(0.03) {
			return pick[any](c, nil, "1", true, 1.5, []any{})
		}
		n := 2
		if c.Chance(0.1) {
			n = c.IntN(5)
		}
		p := []any{}
		for i := 0; i < n; i++ {
			p = append(p, pick(c, 0.0, 1.0, 10.5, -20.25, 30.125, 89.0, 400.0, 1e308))
		}
		return p
	}
	n := pick(c, 0, 1, 1, 2, 2, 3, 4, 5)
	if depth == 1 && c.Chance(0.6) {
		n = c.Int(4, 7)
	}
	a := []any{}
	for i := 0; i < n; i++ {
		a = append(a, c.jsonCoords(depth-1))
	}
	if depth == 1 && n > 2 && c.Chance(0.5) {
		a = append(a, a[0])
	}
	return a
}

// jsonShape is a geometry that is nearly right.
func (c *C) jsonShape(level int) map[string]any {
	kinds := []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon", "GeometryCollection"}
	k := c.IntN(len(kinds))
	depth := []int{0, 1, 1, 2, 2, 3, 0}[k]
	g := map[string]any{"type": kinds[k]}
	if kinds[k] == "GeometryCollection" {
		a := []any{}
		for i := c.IntN(3); i > 0 && level < 4; i-- {
			a = append(a, c.jsonShape(level+1))
		}
		if c.Chance(0.05) {
			a = append(a, nil)
		}
		g["geometries"] = a
		return g
	}
	if c.Chance(0.1) {
		depth += pick(c, -1, 1)
	}
	g["coordinates"] = c.jsonCoords(depth)
	return g
}

// jsonInfo is what stands where the description of the tracks of a route is expected, nearly right.
func (c *C) jsonInfo() any {
	one := func() any {
		m := map[string]any{}
		for _, k := range []string{"name", "color", "trackID", "distance", "props", "trackInfo", "id", "a"} {
			if c.Chance(0.7) {
				m[k] = pick[any](c, "x", "#ff0000", 5.0, nil, "", map[string]any{"a": 1.0}, []any{}, true)
			}
		}
		return m
	}
	a := []any{}
	for i := c.IntN(4); i > 0; i-- {
		if c.Chance(0.2) {
			a = append(a, pick[any](c, nil, 5.0, "x", true, []any{}, []any{1.0}))
		} else {
			a = append(a, one())
		}
	}
	if c.Chance(0.1) {
		return one()
	}
	return a
}

// spoilJSON changes one random place of a JSON tree.
func (c *C) spoilJSON(v any) any {
	evil := func() any {
		switch c.IntN(8) {
		case 0:
			return c.jsonShape(0)
		case 1:
			return c.jsonCoords(c.IntN(4))
		case 2:
			return c.jsonInfo()
		}
		return pick[any](c, nil, true, -1.0, 0.0, 5.0, 1e308, "", "x", "Point", "GeometryCollection", "Polygon", "LineString", "MultiPolygon", []any{}, map[string]any{}, []any{nil}, []any{[]any{}}, []any{1.0}, []any{1.0, 2.0}, []any{"x"}, []any{true}, []any{map[string]any{}}, []any{[]any{1.0, 2.0}}, map[string]any{"type": "Feature"})
	}
	root := v
	slots := jsonSlots(v, 1, nil, func(n any) { root = n })
	if len(slots) == 0 || c.Chance(0.02) {
		return evil()
	}
	one := func() jsonSlot {
		sum := 0.0
		for _, s := range slots {
			sum += s.weight
		}
		x := c.Float64() * sum
		for _, s := range slots {
			if x -= s.weight; x < 0 {
				return s
			}
		}
		return slots[len(slots)-1]
	}
	s := one()
	switch c.IntN(12) {
	case 0, 1:
		s.remove()
	case 2:
		s.twice()
	case 3: // two places change places
		o := one()
		a, b := cloneJSON(s.val), cloneJSON(o.val)
		s.set(b)
		o.set(a)
	case 4:
		if m, ok := s.val.(map[string]any); ok {
			m[pick(c, "type", "coordinates", "geometries", "properties", "geometry", "features", "routeID", "color", "tracksInfo", "trackID", "name")] = evil()
		} else {
			s.set(evil())
		}
	case 5: // empty, of the same kind
		switch s.val.(type) {
		case map[string]any:
			s.set(map[string]any{})
		case []any:
			s.set([]any{})
		case string:
			s.set("")
		default:
			s.set(0.0)
		}
	case 6: // wrapped or unwrapped
		if a, ok := s.val.([]any); ok && len(a) > 0 && c.Chance(0.6) {
			s.set(a[c.IntN(len(a))])
		} else {
			s.set([]any{s.val})
		}
	case 7:
		switch s.key {
		case "coordinates":
			s.set(c.jsonCoords(c.IntN(4)))
		case "geometry":
			s.set(c.jsonShape(0))
		case "tracksInfo":
			s.set(c.jsonInfo())
		default:
			s.set(evil())
		}
	default:
		s.set(evil())
	}
	return root
}

func cloneJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = cloneJSON(e)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, e := range x {
			a[i] = cloneJSON(e)
		}
		return a
	}
	return v
}

var tagRx = regexp.MustCompile(`<[^<>]*>|[^<>]+`)

// spoilXML changes a document on the level of its tags.
func (c *C) spoilXML(b []byte) []byte {
	t := tagRx.FindAllString(string(b), -1)
	for k := c.Int(1, 4); k > 0 && len(t) > 0; k-- {
		i := c.IntN(len(t))
		switch c.IntN(8) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(t[:i:i], append([]string{t[c.IntN(len(t))]}, t[i:]...)...)
		case 2:
			j := c.IntN(len(t))
			t[i], t[j] = t[j], t[i]
		case 3, 4: // drop or repeat a whole element
			name := strings.Trim(strings.SplitN(t[i], " ", 2)[0], "<>/")
			j := i + 1
			for j < len(t) && t[j] != "</"+name+">" {
				j++
			}
			if j < len(t) && name != "" && !strings.HasPrefix(t[i], "</") {
				if c.Chance(0.6) {
					t = append(t[:i:i], t[j+1:]...)
				} else {
					part := append([]string(nil), t[i:j+1]...)
					t = append(t[:i:i], append(part, t[i:]...)...)
				}
			}
		case 5: // attributes
			t[i] = regexp.MustCompile(`="[^"]*"`).ReplaceAllString(t[i], `="`+pick(c, "", "NaN", "1e999", "-91", "x", "Inf", "181", "0")+`"`)
		case 6:
			t[i] = pick(c, "<gpsgen>", "</gpsgen>", "<extensions>", "</extensions>", "<route id=\"x\">", "<track>", "<track/>", "<route/>", "<trkseg/>", "<trk/>", "<rte/>", "<wpt lat=\"1\" lon=\"2\"/>", "&#0;", "&lt;", "<!-- -->", "<![CDATA[x]]>", "<?pi?>", "<time>x</time>", "<ele>x</ele>")
		default:
			t[i] = regexp.MustCompile(`\b(id|name|color|distance|lat|lon|version)=`).ReplaceAllString(t[i], pick(c, "x=", "lat=", "xmlns=", "version="))
		}
	}
	return []byte(strings.Join(t, ""))
}

// xnode is an element of an XML document, or a text.
type xnode struct {
	name  string
	attrs [][2]string
	kids  []*xnode
	text  string
}

func parseXML(b []byte) *xnode {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &xnode{}
	stack := []*xnode{root}
	for {
		t, err := d.RawToken()
		if err != nil {
			return root
		}
		top := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &xnode{name: qname(t.Name)}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, [2]string{qname(a.Name), a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case xml.CharData:
			if s := strings.TrimSpace(string(t)); s != "" {
				top.kids = append(top.kids, &xnode{text: s})
			}
		}
	}
}

func qname(n xml.Name) string {
	if n.Space != "" {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

func (n *xnode) write(w *bytes.Buffer) {
	esc := func(s string) {
		xml.EscapeText(w, []byte(s))
	}
	if n.name == "" {
		esc(n.text)
		for _, k := range n.kids {
			k.write(w)
		}
		return
	}
	w.WriteString("<" + n.name)
	seen := map[string]bool{}
	for _, a := range n.attrs {
		if seen[a[0]] {
			continue
		}
		seen[a[0]] = true
		w.WriteString(" " + a[0] + `="`)
		esc(a[1])
		w.WriteString(`"`)
	}
	w.WriteString(">")
	for _, k := range n.kids {
		k.write(w)
	}
	w.WriteString("</" + n.name + ">")
}

// all lists the elements below n with their parents.
func (n *xnode) all(f func(parent *xnode, i int)) {
	for i, k := range n.kids {
		f(n, i)
		k.all(f)
	}
}

func (n *xnode) copy() *xnode {
	m := &xnode{name: n.name, text: n.text, attrs: append([][2]string(nil), n.attrs...)}
	for _, k := range n.kids {
		m.kids = append(m.kids, k.copy())
	}
	return m
}

// spoilXMLTree changes a document's content and leaves it well-formed.
func (c *C) spoilXMLTree(b []byte) ([]byte, string) {
	root := parseXML(b)
	how := ""
	for k := c.Int(1, 4); k > 0; k-- {
		type slot struct {
			p *xnode
			i int
		}
		var slots, big []slot
		root.all(func(p *xnode, i int) {
			slots = append(slots, slot{p, i})
			if len(p.kids[i].kids) > 0 || len(p.kids[i].attrs) > 2 {
				big = append(big, slot{p, i})
			}
		})
		if len(slots) == 0 {
			break
		}
		x := slots[c.IntN(len(slots))]
		if len(big) > 0 && c.Chance(0.6) {
			x = big[c.IntN(len(big))]
		}
		n := x.p.kids[x.i]
		what := ""
		switch c.IntN(9) {
		case 0:
			what = "drop"
			x.p.kids = append(x.p.kids[:x.i:x.i], x.p.kids[x.i+1:]...)
		case 1:
			what = "twice"
			x.p.kids = append(x.p.kids[:x.i:x.i], append([]*xnode{n.copy()}, x.p.kids[x.i:]...)...)
		case 2:
			what = "copy into"
			y := slots[c.IntN(len(slots))]
			if m := y.p.kids[y.i]; m.name != "" {
				m.kids = append(m.kids, n.copy())
			}
		case 3:
			what = "swap"
			j := c.IntN(len(x.p.kids))
			x.p.kids[x.i], x.p.kids[j] = x.p.kids[j], x.p.kids[x.i]
		case 4:
			what = "rename"
			if n.name != "" {
				n.name = pick(c, "gpsgen", "extensions", "route", "track", "trk", "trkseg", "trkpt", "rte", "rtept", "wpt", "gpx", "x", "name", "time", "ele")
			}
		case 5, 6:
			what = "attribute"
			if len(n.attrs) > 0 {
				j := c.IntN(len(n.attrs))
				what += " " + n.attrs[j][0]
				switch c.IntN(4) {
				case 0:
					n.attrs = append(n.attrs[:j:j], n.attrs[j+1:]...)
				case 1:
					n.attrs[j][0] = pick(c, "x", "lat", "id", "name", "color", "distance")
				default:
					n.attrs[j][1] = pick(c, "", "NaN", "1e999", "-91", "x", "Inf", "181", "0", "-0", "91", " ", "0x1p3", "1_0", strings.Repeat("n", 300), strings.Repeat("i", 37), "#zz", "#ff00ff", c.text(1, 10))
				}
			} else if n.name != "" {
				n.attrs = append(n.attrs, [2]string{pick(c, "lat", "id", "x"), "1"})
			}
		case 7:
			what = "empty"
			n.kids = nil
		default:
			what = "text"
			t := pick(c, " ", "x", "NaN", "1e999", "-1", c.text(0, 8))
			if n.name == "" {
				n.text = t
			} else {
				n.kids = append(n.kids, &xnode{text: t})
			}
		}
		how += what + " " + n.name + ", "
	}
	var w bytes.Buffer
	root.write(&w)
	return w.Bytes(), how
}

// exerciseRoute uses a decoded route in every way there is.
func (c *C) exerciseRoute(r *navigator.Route) {
	if r == nil {
		c.Fail("nil", "a decoder accepted the data and returned a nil route")
	}
	_ = r.ID() + r.Color() + r.Name().String()
	r.Name().IsEmpty()
	r.Distance()
	r.Props().Int("a")
	r.Props().Set("used", true)
	r.EachTrack(func(_ int, t *navigator.Track) bool {
		if t == nil {
			c.Fail("nil", "a decoded route enumerates a nil track")
		}
		_ = t.ID() + t.Color() + t.Name().String()
		t.IsClosed()
		t.Props().Set("used", true)
		for i := -1; i <= t.NumSegments(); i++ {
			s := t.SegmentAt(i)
			s.Bearing()
			s.IsEmpty()
			s.DestinationTo(s.Distance() / 2)
			s.Snapshot()
		}
		t.Snapshot()
		return true
	})
	for i := -1; i <= r.NumTracks(); i++ {
		if t := r.TrackAt(i); t != nil {
			r.TrackByID(t.ID())
		}
	}
	r.Snapshot()
}

func (c *C) editRoute(r *navigator.Route) {
	if r == nil {
		return
	}
	r.ChangeName(c.name())
	r.ChangeColor(c.color())
	if r.NumTracks() > 0 && c.Chance(0.7) {
		t := r.TrackAt(c.IntN(r.NumTracks()))
		t.ChangeName(c.name())
		t.ChangeColor(c.color().Hex())
		if c.Chance(0.3) {
			r.RemoveTrack(t.ID())
		}
	}
	if c.Chance(0.4) {
		r.AddTrack(c.newTrack(2000).t)
	}
}

// exerciseDevice drives a decoded tracker in every way there is.
func (c *C) exerciseDevice(d *gpsgen.Device) {
	if d == nil {
		c.Fail("nil", "a decoder accepted the data and returned no tracker")
	}
	look := func() {
		d.State()
		d.Snapshot()
		c.cmpGettersOnly(d)
		for _, r := range d.Routes() {
			c.exerciseRoute(r)
		}
		for i := -1; i <= d.NumRoutes(); i++ {
			d.RouteAt(i)
		}
		for i := -1; i <= d.NumSensors(); i++ {
			d.SensorAt(i)
		}
		for _, s := range d.Sensors() {
			c.exerciseSensor(s)
		}
		c.Count("inspections", 1)
	}
	look()
	tick := func() float64 {
		v := d.State().GetSpeed()
		if !finite(v) || v <= 0 {
			v = 1
		}
		l := d.SegmentDistance()
		if !finite(l) || l <= 0 {
			l = 1
		}
		return pick(c, 1, 0, 0.25, l/v, l/v*0.5, l/v*1.01, 1e9, 3600, l/v/10)
	}
	g := gpsgen.New(nil)
	attached := false
	for k := c.Int(5, 40); k > 0; k-- {
		switch c.IntN(22) {
		case 0:
			d.MoveToSegment(c.Int(-1, 3), c.Int(-1, 3), c.Int(-1, 5))
		case 1:
			d.MoveToTrack(c.Int(-1, 3), c.Int(-1, 3))
		case 2:
			d.MoveToRoute(c.Int(-1, 4))
		case 3:
			d.DestinationTo(pick(c, d.Distance()*c.Float64(), d.Distance(), c.evilFloat(), 1))
		case 4:
			d.ToNextRoute()
			d.ToPrevRoute()
		case 5:
			if r := d.RouteAt(0); r != nil {
				d.MoveToRouteByID(r.ID())
				if t := r.TrackAt(0); t != nil {
					d.MoveToTrackByID(r.ID(), t.ID())
				}
			}
		case 6:
			if c.Chance(0.3) {
				d.ToOffline()
			}
		case 7:
			d.ResetNavigator()
		case 8:
			d.AddRoute(c.newRoute(2, 2000).r)
		case 9:
			if n := d.NumRoutes(); n > 0 {
				r := d.RouteAt(c.IntN(n))
				if c.Chance(0.5) {
					d.RemoveRoute(r.ID())
				} else if r.NumTracks() > 0 {
					d.RemoveTrack(r.ID(), r.TrackAt(0).ID())
				}
			}
		case 10:
			if c.Chance(0.2) {
				d.ResetRoutes()
			}
		case 11:
			if n := d.NumRoutes(); n > 0 {
				c.editRoute(d.RouteAt(c.IntN(n)))
				d.ResetNavigator()
			}
		case 12:
			if s := d.SensorAt(0); s != nil {
				d.SensorByID(s.ID())
				d.RemoveSensor(s.ID())
			}
			if s, err := gpsgen.NewSensor("s", 0, 1, 4, 0); err == nil {
				d.AddSensor(s)
			}
		case 13:
			if d.ID() == "" {
				break // a generator ignores requests without an identifier
			}
			if attached {
				if err := g.Detach(d.ID()); err != nil {
					c.Fail("attach", "detaching an accepted tracker that was attached = %v", err)
				}
				attached = false
			} else {
				if err := g.Attach(d); err != nil {
					c.Fail("attach", "an accepted tracker cannot be attached: %v", err)
				}
				attached = true
			}
		case 14:
			d.Update()
			look()
		case 15:
			d.SetModel("model")
			d.SetUserID("u")
			d.SetDescription("d")
			d.SetColor(c.color())
		case 16: // encode again, in every format
			if b, err := gpsgen.EncodeTracker(d); err == nil {
				if _, err := gpsgen.DecodeTracker(b); err != nil {
					c.Fail("again", "an accepted tracker was encoded again to data that are refused: %v", err)
				}
				c.Count("encoded_again", 1)
			}
			c.encodeAll(d.Routes(), d.Sensors())
		default:
			for j := c.Int(1, 6); j > 0; j-- {
				d.Next(tick())
				c.Count("steps", 1)
			}
		}
	}
	look()
	if b, err := gpsgen.EncodeTracker(d); err == nil {
		c.Count("encoded_again", 1)
		if _, err := gpsgen.DecodeTracker(b); err != nil {
			c.Fail("again", "an accepted tracker was encoded again to data that are refused: %v", err)
		}
	} else {
		c.Count("encoding_again_refused", 1)
	}
}

func (c *C) cmpGettersOnly(d *gpsgen.Device) {
	c.cmpGetters("the same tracker", d, d)
	d.Status()
}

func (c *C) exerciseSensor(s *types.Sensor) {
	if s == nil {
		c.Fail("nil", "a decoder accepted the data and returned a nil sensor")
	}
	_ = s.ID() + s.Name() + s.String()
	s.Min()
	s.Max()
	for _, t := range []float64{0, 0.5, 1, c.Float64()} {
		s.Next(t)
		s.ValueX()
		s.ValueY()
	}
	if c.Chance(0.3) {
		s.Shuffle()
		s.Next(0.3)
	}
	s.Snapshot()
}

func (c *C) encodeAll(rs []*navigator.Route, ss []*types.Sensor) {
	if b, err := gpsgen.EncodeRoutes(rs); err == nil {
		gpsgen.DecodeRoutes(b)
	}
	if b, err := gpsgen.EncodeGeoJSONRoutes(rs); err == nil {
		gpsgen.DecodeGeoJSONRoutes(b)
	}
	if b, err := gpsgen.EncodeGPXRoutes(rs); err == nil {
		gpsgen.DecodeGPXRoutes(b)
	}
	if b, err := gpsgen.EncodeSensors(ss); err == nil {
		gpsgen.DecodeSensors(b)
	}
}

// driveRoutes puts decoded routes under a tracker and drives it.
func (c *C) driveRoutes(rs []*navigator.Route) {
	for _, r := range rs {
		c.exerciseRoute(r)
	}
	c.encodeAll(rs, nil)
	if c.Chance(0.3) && len(rs) > 0 {
		c.editRoute(rs[c.IntN(len(rs))])
	}
	d := c.driver(nil)
	if err := d.AddRoute(rs...); err != nil {
		c.Count("routes_refused_by_tracker", 1)
		return
	}
	c.exerciseDevice(d)
}

// whatItSays: routes that are accepted are those of the data.
func (c *C) whatItSays(b []byte, rs []*navigator.Route) {
	m := new(pb.Snapshot_Navigator_Routes)
	if err := proto.Unmarshal(b, m); err != nil {
		return
	}
	if len(rs) != len(m.Routes) {
		c.Fail("other", "DecodeRoutes accepts data of %d routes as %d", len(m.Routes), len(rs))
	}
	for i, r := range rs {
		w := m.Routes[i]
		if r == nil || w == nil {
			continue
		}
		if r.ID() != w.Id || r.Color() != w.Color || r.Name().String() != w.Name || r.NumTracks() != len(w.Tracks) {
			c.Fail("other", "DecodeRoutes accepts route %d of %d as %q, %q, %q with %d tracks; the data say %q, %q, %q with %d", i, len(rs),
				r.ID(), r.Color(), r.Name().String(), r.NumTracks(), w.Id, w.Color, clip(w.Name, 300), len(w.Tracks))
		}
		c.Count("accepted_routes_compared", 1)
	}
}

type target struct {
	name string
	seed func(c *C) []byte          // a valid encoding
	msg  func() proto.Message       // its message, for binary formats
	feed func(c *C, b []byte) error // decode and use
}

var targets = []target{
	{"tracker", func(c *C) []byte {
		l := c.newLife()
		l.age(c.Int(0, 8))
		b, _ := c.encodeTracker(l.d)
		return b
	}, func() proto.Message { return new(pb.Snapshot) }, func(c *C, b []byte) error {
		var d *gpsgen.Device
		var err error
		if c.Chance(0.6) {
			d, err = gpsgen.DecodeTracker(b)
		} else {
			l := c.newLife()
			d = l.d
			err = d.UnmarshalBinary(b)
		}
		if err == nil {
			c.exerciseDevice(d)
		}
		return err
	}},
	{"sensors", func(c *C) []byte {
		var ss []*types.Sensor
		for k := c.Int(1, 3); k > 0; k-- {
			min, max := c.bounds()
			if s, err := types.NewSensor(c.text(1, 5), min, max, c.Int(4, 10), c.mode()); err == nil {
				ss = append(ss, s)
			}
		}
		b, _ := gpsgen.EncodeSensors(ss)
		return b
	}, func() proto.Message { return new(pb.Snapshot_Sensors) }, func(c *C, b []byte) error {
		ss, err := gpsgen.DecodeSensors(b)
		if err == nil {
			for _, s := range ss {
				c.exerciseSensor(s)
			}
			d := c.driver(nil)
			d.AddRoute(c.newRoute(2, 1000).r)
			d.AddSensor(ss...)
			c.exerciseDevice(d)
		}
		return err
	}},
	{"routes", func(c *C) []byte {
		b, _ := gpsgen.EncodeRoutes([]*navigator.Route{c.aRoute(3, 2000), c.aRoute(2, 100)})
		return b
	}, func() proto.Message { return new(pb.Snapshot_Navigator_Routes) }, func(c *C, b []byte) error {
		rs, err := gpsgen.DecodeRoutes(b)
		if err == nil {
			c.whatItSays(b, rs)
			c.driveRoutes(rs)
		}
		return err
	}},
	{"packet", func(c *C) []byte {
		l := c.newLife()
		l.age(3)
		l.d.Update()
		b, _ := proto.Marshal(&pb.Packet{Devices: []*pb.Device{l.d.State(), l.d.State()}})
		return b
	}, func() proto.Message { return new(pb.Packet) }, func(c *C, b []byte) error {
		p, err := gpsgen.PacketFromBytes(b)
		if err == nil {
			for _, d := range p.GetDevices() {
				_ = d.String()
				d.GetNavigator().GetCurrentRouteId()
				d.GetLocation().GetUtm().GetLatZone()
			}
			if _, err := proto.Marshal(p); err != nil {
				c.Fail("again", "an accepted packet cannot be encoded again: %v", err)
			}
		}
		return err
	}},
	{"geojson", func(c *C) []byte {
		if c.Chance(0.3) {
			fs := []any{}
			for i := c.Int(1, 3); i > 0; i-- {
				p := map[string]any{"a": 1.0}
				if c.Chance(0.5) {
					p["routeID"] = pick[any](c, "r", "", 5.0, nil)
					p["color"] = pick[any](c, "#ff00ff", "", 5.0, nil)
					p["name"] = pick[any](c, "n", "", 5.0, nil)
					p["tracksInfo"] = c.jsonInfo()
				}
				fs = append(fs, map[string]any{"type": "Feature", "properties": p, "geometry": c.jsonShape(0)})
			}
			b, _ := json.Marshal(map[string]any{"type": "FeatureCollection", "features": fs})
			return b
		}
		if c.Chance(0.4) {
			g, _, _ := c.jsonGeometry(c.Chance(0.2), true)
			return []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"a":1},"geometry":` + g + `}]}`)
		}
		b, _ := gpsgen.EncodeGeoJSONRoutes([]*navigator.Route{c.aRoute(3, 2000), c.aRoute(2, 100)})
		return b
	}, nil, func(c *C, b []byte) error {
		if c.Chance(0.1) {
			fc, err := geojson.ParseFeatureCollection(b)
			if err == nil && !json.Valid(b) {
				c.Fail("accepted", "ParseFeatureCollection accepted data that are not JSON: %q", clip(string(b), 300))
			}
			if err == nil && fc != nil {
				fc.MarshalJSON()
			}
		}
		rs, err := gpsgen.DecodeGeoJSONRoutes(b)
		if err == nil {
			c.driveRoutes(rs)
		}
		return err
	}},
	{"gpx", func(c *C) []byte {
		if c.Chance(0.4) {
			return []byte(`<?xml version="1.0"?><gpx version="1.1" creator="x">` + c.gpxPts("wpt", c.foreignPoints()) + "<rte>" + c.gpxPts("rtept", c.foreignPoints()) +
				"</rte><trk><trkseg>" + c.gpxPts("trkpt", c.foreignPoints()) + "</trkseg><trkseg>" + c.gpxPts("trkpt", c.foreignPoints()) + "</trkseg></trk></gpx>")
		}
		r := c.aRoute(3, 2000)
		for _, k := range sortedMap(r.Props()) { // XML names only
			r.Props().Remove(k)
		}
		r.EachTrack(func(_ int, t *navigator.Track) bool {
			for _, k := range sortedMap(t.Props()) {
				t.Props().Remove(k)
			}
			return true
		})
		b, _ := gpsgen.EncodeGPXRoutes([]*navigator.Route{r})
		return b
	}, nil, func(c *C, b []byte) error {
		rs, err := gpsgen.DecodeGPXRoutes(b)
		if err == nil {
			c.driveRoutes(rs)
		}
		return err
	}},
}

// malformed says why data are not of the format of a decoder, whatever they mean.
func malformed(tg target, x []byte) error {
	switch {
	case len(x) == 0:
		return nil
	case tg.msg != nil:
		return proto.Unmarshal(x, tg.msg())
	case tg.name == "geojson":
		if json.Valid(x) {
			return nil
		}
		return errors.New("no JSON")
	}
	if i := bytes.Index(x, []byte("encoding=")); i >= 0 && i < 200 && !bytes.Contains(bytes.ToLower(x[i:]), []byte("utf-8")) {
		return nil // another character set
	}
	d := xml.NewDecoder(bytes.NewReader(x))
	d.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return nil
			}
		}
	}
}

func runS05(c *C) {
	tg := targets[c.Idx%len(targets)]
	if c.Idx%7 == 0 {
		tg = targets[0]
	}
	b := tg.seed(c)
	accepted, n := 0, c.Int(1, 4)
	pat := tg.name
	for k := 0; k < n; k++ {
		how := ""
		x := b
		structured := c.Chance(0.7)
		switch {
		case c.Chance(0.03):
			x = make([]byte, c.IntN(60))
			for i := range x {
				x[i] = byte(c.IntN(256))
			}
			how = "noise"
		case structured && tg.msg != nil:
			m := tg.msg()
			if proto.Unmarshal(b, m) == nil {
				for j := c.Int(1, 3); j > 0; j-- {
					how += c.spoil(m.ProtoReflect(), "") + " "
				}
				if y, err := proto.Marshal(m); err == nil {
					x = y
				}
			}
		case structured && tg.name == "geojson":
			var v any
			if json.Unmarshal(b, &v) == nil {
				for j := c.Int(1, 3); j > 0; j-- {
					v = c.spoilJSON(v)
				}
				if y, err := json.Marshal(v); err == nil {
					x = y
				}
			}
			how = "tree"
		case structured && tg.name == "gpx":
			if c.Chance(0.7) {
				x, how = c.spoilXMLTree(b)
				break
			}
			x = c.spoilXML(b)
			how = "tags"
		case c.Chance(0.03):
			how = "another format"
			x = targets[c.IntN(len(targets))].seed(c)
		default:
			x = c.mangle(b)
			how = "bytes"
		}
		c.Logf("%s decoder fed with %d bytes (%s): %q", tg.name, len(x), clip(how, 200), clip(string(x), 1500))
		err := tg.feed(c, x)
		c.Count("decoded_"+tg.name, 1)
		if bad := malformed(tg, x); bad != nil {
			c.Count("malformed_"+tg.name, 1)
			if err == nil {
				c.Fail("accepted", "the %s decoder accepted data that are not of its format at all (%v): %q", tg.name, bad, clip(string(x), 300))
			}
		}
		if err == nil {
			accepted++
			c.Count("accepted_"+tg.name, 1)
			pat += " +" + clip(regexp.MustCompile(`[0-9]`).ReplaceAllString(how, "#"), 60)
		} else {
			c.Distinct("errors", regexp.MustCompile(`[0-9]+`).ReplaceAllString(clip(err.Error(), 80), "#"))
			pat += " -" + clip(regexp.MustCompile(`[0-9]`).ReplaceAllString(how, "#"), 60)
		}
	}
	c.NonTrivial("%s", pat)
	c.Sample("%s: %d of %d accepted", clip(pat, 100), accepted, n)
}
