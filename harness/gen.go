package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// mSeg, mTrack and mRoute are the monitor's own picture of a path.
type mSeg struct {
	A, B pt
	L    float64 // own great-circle length
	RL   float64 // length reported by the library (checked against L by N04)
}

type mTrack struct {
	t    *navigator.Track
	id   string
	pts  []pt
	segs []mSeg
}

type mRoute struct {
	r      *navigator.Route
	id     string
	tracks []*mTrack
}

func (t *mTrack) L() float64 {
	s := 0.0
	for i := range t.segs {
		s += t.segs[i].RL
	}
	return s
}

func (r *mRoute) L() float64 {
	s := 0.0
	for _, t := range r.tracks {
		s += t.L()
	}
	return s
}

// randCenter draws a place anywhere, with emphasis on awkward ones.
func (c *C) randCenter() pt {
	switch c.IntN(8) {
	case 0:
		return pt{Lat: c.Range(-80, 80), Lon: pick(c, 179.999, -179.999, 179.9, -179.9, 180, -180)}
	case 1:
		return pt{Lat: c.Range(-0.01, 0.01), Lon: c.Range(-0.01, 0.01)}
	case 2:
		return pt{Lat: pick(c, 79.0, -79.0, 83.5, -83.5), Lon: c.Range(-180, 180)}
	default:
		return pt{Lat: c.Range(-75, 75), Lon: c.Range(-180, 180)}
	}
}

// points makes the points of one track.
func (c *C) points(maxSeg float64) []pt {
	n := c.Int(2, 7)
	if c.Chance(0.25) {
		n = 2
	}
	p := c.randCenter()
	out := []pt{p}
	style := c.IntN(6)
	br := c.Range(0, 360)
	for len(out) < n {
		var d float64
		switch style {
		case 0:
			d = c.LogRange(0.05, 5)
		case 1:
			d = c.LogRange(5, 500)
		case 2:
			d = c.LogRange(100, math.Min(2e4, maxSeg))
		case 3:
			d = c.LogRange(1e4, maxSeg)
		default:
			d = c.LogRange(0.5, math.Min(5e4, maxSeg))
		}
		switch c.IntN(5) {
		case 0:
			br = pick(c, 0.0, 90, 180, 270)
		case 1:
			br += 180
		default:
			br += c.Range(-120, 120)
		}
		q := sphDest(out[len(out)-1], d, math.Mod(br+720, 360))
		if math.Abs(q.Lat) > 84 {
			br += 150
			continue
		}
		out = append(out, q)
	}
	if c.Chance(0.3) && len(out) > 2 {
		out = append(out, out[0]) // closed
	}
	if c.Chance(0.25) { // repeated consecutive points
		for k := c.Int(1, 3); k > 0; k-- {
			i := c.IntN(len(out))
			if c.Chance(0.3) {
				i = 0
			}
			if c.Chance(0.3) {
				i = len(out) - 1
			}
			out = append(out[:i+1], out[i:]...)
		}
	}
	if c.Chance(0.02) { // a track without any length
		out = []pt{out[0], out[0]}
		if c.Chance(0.5) {
			out = append(out, out[0])
		}
	}
	return out
}

// longPoints makes the points of a track of some hundred short segments.
func (c *C) longPoints() []pt {
	n := c.Int(130, 700)
	out := []pt{c.randCenter()}
	br := c.Range(0, 360)
	for len(out) < n {
		br += c.Range(-20, 25)
		out = append(out, sphDest(out[len(out)-1], c.LogRange(0.5, 8), math.Mod(br+720, 360)))
	}
	return out
}

// modelTrack is the monitor's picture of a track made from pts.
func modelTrack(t *navigator.Track, pts []pt) *mTrack {
	m := &mTrack{t: t, id: t.ID(), pts: append([]pt(nil), pts...)}
	for i := 0; i+1 < len(pts); i++ {
		s := mSeg{A: pts[i], B: pts[i+1], L: sphDist(pts[i], pts[i+1])}
		s.RL = t.SegmentAt(i).Distance()
		m.segs = append(m.segs, s)
	}
	return m
}

func (c *C) newTrack(maxSeg float64) *mTrack {
	pts := c.points(maxSeg)
	t, err := navigator.NewTrack(pts)
	if err != nil {
		c.Fail("track", "NewTrack(%d points) = %v", len(pts), err)
	}
	return modelTrack(t, pts)
}

// newRoute makes a route of 0..maxTracks tracks.
func (c *C) newRoute(maxTracks int, maxSeg float64) *mRoute {
	n := c.Int(1, maxTracks)
	if c.Chance(0.08) {
		n = 0
	}
	r := navigator.NewRoute()
	m := &mRoute{r: r, id: r.ID()}
	for i := 0; i < n; i++ {
		t := c.newTrack(maxSeg)
		r.AddTrack(t.t)
		m.tracks = append(m.tracks, t)
	}
	return m
}

func (c *C) color() colorful.Color {
	return colorful.Color{R: float64(c.IntN(256)) / 255, G: float64(c.IntN(256)) / 255, B: float64(c.IntN(256)) / 255}
}

var wordRunes = []rune("abcXYZ019 -_.:/äßéЖ中日\U0001F6F0")

// text draws printable text of n runes at most, not starting or ending with a space.
func (c *C) text(min, max int) string {
	n := c.Int(min, max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(wordRunes[c.IntN(len(wordRunes))])
	}
	s := strings.TrimSpace(b.String())
	for len(s) < min {
		s += "x"
	}
	return s
}

// name draws a valid name (3..256 bytes).
func (c *C) name() string {
	switch c.IntN(6) {
	case 0:
		return pick(c, "001", "true", "12.50", "1e3", "<a>&\"'", "x y z", "NaN", "nil", "0x1F", "-7.0")
	case 2:
		return pick(c, " padded ", "   ", "trail  ", "\tindented", "two\nlines", "ends\n", "CR\r\nLF", "\"quoted\"", "]]>", "a\u00a0b", "<!-- x -->", "%d%s", "{\"a\":1}")
	case 1:
		return strings.Repeat("n", pick(c, 3, 256, 255))
	default:
		s := c.text(3, 40)
		for len(s) > 256 {
			s = s[:len(s)/2]
		}
		return strings.ToValidUTF8(s, "x")
	}
}

func fpRoutes(rs []*mRoute) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteByte('[')
		for _, t := range r.tracks {
			b.WriteByte('(')
			for _, s := range t.segs {
				if s.RL == 0 {
					b.WriteByte('0')
				} else {
					fmt.Fprintf(&b, "%d", int(math.Log10(s.RL)+3))
				}
			}
			b.WriteByte(')')
		}
		b.WriteByte(']')
	}
	return b.String()
}

// nearMiss is an identifier that differs a little from the given one.
func (c *C) nearMiss(id string) string {
	r := []rune(id)
	swap := func(x rune) rune {
		if u := unicode.ToUpper(x); u != x {
			return u
		}
		return unicode.ToLower(x)
	}
	switch c.IntN(9) {
	case 0:
		return id + pick(c, "0", "x", " ", "\x00")
	case 1:
		return pick(c, "0", "x", " ") + id
	case 2:
		if len(r) > 0 {
			return string(r[:len(r)-1])
		}
	case 3:
		if len(r) > 0 {
			return string(r[1:])
		}
	case 4:
		if len(r) > 0 {
			i := c.IntN(len(r))
			r[i]++
			return string(r)
		}
	case 5:
		if len(r) > 0 {
			i := c.IntN(len(r))
			r[i] = swap(r[i])
			return string(r)
		}
	case 6:
		return strings.ToUpper(id)
	case 7:
		for i := range r {
			r[i] = swap(r[i])
		}
		return string(r)
	default:
		return strings.ReplaceAll(id, "-", "")
	}
	return id + "x"
}

// hexColor is a colour as a route or track may be restored with: any text, mostly a proper one.
func (c *C) hexColor() string {
	if c.Chance(0.7) {
		return c.color().Hex()
	}
	return pick(c, "", "red", "#ABC", "#ABCDEF", "##", "rgb(1, 2, 3)", " #000000", "ffffff", "Жёлтый", "0", "true")
}

// anyID is an identifier as a route or track may be restored with.
func (c *C) anyID() string {
	if c.Chance(0.8) {
		return c.text(1, 36)
	}
	return pick(c, " ", " padded ", "a b", "007", "1e3", "true", "<id>", "a&b", "\"q\"", "x\ty", "]]>", strings.Repeat("i", 60))
}
