package main

import (
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
)

// Independent great-circle oracle on 3D unit vectors; it shares no formula with geo/.

const earthR = 6371e3

type pt = geo.LatLonPoint

type vec [3]float64

func (a vec) add(b vec) vec     { return vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a vec) mul(k float64) vec { return vec{a[0] * k, a[1] * k, a[2] * k} }
func (a vec) dot(b vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a vec) norm() float64     { return math.Sqrt(a.dot(a)) }
func (a vec) cross(b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a vec) sub(b vec) vec { return a.add(b.mul(-1)) }

func toVec(p pt) vec {
	la, lo := p.Lat*math.Pi/180, p.Lon*math.Pi/180
	return vec{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
}

func fromVec(v vec) pt {
	return pt{Lat: math.Atan2(v[2], math.Hypot(v[0], v[1])) * 180 / math.Pi, Lon: math.Atan2(v[1], v[0]) * 180 / math.Pi}
}

// sphDist is the great-circle distance in metres.
func sphDist(a, b pt) float64 {
	u, v := toVec(a), toVec(b)
	// chord formula is accurate for near points, atan2 for the rest
	d := u.sub(v).norm()
	if d < 1e-3 {
		return 2 * earthR * math.Asin(d/2)
	}
	return earthR * math.Atan2(u.cross(v).norm(), u.dot(v))
}

// sphAlong is the point d metres from a on the great circle towards b.
func sphAlong(a, b pt, d float64) pt {
	u, v := toVec(a), toVec(b)
	n := u.cross(v.sub(u)) // = u x v, better conditioned for near points
	if n.norm() == 0 {
		return a
	}
	w := n.mul(1 / n.norm()).cross(u)
	t := d / earthR
	return fromVec(u.mul(math.Cos(t)).add(w.mul(math.Sin(t))))
}

// sphBearing is the initial bearing from a to b in degrees [0,360).
func sphBearing(a, b pt) float64 {
	u := toVec(a)
	d := toVec(b).sub(u)
	la, lo := a.Lat*math.Pi/180, a.Lon*math.Pi/180
	north := vec{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)}
	east := vec{-math.Sin(lo), math.Cos(lo), 0}
	br := math.Atan2(d.dot(east), d.dot(north)) * 180 / math.Pi
	if br < 0 {
		br += 360
	}
	return br
}

// sphDest is the point d metres from a along bearing br.
func sphDest(a pt, d, br float64) pt {
	la, lo, b := a.Lat*math.Pi/180, a.Lon*math.Pi/180, br*math.Pi/180
	north := vec{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)}
	east := vec{-math.Sin(lo), math.Cos(lo), 0}
	w := north.mul(math.Cos(b)).add(east.mul(math.Sin(b)))
	t := d / earthR
	return fromVec(toVec(a).mul(math.Cos(t)).add(w.mul(math.Sin(t))))
}

// angDiff is the difference of two bearings in degrees, [0,180].
func angDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 360)
	return math.Min(d, 360-d)
}

func finite(xs ...float64) bool {
	for _, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

// near compares with an absolute and relative tolerance.
func near(a, b, abs, rel float64) bool {
	if a == b {
		return true
	}
	if !finite(a, b) {
		return false
	}
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}

func validCoord(p pt) bool {
	return finite(p.Lat, p.Lon) && p.Lat >= -90-1e-9 && p.Lat <= 90+1e-9 && p.Lon >= -180-1e-9 && p.Lon <= 180+1e-9
}

func wrapLon(x float64) float64 {
	for x > 180 {
		x -= 360
	}
	for x < -180 {
		x += 360
	}
	return x
}
