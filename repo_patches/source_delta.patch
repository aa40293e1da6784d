From dcdeb6e9713b4003a4ca6ba4487fcacb8c67d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 01/50] fix: report the tracker in the last slot of a full
 packet

---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From 9e40692f9617c0e24f79982433cb20b4b13a0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 02/50] fix: keep a round complete when trackers are detached
 during it

---
 generator.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..81bd2d3 100644
--- a/generator.go
+++ b/generator.go
@@ -211,6 +211,7 @@ func (g *Generator) run() {
 
 	lastTime := time.Now()
 	var tick float64
+	var devices []*Device
 
 loop:
 	for {
@@ -227,26 +228,28 @@ loop:
 				tick = 1
 			}
 
+			// A round works on the devices attached when it begins, so attaching or
+			// detaching devices in the meantime does not shift the ones to be reported.
 			g.mu.RLock()
-			for i := 0; i < len(g.devices); i++ {
-				g.devices[i].Next(tick)
+			devices = append(devices[:0], g.devices...)
+			g.mu.RUnlock()
+
+			for i := 0; i < len(devices); i++ {
+				devices[i].Next(tick)
 			}
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
 				g.index++
 				if g.index == g.packetSize {
-					g.mu.RUnlock()
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From 527f42a16bea5ec5f8673899e134641e5b3b7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 03/50] fix: let Run return when the generator is closed in the
 middle of a round

---
 generator.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/generator.go b/generator.go
index 81bd2d3..ee0ef41 100644
--- a/generator.go
+++ b/generator.go
@@ -247,11 +247,17 @@ loop:
 				g.index++
 				if g.index == g.packetSize {
 					g.flush()
+					if g.isClosed() {
+						break loop
+					}
 					g.index = 0
 				}
 			}
 
 			g.flush()
+			if g.isClosed() {
+				break loop
+			}
 			g.resetPacket()
 			g.notifyNextTick()
 
@@ -265,11 +271,8 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
-	
+	defer g.wg.Done()
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -338,11 +341,10 @@ func (g *Generator) doNext() {
 
 func (g *Generator) flush() {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
+		if !g.send(slice{from: 0, to: g.index}) {
 			return
 		}
-		<-g.waitCh
+		g.wait()
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
@@ -356,17 +358,38 @@ func (g *Generator) flush() {
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.send(s) {
+				return
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
+			if !g.wait() {
 				return
 			}
-			<-g.waitCh
 		}
 	}
 }
 
+// send hands a slice to the workers and reports false when the generator is closed.
+func (g *Generator) send(s slice) bool {
+	select {
+	case g.sliceCh <- s:
+		return true
+	case <-g.ctx.Done():
+		return false
+	}
+}
+
+// wait waits for a worker to finish a slice and reports false when the generator is closed.
+func (g *Generator) wait() bool {
+	select {
+	case <-g.waitCh:
+		return true
+	case <-g.ctx.Done():
+		return false
+	}
+}
+
 func (g *Generator) isClosed() bool {
 	select {
 	case <-g.ctx.Done():
-- 
2.43.0


From b7b865c0d7bd8e57b7af75d12ac90ba9bf0db234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/50] fix: never deliver a packet that could not be encoded

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index ee0ef41..0ad3eb3 100644
--- a/generator.go
+++ b/generator.go
@@ -298,8 +298,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From 33591c941597b26e4496aa26071479bba15f7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 05/50] fix: read the generator callbacks under the lock that
 guards them

---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index 0ad3eb3..91293bf 100644
--- a/generator.go
+++ b/generator.go
@@ -298,12 +298,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
 			if err != nil {
-				if g.onError != nil {
-					g.onError(err)
+				if onError != nil {
+					onError(err)
 				}
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if g.isClosed() {
@@ -333,10 +337,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From 05de76666d45ee97fafc3e7b887115288469f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 06/50] fix: hand out a copy of the device state instead of the
 live one

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 16f5bcd..32e9438 100644
--- a/device.go
+++ b/device.go
@@ -366,10 +366,11 @@ func (d *Device) Status() Status {
 }
 
 // State returns a protobuf representation of the current device state.
+// The returned value is a copy that is independent of the device.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From 6eef514343ae7578d668776236c1692d04a24e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 07/50] fix: take the whole device snapshot under the device
 lock

---
 device.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 32e9438..fcb80fe 100644
--- a/device.go
+++ b/device.go
@@ -718,6 +718,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -734,11 +737,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 7295413c3db3d7eb401774acee16ccb34c925b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 08/50] fix: check the sensor index under the device lock

---
 device.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index fcb80fe..09fe2be 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
-- 
2.43.0


From 8651144fd41848921e5ffd9a62250564046c5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 09/50] fix: take the write lock in IsFinish, which updates the
 navigator

---
 device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 09fe2be..8b090b3 100644
--- a/device.go
+++ b/device.go
@@ -448,8 +448,8 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
-- 
2.43.0


From 87bedc1e83506d6da7a87afb7003af0c2e270088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 10/50] fix: do not take a distance of 0.1 meters for the end
 of a lap

---
 navigator/navigator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..aa1478e 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -25,6 +25,7 @@ type Navigator struct {
 	distance               float64
 	skipOffline            bool
 	version                int
+	finished               bool
 }
 
 // New creates a new instance of Navigator with the provided options.
@@ -237,11 +238,13 @@ func (n *Navigator) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the navigator has finished its navigation path.
 func (n *Navigator) IsFinish() bool {
-	if n.routeIndex == 0 &&
+	if n.finished &&
+		n.routeIndex == 0 &&
 		n.trackIndex == 0 &&
 		n.segmentIndex == 0 &&
 		n.currentDistance == 0.1 {
 		n.currentDistance = 0
+		n.finished = false
 		return true
 	}
 	return false
@@ -690,6 +693,7 @@ func (n *Navigator) Reset() {
 }
 
 func (n *Navigator) updateDist(newDist float64) {
+	n.finished = false
 	n.currentDistance += newDist
 	n.currentSegmentDistance += newDist
 	n.currentTrackDistance += newDist
@@ -757,6 +761,7 @@ func (n *Navigator) nextRoute() {
 	}
 	n.routeIndex = 0
 	n.currentDistance = 0.1
+	n.finished = true
 }
 
 func (n *Navigator) calcRouteDistance() {
@@ -767,6 +772,7 @@ func (n *Navigator) calcRouteDistance() {
 }
 
 func (n *Navigator) resetIndexes() {
+	n.finished = false
 	n.routeIndex = 0
 	n.trackIndex = 0
 	n.segmentIndex = 0
-- 
2.43.0


From 95e7b0e396c43cbff4ad708870480e27f133fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 11/50] fix: carry a missed tick over in full and without
 losing concurrent ones

---
 device.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 8b090b3..8ab0f13 100644
--- a/device.go
+++ b/device.go
@@ -38,6 +38,7 @@ type Device struct {
 	sensors   []*types.Sensor
 	avgT      float64
 	tick      uint32
+	tickNanos atomic.Uint64
 	ns        [3]int
 }
 
@@ -634,7 +635,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.incTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -643,9 +644,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := d.resetTick() + tick
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -809,12 +808,18 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
-	atomic.AddUint32(&d.tick, 1)
+// incTick adds a missed tick to the pending ones.
+func (d *Device) incTick(tick float64) {
+	seconds, frac := math.Modf(tick)
+	atomic.AddUint32(&d.tick, uint32(seconds))
+	d.tickNanos.Add(uint64(math.Round(frac * 1e9)))
 }
 
-func (d *Device) resetTick() {
-	atomic.StoreUint32(&d.tick, 0)
+// resetTick takes the pending ticks and returns them in seconds.
+func (d *Device) resetTick() float64 {
+	seconds := atomic.SwapUint32(&d.tick, 0)
+	nanos := d.tickNanos.Swap(0)
+	return float64(seconds) + float64(nanos)/1e9
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From 280e6156037746aa63248cad9d427859a3843cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 12/50] fix: drop the former sensors when a device is restored
 without sensors

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index 8ab0f13..f42f289 100644
--- a/device.go
+++ b/device.go
@@ -766,6 +766,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
-- 
2.43.0


From 30d640f775b0b5d1d83bba5fbf7a7b02cd8ccdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 13/50] fix: restore the offline mode of a navigator before its
 offline range

---
 navigator/navigator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index aa1478e..a34df63 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -601,11 +601,11 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
 	n.distance = snap.Distance
-	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From 6833483119f35d7b3a2d19e8ecf7a3c776d01aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 14/50] fix: report routes that cannot be restored when
 decoding routes

---
 io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io.go b/io.go
index d664a69..8cf7283 100644
--- a/io.go
+++ b/io.go
@@ -91,7 +91,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
-- 
2.43.0


From bd7ccf3296bfcc8ab6fc34e452f86379dec981a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 15/50] fix: do not panic on incomplete tracker, route and
 sensor snapshots

---
 curve/curve.go                   | 18 +++++++++++-------
 device.go                        | 28 ++++++++++++++++++++++++++++
 navigator/navigator.go           |  4 ++--
 navigator/route_track_segment.go |  4 ++--
 types/sensor.go                  | 14 +++++++-------
 5 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..a9e6a84 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -79,6 +79,9 @@ func (c *Curve) Shuffle() {
 
 // Point returns a point on the curve for a given parameter t.
 func (c *Curve) Point(t float64) Point {
+	if len(c.points) == 0 {
+		return Point{}
+	}
 	c.points[0].vp = c.points[0].cp
 	u := t
 	for i, p := range c.points[1:] {
@@ -129,14 +132,15 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 
 // FromSnapshot restores the curve's state from a snapshot.
 func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
-	c.mode = int(snap.Mode)
-	c.min = snap.Min
-	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
+	c.mode = int(snap.GetMode())
+	c.min = snap.GetMin()
+	c.max = snap.GetMax()
+	c.points = make([]point, len(snap.GetPoints()))
+	for i := 0; i < len(snap.GetPoints()); i++ {
+		vp, cp := snap.Points[i].GetVp(), snap.Points[i].GetCp()
 		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+			vp: Point{X: vp.GetX(), Y: vp.GetY()},
+			cp: Point{X: cp.GetX(), Y: cp.GetY()},
 		}
 	}
 }
diff --git a/device.go b/device.go
index f42f289..78674be 100644
--- a/device.go
+++ b/device.go
@@ -710,6 +710,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
+	if err := validateSnapshot(snap); err != nil {
+		return err
+	}
 	d.FromSnapshot(snap)
 	return nil
 }
@@ -780,6 +783,31 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.updateRoutes()
 }
 
+// validateSnapshot checks that the snapshot describes a complete device
+// whose navigator points at existing routes.
+func validateSnapshot(snap *pb.Snapshot) error {
+	nav := snap.GetNavigator()
+	if nav == nil || snap.Speed == nil || snap.Battery == nil {
+		return fmt.Errorf("gpsgen: incomplete snapshot data")
+	}
+	for i := 0; i < len(nav.Routes); i++ {
+		if err := new(navigator.Route).RouteFromSnapshot(nav.Routes[i]); err != nil {
+			return err
+		}
+	}
+	if len(nav.Routes) == 0 {
+		if nav.RouteIndex != 0 || nav.TrackIndex != 0 || nav.SegmentIndex != 0 {
+			return fmt.Errorf("gpsgen: invalid snapshot position")
+		}
+		return nil
+	}
+	if nav.RouteIndex < 0 || nav.RouteIndex >= int64(len(nav.Routes)) ||
+		nav.TrackIndex < 0 || nav.SegmentIndex < 0 {
+		return fmt.Errorf("gpsgen: invalid snapshot position")
+	}
+	return nil
+}
+
 // NewSensor creates a new Sensor instance with the given name,
 // minimum and maximum values, and amplitude.
 // The amplitude is used to generate a random curve for the sensor.
diff --git a/navigator/navigator.go b/navigator/navigator.go
index a34df63..a89fb33 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -596,8 +596,8 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.currentDistance = snap.CurrentDistance
 	n.offlineIndex = int(snap.OfflineIndex)
 	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
+		Lon: snap.Point.GetLon(),
+		Lat: snap.Point.GetLat(),
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..bcbbf5c 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -79,8 +79,8 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 		return Segment{}
 	}
 	return Segment{
-		pointA:  geo.LatLonPoint{Lon: snap.PointA.Lon, Lat: snap.PointA.Lat},
-		pointB:  geo.LatLonPoint{Lon: snap.PointB.Lon, Lat: snap.PointB.Lat},
+		pointA:  geo.LatLonPoint{Lon: snap.PointA.GetLon(), Lat: snap.PointA.GetLat()},
+		pointB:  geo.LatLonPoint{Lon: snap.PointB.GetLon(), Lat: snap.PointB.GetLat()},
 		dist:    snap.Distance,
 		bearing: snap.Bearing,
 		index:   int(snap.Index),
diff --git a/types/sensor.go b/types/sensor.go
index 39ea461..caa0cbb 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -168,12 +168,12 @@ func (t *Sensor) Snapshot() *SensorSnapshot {
 
 // FromSnapshot restores the Sensor instance from a protobuf snapshot.
 func (t *Sensor) FromSnapshot(snap *SensorSnapshot) {
-	t.id = snap.Id
-	t.name = snap.Name
-	t.min = snap.Min
-	t.max = snap.Max
-	t.valX = snap.ValX
-	t.valY = snap.ValY
+	t.id = snap.GetId()
+	t.name = snap.GetName()
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.valX = snap.GetValX()
+	t.valY = snap.GetValY()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
-- 
2.43.0


From 9ef9af06b474ff8bb5558d313a8cad0d03ee90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 16/50] fix: continue a track behind a repeated point

---
 navigator/navigator.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index a89fb33..1511c21 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -525,9 +525,8 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			seg, foundSegment := n.nextSegment()
+			notFoundSegment := !foundSegment
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
@@ -723,18 +722,20 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+// nextSegment moves to the next segment of the current track and returns the one
+// left behind, which may be empty when the track repeats a point.
+func (n *Navigator) nextSegment() (Segment, bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
-	segment := n.CurrentSegment()
+	segment := track.SegmentAt(n.segmentIndex)
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From f12988773b5bf2ed0a284e5c57199baec46f4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 17/50] fix: find the right route and track when jumping to a
 distance

---
 navigator/navigator.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 1511c21..44d778a 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -612,7 +612,7 @@ func (n *Navigator) jump(distance float64) bool {
 	if distance > n.distance {
 		distance = n.distance
 	}
-	if distance < 1 {
+	if math.IsNaN(distance) || distance < 1 {
 		return false
 	}
 
@@ -629,45 +629,54 @@ func (n *Navigator) jump(distance float64) bool {
 	)
 
 	for i := 0; i < len(n.routes); i++ {
+		if n.routes[i].dist == 0 {
+			continue
+		}
+		if route != nil {
+			routeDist += route.dist
+		}
 		route = n.routes[i]
-		routeIndex += i
+		routeIndex = i
 		if route.dist+routeDist > distance {
 			break
 		}
-		routeDist += route.dist
 	}
 	if route == nil {
 		return false
 	}
 
 	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
+		if route.tracks[i].dist == 0 {
 			continue
 		}
-		trackIndex += i
+		if track != nil {
+			curRouteDist += track.dist
+			routeDist += track.dist
+		}
+		track = route.TrackAt(i)
+		trackIndex = i
 		if track.dist+routeDist > distance {
 			break
 		}
-		curRouteDist += track.dist
-		routeDist += track.dist
 	}
 	if track == nil {
 		return false
 	}
 
 	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
+		if track.SegmentAt(i).IsEmpty() {
 			continue
 		}
+		if !segment.IsEmpty() {
+			routeDist += segment.dist
+			curRouteDist += segment.dist
+			curTrackDist += segment.dist
+		}
+		segment = track.SegmentAt(i)
 		segmentIndex = i
 		if segment.dist+routeDist > distance {
 			break
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
 	if segment.IsEmpty() {
 		return false
-- 
2.43.0


From 1dd305720ac0b5f7e2c3ec34a5e9084c95d9d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 18/50] fix: keep distance and position valid when tracks of a
 route change

---
 navigator/navigator.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 44d778a..d4eb62e 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -180,13 +180,18 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
 
 // Distance returns the total distance of the navigator's routes.
 func (n *Navigator) Distance() float64 {
-	return n.distance
+	distance := 0.0
+	for i := 0; i < len(n.routes); i++ {
+		distance += n.routes[i].dist
+	}
+	return distance
 }
 
 // CurrentDistance returns the current accumulated distance.
@@ -338,7 +343,7 @@ func (n *Navigator) OfflineDuration() int {
 func (n *Navigator) Update(state *proto.Device) {
 	n.normalizeDeviceState(state)
 
-	state.Distance.Distance = n.distance
+	state.Distance.Distance = n.Distance()
 	state.Distance.CurrentDistance = n.currentDistance
 	state.Distance.RouteDistance = n.RouteDistance()
 	state.Distance.CurrentRouteDistance = n.currentRouteDistance
@@ -564,7 +569,7 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 		OfflineIndex:           int64(n.offlineIndex),
 		Point:                  &proto.Snapshot_PointLatLon{Lon: n.point.Lon, Lat: n.point.Lat},
 		Elevation:              n.elevation.Snapshot(),
-		Distance:               n.distance,
+		Distance:               n.Distance(),
 		SkipOffline:            n.skipOffline,
 		Version:                int64(n.version),
 	}
@@ -609,8 +614,8 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 }
 
 func (n *Navigator) jump(distance float64) bool {
-	if distance > n.distance {
-		distance = n.distance
+	if total := n.Distance(); distance > total {
+		distance = total
 	}
 	if math.IsNaN(distance) || distance < 1 {
 		return false
-- 
2.43.0


From a334248012c286e5a29c5f52fa10a511e95fc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 19/50] fix: let the smallest route level differ from the next
 one

---
 route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/route.go b/route.go
index 2452fa0..3b92518 100644
--- a/route.go
+++ b/route.go
@@ -24,8 +24,8 @@ func RandomRoute(lon, lat float64, numTrack int, level int) *navigator.Route {
 	if numTrack < 0 {
 		numTrack = 1
 	}
-	if level < RouteLevelS {
-		level = RouteLevelS
+	if level < RouteLevelXS {
+		level = RouteLevelXS
 	}
 	if level > RouteLevelXXL {
 		level = RouteLevelXXL
-- 
2.43.0


From e37ea57fca35e8836337caf4953b1254d184cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/50] fix: do not panic on a random polygon without points

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From c63e92651616821483d07c63d2fac742640a9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 21/50] fix: keep the distance between antipodal points finite

---
 geo/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..cd762ad 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,5 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	return earthRadius * 2 * math.Asin(math.Min(1, math.Sqrt(haversine)))
 }
-- 
2.43.0


From ba03bf9a19a7de88ba9f7d8aa7904bcb4563c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 22/50] fix: restore every track of a GeoJSON route with its
 own identity

---
 geojson/encoding.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..b3e5753 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -140,13 +140,29 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
+func restoreTrack(info trackInfo, points []geo.LatLonPoint) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(info.ID, info.Color, points)
+	if err != nil {
+		return nil, err
+	}
+	track.Props().Merge(info.Props)
+	if len(info.Name) > 0 {
+		_ = track.ChangeName(info.Name)
+	}
+	return track, nil
+}
+
 func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geometry) (err error) {
 	trackExists := len(tracks) > 0
 	switch geom := geometry.(type) {
@@ -157,8 +173,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(trackInfo, toPoints(geom))
 		}
 		if err != nil {
 			return err
@@ -185,8 +200,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(trackInfo, toPoints(geom[0]))
 		}
 		if err != nil {
 			return err
-- 
2.43.0


From 2f4f3703a3ec9afa3ba689316e6ccdeb0cb3eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 23/50] fix: do not panic on GeoJSON without geometry, feature
 or document

---
 geojson/encoding.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index b3e5753..abb9e4f 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,10 +32,13 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
-		if feature.Type != "Feature" {
+		if feature == nil || feature.Type != "Feature" {
 			continue
 		}
 		var (
@@ -228,6 +231,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = ErrInvalidGeometryType
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
-- 
2.43.0


From 9a267cdadf7fcc41e1baa5619a624822433a3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 24/50] fix: keep route properties from replacing the identity
 of a GeoJSON route

---
 geojson/feature_collection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 9270fec..58be15c 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -52,6 +52,9 @@ func ToFeatureCollection(routes []*navigator.Route) *geojson.FeatureCollection {
 			feature = geojson.NewFeature(collection[0])
 		}
 
+		for k, v := range route.Props() {
+			feature.Properties[k] = v
+		}
 		feature.Properties["routeID"] = route.ID()
 		feature.Properties["color"] = route.Color()
 		feature.Properties["name"] = route.Name().String()
@@ -59,9 +62,6 @@ func ToFeatureCollection(routes []*navigator.Route) *geojson.FeatureCollection {
 		feature.Properties["tracksInfo"] = tracksInfo
 		feature.Properties["distance"] = route.Distance()
 		feature.Properties["units"] = "meters"
-		for k, v := range route.Props() {
-			feature.Properties[k] = v
-		}
 		fc.Append(feature)
 	}
 	return fc
-- 
2.43.0


From 568ab7760ae89f4daf145eeb11d55093838e97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 25/50] fix: keep the properties of tracks in GPX

---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From 00468804d5f2feed549013d96810d5a764931473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 26/50] fix: read identifiers and names in GPX as text whatever
 they look like

---
 gpx/encoding.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..1eebb97 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := routeInfo.GetAttr("id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := routeInfo.GetAttr("color")
+			routeName, _ := routeInfo.GetAttr("name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := trackInfo.GetAttr("color")
+				trackName, _ := trackInfo.GetAttr("name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
-- 
2.43.0


From a3278040cb70378ac4481061c7bc4ca5b5dd7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 27/50] fix: leave routes without tracks out of GPX so that it
 can be decoded

---
 gpx/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1eebb97..9734336 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -34,6 +34,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
-- 
2.43.0


From 2d06e2357e0b46e5905f5598e32642535d5eac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 28/50] fix: import the tracks of a GPX file that also has
 routes or way points

---
 gpx/encoding.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 9734336..4dd4e3a 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -165,7 +165,6 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 		}
 
 		if len(gpxData.Tracks) > 0 {
-			routes = make([]*navigator.Route, 0, len(gpxData.Tracks))
 			for i := 0; i < len(gpxData.Tracks); i++ {
 				route := navigator.NewRoute()
 				var trackErr error
@@ -185,7 +184,7 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 		}
 
-		if len(gpxData.Waypoints) > 0 {
+		if len(gpxData.Waypoints) > 0 && len(routes) == 0 {
 			route := navigator.NewRoute()
 			track, err := navigator.NewTrack(makePoints(gpxData.Waypoints))
 			if err != nil {
-- 
2.43.0


From 9f07f56ae1ebcd01d961c2c17b3bd7b5ff24a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 29/50] fix: start the battery from its maximum charge

---
 types/battery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..3aaf337 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,7 +79,10 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
-	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	if t.val == 0 {
+		return t.max
+	}
+	val := t.max - (t.val / t.chargeTime.Seconds() * 100)
 	if val < t.min {
 		val = t.min
 	}
-- 
2.43.0


From 7c4cdb06c61e22e499f5cf6d4db1d6be7f9a56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 30/50] fix: keep the time estimate finite for a tracker
 without speed

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 78674be..91b617a 100644
--- a/device.go
+++ b/device.go
@@ -860,7 +860,10 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
-- 
2.43.0


From 1cecfcbcb10c5fc8066bd480ff1e3fe1eafdbab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 31/50] fix: clear the current route and track of a state
 without routes

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index d4eb62e..22b7939 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -355,6 +355,8 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
+	state.Navigator.CurrentTrackId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
-- 
2.43.0


From 6d6bd046c6e1b45e20e0f6b3f10e00f2448e6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 32/50] fix: keep the simulated time defined for routes without
 length

---
 device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device.go b/device.go
index 91b617a..dbd0037 100644
--- a/device.go
+++ b/device.go
@@ -852,6 +852,9 @@ func (d *Device) resetTick() float64 {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if !(d.avgT > 0) {
+		return 1
+	}
 	dur := d.state.Duration + tick
 	return math.Min(dur/d.avgT, 1.0)
 }
-- 
2.43.0


From 7b69bd331904192fd66c9ed4e81ada689b127798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 33/50] fix: keep an adjusted minimum elevation inside its
 limits

---
 navigator/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..c4852cd 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -2,6 +2,7 @@ package navigator
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/mmadfox/go-gpsgen/types"
 )
@@ -63,7 +64,7 @@ func (o *navigatorOptions) validateElevation() error {
 			o.elevationMax, MaxElevation)
 	}
 	if o.elevationMin > o.elevationMax {
-		o.elevationMin = o.elevationMax - 1
+		o.elevationMin = math.Max(MinElevation, o.elevationMax-1)
 	}
 	if o.elevationMax < o.elevationMin {
 		o.elevationMax = o.elevationMin + 1
-- 
2.43.0


From 4ff2259a5742557e505d4890a95fbd8346017297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 34/50] fix: do not overshoot a first segment shorter than a
 metre

---
 navigator/navigator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 22b7939..569e155 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -524,7 +524,7 @@ loop:
 			segment := n.CurrentSegment()
 			if !segment.IsEmpty() {
 				if isStartSeg {
-					n.point = segment.DestinationTo(1)
+					n.point = segment.DestinationTo(math.Min(1, segment.Distance()))
 				} else {
 					n.point = segment.DestinationTo(n.currentSegmentDistance)
 				}
-- 
2.43.0


From 9503397d652f0d53dd7c16d5aa388ec330c02663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 35/50] fix: give trackers created from the same options
 different identifiers

---
 device_options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..f23543f 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,10 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
-	}
 	s.Id = o.ID
+	if len(s.Id) == 0 {
+		s.Id = uuid.NewString()
+	}
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From dda67b27ce470fdfd50763efa176a28b9c9fac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 36/50] fix: do not take a track for closed when only the
 longitudes of its ends agree

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From ea6c2d7f7cd6dc529740df926fc4675d5c96ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 37/50] fix: list edited routes in the state also after steps
 that do not move the tracker

---
 device.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index dbd0037..fea33d2 100644
--- a/device.go
+++ b/device.go
@@ -654,6 +654,10 @@ func (d *Device) Next(tick float64) bool {
 		d.navigator.ToOffline()
 	}
 
+	if d.isNotValidNS(d.navigator.Sum()) {
+		d.updateRoutes()
+	}
+
 	t := d.nextT(seconds)
 	d.speed.Next(t)
 	nextSpeed := d.speed.Value()
@@ -682,11 +686,6 @@ func (d *Device) Next(tick float64) bool {
 		}
 	}
 
-	ns := d.navigator.Sum()
-	if d.isNotValidNS(ns) {
-		d.updateRoutes()
-	}
-
 	d.updateState()
 	return true
 }
-- 
2.43.0


From 7bb420291d2f283c89b99c1c8d24b948b2dde71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 38/50] fix: report a constant speed in the state before the
 first step

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index fea33d2..0a77639 100644
--- a/device.go
+++ b/device.go
@@ -862,6 +862,7 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
+	d.state.Speed = d.speed.Value()
 	d.state.TimeEstimate = 0
 	if d.state.Speed > 0 {
 		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
-- 
2.43.0


From 013729242d94fb4be6bbf2a907d9a8ba0cc2d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 39/50] fix: place longitude 180 in UTM zone 1 instead of the
 non-existent zone 61

---
 navigator/location.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/navigator/location.go b/navigator/location.go
index d4d54c2..9d41837 100644
--- a/navigator/location.go
+++ b/navigator/location.go
@@ -44,6 +44,9 @@ func setDMS(lat, lon float64, latDMS *proto.Device_Location_DMS, lonDMS *proto.D
 }
 
 func setUTM(lat, lon float64, u *proto.Device_Location_UTM) {
+	if lon == 180 {
+		lon = -180 // the antimeridian belongs to zone 1
+	}
 	e, n, z := utm.ToUTM(lat, lon)
 	hemisphere := "S"
 	if z.North {
-- 
2.43.0


From ffbf2772e54d10bc2a973cbe5ee0427d07fcd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 40/50] fix: refuse a speed above the limit also when no
 maximum is given

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index f3a5744..e2cda51 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From 899f73a2d8f6dc0a793febbc52b1ab253397b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 41/50] fix: refuse a negative maximum battery charge

---
 types/battery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 3aaf337..5c496d3 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,7 +37,7 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
-	if min < minBatteryVal {
+	if min < minBatteryVal || max < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
-- 
2.43.0


From 85670993f138b3d859590658b76e0832fbd829ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 42/50] fix: restoring a tracker drops pending ticks and keeps
 its attachment

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 0a77639..4a8727f 100644
--- a/device.go
+++ b/device.go
@@ -760,7 +760,10 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running {
+		d.status = Stopped
+	}
+	d.resetTick()
 	d.navigator = new(navigator.Navigator)
 	d.navigator.FromSnapshot(snap.Navigator)
 	d.speed = new(types.Speed)
-- 
2.43.0


From 23c241d0916f0114da9a73368b53102a773fe0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 43/50] fix: GeoJSON with a null geometry in a collection is an
 error, not a panic

---
 geojson/encoding.go           | 21 +++++++++++++++++++--
 geojson/feature_collection.go |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index abb9e4f..066e33d 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -28,8 +28,8 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
-	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	fc, err := unmarshal(data)
+	if err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -68,6 +68,23 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+func unmarshal(data []byte) (fc *geojson.FeatureCollection, err error) {
+	defer recoverGeometry(&err)
+	fc = geojson.NewFeatureCollection()
+	if err := json.Unmarshal(data, &fc); err != nil {
+		return nil, err
+	}
+	return fc, nil
+}
+
+// recoverGeometry turns a panic of the GeoJSON parser, which does not expect
+// a null geometry inside a geometry collection, into an error.
+func recoverGeometry(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("%w - %v", ErrInvalidGeometryType, r)
+	}
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 58be15c..255c66c 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -7,7 +7,8 @@ import (
 )
 
 // ParseFeatureCollection parses a GeoJSON FeatureCollection from the provided data.
-func ParseFeatureCollection(data []byte) (*geojson.FeatureCollection, error) {
+func ParseFeatureCollection(data []byte) (_ *geojson.FeatureCollection, err error) {
+	defer recoverGeometry(&err)
 	fc := geojson.NewFeatureCollection()
 	if err := fc.UnmarshalJSON(data); err != nil {
 		return nil, err
-- 
2.43.0


From c0a1cba42a92d0ed00671d4fcaf87682667b5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:25 +0000
Subject: [PATCH 44/50] fix: a destination at a pole is a point, not NaN

---
 geo/destination.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geo/destination.go b/geo/destination.go
index b898cfd..354091f 100644
--- a/geo/destination.go
+++ b/geo/destination.go
@@ -10,8 +10,9 @@ func Destination(lat, lon, meters, bearingDegrees float64) (
 	θ := bearingDegrees * radians
 	φ1 := lat * radians
 	λ1 := lon * radians
-	φ2 := math.Asin(math.Sin(φ1)*math.Cos(δ) +
-		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ))
+	sinφ2 := math.Sin(φ1)*math.Cos(δ) +
+		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+	φ2 := math.Asin(math.Max(-1, math.Min(1, sinφ2))) // rounding at the poles
 	λ2 := λ1 + math.Atan2(math.Sin(θ)*math.Sin(δ)*math.Cos(φ1),
 		math.Cos(δ)-math.Sin(φ1)*math.Sin(φ2))
 	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi // normalise to -180..+180°
-- 
2.43.0


From 2f50d7552738892a36ff2fa29d40e2bfa8fb7ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 45/50] fix: keep track identifiers in GPX as they are

---
 gpx/encoding.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 4dd4e3a..4b16064 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -62,10 +63,15 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode := gpx.ExtensionNode{
 				XMLName: xml.Name{Local: "track"},
 			}
+			trackNode.SetAttr("id", track.ID())
 			trackNode.SetAttr("name", track.Name().String())
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
+			// the text of a node is trimmed, and a node without text is left out
 			trackNode.Data = track.ID()
+			if len(strings.TrimSpace(trackNode.Data)) == 0 {
+				trackNode.Data = "-"
+			}
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
@@ -123,7 +129,10 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			for j := 0; j < len(gpxTrack.Segments); j++ {
 				gpxSegment := gpxTrack.Segments[j]
 				trackInfo := root.Nodes[i].Nodes[j]
-				trackID := trackInfo.Data
+				trackID, ok := trackInfo.GetAttr("id")
+				if !ok {
+					trackID = trackInfo.Data
+				}
 				trackProps := makeProps(trackInfo.Attrs)
 				color, _ := trackInfo.GetAttr("color")
 				trackName, _ := trackInfo.GetAttr("name")
-- 
2.43.0


From c1319661452a1c6f964186763d5426397942d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:42 +0000
Subject: [PATCH 46/50] fix: restoring a route drops its former name when the
 restored one has none

---
 navigator/route.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..54674f7 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -215,14 +215,15 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
-		if err != nil {
+		var err error
+		if name, err = ParseName(snap.Name); err != nil {
 			return err
 		}
-		r.name = name
 	}
 
+	r.name = name
 	r.id = snap.Id
 	r.dist = snap.Distance
 	r.color = snap.Color
-- 
2.43.0


From 9608c0902dfa24a075a8729dc08341dc15a8ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:42 +0000
Subject: [PATCH 47/50] fix: let the function given to Each use the generator

---
 generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 91293bf..380e2ab 100644
--- a/generator.go
+++ b/generator.go
@@ -132,10 +132,12 @@ func (g *Generator) Detach(deviceID string) error {
 // Each iterates over the collection of Device objects managed by the Generator
 // and applies the provided function to each device.
 func (g *Generator) Each(fn func(int, *Device) bool) {
+	// The function may use the generator, so it is called without the lock.
 	g.mu.RLock()
-	defer g.mu.RUnlock()
-	for i := 0; i < len(g.devices); i++ {
-		if next := fn(i, g.devices[i]); !next {
+	devices := append([]*Device(nil), g.devices...)
+	g.mu.RUnlock()
+	for i := 0; i < len(devices); i++ {
+		if next := fn(i, devices[i]); !next {
 			break
 		}
 	}
-- 
2.43.0


From 8e798694c19832ace0f37453aea60570c2357926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:47 +0000
Subject: [PATCH 48/50] fix: keep a finish that was not asked for yet in
 snapshots of the navigator

---
 navigator/navigator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 569e155..957a1e6 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -613,6 +613,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.distance = snap.Distance
 	n.version = int(snap.Version)
+	// a finish that was not asked for yet is only recorded in the position
+	n.finished = n.routeIndex == 0 &&
+		n.trackIndex == 0 &&
+		n.segmentIndex == 0 &&
+		n.currentSegmentDistance == 0 &&
+		n.currentDistance == 0.1
 }
 
 func (n *Navigator) jump(distance float64) bool {
-- 
2.43.0


From 77e634a53c5b89c8bba5a89d3c16c4681d9ec358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 49/50] fix: drop the offline range when a navigator is
 restored without one

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 957a1e6..ca6f48e 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -608,6 +608,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
 	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-- 
2.43.0


From 0d16ead2e40e0e0943bb7bc6e5cf954e13f83642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:56 +0000
Subject: [PATCH 50/50] fix: keep properties from repeating the attributes of a
 GPX route or track

---
 gpx/encoding.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 4b16064..db69829 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -224,6 +224,9 @@ func makeAttrs(props properties.Properties) []xml.Attr {
 	}
 	attrs := make([]xml.Attr, 0, len(props))
 	for k, v := range props {
+		if isReserved(k) {
+			continue
+		}
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: k},
 			Value: fmt.Sprintf("%v", v),
@@ -242,6 +245,15 @@ func makeProps(attrs []xml.Attr) properties.Properties {
 	return props
 }
 
+// isReserved reports whether the format itself uses an attribute of that name.
+func isReserved(key string) bool {
+	switch key {
+	case "id", "color", "distance", "tracksInfo", "numTracks", "name", "units":
+		return true
+	}
+	return false
+}
+
 func resetProps(props properties.Properties) {
 	delete(props, "id")
 	delete(props, "color")
-- 
2.43.0

