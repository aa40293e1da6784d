#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for titles, statements, anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- generator / concurrency
p("C01", "Every round reports every attached tracker exactly once",
  "While the generator runs, every completed round delivers each attached tracker exactly once across that round's packets: no tracker is missed, repeated, or replaced by an empty entry, and nothing that is not attached appears. All packets of a round are delivered before the next round's packets, and no round without attached trackers produces a packet. This holds for any fleet size, packet size and number of workers.",
  ["configurations", "schedules"], "all fleet sizes (0..several packets), packet sizes, worker counts and worker schedules",
  "TestGenerator_Run attaches 10 trackers with one packet size and only checks that some packet arrived; the split of a fleet into packets and worker slices is only exercised by fleets around multiples of the packet size and worker count.",
  ["generator.go"], [("round loop filling the packet buffer and flushing it", "generator.go: Generator.run"), ("partition of the buffer over workers", "generator.go: Generator.flush"), ("worker encoding a slice", "generator.go: Generator.doWorker")], ["OnPacket", "OnNext", "PacketFromBytes"])
p("C02", "Published states are consistent, isolated snapshots of one moment",
  "Every tracker entry in a packet, and every state value a tracker hands out, describes that tracker at one single moment: its position, segment, odometers, speed, duration and sensor values belong to the same step even while other threads step, move or reconfigure it. A state or packet that has been handed out never changes afterwards, and changing it does not affect the tracker.",
  ["schedules", "histories"], "all interleavings of stepping, moving, editing and reading one tracker, directly and through a running generator",
  "Unit tests read the state from the goroutine that wrote it; a torn or live-aliased state needs a concurrent writer at the moment of reading.",
  ["device.go", "generator.go"], [("device lock around every state access", "device.go: Device.State/Next/Update"), ("packet buffer handed to workers", "generator.go: Generator.run")], ["Device.State", "OnPacket"])
p("C03", "Concurrent use of generators and trackers is free of data races",
  "Any mix of the public operations of a generator and of trackers (attached or not) may be called from any number of goroutines, including from inside the packet, error and next callbacks, without a data race, a crash or a deadlock. (Sensor, route and track objects themselves are not synchronised: they are used through the tracker.) Callbacks may be replaced while the generator runs.",
  ["schedules"], "all pairs of public operations on a shared generator/tracker and their interleavings",
  "The suite is not run under a race detector and calls nearly every operation from one goroutine.",
  ["generator.go", "device.go", "io.go"], [("per-device RWMutex", "device.go"), ("generator RWMutex and packet RWMutex", "generator.go"), ("shared random sources", "random/random.go, curve/curve.go")], ["race detector reports", "goroutine states"])
p("C04", "Closing a generator always ends Run, and silence follows",
  "After Close, in whatever state the generator is (before Run, between rounds, in the middle of a round, from inside any callback, repeatedly or concurrently), Run returns, no callback is invoked after Run has returned, and no goroutine started by Run survives it. Close itself never blocks.",
  ["schedules", "fault_sequences"], "all points of a round at which Close can land, fleet sizes, worker counts, slow callbacks",
  "TestGenerator_Close closes once, 50 ms into a run of 1000 trackers with default workers; the hang needs Close between a worker taking a slice and the round loop handing out the next.",
  ["generator.go"], [("context cancellation checked in every loop", "generator.go: isClosed/run/doWorker/doNext"), ("slice and wait channels", "generator.go: flush")], ["Run returning", "goroutine dump after Run"])
p("C05", "The tracker registry is linearizable and single-owner",
  "Attach, detach, lookup, existence, enumeration and count behave as one atomic registry under concurrent callers, running or not: a tracker attached successfully is found, counted and enumerated exactly once until it is detached. A tracker is in at most one generator at a time, a second attach is refused with an error and changes nothing, and its status is running exactly while it is attached. The function given to the enumeration may itself use the registry.",
  ["schedules", "histories"], "all concurrent histories of registry operations over several generators and shared trackers",
  "The tests call each operation once on one goroutine.",
  ["generator.go", "device.go"], [("registry lock", "generator.go: Attach/Detach/Lookup/HasTracker/Each/NumDevices"), ("status transition under the device lock", "device.go: mount/unmount")], ["recorded call/return history"])
p("C06", "Attach and detach take effect on rounds promptly and only there",
  "A tracker attached while the generator runs is stepped and reported from the next round on; one that is detached is neither stepped nor reported in any round that begins after the detach returned. Detaching or attaching trackers at any time, also from inside a packet callback in the middle of a round, does not make any other tracker miss or repeat a round.",
  ["schedules", "histories"], "all positions of attach/detach calls relative to the packets of a round",
  "No test attaches or detaches while the generator runs.",
  ["generator.go"], [("round loop over the attached devices", "generator.go: run"), ("removal from the device list", "generator.go: delete")], ["OnPacket", "Device.Duration"])
p("C07", "Encoding failures reach the error handler and never become packets",
  "When a packet cannot be encoded (for example because a tracker carries text that is not valid UTF-8), the error handler, if any, is told and the packet handler is not called for it, whether or not an error handler is registered. The generator keeps running, unaffected trackers in other packets are still delivered, and delivery resumes once the cause is gone; without failures the error handler is never called and every delivered packet decodes.",
  ["fault_sequences", "configurations"], "all positions of unencodable trackers in a fleet, with and without handlers, appearing and disappearing over time",
  "No test makes encoding fail.",
  ["generator.go", "encoding.go"], [("error branch of the worker", "generator.go: doWorker")], ["OnError", "OnPacket", "PacketFromBytes"])
p("C08", "Simulated time is neither lost nor invented",
  "Each round advances every attached tracker that has a route by the time elapsed since the previous round, but at least one second; a step that finds the tracker busy is not lost but carried over in full into the tracker's next step. Hence the sum of the time steps a tracker reports equals the sum of the time it was asked to advance.",
  ["schedules", "histories"], "all sequences of steps contended and uncontended, and all round intervals",
  "The tests contend one single step of one second.",
  ["generator.go", "device.go"], [("tick computation", "generator.go: run"), ("pending tick counter used when the device lock is taken", "device.go: Next/incTick")], ["Device.State().Tick", "Device.Duration"])

p("C09", "Rounds keep their pace, are announced, and bear their time",
  "Rounds take place no more often than once per interval (an interval that is not positive counts as one second, a packet size below 1024 as 1024, a worker count that is not positive as the number of processors; no options count as the defaults of three seconds, 8192 and 4), and no packet holds more trackers than the packet size; as long as rounds take less than the interval, they take place once per interval, the first one an interval after the generator was made. After every completed round the next handler is called: at most once per round, one call at a time, never before all packets of that round have been delivered; if it is still busy when rounds end, it is called again once it returns. Rounds without trackers are announced too. Every packet bears the Unix time at which it was made. A packet or next handler that is replaced or removed while the generator runs takes no part in later rounds.",
  ["schedules", "histories"], "all positions of slow, blocked and replaced handlers relative to the rounds",
  "The tests look at a few rounds with prompt handlers.",
  ["generator.go"], [("ticker and round", "generator.go: New/run"), ("announcement", "generator.go: notifyNextTick/doNext"), ("packet and its time", "generator.go: doWorker"), ("defaults", "generator.go: Options.prepare")], ["OnPacket and OnNext calls"])

# ---------------------------------------------------------------- navigation
p("N01", "A moving tracker is always on its current segment",
  "After every step that moves a tracker, its reported position lies on the reported current segment, at the distance from the segment's start given by the segment odometer (one metre in, or at the end of a shorter segment, for the first step of a track), and its bearing is the segment's. The odometer never exceeds the segment's length and the reported route, track and segment always exist and belong together.",
  ["inputs", "histories"], "all routes (any hemisphere, antimeridian, closed, tiny and long segments), step sizes, speeds and interleaved moves",
  "The tests step along a handful of fixed routes and compare a few fields.",
  ["navigator/navigator.go", "navigator/route_track_segment.go", "geo/destination.go"], [("position from segment start, bearing and odometer", "navigator/navigator.go: NextLocation"), ("destination point", "geo/destination.go")], ["Navigator/Device getters", "Device.State"])
p("N02", "Odometers advance by exactly speed times elapsed time",
  "Every step that moves a tracker adds exactly speed times elapsed seconds to its total, route and track odometers and to the segment odometer (which restarts from zero on entering another segment); a step that does not move it leaves the total unchanged except when a lap ends. Track, route and total odometers restart only when the track, the route or the lap ends, or on an explicit move or reset.",
  ["inputs", "histories"], "all step/speed sequences over all route shapes",
  "The tests check sums on a few fixed routes with constant speed.",
  ["navigator/navigator.go"], [("odometer update", "navigator/navigator.go: updateDist/nextSegment/nextTrack/nextRoute")], ["Navigator/Device getters"])
p("N03", "Routes are traversed completely and in order",
  "A tracker visits the segments of a track in order, the tracks of a route in order and the routes in order, and after the last one starts again from the beginning. It enters a track only at its start, leaves it only after its last segment, and never skips a segment that the step fits into; repeated consecutive points or empty routes never cut a traversal short or stall it.",
  ["inputs", "histories"], "all route/track/segment structures, including duplicate points, single segments, empty routes and large steps",
  "The tests follow fixed well-formed routes; duplicate points and empty routes are not stepped over.",
  ["navigator/navigator.go"], [("segment/track/route succession", "navigator/navigator.go: NextLocation/nextSegment/nextTrack/nextRoute")], ["RouteIndex/TrackIndex/SegmentIndex"])
p("N04", "Distances of segments, tracks, routes and trackers add up",
  "At every moment the length of a track is the sum of its segments' great-circle lengths, the length of a route is the sum of its tracks, and the tracker's total distance is the sum of its routes, whatever sequence of adding, removing and resetting routes and tracks led there. Adding, removing or resetting routes and removing tracks through the tracker puts it back on the first segment of the first track of the first route with all odometers at zero, so that its position never refers to an element that is gone.",
  ["histories", "inputs"], "all edit histories of routes and tracks, before and after attaching them to a tracker",
  "The tests add and remove one route or track at a time and check counts.",
  ["navigator/navigator.go", "navigator/route.go", "navigator/route_track_segment.go"], [("distance totals", "navigator/navigator.go: calcRouteDistance; navigator/route.go: updateState; makeSegments")], ["Distance getters", "Device.State"])
p("N05", "Jumping to a distance lands exactly at that point of the path",
  "Moving a tracker to a distance of at least one metre (capped at the total) places it on the point of the concatenated routes, tracks and segments that lies that far from the beginning, with indices, position and total, route, track and segment odometers all agreeing. Continuing from there is like having travelled there; distances below one metre, or a tracker without path, are refused without any change.",
  ["inputs"], "all multi-route, multi-track paths and target distances, including element boundaries, the total and beyond",
  "The tests jump within one or two small routes.",
  ["navigator/navigator.go"], [("search for the element holding the distance", "navigator/navigator.go: jump")], ["Navigator/Device getters"])
p("N06", "Explicit moves land on the requested element or change nothing",
  "Moving to a route, track or segment by index or by identifier, or to the next or previous route, succeeds exactly when the target exists and differs from the current element; it then places the tracker at that segment's start, online, with the odometers below the changed level restarted. A refused move leaves position, indices, odometers and offline state untouched.",
  ["inputs", "histories"], "all targets (valid, out of range, negative, unknown and empty identifiers) from all reachable states",
  "The tests try a few targets on one fixture.",
  ["navigator/navigator.go", "device.go"], [("bounds checks and reset of lower odometers", "navigator/navigator.go: MoveToSegment")], ["Navigator/Device getters"])
p("N07", "Offline periods respect their bounds and freeze the tracker",
  "A tracker goes offline only at the end of a track, when its battery runs out, or on request, and then for a number of steps drawn from its configured range; during them it reports being offline, counts down by one per step and neither moves nor advances its odometers, and then continues where it was. A tracker configured to skip offline mode is never offline.",
  ["histories", "configurations"], "all offline ranges, step sequences and triggers",
  "The tests check one range and one trigger.",
  ["navigator/navigator.go", "types/random.go", "device.go"], [("offline countdown", "navigator/navigator.go: nextOffline/ToOffline"), ("bounded draw", "types/random.go: Value")], ["IsOffline/OfflineDuration", "Device.State"])
p("N08", "The end of a lap is signalled once and starts a fresh lap",
  "When the last track of the last route ends, the finish is reported exactly once for that lap, and at no other time; the tracker is then back at the very beginning with its odometers and lap duration restarted, and drives the next lap the same way. A navigator reports the finish when asked after the step that ended the lap; a tracker consumes it in that step and shows it by restarting its lap duration and total odometer. A reset of the navigator also returns it to the beginning with its odometers restarted, but is no finish.",
  ["histories", "schedules"], "all paths and step sequences over several laps, with and without offline periods and explicit moves",
  "The tests drive one lap on a fixed route.",
  ["navigator/navigator.go", "device.go"], [("lap sentinel", "navigator/navigator.go: IsFinish/nextRoute"), ("lap reset", "device.go: Next")], ["IsFinish", "Duration", "CurrentDistance"])

# ---------------------------------------------------------------- telemetry and tracker
p("D01", "Speed, elevation and sensor values stay inside their configured range",
  "Whatever time steps a tracker is given, and for every normalised time in [0,1] a speed, sensor, elevation or curve object is asked for, every speed, elevation and sensor value it produces is finite and lies within its configured minimum and maximum; equal bounds give a constant. A start-at-minimum (end-at-minimum) mode really starts (ends) at the minimum, also after reshuffling at the end of a lap; without it the start (end) is drawn from the whole range, anew for every object and every reshuffle. The X value of a sensor or curve is the place on it: the time multiplied by the number of intervals between its control points.",
  ["inputs", "histories"], "all bounds, amplitudes 4..512, modes, and time parameters in the whole range",
  "The tests sample a few ranges and amplitudes.",
  ["types/speed.go", "types/sensor.go", "curve/curve.go", "navigator/navigator.go", "device.go"], [("Bezier evaluation inside the control polygon", "curve/curve.go: Point"), ("normalised time", "device.go: nextT")], ["Value/ValueY", "Device.State"])
p("D02", "The battery drains linearly and recharges when it is empty",
  "Battery charge starts at its configured maximum, falls by 100 percentage points per configured charge time in proportion to elapsed time, and is always a finite value between the configured minimum and maximum. When a step brings it to the minimum the tracker recharges to the maximum and goes offline (unless it skips offline mode); nothing else restores charge.",
  ["inputs", "histories"], "all minima, maxima, charge times and time-step sequences",
  "The tests drain one battery in one-second steps.",
  ["types/battery.go", "device.go"], [("charge as a function of elapsed time", "types/battery.go: Value/Next/IsLow"), ("recharge", "device.go: Next")], ["Battery.Value", "Device.State().Battery"])
p("D03", "The published state mirrors the tracker",
  "After every step that moves the tracker or ends a lap, and after every explicit refresh, the published state agrees field by field with what the tracker itself reports: identity, labels, position, indices, identifiers, distances, offline and battery status, speed, sensors in order with their values, and the full list of routes and tracks with lengths, colours, segment counts and properties. No field keeps a stale value from removed routes, tracks or sensors, and every number is finite.",
  ["histories"], "all histories of edits, moves, steps and refreshes",
  "The tests check a few fields after one step.",
  ["device.go", "navigator/navigator.go"], [("state refresh", "device.go: updateState/updateRoutes/updateSensors; navigator: Update")], ["Device.State", "getters"])
p("D04", "Every notation of a published position denotes the same place",
  "In every published state the degrees-minutes-seconds and UTM forms denote the same point as the decimal latitude and longitude, with minutes and seconds in [0,60) (up to rounding), the right hemisphere letters, and the UTM zone, central meridian and SRID that belong to that point. Latitude and longitude are always valid coordinates.",
  ["inputs"], "all positions on the globe inside the UTM latitudes, both hemispheres, near zone and sign boundaries",
  "The tests check one position.",
  ["navigator/location.go"], [("DMS and UTM conversion", "navigator/location.go: setDMS/setUTM")], ["Device.State().Location"])
p("D05", "Invalid configurations are refused, valid ones are honoured",
  "Creating a tracker, speed, battery, sensor, model, name, track or navigator with (finite) values outside the documented limits (a minimum below or a maximum above its limit, lengths, amplitudes, identifiers, colours, a speed range the wrong way round) returns an error and no object; with values inside them it returns an object that reports exactly those values, with missing identifiers, colours and models filled in by valid unique defaults. Setters refuse invalid values with an error and then leave the object unchanged.",
  ["inputs", "configurations"], "all option values around and far from every limit",
  "The tests try one value on each side of some limits.",
  ["device_options.go", "device.go", "navigator/options.go", "types/speed.go", "types/battery.go", "types/sensor.go", "types/model.go", "navigator/types.go"], [("validation", "constructors and setters")], ["constructor results", "getters"])
p("D06", "Route and sensor collections are ordered sets keyed by identifier",
  "For identifiers of at most 36 characters: adding a route or sensor whose identifier is already present, or a missing one, changes nothing; otherwise it is appended. Removing by identifier removes exactly that element and keeps the order of the rest, lookups by identifier, index and enumeration always agree with one another and with the counts, and returned lists are independent copies.",
  ["histories"], "all sequences of add, remove, reset, lookup and enumeration over routes, tracks and sensors",
  "The tests perform one or two operations on one collection.",
  ["device.go", "navigator/navigator.go", "navigator/route.go"], [("duplicate check and removal", "device.go: AddSensor/RemoveSensor; navigator: AddRoute/RemoveRoute; route: AddTrack/RemoveTrack")], ["getters"])
p("D07", "Every change of routes or tracks is visible as a new version",
  "Any change to a tracker's routes or tracks (adding, removing, resetting, renaming, recolouring), made through the tracker or on a route or track it already holds, yields a tracker version different from the one before it, and merely stepping a tracker or reading its state never changes the version. The next published state after such a change lists the changed routes.",
  ["histories"], "all sequences of edits, reads and steps",
  "The tests check single version increments.",
  ["navigator/navigator.go", "navigator/route.go", "navigator/route_track.go", "device.go"], [("version counters", "navigator: Sum/nextVersion"), ("comparison in the step", "device.go: isNotValidNS")], ["Device.Version", "Device.State().Routes"])

# ---------------------------------------------------------------- serialization
p("S01", "A tracker survives encoding and decoding with its future",
  "Encoding a tracker at any moment of its life (no step waiting to be carried over) and decoding it gives a stopped tracker equal to it in every observable respect: identity, settings, routes with tracks, names, colours and properties (JSON-representable ones; numbers come back as decimals), position, odometers, offline status, battery, speed and sensors. Stepped alike, original and copy then behave identically until the next random choice, and encoding the copy again gives the same data. A navigator on its own survives its snapshot likewise, also between the end of a lap and the question whether it has finished.",
  ["histories", "inputs"], "all reachable tracker states and configurations",
  "The tests round-trip two or three fresh trackers.",
  ["device.go", "io.go", "navigator/navigator.go", "types", "curve/curve.go"], [("snapshot and restore of every part", "Snapshot/FromSnapshot")], ["EncodeTracker/DecodeTracker", "MarshalBinary/UnmarshalBinary"])
p("S02", "Routes and sensors survive the binary format",
  "Encoding any list of routes or of sensors to binary and decoding it returns the same number of elements in the same order with equal identifiers, names, colours, properties (JSON-representable ones; numbers come back as decimals), lengths, points, bounds, values and generated curves. A decoded sensor then produces the same values as the original for the same inputs. Restoring a route, track or sensor into an object that was in use leaves nothing of what it was.",
  ["inputs"], "all routes and sensors constructible through the API",
  "The tests round-trip one random fixture.",
  ["io.go", "navigator/route.go", "navigator/route_track.go", "types/sensor.go", "curve/curve.go"], [("snapshots", "Snapshot/FromSnapshot")], ["EncodeRoutes/DecodeRoutes", "EncodeSensors/DecodeSensors"])
p("S03", "Routes survive GeoJSON",
  "Routes encoded as GeoJSON decode to the same routes (those without tracks excepted): identifiers, names, colours, user properties (under keys the format does not itself use: routeID, color, name, numTracks, tracksInfo, distance, units, where user properties may get lost but do no harm; JSON-representable values, numbers as decimals), and every track in order with its own identifier, name, colour, properties, points and length. The encoding is valid GeoJSON with one feature per route, lines for open and polygons for closed tracks.",
  ["inputs"], "all routes: open and closed, one or many tracks, named or not, with properties, duplicates of points",
  "The tests compare counts, or single-track routes.",
  ["geojson/encoding.go", "geojson/feature_collection.go"], [("feature properties carrying identity", "geojson: ToFeatureCollection/restoreRoute/parseGeometry")], ["EncodeGeoJSONRoutes/DecodeGeoJSONRoutes"])
p("S04", "Routes survive GPX",
  "Routes encoded as GPX decode to the same routes (those without tracks excepted): identifiers, names, colours, and every track in order with its own identifier, name, colour, properties, and points to within 1e-9 degrees; textual, boolean, integer and decimal properties of routes and tracks (under keys that are valid XML names and not used by the format itself: id, color, distance, tracksInfo, numTracks, name, units, where user properties may get lost but do no harm) keep their values, except that text which reads as a number or boolean comes back as one. The encoding is well-formed GPX 1.1 with one track per route and one segment per track.",
  ["inputs"], "all routes: open and closed, one or many tracks, any printable names and identifiers",
  "The tests round-trip one random fixture without names or properties.",
  ["gpx/encoding.go"], [("extension nodes carrying identity", "gpx: Encode/Decode")], ["EncodeGPXRoutes/DecodeGPXRoutes"])
p("S05", "Decoders survive arbitrary input",
  "Every decoder (tracker, sensors, routes, packet, GeoJSON, GPX) given arbitrary, truncated, corrupted or adversarial bytes returns a value or an error, always an error when they are not even JSON, XML or protobuf: it never panics or hangs. Whatever it accepts is usable: it can be inspected, stepped, moved, edited and encoded again without a panic or an endless loop.",
  ["inputs"], "all byte strings, with emphasis on mutations and structure-aware corruptions of valid encodings",
  "The tests feed the decoders two or three malformed strings.",
  ["io.go", "encoding.go", "device.go", "geojson/encoding.go", "gpx/encoding.go", "navigator", "types", "curve"], [("validation while restoring", "FromSnapshot functions and Decode functions")], ["Decode* functions"])
p("S06", "Foreign GeoJSON and GPX files are imported faithfully",
  "Standard GeoJSON (lines, multi-lines, polygons, multi-polygons, multi-points and collections of them, with feature properties) and standard GPX (tracks, routes, way points) not produced by this library import as fresh routes with valid unique identifiers: one route per feature, GPX track or GPX route (way points as one route when there is nothing else), one track per line, outer ring, point set or segment, the points unchanged and in order with longitude and latitude the right way round, and feature properties kept. Any line, ring or point set with fewer than two points, or an unsupported geometry, is an error; a polygon without any ring holds no track, or is an error.",
  ["inputs"], "all geometry types, nestings, coordinates and property values",
  "The tests use one sample file per geometry type and compare counts.",
  ["geojson/encoding.go", "gpx/encoding.go"], [("geometry dispatch", "geojson: parseGeometries/parseGeometry; gpx: Decode")], ["DecodeGeoJSONRoutes/DecodeGPXRoutes"])
p("S07", "Restoring a tracker replaces it completely or not at all",
  "Restoring a tracker that is not attached from an encoding makes it equal to the encoded tracker, whatever it was before: nothing of its former routes, sensors, odometers or settings remains. A restore that fails with an error leaves the tracker exactly as it was.",
  ["histories", "inputs"], "all pairs of previous tracker state and (valid or invalid) encodings",
  "The tests restore only into blank trackers.",
  ["device.go"], [("assignment of every field on restore", "device.go: FromSnapshot/UnmarshalBinary")], ["Device.UnmarshalBinary", "Device.State"])

# ---------------------------------------------------------------- helpers
p("R01", "Random routes and positions are where they were asked for",
  "For centres away from the poles and the antimeridian, a random route has the requested number of named tracks, each a closed line of valid points around the requested longitude and latitude, whose extent, to the north and south as to the east and west, grows with the requested level; the city routes lie at their cities. Every country code has its name and a bounding box that holds that country, a random position for a country lies anywhere inside that box, codes are case-insensitive, unknown codes are errors, and world positions are valid coordinates.",
  ["inputs"], "all centres, track counts, levels and all countries",
  "The tests check counts and a few countries; the location of random routes is not checked.",
  ["route.go", "random/polygon.go", "random/latlon.go", "geo/normalize.go"], [("polygon offsets added to the centre", "route.go: RandomRoute; geo: NormalizeCoordinates")], ["RandomRoute", "random.LatLonByCountry"])
p("R02", "Distance, bearing and destination agree with each other",
  "On the whole sphere, the distance between two points is a finite, symmetric metric (zero exactly for equal points, at most half the circumference, triangle inequality), and travelling from a point by a distance along a bearing arrives at a valid coordinate at that distance and initial bearing. Travelling from A along the bearing to B by the distance to B arrives at B; bounding boxes contain exactly the points between their edges, their centre is in the middle.",
  ["inputs"], "all coordinate pairs, including poles, antimeridian, antipodes and tiny distances",
  "The geo package has no tests.",
  ["geo/distance.go", "geo/bearing.go", "geo/destination.go", "geo/geo.go"], [("haversine formulae", "geo")], ["geo functions"])
p("R03", "Property bags read back what was stored",
  "A property bag behaves as a map: each typed read returns exactly the value last stored under that key when it has that type and reports absence otherwise, merging takes the other bag's values and leaves it unchanged, and removal and reset affect only what they name. Property bags of different routes and tracks are independent.",
  ["histories", "inputs"], "all sequences of set, merge, remove, reset and typed reads over all value types",
  "The tests read one value of each type.",
  ["properties/properties.go", "navigator/route.go", "navigator/route_track.go"], [("typed accessors", "properties/properties.go")], ["Properties methods"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
