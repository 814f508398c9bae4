#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing PROPS or registry.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
TS, TSH, BM, OQ, TM, FI, SY, BR, MA, RE, SU, BS, FX, GE, HE, MX = ("mypaint-tiled-surface.c", "mypaint-tiled-surface.h", "brushmodes.c", "operationqueue.c", "tilemap.c", "fifo.c",
  "mypaint-symmetry.c", "mypaint-brush.c", "mypaint-mapping.c", "mypaint-rectangle.c", "mypaint-surface.c", "mypaint-brush-settings.c", "mypaint-fixed-tiled-surface.c",
  "gegl/mypaint-gegl-surface.c", "helpers.c", "mypaint-matrix.c")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    assert len(title) <= 80, id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("S01", "Batching, flushing and reading never change what is painted",
  "The canvas produced by a sequence of dabs depends only on that sequence: not on how the dabs are grouped into atomic sections, not on when pending work is rendered, and not on colour reads made in between. "
  "Every dab reaches every tile it touches exactly once and in the order it was issued, however far apart the dabs are and however the internal bookkeeping has to grow.",
  ["histories"], "every sequence of dabs (any position, any blend mode) interleaved with any number of flushes and colour reads",
  "the tests paint one recorded stroke in one batching; they never compare two batchings of the same dabs, never read while dabs are pending and never leave the initial tile range",
  [OQ, TM, FI, TS], [("per-tile FIFO of pending dabs and dirty tile list", OQ + ": operation_queue_add/pop/get_dirty_tiles"), ("tile map growth keeps entries", TM + ": tile_map_copy_to, operation_queue_resize"), ("reads flush the tiles they touch", TS + ": get_color")],
  [("tile map", "pending dabs by tile", TM), ("dirty tile list", "tiles to render at the end of the section", OQ)])
prop("S02", "Every blend mode composites pixels as specified and keeps them valid",
  "Each painted pixel equals what the enabled blend modes (normal, eraser/smudge, alpha lock, colorize, posterize and the pigment variants, each at its strength) prescribe for the old pixel, the dab colour, opacity and coverage, up to fixed-point rounding. "
  "A valid canvas stays valid: alpha never leaves 0..1, no channel exceeds its alpha, and modes that preserve transparency leave alpha unchanged. "
  "Dab parameters outside their legal range act as the nearest legal value.",
  ["inputs", "programs"], "all old pixels x dab colours x opacities x blend mode strengths, and all sequences of modes",
  "the tests render whole strokes and check nothing about pixel values; corner values (fully opaque white, tiny alpha, overflow of 15 bit intermediate results) never occur in them",
  [BM, TS], [("15 bit fixed point compositing functions", BM), ("mode strengths and order", TS + ": process_op"), ("clamping of dab parameters", TS + ": draw_dab_internal")])
prop("S03", "A dab paints its elliptical falloff profile, and nothing else",
  "A dab of at least 3 pixels radius gives every pixel the opacity of the documented two-segment falloff evaluated at the pixel centre (radius, hardness, softness, aspect ratio and angle), wherever the dab lies relative to the tile grid; smaller dabs are anti-aliased by the rule given in the code (visibility of the pixel's point nearest to the dab's axis, divided by one plus the occlusion a fixed distance further away from the axis), so they too look the same after a half turn. "
  "Pixels beyond the dab's reach are never touched. Dabs that cannot leave a mark (no opacity, no hardness, full softness, radius below a tenth of a pixel) change nothing and are reported as having painted nothing.",
  ["inputs"], "all dab geometries (radius, hardness, softness, aspect, angle, sub-pixel and tile-relative position)",
  "tests compare no pixel of a dab with the profile; seams between tiles and skip/run boundaries of the mask appear only at specific positions",
  [TS, BM], [("mask rendering with run-length skipping", TS + ": render_dab_mask"), ("anti-aliased distance", TS + ": calculate_rr_antialiased"), ("tile range touched by a dab", TS + ": draw_dab_internal")])
prop("S04", "Reported changed rectangles cover every changed pixel and stay tight",
  "When an atomic section ends, every pixel that differs from before lies inside the rectangles reported to the caller, the number reported never exceeds the capacity the caller gave, and no rectangle beyond that number is written. "
  "Nothing is reported when nothing was drawn, and the reported area stays within the extent of the dabs drawn in that section (and their mirror images).",
  ["histories", "configurations"], "all dab sequences, symmetry configurations and capacities 1..n of the caller's rectangle list, across several consecutive sections",
  "tests check a few rectangle counts for snowflake symmetry only, and never compare the reported area with the pixels that changed",
  [TS, RE], [("dirty rectangle per symmetry copy", TS + ": update_dirty_bbox, draw_dab"), ("merging rectangles into the caller's list", TS + ": mypaint_tiled_surface_end_atomic / prepare_bounding_boxes"), ("union of rectangles", RE)])
prop("S05", "Symmetric painting equals painting the mirrored dabs explicitly",
  "With symmetry enabled, one dab produces the same canvas as painting that dab and each of its images under the selected symmetry (vertical, horizontal, both, rotational, snowflake; any centre, angle and number of axes) explicitly without symmetry. "
  "A change of the symmetry geometry (kind, centre, angle, number of axes) takes effect at the start of the next atomic section and never within one.",
  ["inputs", "histories", "configurations"], "all symmetry types, axis counts, centres, angles, dab positions/shapes, and all histories of configuration changes interleaved with atomic sections",
  "tests only look at rectangle counts for one symmetry type; no test compares the painted images, and none changes the configuration inside a section",
  [SY, MX, TS], [("symmetry matrices", SY + ": mypaint_update_symmetry_state"), ("pending state swapped in at section start", TS + ": mypaint_tiled_surface_begin_atomic"), ("mirrored dabs", TS + ": draw_dab")])
prop("S06", "Reading canvas colour is accurate, in range and free of side effects",
  "Reading the colour under a disc returns, for a uniform area, that area's colour and coverage; for any valid canvas the result is in range, and in the non-pigment mode it lies within the spread of the pixels read and, when every pixel is sampled, equals the falloff-weighted average of the pixels under the disc. "
  "Reading never changes the canvas, also when drawing is pending.",
  ["inputs", "histories"], "all canvases, radii (from sub-pixel to thousands of pixels), positions, sampling intervals and pigment strengths, every outcome of the random sampling",
  "tests read colours only as a side effect of one smudging stroke and check no value",
  [TS, BM, SU], [("tile-wise accumulation", TS + ": get_color"), ("weighted accumulation of colours", BM + ": get_color_pixels_accumulate / _legacy")])
prop("S07", "Parallel tile rendering is race free and independent of the schedule",
  "Rendering an atomic section, or reading a colour, with any number of worker threads gives exactly the canvas and reported rectangles, and in the non-pigment mode (up to rounding) the colour read, of sequential rendering, for every interleaving of the threads. "
  "No two threads ever access the same memory without synchronisation while at least one writes, and a backend that is not declared thread-safe is never called from more than one thread.",
  ["schedules"], "all thread interleavings of the parallel rendering and reading loops (up to a preemption bound), all tile contents",
  "the test suite is built without threads or runs one lucky schedule; races need a specific interleaving",
  [TS, OQ, BM], [("parallel loop over dirty tiles", TS + ": mypaint_tiled_surface_end_atomic"), ("critical section in colour accumulation", TS + ": get_color"), ("per-tile queues popped by one thread only", OQ)])
prop("S08", "Separate brushes and surfaces do not influence each other",
  "Two brushes painting on two different surfaces behave exactly as if each were alone (apart from the C library's random sequence, which decides the subsampling of large colour reads), both when their calls are interleaved in one thread and when they run concurrently in two threads without any synchronisation. "
  "There is no unsynchronised memory shared between independent instances.",
  ["schedules", "histories"], "all call interleavings of two independent painting sessions; all thread interleavings up to a preemption bound",
  "tests use one brush and one surface at a time, in one thread",
  [BR, TS, BM, HE, "rng-double.c"], [("all state lives in the instance", BR + ": struct MyPaintBrush"), ("per-instance random generator", "rng-double.c")])
prop("S09", "Tile requests follow the backend protocol, also when the backend fails",
  "Every tile the engine asks a backend for is given back exactly once, never requested again while it is out, and never modified when requested read-only; requests are made only while a section is ended or a colour is read. "
  "When the backend cannot supply a tile, nothing crashes, no memory is lost, all other tiles are rendered as if nothing had happened, at most the dabs then pending for the missing tile are lost, and later drawing on the tile works once it is available again.",
  ["fault_sequences", "histories"], "all sequences of dabs, flushes and reads, with every subset (up to the bound) of the tile requests failing",
  "tests use backends that never fail and do not check the pairing of requests",
  [TS], [("request start/end pairing", TS + ": process_tile, get_color"), ("handling of missing tiles", TS + ": process_tile, get_color")])
prop("S10", "Running out of memory never corrupts, crashes or wedges painting",
  "If any memory allocation fails while dabs are drawn, symmetry is configured or a section is ended on an existing surface, the call returns normally without memory errors, and everything still painted is correct: a later section with memory available again paints exactly as usual. "
  "At most the dabs for which memory was missing are lost.",
  ["fault_sequences"], "every single allocation failing (and every suffix of allocations failing) in every enumerated drawing history",
  "allocation failures never happen in the tests",
  [OQ, TM, FI, TS, SY], [("allocation checks in the queue", OQ + ": operation_queue_resize/add"), ("bounding box growth", TS + ": prepare_bounding_boxes"), ("matrix allocation", SY)])
prop("S11", "Every object releases all its memory, in whatever state it is destroyed",
  "After an object (brush, mapping, surface, with or without pending work, symmetry data and learned mappings) is released by its last owner, all memory the library allocated for it is released exactly once; none is accessed afterwards. "
  "A reference count lets the object live exactly until the last reference (plain or held through a boxed copy) is dropped.",
  ["histories"], "all short histories of creating, referencing, using (including leaving work pending) and releasing objects",
  "tests do not check memory balance and never destroy a surface that still has pending dabs",
  [SU, BR, MA, OQ, FI, TM, FX], [("reference counting", SU + ", " + BR), ("queue teardown", OQ + ": operation_queue_free, " + TM + ": tile_map_free, " + FI + ": fifo_free")])
prop("S12", "A fixed-size surface stores exactly what is painted inside it",
  "A fixed-size surface starts out opaque white and reports its size; painting and reading at any position, inside, across or outside its border never touches memory outside it, and the pixels inside equal those of an unbounded canvas painted with the same dabs. "
  "Paint outside its area never shows up inside it nor at any place outside where nothing was painted, and asking it for something it does not support (saving a PNG) does no harm.",
  ["inputs", "histories", "configurations"], "all surface sizes (including not multiples of the tile size and smaller than a tile) x dab positions inside, across and outside x sequences",
  "tests create one square size and paint inside; the result is not compared with anything",
  [FX], [("tile addressing and the null tile", FX + ": tile_request_start/end"), ("initial contents", FX + ": mypaint_fixed_tiled_surface_new")])
prop("S13", "The GEGL surface paints the same picture as any other surface",
  "Painting through the GEGL-buffer surface leaves in the buffer exactly the pixels an in-memory surface gets from the same dabs, whichever buffer (fresh, replaced, pre-filled, any extent, tile size or format, up to its rounding) is installed and however many threads render, while what the application put into the buffer stays; colours read from it agree too, and reading changes no stored pixel. "
  "The surface holds a reference of its own to its buffer, and releases it when the buffer is replaced or the surface destroyed; buffers the application still refers to stay valid.",
  ["histories", "configurations"], "all short sequences of dabs, flushes, reads and buffer replacements",
  "the GEGL backend has one test that only checks that a dab changes the buffer",
  [GE], [("tile access through buffer iterators", GE + ": tile_request_start/end"), ("buffer replacement", GE + ": mypaint_gegl_tiled_surface_set_buffer")])
prop("S14", "Rectangles and transformations compute exactly what they say",
  "A rectangle that is extended by points and rectangles is always the exact bounding box of everything included so far (an empty one takes on what is added first), extending it never changes what was added, and a copy is equal to and independent of the original. "
  "A transformation maps every point as its translations, rotations and reflections applied one after the other would (up to rounding), and is not changed by mapping points.",
  ["inputs", "histories"], "all sequences of points, rectangles and transformation steps",
  "no test calls these functions directly; order and direction of composed steps and inclusive borders only show for specific sequences",
  [RE, MX], [("bounding boxes", RE + ": mypaint_rectangle_expand_to_include_point/rect, mypaint_rectangle_copy"), ("composition of transformations", MX + ": mypaint_matrix_multiply")])

prop("B01", "Loading any brush definition text either succeeds or fails cleanly",
  "Given any text, loading a brush definition terminates without crashing, reading out of bounds or leaking memory, and returns success exactly when the version is supported and at least one setting could be read completely. "
  "Afterwards the brush is usable: malformed or unknown parts are skipped, all intact parts are applied, every setting keeps a finite base value and well-formed response curves (finite points, non-decreasing abscissae), and painting with it works as long as its values lie within their documented limits.",
  ["inputs"], "all texts, in particular every structural mutation (type replaced, key missing, wrong counts, order, extreme numbers, truncation) of a valid definition",
  "tests load a handful of valid brush files",
  [BR, MA], [("parsing and validation", BR + ": mypaint_brush_from_string / update_settings_from_json_object"), ("curve construction", MA)])
prop("B02", "A brush does exactly what its definition and setters say",
  "Base values and response curves loaded from a definition or set through the setters are returned unchanged by the getters, settings that a definition does not mention stay as they were, reset-to-defaults sets all documented defaults (with the standard pressure curve on opaque multiply), and setting one value never alters another. "
  "A setting counts as constant exactly when it has no response curve.",
  ["inputs", "histories"], "all settings x inputs x curve sizes, in all orders of set, load and reset-to-defaults operations",
  "tests touch a few settings",
  [BR, BS, "brushsettings.json"], [("setters, getters, loader", BR), ("generated setting tables", "generate.py")])
prop("B03", "Response curves are the piecewise-linear functions that were entered",
  "A curve returns its base value plus, for each input with points, the value of the polyline through the points at that input, continued along the first and last segment's straight line outside the points (unless that segment is vertical); it is exact at the points (at a repeated abscissa: one of the ordinates entered there), and inputs without points contribute nothing. "
  "Editing one input's points never affects another input, and the number of inputs in use is tracked exactly.",
  ["inputs", "histories"], "all base values, point lists of 2..64 points with non-decreasing abscissae (including repeated ones), input values, and all sequences of edits",
  "the single mapping test checks a two-point curve",
  [MA], [("evaluation", MA + ": mypaint_mapping_calculate"), ("editing", MA + ": mypaint_mapping_set_n / set_point")])
prop("B04", "Identical input gives identical strokes, and a reset forgets the past",
  "Two brushes with the same settings that are fed the same events issue exactly the same dabs and end in the same state, whatever memory they happen to be created in. "
  "After a reset the next event starts a new stroke at its own position: the brush behaves like a freshly created one with the same settings, whatever was painted before, except that its random sequence continues.",
  ["histories", "configurations"], "all brushes of the alphabet, all event histories before and after the reset",
  "tests compare no two strokes and never reset in the middle of one",
  [BR], [("state initialisation", BR + ": mypaint_brush_new / brush_reset"), ("reset request handled at the next event", BR + ": mypaint_brush_stroke_to_internal")])
prop("B05", "Dabs are spread along the stroke as the spacing settings prescribe",
  "The dabs emitted for a motion are those prescribed by dabs per radius, dabs per base radius and dabs per second integrated along the path: evenly distributed positions on the line between events with pressure and tilt interpolated, the fraction left over carried to the next event. "
  "No motion is lost or painted twice: cutting a straight constant motion into more events yields the same dabs (up to rounding; dabs never come closer together than the coordinates' floating-point resolution).",
  ["inputs", "histories"], "all event sequences of the alphabet (positions, times, pressures) x spacing settings",
  "tests run recorded strokes without checking dab positions",
  [BR], [("dab accounting", BR + ": count_dabs_to, mypaint_brush_stroke_to_internal"), ("interpolation", BR + ": mypaint_brush_stroke_to_internal")])
prop("B06", "Every dab sent to a surface has sane parameters, whatever the input",
  "Whatever events are fed in (any finite or non-finite position, pressure, tilt, time step, zoom or rotation) and whatever base values within their documented limits the settings have, the engine never crashes, hangs or aborts. "
  "All dabs it issues have finite parameters with radius, opacity, colour and mode strengths within range, hardness of at most one and an aspect ratio of at least one, and strokes started by a reset after invalid events are painted as if those events had never happened.",
  ["inputs", "fault_sequences"], "all event values including NaN, infinities and extreme magnitudes at every position of an event history, extreme base values of every setting",
  "tests only feed recorded valid events",
  [BR, TS], [("input sanitising", BR + ": mypaint_brush_stroke_to_internal"), ("dab parameter clamping", BR + ": prepare_and_draw_dab")])
prop("B07", "Stroke splitting reports the end of strokes exactly as specified",
  "An event call reports that the stroke should be split exactly when the time without painted dabs exceeds 1 s before anything was painted, when painting time plus following idle time exceeds 0.9 s + 5 s x pressure while idle, when painting time exceeds 4 s + 3 s x pressure while pressure is not decreasing, after a pause of more than 5 s, or on the first event after a reset; splits found while bridging a pause are reported as well. "
  "The reported total painting time is the painting time of the current stroke, and a new stroke restarts the tracking.",
  ["histories"], "all event histories over pressures, time steps and dab outcomes, across resets and new strokes",
  "tests ignore the returned flag",
  [BR], [("stroke split state machine", BR + ": mypaint_brush_stroke_to_internal")])
prop("B08", "Saved brush state can be restored, and smudge buckets are independent",
  "Writing all state values and smudge buckets read from a brush into another brush with the same settings (that has taken its initial reset) makes both continue identically as long as no setting uses random numbers, tracking noise or a dynamic grid map scale, and every state value written is read back unchanged. "
  "Each smudge bucket stores its own colour independently of all others; accesses outside the available buckets are rejected without effect; a reset clears exactly the stored buckets.",
  ["histories", "inputs"], "all event prefixes, all state indices, all bucket counts and indices (valid and invalid), all orders of write/read/reset",
  "tests never save or restore state or use more than one bucket",
  [BR], [("state access", BR + ": mypaint_brush_get_state / set_state"), ("bucket array", BR + ": mypaint_brush_set_smudge_bucket_state / get_smudge_bucket_state / fetch_smudge_bucket")])
prop("B09", "The published setting, input and state catalogue is complete and consistent",
  "Every setting, input and state in the catalogue has a unique name that maps to its own index and back, ordered limits with the default inside them, and texts; unknown names are rejected. "
  "The catalogue agrees with the definition file it is generated from.",
  ["configurations"], "all entries of the catalogue and all names near them",
  "tests look up a few names",
  [BS, "generate.py", "brushsettings.json"], [("generated tables", "generate.py"), ("lookups", BS)])
prop("B10", "Dab colour and opacity follow the brush settings",
  "The colour of each dab is the brush colour converted from hue, saturation and value with the configured changes applied, mixed with the smudge colour by the smudge amount; opacity is opaque times opaque-multiply with the overlap linearisation. "
  "Eraser, alpha lock, colorize, posterize and pigment strengths reach the surface as configured.",
  ["inputs", "configurations"], "grid over colour, colour change, smudge, opacity and mode settings x event sequences",
  "tests do not look at dab colours",
  [BR, HE], [("dab preparation", BR + ": prepare_and_draw_dab"), ("colour conversions", HE)])
prop("B11", "Dynamic inputs are computed from the pen events as documented",
  "The value every input offers to the response curves (pressure, speeds, random, stroke, direction, declination, ascension, custom, attack angle, grid map, zoom, base radius, barrel rotation) equals its documented function of the event history. "
  "Settings respond to those values and to nothing else.",
  ["inputs", "histories"], "all inputs x event sequences of the alphabet x the settings that configure them",
  "tests do not observe inputs",
  [BR], [("input computation", BR + ": update_states_and_setting_values")])
prop("B12", "Offset, tracking, snapping and jitter settings move dabs as documented",
  "Each dab's position equals the path position plus the configured directional, angular, mirrored, speed and fixed offsets; slow tracking low-pass filters the pointer, and random jitter stays inside its radius. "
  "With all of these at zero, dabs lie exactly on the line between events.",
  ["inputs", "histories"], "all offset/tracking settings x event sequences, including rotation and flip state",
  "tests do not observe dab positions",
  [BR], [("directional offsets", BR + ": directional_offsets"), ("tracking", BR + ": mypaint_brush_stroke_to_internal")])
prop("B13", "Dab size, edge and ellipse follow the brush settings",
  "Each dab's radius is the exponential of the logarithmic radius evaluated for that dab, kept within 0.2 to 1000 pixels, its ellipse is the configured ratio and angle relative to the view, and hardness and softness arrive as configured, except that an edge thinner than the anti-aliasing width is widened around the same optical radius; random radii stay around the configured one, with enlarged dabs made more transparent by the area they gain, and full pixel snapping makes dabs end at half pixels. "
  "Every setting takes its base value plus the sum of its response curves at the inputs of that dab, also when it is changed in the middle of a stroke.",
  ["inputs", "configurations"], "grids over radius, hardness, softness, anti-aliasing, ellipse and snapping settings, and every pair of dynamic settings x event sequences",
  "tests do not look at dab shapes",
  [BR], [("dab preparation", BR + ": prepare_and_draw_dab"), ("setting evaluation", BR + ": update_states_and_setting_values")])

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = CHECKS.get(p["id"])
        if not c:
            na.append({"property": p["id"], "reason": "no check built yet"}); continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: checks compile /repo's sources in scratch directories and substitute the allocator, the random source, the tile backend and (S07, S08) the threading runtime at link time."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
