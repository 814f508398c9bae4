SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan": {"cflags": SAN, "hflags": ["-O1", "-g", "-fsanitize=address"], "ldflags": ["-fsanitize=address,undefined"], "extra": ["alloc.cpp"]},
    "threads": {"cflags": ["-g", "-O1", "-fopenmp", "-fsanitize=thread", "-fno-exceptions", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fPIC"], "hflags": ["-O1", "-g"], "ldflags": ["-no-pie"], "extra": ["alloc.cpp", "sched.cpp"], "rename": ["memcpy", "memset", "memmove"]},
    "gegl": {"cflags": SAN, "hflags": ["-O1", "-g", "-fsanitize=address"], "ldflags": ["-fsanitize=address,undefined"], "extra": ["alloc.cpp"], "gegl": True},
    "geglthreads": {"cflags": ["-g", "-O1", "-fopenmp", "-fsanitize=thread", "-fno-exceptions", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fPIC"], "hflags": ["-O1", "-g", "-DMC_SCHED"], "ldflags": ["-no-pie"], "extra": ["alloc.cpp", "sched.cpp"], "gegl": True,
                    "rename": ["memcpy", "memset", "memmove", "gegl_buffer_set_extent", "gegl_buffer_get_extent", "gegl_buffer_iterator_new", "gegl_buffer_get", "gegl_buffer_set"]},
    "fast": {"cflags": ["-g", "-O2"], "hflags": ["-O2", "-g"], "extra": ["alloc.cpp"]},
}
CHECKS = {}
MC = "stateless model checking of the real code: exhaustive enumeration of bounded "
def check(id, technique, rule, note, runs, assumptions=()):
    CHECKS[id] = {"level": "model_checking", "technique": MC + technique, "rule": rule, "note": note, "assumptions": list(assumptions), "runs": [dict(harness=r[0], flavour=r[1], **(r[2] if len(r) > 2 else {})) for r in runs]}
BASE = "Exhaustive within the stated alphabets and bounds, nothing outside them. Trusted: the compiler, glib/json-c, the harness' tile backend and oracle. "

check("S01", "dab / flush / read histories, differential oracle (rendering after every dab)",
      "after every complete history the canvas of the batched surface is compared pixel by pixel with that of a surface that renders after every single dab; values returned by reads in the middle are compared too",
      BASE + "Library compiled with address and undefined-behaviour sanitizers, so bookkeeping errors that do not change pixels are seen too.",
      [("batching", "asan")])
check("S02", "destination pixel x colour x opacity x blend mode space, reference compositor oracle",
      "every destination pixel of a 4096-pixel grid (all alpha corner values x channel fractions) is composited by the library for every enumerated dab and compared with a double-precision reference compositor; validity is checked on every resulting pixel",
      BASE + "Pigment modes are compared with a tolerance that covers the fast approximation of pow; posterize is not compared at ambiguous roundings. The pigment epsilon (0.001), the minimum pigment opacity 150/32768 and spectral tables are taken as part of the specification.",
      [("raster", "fast")])
check("S03", "dab geometry space, analytic profile oracle",
      "every pixel around every enumerated dab is compared with the analytic falloff profile (radius>=3) or with the anti-aliasing rule (smaller dabs)",
      BASE + "Pixels whose centre lies within 1e-4 of a profile corner are only bounded.",
      [("raster", "fast")])
check("S04", "section histories x symmetry x rectangle capacities (and failing allocations), invariant: changed pixels within reported area",
      "after every section every pixel is compared with its value at the start; changed ones must lie in a reported rectangle; rectangles must lie within the union of the extents of the dabs and their images; guard words around the caller's list",
      BASE + "Tightness is judged against the bounding box of all dab images of the section plus 3 pixels, not per rectangle.", [("surface", "asan")])
check("S05", "symmetry configurations and configuration-change histories, differential oracle (explicit mirrored dabs)",
      "each enumerated history is painted once with symmetry and once as explicit dabs computed by a double-precision model of the symmetry group; every pixel is compared",
      BASE + "Comparison tolerance 96/32768 per channel (single-precision transforms). Switching symmetry on or off in the middle of a section is not constrained, only changes of geometry.", [("surface", "fast")])
check("S06", "canvas x radius x position x mode x sampling outcome space and read/draw histories, weighted-average oracle",
      "the returned colour is compared with the exact weighted average (non-pigment modes, all pixels sampled), the spread of the pixels (any sampling), or the uniform colour; canvases are compared with and without reads",
      BASE + "rand() is a choice: never / always / alternating. In pigment modes only range, coverage and uniform areas are decided.", [("surface", "fast")])
check("S09", "drawing histories with every bounded set of failing tile requests, protocol monitor and per-tile replay oracle",
      "a monitor checks every request (pairing, exclusivity, read-only promise, reach); every tile is finally compared with a fault-free rendering of exactly the dabs that were pending whenever it was available",
      BASE + "Whether a request that yielded no tile is still ended is left open. With symmetry only memory safety, balance and protocol are decided under faults.", [("faults", "asan")])
check("S10", "drawing histories with every allocation failing in turn, admissible-outcome oracle",
      "after failing allocations and recovery every tile must equal the rendering of an order-preserving subset of the dabs that contains every dab whose call saw no failure; memory balance is exact",
      BASE + "Construction of objects under memory shortage is outside the property. The address sanitizer decides memory safety.", [("faults", "asan")])
check("S11", "object histories ended by destruction, allocation-balance and sanitizer oracle",
      "the number of live library allocations after destruction must equal that before creation; the address sanitizer reports any access after release",
      BASE + "Allocations made inside glib and json-c are not counted here (see B01).", [("faults", "asan")])
check("S12", "surface sizes x painting and reading histories, differential oracle (unbounded canvas)",
      "every pixel inside the surface is compared with the same dabs painted on an unbounded tile backend that starts with the same contents; the address sanitizer watches the memory around the surface",
      BASE + "Where the border tiles extend beyond the surface their contents are not constrained.", [("fixed", "asan")])

check("B03", "curve shapes and edit histories, polyline oracle",
      "the library's value is compared with a double-precision polyline evaluation at, next to, between and beyond the points of every enumerated curve; points, counts and base value are read back after every edit",
      BASE + "Beyond a vertical first or last segment the value is not constrained; at a repeated abscissa any of the ordinates entered there is accepted.", [("mapping", "asan")])
check("B01", "structural and textual mutations of brush definitions, invariant and leak oracle",
      "every mutated text is loaded into a brush; the harness knows which parts stayed intact and requires failure, success and the applied values where they are certain; always: finite base values, well-formed curves, no memory error, no leaked byte, a valid definition loads on top, painting works",
      BASE + "Where a lenient JSON reader may accept or reject a text, only the general guarantees are decided. Painting is tried with out-of-limit values replaced by defaults.", [("settings", "asan")])
check("B02", "setter / definition / default histories over every setting and input, mirror-model oracle",
      "after every operation all 64 settings x 18 inputs are read back and compared with a mirror model",
      BASE + "A definition leaves settings and inputs it does not mention as they were.", [("settings", "asan")])
check("B09", "all catalogue entries and near-miss names, oracle: the definition file",
      "every entry and every lookup is compared with brushsettings.json",
      BASE, [("settings", "asan")])
for _id, _tech, _rule, _note in [
    ("B05", "event histories x spacing settings, reference engine and closed-form oracles", "the dabs issued by every event are compared one by one with a double-precision reference engine, for straight motions with the closed form", "Executions in which rounding could tip the number of dabs are discarded."),
    ("B06", "event histories with every bounded set of insane values, settings at their limits, invariant and fresh-brush oracles", "every dab is checked for finite and in-range parameters; after a restart the dabs are compared with those of a brush that never saw the insane events; sanitizers and a watchdog decide crashes and hangs", "Settings stay within their documented limits. Hardness may be negative for dabs smaller than the anti-aliasing width (the surface treats it as zero)."),
    ("B10", "colour, opacity, smudge and mode settings x event histories x canvas answers, reference engine oracle", "colour, opacity and mode parameters of every dab are compared with the reference engine", "Random radii are checked by bounds."),
    ("B11", "inputs x configurations x event histories, reference engine oracle", "the value of every input is read off every dab through identity curves and compared with the reference engine", "The random input is checked by bounds. Angles are compared modulo their period."),
    ("B12", "offset and tracking settings x event histories, reference engine and geometric oracles", "the position of every dab is compared with the reference engine, with the line between events, or (random settings) bounded around the undisturbed dab", "Random displacements are checked by bounds."),
    ("B13", "radius, edge, ellipse, snapping and response-curve settings x event histories, reference engine oracle", "radius, hardness, softness, aspect ratio and angle (and every other parameter) of every dab are compared with the reference engine, random radii with the brush without them", "Random radii are checked by bounds; executions in which rounding could tip a decision are discarded.")]:
    check(_id, _tech, _rule, BASE + _note, [("brush", "asan")])
check("B04", "event histories x brushes x memory contents / prior histories, differential oracle (bitwise equality of two brushes)",
      "every dab, canvas sample, state value and smudge bucket of two brushes is compared bit by bit: brushes created in memory with different contents, and a brush that was restarted against a fresh one",
      BASE + "The allocator fills fresh heap memory with different patterns; uninitialised stack memory is only seen when it changes the outcome. Brushes using random numbers are excluded from the comparison after a reset.", [("strokes", "asan")])
check("B07", "histories of events (pressure, time step, painted or not), new strokes and resets, reference state machine",
      "the answer and the painting time of every event call are compared with a reference model of stroke splitting that is told which dabs painted",
      BASE + "Executions within 1e-5 s of a threshold, or whose number of dabs rounding could tip, are discarded.", [("strokes", "asan")])
check("B08", "event prefixes x continuations, bucket operation sequences, differential and mirror-model oracles",
      "a brush that received the saved state is compared bit by bit with the original during every continuation; all buckets are read back after every operation and compared with a mirror model",
      BASE + "Random numbers, tracking noise and a dynamic grid map scale are not part of the saved state.", [("strokes", "asan")])
check("S07", "thread interleavings of the parallel rendering and reading loops under a controlled scheduler, happens-before race detection and differential oracle (sequential rendering)",
      "for every schedule the canvas, reported rectangles and colour read are compared with those of sequential rendering, and every memory access of the library is checked against vector clocks",
      BASE + "Threads switch at lock operations, atomics and tile requests; in race-free executions switches elsewhere make no difference, and races are reported for any pair of unordered accesses. The OpenMP runtime is replaced by the scheduler. rand() is fixed.", [("threads", "threads")])
check("S08", "call and thread interleavings of two independent sessions under a controlled scheduler, happens-before race detection and differential oracle (each session alone)",
      "everything a session observes (canvas, dabs, colours, states) is compared bit by bit with what it observes alone; every memory access of the library is checked against vector clocks",
      BASE + "rand() is fixed: the C library's random sequence, used for subsampling large colour reads, is shared by design. json-c is not instrumented.", [("threads", "threads")])
check("S13", "buffer, painting and replacement histories and thread interleavings, differential oracle (in-memory surface)",
      "every pixel of every buffer is compared with an in-memory surface that received the same dabs (and the same pixels from the application); colours, reported rectangles and life times of the buffers are checked; with several threads, for every schedule",
      BASE + "GEGL and babl are trusted and not instrumented; which of their calls read or write the description of a buffer is modelled by wrappers. Buffers in other formats are compared with a tolerance for the conversion. Replacing a buffer while dabs are pending is not constrained.", [("gegl", "gegl"), ("gegl", "geglthreads")])
check("S14", "sequences of points, rectangles and transformation steps, bounding-box and double-precision matrix oracles",
      "after every step the rectangle is compared with the bounding box of everything included so far, the image of every probe point with that of the steps applied one after the other in double precision",
      BASE + "Including an empty rectangle is not constrained.", [("geometry", "asan")])
