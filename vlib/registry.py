"""Which stages decide which property."""
RIU = ["aqsis_riutil", "aqsis_util", "aqsis_math"]
CHECKS = {}
def check(prop, stages, technique, note, assumptions=()):
    CHECKS[prop] = {"stages": stages, "technique": technique, "note": note, "assumptions": list(assumptions)}

check("C01", [{"src": "c01_roundtrip.cpp", "libs": RIU}],
      "property-based testing: random call sequences, writer->parser round trip, ASan",
      "Randomised search, no exhaustiveness. Oracle: recorded call list equals the generated one (exact in binary, 6 significant digits in ASCII).")

check("C02", [{"src": "c02_parse.cpp", "libs": RIU}],
      "property-based testing and grammar-aware fuzzing: re-encoded, damaged and random RIB streams, ASan, prefix/resync oracle",
      "Randomised search. Oracle: an independent encoder's call list for well-formed streams; for damaged ones, requests before and after the damage must arrive exactly, with an error reported and no memory error.")

check("C03", [{"src": "c03_validate.cpp", "libs": RIU}],
      "property-based testing: random legal/illegal request histories through the validation filter against an independent model of scopes, ranges and class counts",
      "Randomised search. Oracle: a table of the interface description plus a scope/basis model decides legality of each call; forwarded calls must equal the sent ones bitwise.",
      ["counts the interface leaves open are not generated: face-classes on non-polygonal primitives, uniform on NuPatch, basis changes inside motion, resource or archive blocks"])

check("C04", [{"src": "c04_archives.cpp", "libs": RIU}],
      "property-based testing: random nested archive/object/conditional programs through the caching filter against textual expansion",
      "Randomised search. Oracle: an independent interpreter expands the program; the delivered calls must equal the expansion.",
      ["object definitions are not nested inside objects; comments inside cached archives are not judged"])

check("C05", [{"src": "c05_filters.cpp", "libs": RIU}],
      "property-based testing: random frame lists and call histories through frame-drop, tee and on/off filters against a set model",
      "Randomised search. Oracle: set model of the frame list and per-filter expected call lists.")

check("C06", [{"src": "c06_tokens.cpp", "libs": RIU}],
      "property-based testing: generated and damaged declaration tokens and declaration histories against an independent token grammar and dictionary model",
      "Randomised search. Oracle: an independent tokeniser/grammar; a map model of the dictionary; storage counts recomputed.")

check("C07", [{"src": "c07_capi.cpp", "libs": ["aqsis_ri2rib"] + RIU}],
      "property-based testing: random C API histories (vector/varargs, several contexts) through the RIB library, parsed back, ASan",
      "Randomised search. Oracle: the calls parsed back equal the calls made; handle names must bind one to one.",
      ["illegal block openings/closings and redefinition of Basis inside motion, resource or archive blocks are not generated"])

MU = ["aqsis_math", "aqsis_util"]
check("C24", [{"src": "c24_linear.cpp", "libs": MU}],
      "property-based testing: random matrix/vector operation histories against a double-precision linear algebra model, ASan",
      "Randomised search. Oracle: double-precision arithmetic from the definitions, on the elements and on the action on vectors; error bounds scale with the condition number and ill-conditioned inverses are not judged.",
      ["skew with non-perpendicular directions is not judged"])

check("C25", [{"src": "c25_noise.cpp", "libs": MU}],
      "property-based testing: random arguments and periods in one to four dimensions; metamorphic relations (period shift, same cell, small step, repeat call)",
      "Randomised search. Oracle: bounds, Lipschitz steps, exact period shifts, lattice mid-values, cell constancy, dependence on every axis.")

check("C28", [{"src": "c28_utils.cpp", "libs": MU}],
      "property-based testing: random inputs and operation histories against reference models (blending polynomials, MT19937, radical inverse, bool vector)",
      "Randomised search. Oracle: independent implementations of each definition.",
      ["XYZ and xyY colour conversions are declared but not implemented and are not judged; bit vectors of different lengths are not combined"])

TEX = ["aqsis_tex", "aqsis_util", "aqsis_math"]
TEXI = ["/repo/libs/tex/filtering"]
check("C12", [{"src": "c12_images.cpp", "libs": TEX, "incs": TEXI + ["/usr/include/OpenEXR", "/usr/include/Imath"],
               "ldflags": ["-lOpenEXR", "-lIex", "-lImath", "-lpng", "-ltiff"]}],
      "property-based testing: random images, layouts and read/write histories round-tripped or written by the reference libraries; damaged files fuzzed under ASan",
      "Randomised search. Oracle: the pixels and attributes written (by aqsis, or by libpng, OpenEXR and a hand-made z-file writer) must be read back; damaged files may only raise the documented exceptions.",
      ["lossy TIFF compressions are not judged; damage to compressed pixel data need not be reported, only survived"])

check("C13", [{"src": "c13_maketexture.cpp", "libs": ["aqsis_tex", "aqsis_riutil", "aqsis_util", "aqsis_math"], "incs": TEXI, "ldflags": ["-ltiff"]}],
      "property-based testing: random images, filters, widths and wrap modes; every texel of every stored level recomputed from the level above",
      "Randomised search. Oracle: an independent double precision filter with its own wrap rules; tolerance of one integer step plus the negligible weights which are dropped.",
      ["negative values in signed integer images are not generated (documented as open in the code)"])

check("C14", [{"src": "c14_textures.cpp", "libs": ["aqsis_tex", "aqsis_riutil", "aqsis_util", "aqsis_math"], "incs": TEXI, "ldflags": ["-ltiff"]}],
      "property-based testing: random textures and lookup histories against an independent elliptical Gaussian average, metamorphic relations between lookups, fuzzed texture files, ASan",
      "Randomised search. Oracle: double precision evaluation on the stored levels; footprints whose edge passes too close to a texel to decide are only range-checked.",
      ["minimum filter widths below 2 texels are not generated"])

check("C26", [{"src": "c26_args.cpp", "libs": ["aqsis_util", "aqsis_math"]}],
      "property-based testing: random option tables and command lines against a model parser",
      "Randomised search. Oracle: the generator knows which option each argument belongs to.")

check("C27", [{"src": "c27_files.cpp", "libs": ["aqsis_util", "aqsis_math"]}],
      "property-based testing: random directory trees, search paths, wildcard patterns and child processes against a model of the tree",
      "Randomised search in scratch directories. Oracle: a model of the generated tree, an independent pattern matcher, and a child process that echoes what it received.")

check("C15", [{"src": "c15_depthenv.cpp", "libs": ["aqsis_tex", "aqsis_riutil", "aqsis_util", "aqsis_math"], "incs": TEXI, "ldflags": ["-ltiff"]}],
      "property-based testing: random depth maps, cameras, receivers, environment maps and directions against independently evaluated fractions and averages, ASan",
      "Randomised search. Oracle: interval for the weighted fraction of texels in front of the receiver; cosine-weighted fraction over occlusion maps; the C14 reference average at the position of the direction.",
      ["receivers on the plane of a perspective light camera, non-rigid light cameras, and directions within 0.1% of a cube edge or near the poles are only range-checked or left out"])

SL = ["aqsis_shadervm", "aqsis_slcomp", "aqsis_tex", "aqsis_riutil", "aqsis_util", "aqsis_math"]
check("C08", [{"src": "c08_shadexpr.cpp", "libs": SL}],
      "property-based testing: random well-typed expressions compiled by the real compiler and run by the real VM on a grid, against a reference evaluator with error bounds, ASan",
      "Randomised search. Oracle: an independent double precision evaluator which carries an error bound for every value; values whose bound is too wide (cancellation, discontinuities) are not judged.",
      ["points transformed to infinity, faceforward without a reference normal, sign(0) and noise-like functions are not generated; matrix products follow aqsis' own order"])
check("C09", [{"src": "c09_shadflow.cpp", "libs": SL}],
      "property-based testing: random structured shaders with integer-exact values run on a grid and, by a reference interpreter, on each point alone, ASan",
      "Randomised search. Oracle: a per-point interpreter of the same program; results must agree exactly.",
      ["variables are not passed as output arguments while the callee reaches them through extern (aliasing); functions return once, at their end, as the grammar demands"])

check("C10", [{"src": "c10_params.cpp", "libs": ["aqsis_slxargs"] + SL}],
      "property-based testing: random parameter lists compiled with the real compiler, instantiated on the VM with random subsets overridden and read back by the shader; queried through libslxargs, ASan",
      "Randomised search. Oracle: a model of which value each parameter must have, and the declared list for queries.",
      ["SLX_GetArrayArgElement is an unimplemented stub and is not judged", "primitive variables are bound through the shader execution environment, not through a whole rendering"])
RD = {"libs": [], "targets": ["aqsis", "aqsl"], "plugins": ["dump_dspy.cpp"]}
check("C16", [dict(RD, src="c16_buckets.cpp")],
      "property-based testing (metamorphic): random scenes rendered by the aqsis program with different bucket sizes, grid sizes and shading rates, repeatedly and as frames, compared pixel by pixel as received by a display driver, ASan",
      "Randomised search. Oracle: equality of images of the same scene under different work division.",
      ["jittered sampling depends on the bucket order by design and is only compared between identical settings", "flat scenes for grid size and shading rate are layered in depth: where surfaces pass through each other the dicing may show"])
check("C17", [dict(RD, src="c17_crop.cpp")],
      "property-based testing (metamorphic): random scenes rendered in full and in the windows of a random partition; random rectangles at known raster positions under random format, aspect and screen window, ASan",
      "Randomised search. Oracle: the full image; for the mapping, exact rectangle positions with a margin around sample points on edges.",
      ["jitter off", "windows with no pixel centre column or row are left out"])
check("C19", [dict(RD, src="c19_visibility.cpp")],
      "property-based testing: random layered polygons (opacity, matte, sides, orientation, mirroring, clipping, depth filters) and random CSG trees of ellipsoids and boxes, rendered with one fixed sample per pixel and compared with a ray-cast reference, ASan",
      "Randomised search. Oracle: ray casting with exact compositing; interval arithmetic along the ray for CSG.",
      ["pixels whose sample lies within a small margin of an edge, a crossing of surfaces or a clipping plane are not judged", "depth is not judged under matte surfaces", "with spheres, up to four single samples (or 2%) may fall through sub-pixel gaps between grids; polyhedra are exact"])
check("C18", [dict(RD, src="c18_scoping.cpp")],
      "property-based testing: random nested attribute/transform/frame blocks, archives, retained objects and procedurals rendered against the same scene with each primitive's state spelled out in place, ASan",
      "Randomised search. Oracle: metamorphic - a flattened scene, an in-place copy, one composed matrix, or the frame rendered alone.",
      ["deferred procedurals may change the few samples where facets of one surface meet at equal depth", "transformations written differently are compared up to rounding in a few pixels", "motion blocks are judged by C16/C17 only"])
check("C22", [dict(RD, src="c22_output.cpp", targets=["aqsis", "aqsl", "file_dspy", "exr_dspy", "bmp_dspy"], incs=["/usr/include/Imath"], ldflags=["-lOpenEXR", "-lIex", "-lImath", "-ltiff"])],
      "property-based testing: random filters, exposure, quantisation and sets of displays (including ones that cannot be opened), the values given to every display and written to TIFF, EXR, shadow and BMP files compared with a reference filter and with what a recording display driver received, ASan",
      "Randomised search. Oracle: reference filter sums over fixed sample positions; differential against a recording driver; file readers (libtiff, OpenEXR, own BMP reader).",
      ["integer filter widths; samples exactly on the rim of a filter are avoided", "values below 1e-3 before gamma are not judged", "dither is judged only to lie within its amplitude", "deep shadow displays are not covered"])
check("C20", [dict(RD, src="c20_geometry.cpp")],
      "property-based testing: random primitives of every kind (quadrics, polygons with holes, patches and meshes in every basis, rational and trimmed NURBS, subdivision meshes, curves, points) under random cameras and transformations, coverage and depth compared with a finely tessellated reference, ASan",
      "Randomised search. Oracle: independent evaluation of the defining geometry into a depth buffer with 25 samples per pixel.",
      ["pixels within a fraction of a pixel of an outline are not judged (1.4 pixels for trim curves, creases and corners)", "on curved surfaces 2% of the pixels may be missing (sub-pixel cracks); near creases and corners 20%", "polygons have at most one hole; the parameter range of NURBS is the whole knot range; blobbies are not covered"])
check("C21", [dict(RD, src="c21_primvars.cpp")],
      "property-based testing: random primitive variables of every class and type, and the standard variables, shown by a shader upon random primitives and compared with the values interpolated by a finely tessellated reference, ASan",
      "Randomised search. Oracle: independent interpolation of the values over the defining geometry.",
      ["values are compared with their range over the pixel; linear values on polygons", "arrays only of constant class", "u and v of polygons are not judged (their definition in the code departs from the standard on purpose)"])
check("C11", [dict(RD, src="c11_compiler.cpp", targets=["aqsl"])],
      "property-based testing and fuzzing of the aqsl command: random well-typed shaders rewritten without changing their meaning (comments, spacing, macros, includes, renamed variables), batches mixing good and bad files, programs with one planted error, unreadable files and mutated or random source text, ASan",
      "Randomised search. Oracle: identical compiled code for equivalent sources (metamorphic), the exit status and the message of rejected sources, no output left by them, no crash or hang.",
      ["renamed variables keep their order (the compiled code lists them by name)", "legal but unusual programs that the compiler accepts beyond the language are not judged"])
check("C23", [dict(RD, src="c23_lights.cpp")],
      "property-based testing: random histories of light definitions and switches within attribute blocks, lights of several kinds (ambient, distant, point, spot, user-written with illuminate and solar), cones and categories; the light gathered by generated surface shaders compared with an independent evaluation, ASan",
      "Randomised search. Oracle: reference model of the light lists, cones and the standard reflection formulas.",
      ["directions close to the rim of a cone are not judged", "solar light with a cone is not judged", "lights without a category are not judged against categories"])
check("C29", [dict(RD, src="c29_hair.cpp", targets=["hairgen"], plugins=[], extra_src=["{repo}/tools/procedurals/hairgen/kdtree/kdtree2.cpp"], incs=["{repo}/tools/procedurals/hairgen"], ldflags=["-rdynamic", "-ldl"])],
      "property-based testing and fuzzing of the hair procedural through its plugin interface: random emitter meshes, guide hairs and parameters, every curve it makes compared with a reference; random point sets and queries against the kd-tree; malformed parameters and files, ASan",
      "Randomised search. Oracle: weighted mean of the nearest guides, roots on the faces of the mesh and in proportion to their area, exhaustive nearest-neighbour search; every malformed case answered or refused with a message.",
      ["guide variables of point type other than P are not judged", "equally distant neighbours are not judged"])
NC = "{repo}/prototypes/newcore/"
check("C30", [dict(src="c30_newcore.cpp", libs=[], targets=["aqsis_math"], extra_src=[NC + f for f in ("ustring/ustring.cpp", "varspec.cpp", "primvar.cpp", "samplegen.cpp", "filters.cpp")], incs=[NC, NC + "ustring", "/opt/vp/include"], pre=["nc_shim.h"], ldflags=["-lImath"])],
      "model-based property testing: random histories of interned names, variable sets, grid and primitive-variable storage, strided views, occlusion trees and bucket schedulers, random sample tiles and nets of quadrilaterals, each against a plain model, ASan",
      "Randomised search. Oracle: std::string, maps, arrays and exhaustive computation.",
      ["the interned strings are used by one thread", "the split store and the renderer of the prototype do not compile with the libraries here and are not covered", "non-convex quadrilaterals are judged away from their edges"])

check("C31", [dict(RD, src="c31_blur.cpp")],
      "property-based testing: random rectangles moving by deformation, translation or scaling over random key and shutter times, seen through random lenses and detail ranges, against a per-sample model, ASan",
      "Randomised search. Oracle: with sample jitter off every sample's position, time, lens point and detail level is known, so each pixel is the mean of a directly evaluated model; with jitter on, values stay in range and the image mean agrees with a Monte Carlo estimate.",
      ["surfaces are rectangles parallel to the image, moving linearly between keys; motion towards the camera is judged in orthographic views only", "samples within 0.01 pixel of an edge, 0.002 of another surface's depth or 0.001 of a detail limit are not judged", "the size of the circle of confusion is the one the renderer defines (half the lens diameter, reduced by focal distance over focal distance plus diameter, times the difference of inverse depths)"])
