#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 meta/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A RIB stream written from interface calls parses back to the same calls",
 "Writing any sequence of valid RenderMan interface calls as RIB - ASCII or binary encoded, plain or gzip compressed, with any indentation - and parsing the result delivers the same calls in the same order with the same arguments. Names, strings, integers, array lengths and parameter lists come back exactly; floats come back exactly from binary and to the printed precision from ASCII. Strings are plain text (no quote, backslash or control characters) when the encoding is ASCII.",
 ["inputs", "histories", "configurations"], "every sequence of interface calls with every legal argument shape, times every writer option",
 "ribparser_test and ri2rib_test check a few dozen literal strings, one request each; no test feeds writer output back to the parser, and the encodings are selected per value (integer widths, fixed point, float arrays, string definitions).",
 ["libs/riutil/ribwriter.cpp", "libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp", "libs/riutil/ribtokenizer.cpp", "libs/riutil/ribinputbuffer.cpp"],
 [("AsciiFormatter / BinaryFormatter", "libs/riutil/ribwriter.cpp"), ("RibTokenizer::scanNext, decode*", "libs/riutil/ribtokenizer.cpp"), ("RibParser request handlers", "libs/riutil/ribparser.cpp")],
 ["calls received by the renderer handed to the parser"])

prop("C02", "RIB parsing survives any input and recovers at the next request",
 "Parsing any byte stream as RIB terminates without crashing, hanging or touching memory out of bounds, and problems are reported through the error interface. A malformed or unknown request does not disturb others: every well-formed request before it and after it in the stream is still delivered, in order, with its own arguments. Comments, whitespace, line endings and the buffering or chunking of the input never change what is delivered.",
 ["inputs", "fault_sequences"], "every byte stream; every insertion of a malformed request between well-formed ones; every layout of the same tokens",
 "The tests use a handful of short malformed literals, never a damaged binary stream, a malformed request in the middle of a longer valid file, or input longer than the internal buffer.",
 ["libs/riutil/ribparser.cpp", "libs/riutil/riblexer.cpp", "libs/riutil/ribtokenizer.cpp", "libs/riutil/ribinputbuffer.cpp"],
 [("RibLexer::discardUntilRequest, error handling in RibParser::parseNextRequest", "libs/riutil/"), ("RibInputBuffer::bufferNextChars, putback", "libs/riutil/ribinputbuffer.cpp")])

prop("C03", "Request validation passes valid calls untouched and drops invalid ones",
 "The validating stage forwards every legal request unchanged and in order, while a request that is illegal in the current scope, has an out-of-range argument, lacks required vertex positions, or has an array or parameter shorter than the interface requires is reported as an error and not forwarded (a longer array is only warned about). Scopes follow the RenderMan nesting rules for any sequence of begin and end requests, including unbalanced ones. A rejected request leaves the scope and all later requests unaffected.",
 ["histories", "inputs"], "every sequence of requests, legal or not, with every argument value and array length",
 "No existing test touches the validator; legality depends on the whole history of open scopes and on class counts computed from other arguments.",
 ["libs/riutil/ricxx_validate.cpp", "libs/riutil/ricxx_validate_template.cpp", "include/aqsis/riutil/ricxxutil.h"],
 [("scope stack pushScope/popScope/checkScope", "libs/riutil/ricxx_validate.cpp"), ("checkParamListArraySizes, IClassCounts", "libs/riutil/ricxx_validate.cpp, ricxxutil.h")])

prop("C04", "Inline archives, object instances and conditionals replay as written out",
 "A stream that uses inline archives, object instances or conditional blocks delivers to the renderer exactly the calls that the same stream delivers when each archive is pasted at its point of use, each instance is replaced by the object's contents, and only the taken branch of each conditional is kept. This holds for any nesting and re-use, and arguments (arrays, strings, parameter lists) are replayed unaltered. Definitions themselves emit nothing where they are made; an undefined object instance is reported, and stray or unbalanced ends and branches are ignored without disturbing other calls. (Comments inside a cached archive are not replayed, and object definitions do not nest inside objects.)",
 ["histories", "inputs"], "every program built from nested definitions, uses and conditionals around arbitrary requests",
 "No test drives the caching/conditional filter at all; each recorded request has its own copy of its arguments which must survive until replay.",
 ["libs/riutil/renderutil_filter.cpp", "libs/riutil/ricxx_cache.h", "libs/riutil/ricxx_filter.cpp", "libs/riutil/multistringbuffer.h"],
 [("CachedRiStream recording and replay", "libs/riutil/ricxx_cache.h, renderutil_filter.cpp"), ("conditional state stack", "libs/riutil/renderutil_filter.cpp")])

prop("C05", "Frame selection keeps exactly the selected frames",
 "With a set of frame numbers selected, exactly the frame blocks whose number is in the set reach the renderer, complete and in order, and everything outside frame blocks passes unchanged. Any list of numbers and ranges, in any order and with repeats, selects the set it denotes; a list that cannot be read is rejected. Pass-through stages (tee, on/off, archive-ignoring) deliver to each branch exactly the calls they document.",
 ["inputs", "histories", "configurations"], "every frame list and every sequence of requests with frame blocks",
 "No test covers the frame filter, the tee or the on/off filter.",
 ["libs/riutil/framedrop_filter.cpp", "libs/riutil/tee_filter.cpp", "libs/riutil/ricxx_filter.cpp", "include/aqsis/riutil/ricxx_filter.h"],
 [("FrameDropFilter::FrameBegin/FrameEnd", "libs/riutil/framedrop_filter.cpp"), ("TeeFilter", "libs/riutil/tee_filter.cpp"), ("OnOffFilter", "include/aqsis/riutil/ricxx_filter.h")])

prop("C06", "Declared and inline parameter types are recognised consistently",
 "Any well-formed parameter declaration or inline token (class, type, array size, name, in any legal spacing) is recognised with exactly those attributes, and anything else is rejected as an error. A declaration applies to every later use of the name until redeclared, inline types override it for that use only, and the standard names have their standard types. The number of values expected for a parameter is its element count times its per-class count for the primitive.",
 ["inputs", "histories"], "every token string and every history of declarations and uses",
 "primvartoken_test samples about ten strings; dictionary behaviour over histories of redeclaration is not tested.",
 ["include/aqsis/riutil/primvartoken.h", "libs/riutil/primvartoken.cpp", "include/aqsis/riutil/tokendictionary.h", "libs/riutil/tokendictionary.cpp"],
 [("CqPrimvarToken::parse", "libs/riutil/primvartoken.cpp"), ("CqTokenDictionary / TokenDict lookup", "include/aqsis/riutil/tokendictionary.h")])

prop("C07", "The C interface emits exactly the RIB of the calls made",
 "A program making RenderMan C interface calls (varargs or vector form, in one or several contexts) with the RIB library linked produces a RIB stream which, parsed back, is the sequence of calls made, with the argument values given at call time. Handles returned for lights, objects and archives refer to the right things when used later, in any order.",
 ["histories", "inputs"], "every sequence of C API calls",
 "ri2rib_test makes a few fixed calls and compares literal text.",
 ["libs/ri2rib/ri2rib.cpp", "libs/riutil/ri2ricxx.cpp", "libs/riutil/ricxx2ri.cpp", "libs/riutil/ribwriter.cpp"],
 [("Ri* -> Ri::Renderer forwarding, parameter list construction and class counts", "libs/riutil/ri2ricxx.cpp"), ("context switching", "libs/ri2rib/ri2rib.cpp")])

prop("C08", "Shading language expressions evaluate as the language defines",
 "Any well-typed shading language expression, compiled and executed on a grid, gives at each point the value that the RenderMan Shading Language defines: operators with their precedence and type promotions, triple and matrix arithmetic, comparisons and logic, casts between coordinate and colour spaces, string formatting and the standard mathematical, geometric, string and matrix functions, to single precision. The result is the same whether operands are constants, uniform or varying.",
 ["programs", "inputs"], "every well-typed expression over every operand value and storage class",
 "There is no test of the shading compiler or virtual machine at all in the baseline suite.",
 ["libs/slcomp/parse/parser.yy", "libs/slcomp/parse/typecheck.cpp", "libs/slcomp/parse/optimise.cpp", "libs/slcomp/backend/vmoutput.cpp", "libs/shadervm/shadervm.cpp", "libs/shadervm/shadervm1.cpp", "libs/shadervm/shadervm2.cpp", "libs/shadervm/shaderexecenv/"],
 [("type resolution and code generation", "libs/slcomp/"), ("opcode implementations", "libs/shadervm/shadervm*.cpp"), ("shadeops", "libs/shadervm/shaderexecenv/shadeops_*.cpp")],
 ["shader output variables displayed as arbitrary output variables"])

prop("C09", "Shader control flow acts independently at every shading point",
 "For any shader built from conditionals, loops with break and continue at any level, functions with output arguments, arrays and nested scopes, the result at each shading point equals running the program on that point alone. Points at which a branch is not taken keep their values, and other points of the grid never influence the result. Local variables and functions are scoped lexically, and function arguments behave as the language defines.",
 ["programs", "inputs"], "every structured program and every pattern of per-point conditions",
 "No test executes a compiled shader.",
 ["libs/slcomp/backend/vmoutput.cpp", "libs/slcomp/backend/vmdatagather.cpp", "libs/shadervm/shadervm.cpp", "libs/shadervm/shaderexecenv/shaderexecenv.cpp", "libs/shadervm/shaderstack.h"],
 [("running-state bit vector stack", "libs/shadervm/shaderexecenv/"), ("function inlining and variable allocation in code generation", "libs/slcomp/backend/")])

prop("C10", "Shader parameters take defaults, instance values and primitive variables",
 "Each parameter of a compiled shader has its default unless the shader instance supplies a value, which a primitive variable of the same name and type overrides on the primitive carrying it. This holds for every parameter type, array and storage class, for points given in any named coordinate system, and independently of the order of parameters. Querying the compiled shader reports exactly the declared shader type, parameter names, types, storage, array lengths and default values.",
 ["programs", "inputs", "configurations"], "every parameter list of every shader, with every subset overridden at either level",
 "No test compiles a shader; the argument-query library is not even linked in the baseline build.",
 ["libs/shadervm/shadervm.cpp", "libs/slxargs/slx.cpp", "libs/slcomp/backend/vmoutput.cpp", "libs/core/api/ri.cpp", "tools/aqsltell/"],
 [("SetArgument, PrepareDefArgs, default value code", "libs/shadervm/shadervm.cpp"), ("SLX_* argument records", "libs/slxargs/slx.cpp")])

prop("C11", "The shader compiler is deterministic and rejects bad programs cleanly",
 "Compiling the same shader source always gives the same compiled output, and changes to comments, whitespace, macros that expand to the same text, or consistent renaming of local variables do not change what the shader computes. Ill-typed, undeclared or syntactically wrong programs are rejected with an error naming the line and no usable output is left; no source text makes the compiler crash or hang.",
 ["programs", "inputs"], "every source text, well-formed or not",
 "No test runs the compiler.",
 ["libs/slcomp/parse/scanner.ll", "libs/slcomp/parse/parser.yy", "libs/slcomp/parse/typecheck.cpp", "libs/slcomp/slparse.cpp", "tools/aqsl/aqsl.cpp"],
 [("lexer/parser error reporting", "libs/slcomp/parse/"), ("type checking", "libs/slcomp/parse/typecheck.cpp")])

prop("C12", "Images written to file read back identically",
 "Pixels and header attributes written to an image file and read back are identical, for every supported channel type and count, image size, tiled or scanline layout, tile size, compression, number of sub-images, and any split of the rows over successive writes and reads. Reading any range of rows or tiles gives the same pixels as reading the whole image, and PNG, OpenEXR and depth (z) files made by other tools deliver the pixels, channel names, sizes and matrices they contain. Files that are not images or whose headers are damaged are reported as errors; no damaged file crashes the reader.",
 ["inputs", "configurations", "histories"], "every image content, format configuration and sequence of row writes and reads",
 "The TIFF tests write and read a few tiny fixed images; multi-chunk tiled writes, sub-images, short types and damaged files are untested.",
 ["libs/tex/io/tiffoutputfile.cpp", "libs/tex/io/tiffinputfile.cpp", "libs/tex/io/tiffdirhandle.cpp", "libs/tex/io/exrinputfile.cpp", "libs/tex/io/pnginputfile.cpp", "libs/tex/io/ztiledtexinputfile.cpp", "libs/tex/buffers/mixedimagebuffer.cpp"],
 [("writePixels / readPixels / tile assembly", "libs/tex/io/"), ("channel-converting copies", "libs/tex/buffers/")])

prop("C13", "Texture generation stores the filtered image pyramid it promises",
 "Making a texture stores the original pixels unchanged at the top level, and each further level is the level above halved (rounding up) with each texel the normalised filter-weighted mean of its neighbourhood under the chosen wrap mode, so constant images stay constant and values stay within the range allowed by the filter. The stored wrap modes, texture format, field of view and camera matrices are those requested or found in the source. This holds for every image size, channel type and count, filter, filter width and wrap mode.",
 ["inputs", "configurations"], "every image and every combination of filter, width, wrap modes and kind of texture",
 "There is no test of texture generation.",
 ["libs/tex/maketexture/maketexture.cpp", "libs/tex/maketexture/downsample.cpp", "libs/tex/filtering/cachedfilter.cpp", "include/aqsis/tex/filtering/filtertexture.h"],
 [("createMipmap, downsample", "libs/tex/maketexture/downsample.h"), ("CqCachedFilter weights", "libs/tex/filtering/cachedfilter.cpp"), ("filterTexture wrap handling", "include/aqsis/tex/filtering/filtertexture.h")])

prop("C14", "Texture lookups return properly filtered texture values",
 "A texture lookup over any region, blur, width, wrap mode, channel range and fill value returns a weighted mean of the texels under the region: a constant texture gives that constant, results stay within the range of the contributing texels, unavailable channels give the fill value, black wrap contributes zero outside, periodic directions are unchanged by whole-period shifts, and clamped directions continue the edge texels. The weights are those of the elliptical Gaussian fitted to the region (scaled by the widths, enlarged by the blur) on the stored level whose resolution suits its narrower axis, or on the two nearest levels when interpolation is asked for, so linear textures are reproduced away from the edges. Looking up in any order, through any cache, gives the same values; an absent or unreadable file gives a placeholder, not a crash.",
 ["inputs", "histories", "configurations"], "every texture, lookup region and option setting, and any history of earlier lookups",
 "No test performs a texture lookup.",
 ["libs/tex/filtering/ewafilter.cpp", "libs/tex/filtering/ewafilter.h", "libs/tex/filtering/mipmap.h", "libs/tex/filtering/texturesampler.cpp", "include/aqsis/tex/filtering/sampleaccum.h", "libs/tex/texturecache.cpp", "include/aqsis/tex/buffers/tilearray.h"],
 [("EWA filter construction and mip level choice", "libs/tex/filtering/"), ("wrap handling per sample", "include/aqsis/tex/filtering/filtertexture.h"), ("tile cache", "include/aqsis/tex/buffers/tilearray.h")])

prop("C15", "Shadow, occlusion and environment lookups give the promised fractions",
 "A shadow lookup returns the fraction of the filter region that lies behind the stored depths beyond the bias: 1 when everything is behind, 0 when nothing is, always between, and monotonic in the receiver's depth. Where a file holds several views, the one that sees the receiver deepest along its viewing direction is used. An occlusion lookup stays in [0,1] and averages the occlusion from the maps that face the surface, weighted by the cosine to the normal (0 if none does). An environment lookup depends only on the direction and its spread, not its length, returns the constant of a constant map, and for cube-face and latitude-longitude maps finds the texel in that direction.",
 ["inputs", "configurations"], "every depth map, camera, receiver region, bias, and every direction and environment map",
 "No test performs a shadow, occlusion or environment lookup.",
 ["libs/tex/filtering/shadowsampler.cpp", "libs/tex/filtering/occlusionsampler.cpp", "libs/tex/filtering/cubeenvironmentsampler.cpp", "libs/tex/filtering/latlongenvironmentsampler.cpp", "include/aqsis/tex/filtering/depthapprox.h"],
 [("percentage closer filtering", "libs/tex/filtering/shadowsampler.cpp"), ("map choice and weights", "libs/tex/filtering/occlusionsampler.cpp"), ("direction to face/texel mapping", "libs/tex/filtering/*environmentsampler.cpp")])

prop("C16", "The image does not depend on how the work is divided",
 "With the sample positions fixed (sample jitter off), the rendered image depends only on the scene: no bucket size changes any pixel of any scene, and grid size limits and shading rate change no pixel of constant-shaded flat surfaces (beyond rounding). Rendering the same scene again, with or without jitter, in its own file or as one of several frames, gives the identical image. No geometry is lost or duplicated at bucket or image boundaries, and each pixel reaches the display once.",
 ["configurations", "inputs", "programs"], "every scene and every setting of the work-division options",
 "The baseline suite cannot even link the renderer, so no image is ever rendered.",
 ["libs/core/imagebuffer.cpp", "libs/core/bucketprocessor.cpp", "libs/core/bucket.cpp", "libs/core/geometry/surface.cpp", "libs/core/micropolygon.cpp"],
 [("posting surfaces and grids to buckets", "libs/core/imagebuffer.cpp"), ("bucket sampling and filtering with overlap", "libs/core/bucketprocessor.cpp")],
 ["pixel values received by the display driver"])

prop("C17", "A crop window reproduces exactly that part of the full image",
 "Rendering with any crop window gives exactly the pixels whose positions fall in the window, and (with sample jitter off) each has the same value as in the full rendering. The windows of any partition of the screen tile the full image with no pixel missing or repeated. Format, pixel aspect ratio and screen window map the camera's view onto the raster as specified.",
 ["configurations", "inputs"], "every crop rectangle, resolution, aspect ratio, screen window and scene",
 "No image is rendered by the tests.",
 ["libs/core/options.cpp", "libs/core/renderer.cpp", "libs/core/imagebuffer.cpp", "libs/core/ddmanager/ddmanager.cpp"],
 [("crop window to pixel range", "libs/core/imagebuffer.cpp / options.cpp"), ("screen to raster transform", "libs/core/renderer.cpp")])

prop("C18", "Attribute, transform and option scoping follow the block structure",
 "Attributes, transformations and options set inside a block never affect anything after the block's end, and apply to everything that follows inside it. Composing transformations in steps, as one matrix, or through named coordinate systems gives the same picture, and archives, procedurals and instances give the same picture as writing the content in place. Frames and worlds in one file render as they would in separate files.",
 ["histories", "inputs"], "every nesting of blocks and every sequence of state-setting requests",
 "No image is rendered by the tests; state is copy-on-write shared between blocks.",
 ["libs/core/context.cpp", "libs/core/attributes.cpp", "libs/core/transform.cpp", "libs/core/api/ri.cpp", "libs/core/api/graphicsstate.h"],
 [("mode block stack", "libs/core/context.cpp, graphicsstate.h"), ("copy-on-write attributes and transforms", "libs/core/attributes.cpp, transform.cpp")])

prop("C19", "Visible surfaces, opacity, matte, sides and CSG compose correctly",
 "At each sample the nearest opaque surface hides what is behind it and transparent surfaces in front are composited in depth order regardless of the order in which they were given, with colour and alpha as the standard over operation; matte objects cut holes, one-sided and reversed surfaces are culled as oriented, and nothing outside the clipping range or the screen appears. Solids built by union, intersection and difference show exactly the boundary of the resulting set. Depth output holds the depth the selected depth filter defines over the surfaces admitted by the z threshold.",
 ["inputs", "configurations", "programs"], "every arrangement of surfaces with any opacity, order and boolean combination",
 "No image is rendered by the tests; occlusion_test only covers the occlusion tree of one bucket.",
 ["libs/core/bucketprocessor.cpp", "libs/core/imagepixel.cpp", "libs/core/occlusion.cpp", "libs/core/csgtree.cpp", "libs/core/micropolygon.cpp"],
 [("sample hit combination", "libs/core/imagepixel.cpp"), ("occlusion culling", "libs/core/occlusion.cpp"), ("CSG tree processing", "libs/core/csgtree.cpp")])

prop("C20", "Every primitive covers exactly its geometric region at the right depth",
 "Each primitive type - polygons of every kind, quadrics including partial sweeps, patches and patch meshes in every basis, NURBS with trimming, subdivision meshes, curves and points - covers the pixels its defining geometry projects to, at the depth of that geometry, with no visible cracks between adjacent pieces. This holds under any transformation, shading rate, grid size and position relative to the screen.",
 ["inputs", "configurations"], "every primitive with every parameter, under every transformation",
 "No image is rendered by the tests.",
 ["libs/core/geometry/", "libs/core/api/ri.cpp", "libs/core/api/genpoly.cpp", "libs/core/micropolygon.cpp", "libs/core/geometry/surface.cpp"],
 [("split and dice of each surface", "libs/core/geometry/"), ("micropolygon point-in-polygon test", "libs/core/micropolygon.cpp")])

prop("C21", "Primitive variables reach shading points with the declared interpolation",
 "A primitive variable attached to a primitive arrives at every shading point with the value its class defines: constant and uniform values per primitive and face, varying bilinear over the parametric patch, vertex by the surface's own basis, facevarying per face corner, for every type, and for constant arrays of any length. Splitting and dicing do not change it. The standard variables P, N, u, v, s, t, Cs and Os follow the same rules and their defaults.",
 ["inputs", "configurations"], "every primitive type, variable class, type and value",
 "No image is rendered by the tests.",
 ["libs/core/parameters.h", "libs/core/parameters.cpp", "libs/core/geometry/surface.cpp", "libs/core/geometry/polygon.cpp", "libs/core/geometry/patch.cpp", "libs/core/geometry/subdivision2.cpp"],
 [("Subdivide / Dice of parameters", "libs/core/parameters.h"), ("NaturalDice / NaturalSubdivide", "libs/core/geometry/")])

prop("C22", "Pixel filtering, exposure, quantisation and file output keep pixel values",
 "Each output pixel is the normalised filter-weighted mean of the samples under the pixel filter, then exposed by gain and gamma, and quantised as round(one*value + dither) clamped to [min,max], or left as float when one is zero. Every display receives every pixel of the image exactly once with the channels it asked for, for any set of displays and output variables. The files written by the image displays contain exactly those values at those positions, with the documented header data.",
 ["inputs", "configurations"], "every filter, width, exposure, quantisation, set of displays and image",
 "No image is rendered by the tests.",
 ["libs/core/bucketprocessor.cpp", "libs/core/filters.cpp", "libs/core/ddmanager/ddmanager.cpp", "tools/displays/file/display.cpp", "libs/core/imagebuffer.cpp"],
 [("FilterBucket / ExposeBucket", "libs/core/bucketprocessor.cpp"), ("quantisation and scanline assembly", "libs/core/ddmanager/ddmanager.cpp"), ("file output", "tools/displays/")])

prop("C23", "Lights illuminate exactly the surfaces and points they should",
 "At each point, the light a surface shader gathers is the sum over the lights switched on for that primitive whose direction lies in the gathering cone and whose illumination cone covers the point, each contributing the colour its light shader computes there. Switching lights on and off, the order of lights, and non-illuminating ambient lights follow the attribute block structure and the language definition. Standard reflection functions agree with their defining formulas.",
 ["programs", "inputs", "configurations"], "every set of lights, switches, cones and surface points",
 "No image is rendered by the tests.",
 ["libs/shadervm/shaderexecenv/shadeops_illum.cpp", "libs/core/lights.cpp", "libs/core/api/ri.cpp", "libs/shadervm/shadervm2.cpp"],
 [("illuminance/illuminate/solar loops", "libs/shadervm/shaderexecenv/shadeops_illum.cpp"), ("light list in attributes", "libs/core/attributes.cpp")])

prop("C24", "Matrix and vector arithmetic obeys linear algebra",
 "Matrix composition, inversion, transposition, determinant, construction from rotations, scales, skews and translations, and transformation of points, vectors, normals and homogeneous points agree with exact linear algebra to single precision, whichever special forms (identity, pure scale, pure translation) the matrices have or lose on the way. A skew past its axes is the identity. Vector, 2x2 matrix and colour operations satisfy their defining identities, including decomposition into eigenvalues.",
 ["inputs", "histories"], "every matrix, however constructed and modified, and every vector",
 "The unit tests check a few fixed matrices; the identity flag is carried through every operation and only histories expose a stale one.",
 ["include/aqsis/math/matrix.h", "libs/math/matrix.cpp", "include/aqsis/math/matrix2d.h", "libs/math/matrix2d.cpp", "include/aqsis/math/vector3d.h", "include/aqsis/math/vector4d.h"],
 [("CqMatrix operations with identity flag", "libs/math/matrix.cpp, include/aqsis/math/matrix.h"), ("SqMatrix2D::eigenvalues/diagonalize", "include/aqsis/math/matrix2d.h")])

prop("C25", "Noise functions are deterministic, bounded, continuous and periodic",
 "Noise, periodic noise and cell noise return the same value for the same argument at any time, in the documented range; gradient noise is continuous and takes its mid value at lattice points, periodic noise repeats exactly with the given integer period and agrees with plain noise when the period is not reached, on each side of zero, and cell noise is constant within each unit cell. This holds in every dimension, for every component, and for negative and large arguments.",
 ["inputs"], "every argument and period in one to four dimensions",
 "The unit tests compare a few sampled values.",
 ["libs/math/noise.cpp", "libs/math/noise1234.cpp", "libs/math/cellnoise.cpp", "include/aqsis/math/noise.h", "include/aqsis/math/noise1234.h"],
 [("CqNoise / CqNoise1234", "libs/math/"), ("CqCellNoise hashing", "libs/math/cellnoise.cpp")])

prop("C26", "Command-line parsing assigns every argument to the right option",
 "For any set of declared options and any command line made of their accepted spellings (separate or joined values, short and long names, repeated options, flags), each option receives exactly the values given for it in order, flags are set exactly when present, and the remaining arguments are delivered in order; everything after the end-of-options marker is positional. Unknown options and missing or malformed values are reported as an error without changing the meaning of the others.",
 ["inputs", "configurations"], "every option table and every argument vector",
 "argparse_test checks about a dozen fixed command lines.",
 ["libs/util/argparse.cpp", "include/aqsis/util/argparse.h"],
 [("ArgParse::parse", "libs/util/argparse.cpp")])

prop("C27", "File lookup finds the right file along any search path",
 "Looking a file up along a search path returns the file in the first listed directory that contains it, with absolute names used directly and not-found reported; path strings expand & to the previous path, @ to the default path and %NAME% to the environment variable, leaving everything else unchanged. Wildcard expansion returns exactly the matching files. A child process started for a display or script receives exactly the arguments and bytes given, and what it prints arrives unchanged.",
 ["inputs", "configurations"], "every directory layout, search path string and file name",
 "file_test checks a few literal path strings, none with real directories.",
 ["libs/util/file.cpp", "include/aqsis/util/file.h", "libs/util/sstring.cpp", "libs/util/popen.cpp", "libs/core/options.cpp"],
 [("findFileInPath, expandFilePath, CqPathList handling", "libs/util/file.cpp, libs/core/options.cpp")])

prop("C28", "Spline, colour, random and utility functions meet their definitions",
 "Spline evaluation through any number of knots in every basis follows the basis matrix and passes through the knots for interpolating bases; colour space conversions (hsv, hsl, YIQ) follow their definitions and invert each other; low-discrepancy and random numbers stay in range, are reproducible from the seed and well spread. Enumeration and string conversions, ordered and bit containers behave as their mathematical models under any history of operations.",
 ["inputs", "histories"], "every knot vector, parameter, colour and operation sequence",
 "The unit tests check fixed examples.",
 ["libs/math/spline.cpp", "libs/math/color.cpp", "libs/math/random.cpp", "libs/math/lowdiscrep.cpp", "include/aqsis/util/bitvector.h", "include/aqsis/util/enum.h"],
 [("CqSplineCubic", "libs/math/spline.cpp"), ("CqBitVector", "libs/util/bitvector.cpp"), ("CqRandom", "libs/math/random.cpp")])

prop("C29", "Generated hair follows its guide curves and roots",
 "The hair generator places every child hair's root on the emitting surface, in the number requested, reproducibly, and shapes it by a weighted mean of the nearest guide hairs so that children of identical guides are copies of them; per-hair primitive variables are the same weighted means. Nearest-neighbour queries return exactly the closest points. Malformed parameters are reported without crashing.",
 ["inputs", "configurations"], "every mesh, guide set and parameter set",
 "There is no test of the hair generator.",
 ["tools/procedurals/hairgen/", "tools/procedurals/hairgen/kdtree/kdtree2.cpp"],
 [("ParentHairs::childInterp", "tools/procedurals/hairgen/parenthairs.cpp"), ("EmitterMesh", "tools/procedurals/hairgen/emittermesh.cpp"), ("kdtree2", "tools/procedurals/hairgen/kdtree/")])

prop("C30", "New-core storage and sampling structures behave as their models",
 "In the new rendering core, variable sets, interned strings, array views, grid and primitive-variable storage, occlusion trees, bucket scheduling, sample-tile generation and point-in-quad tests behave as their mathematical models for any history of operations: names compare by content, each variable's storage is disjoint and keeps its values, transformations treat each variable by its type, a box is hidden exactly when all the leaves it covers are nearer, every bucket is handed out exactly once, each sample tile uses every sample exactly once, and a point is inside exactly one quad of a tiling.",
 ["inputs", "histories"], "every sequence of operations and every geometry",
 "The prototype tests sample a few fixed cases.",
 ["prototypes/newcore/"],
 [("VarSet / VarSpec", "prototypes/newcore/varspec.h"), ("GridStorage, PrimvarStorage", "prototypes/newcore/gridstorage.h, prototypes/newcore/primvar.h"), ("OcclusionTree, BucketScheduler", "prototypes/newcore/occlusion.h, prototypes/newcore/bucketscheduler.h"), ("sample tiles", "prototypes/newcore/samplegen.cpp"), ("PointInQuad", "prototypes/newcore/pointinquad.h"), ("ustring", "prototypes/newcore/ustring/")])

prop("C31", "Motion blur, depth of field and detail levels average over each sample",
 "Each sample sees the scene at its own time in the shutter interval, through its own point of the lens and at its own detail level, and the pixel is the mean of its samples. A surface moving between the key times of a motion block (by deformation, by a transformation or by a moving camera) is at the linearly interpolated place at each sample's time and rests at its first and last key outside them; a shutter of zero length shows the scene at that instant. A surface in the focal plane is sharp and others blur over a disc that grows with the lens diameter and their distance from it. A primitive with a detail range is shown at the fraction of samples that its size on the image, times the relative detail, selects. No moving or blurred geometry is lost, doubled or misplaced, for any key times, shutter, lens and bucket size. (Motion blocks that compose on one surface use the same key times.)",
 ["inputs", "schedules"], "every motion, shutter interval, lens, detail range, sampling rate and bucket division",
 "The tests render no image with motion, lens or detail.",
 ["libs/core/"],
 [("moving micropolygons and their bounds", "libs/core/micropolygon.cpp"), ("sampling with motion, lens and detail", "libs/core/bucketprocessor.cpp, libs/core/imagepixel.cpp"), ("sample generators", "libs/core/grid.cpp, libs/core/multijitter.cpp"), ("motion specification and transforms", "libs/core/motion.h, libs/core/transform.cpp"), ("circle of confusion, detail selection", "libs/core/renderer.h, libs/core/renderer.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
