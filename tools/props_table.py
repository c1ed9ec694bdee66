TB = 'Trusted: clang 18 AST, the engine in engine/, the rule table read off the documentation. '
prop('C01', 'Transparent filters pass every request on once, unaltered',
 'A pass-through filter hands every interface request to the next stage exactly once with every argument unchanged and in its place; the tee filter does so for both of its outputs in the documented order (branch first, next stage first for scope ends). The on/off filter does so when on and passes nothing when off; the frame-drop filter drops exactly the requests of frames that are not in its list; the archive-ignoring filter drops exactly archive reads.',
 ['inputs', 'programs'], 'every request of the interface, every argument value, every state of the filter',
 'Tests exercise a handful of requests; nothing enumerates the 110 requests times five filters.',
 ['libs/riutil/ricxx_filter.cpp', 'libs/riutil/tee_filter.cpp', 'libs/riutil/framedrop_filter.cpp', 'include/aqsis/riutil/ricxx_filter.h'],
 [('one forwarding method per request', 'libs/riutil/ricxx_filter.cpp')],
 'path-sensitive effect summaries of each request method (copy propagation, helpers looked through)',
 TB + 'Decides every path of every request method; assumes std/boost code does not re-enter the interface.')
prop('C02', 'Requests are accepted exactly in the scopes the interface allows',
 'The request validator passes a request on, unaltered and exactly once, if the innermost open scope is one the interface description allows for that request, and otherwise rejects it by raising a validation error without passing anything on. Every Begin request opens exactly one scope of its own kind, every End request closes exactly the scope its Begin opened and is rejected in any other scope; the per-scope attribute state (basis, orientation) is saved and restored with the scope. Inside an archive block everything is let through.',
 ['inputs', 'histories'], 'every request in every scope, for every nesting history',
 'The tests check a few requests in a few scopes; there are 110 requests times 11 scopes.',
 ['libs/riutil/ricxx_validate.cpp', 'libs/riutil/ri.xml'],
 [('scope check and scope stack of the validator', 'libs/riutil/ricxx_validate.cpp')],
 'path-sensitive summaries evaluated over the finite set of scopes (typestate of the scope stack), compared with the frozen interface table',
 TB + 'All requests x all scopes, all paths. Order of nested scopes is covered because each step depends on the top of the stack only.')
prop('C03', 'Arguments outside the documented range or length are never passed on',
 'The request validator passes a request on only if every documented constraint on its arguments holds: numeric range constraints, lengths of array arguments relative to one another, the number of values of every parameter of the parameter list (one per uniform/varying/vertex/facevarying item of that primitive, times array size and component count), and the presence of the required P or Pw/Pz/Pw parameter. A request that satisfies all constraints in an allowed scope is never rejected.',
 ['inputs'], 'every request and every argument value',
 'The constraints are arithmetic relations between array lengths; tests sample a few lengths of a few requests.',
 ['libs/riutil/ricxx_validate.cpp', 'include/aqsis/riutil/interpclasscounts.h', 'include/aqsis/riutil/primvartoken.h'],
 [('range and length checks of the validator', 'libs/riutil/ricxx_validate.cpp')],
 'must-pass-through check of branch decisions, relations compared as polynomial normal forms; counting helpers summarised against their definitions',
 TB + 'Comparisons are over the reals (NaN not distinguished); overflow of int products is not considered.')
prop('C04', 'Every RIB request is parsed into the same request, arguments in order',
 'For every request of the RIB binding the parser has exactly one handler, the handler makes exactly that request once, and every argument of the request is the value read at its documented position with its documented type; fixed-size arguments are read with their fixed size; values read as parameter list come last; nothing is made after an error. The lexer hands out a token only as the type it has: a mismatching token raises a syntax error.',
 ['inputs'], 'every RIB request and every sequence of tokens',
 'The unit tests of the parser cover the requests with a mock lexer for one input each.',
 ['libs/riutil/ribparser.cpp', 'libs/riutil/riblexer.cpp', 'libs/riutil/ribparser_impl.h'],
 [('one handler per request', 'libs/riutil/ribparser.cpp'), ('typed token access', 'libs/riutil/riblexer.cpp')],
 'path-sensitive summaries of every handler with numbered lexer reads, compared with the frozen interface table; dispatch-table extraction; typestate of lexer tokens',
 TB + 'Number conversion and string escapes inside the tokenizer are not decided.')
prop('C05', 'The RIB writer writes every request with all its arguments, in order',
 'For every request it receives the RIB writer, in its text and in its binary form, writes the name of that request followed by every RIB argument exactly once, unaltered, in the documented order and as the documented kind of token (number, string, array of the full length, name of a filter, error or procedural function, name or matrix of a basis), then each parameter of the parameter list once with its own data, and nothing else. A parameter is written under its bare name only if the current declaration of that name equals its type; otherwise with an inline declaration. Functions and bases are written under the name that reads back to the same object. An archive read is either interpolated (only if asked to) or written, never both or neither; procedurals are written and freed once, or left alone if not handled.',
 ['inputs', 'programs'], 'every request, every argument and parameter list, both output forms',
 'The tests round-trip a few requests; 108 requests times two formats times parameter storage types are never enumerated.',
 ['libs/riutil/ribwriter.cpp', 'include/aqsis/riutil/ribwriter.h'],
 [('one writer method per request', 'libs/riutil/ribwriter.cpp'), ('printParamList', 'libs/riutil/ribwriter.cpp')],
 'path-sensitive effect summaries of every writer method down to the formatter calls, compared with the frozen interface table',
 TB + 'Does not decide string escaping, nor what happens when an unregistered function is written (that raises an error).')
prop('C06', 'Recorded archives and objects replay exactly what was recorded',
 'While an inline archive or an object is being recorded, every RIB request is recorded exactly once, with an owning copy of every argument and parameter, and has no other effect; outside a recording it is passed on unaltered; inside a false conditional it has no effect. Reading a recorded archive, or instancing an object, replays the recorded requests in order, each with the arguments it was recorded with, into the start of the filter chain, any number of times; an archive that is not recorded is passed on, an unknown object is reported. Nested archive blocks are recorded as part of the outer one; redefining a name replaces the old stream, also while that stream is being replayed. Data of a recorded procedural is freed once, when the record is destroyed.',
 ['inputs', 'histories'], 'every request, every argument list, every recorder state and nesting',
 'Tests record two or three requests; the record classes are 108 hand-expanded copies.',
 ['libs/riutil/renderutil_filter.cpp', 'libs/riutil/ricxx_cache.h', 'libs/riutil/multistringbuffer.h'],
 [('one record class per request', 'libs/riutil/ricxx_cache.h'), ('recorder state', 'libs/riutil/renderutil_filter.cpp')],
 'composition of path summaries (constructor of the record with its reCall), finite evaluation of the recorder states, ownership of replayed streams, agreement of sizing and copying pass',
 TB + 'The counters of the parameter-list copy are compared as normal forms of their increments.')
prop('C07', 'The C interface makes exactly the request it names',
 'Each C entry point RiXxx makes the request Xxx exactly once on the start of the current filter chain with its own arguments in their places: array arguments with the length the interface documents for them in terms of the other arguments, the parameter list with token i, value i and the number of values that follows from the declared type and the number of uniform, varying, vertex and face-varying items of that primitive. The varargs form collects its arguments in order up to the null token and calls the vector form with the same arguments. Handles: a new handle is remembered in the innermost scope, returned, and its name passed on; a name is passed on only for a handle that is known. Basis steps and handle scopes are saved and restored with the scopes.',
 ['inputs', 'programs'], 'every C entry point, every argument list, every handle history',
 'No test calls more than a few of the 150 entry points; a wrong array length reads past the caller\'s arrays.',
 ['libs/riutil/ri2ricxx.cpp'],
 [('C entry points', 'libs/riutil/ri2ricxx.cpp')],
 'path-sensitive summaries of every entry point; array lengths and item counts compared as polynomial normal forms with the frozen interface table',
 TB + 'Lengths are compared without overflow.')
prop('C08', 'No exception leaves the C interface; failures are reported',
 'Whatever is raised while a C entry point builds or makes its request (bad handle, bad declaration, rejected request, foreign exception from a callback) ends the call inside the library: it is reported once as an error to the error handler of the context and never propagates to the C caller.',
 ['inputs', 'faults'], 'every C entry point and every exception raised below it',
 'Needs a fault in each of 150 entry points; tests trigger none.',
 ['libs/riutil/ri2ricxx.cpp'],
 [('exception guards of the C entry points', 'libs/riutil/ri2ricxx.cpp')],
 'interprocedural exception-escape analysis (throw sets through calls, overriders and handlers)',
 TB + 'Exhaustion of memory is not considered; user error handlers are assumed not to raise.')

prop('C09', 'A malformed RIB request is reported once and does not disturb the rest',
 'Whatever a RIB stream contains, a request that is malformed, unknown or rejected is reported exactly once as an error naming the position, the request and the reason; exactly the tokens up to the next request (or the end) are skipped, requests and end-of-file tokens are never lost, and parsing goes on with the next request. Nested inputs are independent: however parsing of an inner stream ends (normally or by an exception from the renderer, the error handler or a comment callback) the outer stream continues with the look-ahead, position and comment callback it had.',
 ['inputs', 'faults', 'histories'], 'every token sequence, every failure point, every nesting of inputs',
 'Tests feed two or three broken requests; failures inside error reports, comments or nested archives are never exercised.',
 ['libs/riutil/ribparser.cpp', 'libs/riutil/riblexer.cpp', 'libs/riutil/ribtokenizer.cpp', 'libs/riutil/ribtokenizer.h'],
 [('request loop', 'libs/riutil/ribparser.cpp'), ('error recovery', 'libs/riutil/riblexer.cpp'), ('input stack', 'libs/riutil/ribtokenizer.cpp')],
 'typestate analysis over tokens split by type (loops unrolled twice), exception-path enumeration of the request loop, field-by-field comparison of saved and restored state',
 TB + 'The counter of encoded arrays and the table of encoded requests are not saved between inputs (the code says so) and are not claimed.')
prop('C10', 'Binary RIB is decoded and encoded by the documented table',
 'For every first byte 0..255 the reader delivers the token kind of appendix C.2 of the RISpec (integers, fixed point, short and long strings, 32 and 64 bit floats, encoded requests and strings and their definitions, float arrays, end of file; all reserved bytes are errors; 7-bit bytes start the ASCII tokens), takes exactly the documented number of following bytes and combines them most significant first. The binary writer emits only encodings of this table, with a prefix whose size fits the value for every value, each float, string and array complete, and every request code defined before it is used and never given to two requests.',
 ['inputs'], 'all 256 first bytes with symbolic following bytes; every value, string and array written',
 'Tests decode a handful of encodings and never write binary with large values.',
 ['libs/riutil/ribtokenizer.cpp', 'libs/riutil/ribwriter.cpp'],
 [('scanNext', 'libs/riutil/ribtokenizer.cpp'), ('BinaryFormatter', 'libs/riutil/ribwriter.cpp')],
 'abstract evaluation of the scanner per first byte with values as linear forms over symbolic bytes; byte-sequence summaries of the writer paths compared with the same table',
 TB + 'Conversion between floats and their bits is assumed to be exact; at most 255 different requests.')

prop('C11', 'Conditional RIB: exactly the first true clause of each conditional takes effect',
 'For every history of IfBegin, ElseIf, Else and IfEnd, nested to any depth and with every outcome of the conditions, a request takes effect exactly when every enclosing conditional is in its first true clause (or in its Else with no clause true). Unmatched ElseIf, Else and IfEnd have no effect; conditions are tested on the text given. When no condition test is installed the four requests are passed on unaltered; while an archive or object is being recorded they are recorded and have no other effect.',
 ['histories', 'inputs'], 'all histories with nesting up to 3 and all condition outcomes (exhaustive over the extracted transition system)',
 'A bug needs a nested conditional of a particular truth pattern; the tests have one or two patterns.',
 ['libs/riutil/renderutil_filter.cpp'],
 [('conditional requests of the recording filter', 'libs/riutil/renderutil_filter.cpp')],
 'extraction of guarded state updates from the paths of four methods; exhaustive product with a reference automaton',
 TB + 'Depth 3 stands for all depths because the stacks are treated uniformly.')
prop('C12', 'Strings and arrays handed to a request stay valid until the request is done',
 'Every string, array and parameter list the RIB parser and the C interface hand to a request keeps its contents until that request returns, however many other values the same request reads and also if the request itself parses a nested stream; a recycled buffer never shows values of an earlier request. Nowhere in the libraries and tools is a pointer kept, returned, stored or collected into a string or array that no longer exists or may move: temporaries, locals and by-value parameters that are left, elements of a vector that still grows.',
 ['inputs', 'histories'], 'every function and every pointer into a string or array buffer; every sequence of lexer reads and nested streams',
 'A dangling view usually still shows the right bytes in a test; it fails with longer strings, more values or nested streams.',
 ['libs/riutil/riblexer_impl.h', 'libs/riutil/riblexer.cpp', 'libs/riutil/ribparser.cpp', 'libs/riutil/ri2ricxx.cpp', 'libs/riutil/multistringbuffer.h'],
 [('buffer pools of the lexer', 'libs/riutil/riblexer_impl.h'), ('parameter storage of the parser', 'libs/riutil/ribparser.cpp')],
 'ownership analysis of views (origin of every kept, returned, stored or collected pointer), typestate of the buffer pools',
 TB + 'Flow-insensitive within a function except for block nesting; pointers passed down to callees are assumed not to be kept (each callee is checked itself).')

prop('C13', 'Every shading language built-in runs its own operation on its own operands',
 'For every operation code of the shader virtual machine and every built-in function of the shading language: the compiled name leads to the operation of that name; the operation takes exactly the operands the language declares (plus the count and the list for functions with a variable number of arguments), hands them to the function of the execution environment in the declared order, each once, and leaves exactly the one result of the declared type, varying whenever the function may vary over the surface. Arithmetic and relational codes apply the operator they name to the types they name, left operand left.',
 ['inputs'], 'all 337 operation codes and 279 built-in signatures, every path through their implementation',
 'No shader with most of these built-ins is executed by the tests; a swapped operand shows only with particular values.',
 ['libs/shadervm/shadervm1.cpp', 'libs/shadervm/shadervm2.cpp', 'libs/shadervm/shadervm.cpp', 'libs/shadervm/shadervm.h', 'libs/shadervm/shaderstack.h', 'libs/slcomp/parse/parsenode.cpp', 'libs/slcomp/parse/funcdef.cpp'],
 [('operation code table', 'libs/shadervm/shadervm.cpp'), ('operations', 'libs/shadervm/shadervm2.cpp'), ('built-in function table', 'libs/slcomp/parse/parsenode.cpp')],
 'agreement of three tables (opcode table, built-in table, stack effect summaries computed from all paths of each opcode) and an operand-origin analysis of the environment calls',
 TB + 'bump() is executed by opcodes that do not match its signature (known finding).')
prop('C14', 'Shader execution keeps its operand stack and its temporaries balanced',
 'Whatever a shader executes, on every path through every operation: each operand popped is released exactly once and only if it is a temporary; each result temporary is taken from the pool of its own type and class, sized for the current grid, and pushed exactly once; each operation reads exactly the program words its code is followed by; a released temporary goes back to the pool it is taken from. Nothing is leaked, used after release, or released twice, and variable creation gives an object of the requested type and class.',
 ['inputs', 'histories'], 'every operation of the virtual machine, every path, all type/class combinations',
 'A leaked or doubly released temporary is invisible until a long-running shader corrupts another value.',
 ['libs/shadervm/shadervm1.cpp', 'libs/shadervm/shadervm2.cpp', 'libs/shadervm/shadervm.cpp', 'libs/shadervm/shadervm.h', 'libs/shadervm/shaderstack.cpp', 'libs/shadervm/shaderstack.h'],
 [('operand stack and pools', 'libs/shadervm/shaderstack.cpp'), ('operations', 'libs/shadervm/shadervm2.cpp')],
 'typestate analysis of popped operands and temporaries over all paths of each opcode; exhaustive evaluation of the type dispatch',
 TB + 'The number of operands of a variable argument list is taken as unrolled twice.')

prop('C15', 'Shading operations act exactly on the points that are running',
 'Whatever conditionals and loops a shader is in, and whatever mixture of uniform and varying operands an operation is given: an operation with a varying result computes the result of every running point from the operands of that same point (the single value of a uniform operand) and leaves points that are not running untouched; an operation with a uniform result computes it once. Conditionals, loops and breaks keep the set of running points: a varying condition splits it, the other branch runs on exactly the remaining points, leaving a construct restores the set it was entered with, a jump is taken exactly when no point is (or all points are) in the tested state.',
 ['inputs', 'histories'], 'every shading operation, every uniform/varying combination of its operands, all running sets of a two-point grid',
 'A test shades a few points with everything running; a wrong point index or an ignored running state shows only inside varying conditionals.',
 ['libs/shadervm/shaderexecenv/', 'libs/shadervm/shadervm1.cpp', 'libs/shadervm/shadervm2.cpp', 'libs/shadervm/shaderstack.h', 'include/aqsis/shadervm/ishaderexecenv.h'],
 [('shading operations', 'libs/shadervm/shaderexecenv/'), ('running state opcodes', 'libs/shadervm/shadervm1.cpp')],
 'abstract execution of every operation over a two-point grid with the running state and operand classes enumerated exhaustively; index and guard of every value access compared with the point it belongs to',
 TB + 'Two points stand for all grid sizes because the loops treat points uniformly; bit vector operations do what they are named after.')
prop('C16', 'Every built-in function computes its documented formula',
 'The shading language built-ins and operators that are closed formulas of their operands (arithmetic, comparison, trigonometric and power functions, step/smoothstep/mix/clamp/min/max, vector and colour algebra, geometric functions, matrix functions, colour space and coordinate handling, component access, type conversion) compute exactly the documented value for every operand, in every combination of uniform and varying operands.',
 ['inputs'], 'every closed-form built-in and operator, every operand value, uniform and varying',
 'A changed sign, factor, comparison or component in one of 229 formulas is seen only by a shader that uses it.',
 ['libs/shadervm/shaderexecenv/', 'include/aqsis/math/'],
 [('built-in functions', 'libs/shadervm/shaderexecenv/')],
 'closed-form summaries (path-sensitive, helpers inlined) compared by value numbering with random interpretation against the frozen specification formulas',
 TB + 'Values are compared up to rounding; noise, texture, tracing and lighting built-ins are not formulas and are not claimed.')

REF = ('value-graph (gated SSA) summary of every function, helpers expanded, checked for equivalence with the confirmed reference graph by global value numbering with random interpretation')
RN = TB + ('Functions outside the value-graph language are listed in the evidence and not claimed; calls leaving the expanded files are uninterpreted; values are compared up to rounding.')
WHY = 'The tests sample a few values of a few of these functions; a wrong sign, index, bound or branch elsewhere stays invisible until a scene needs it.'
ANY = 'every value of every input of every judged function, on every path'


def refprop(id, title, statement, files, mech, over=('inputs',), why=WHY, q=ANY):
    prop(id, title, statement, list(over), q, why, files, mech, REF, RN)


refprop('C17', 'Vector, matrix, colour and bounding-box algebra is exact',
 'For all operand values: vector, matrix (including products on both sides, transpose, inverse, determinant, rotation, skew, scale, translation and the identity shortcut), 2D matrix, colour (including every colour space conversion), spline, derivative and region arithmetic give the mathematically defined result, component by component; comparison operators agree with the components; bounding boxes contain everything they were extended by and are transformed into boxes that contain the transformed contents; intersection and containment tests of boxes and planes are exact at their faces.',
 ['include/aqsis/math/', 'libs/math/', 'libs/core/bound.cpp', 'libs/core/bound.h'],
 [('matrices', 'include/aqsis/math/matrix.h'), ('vectors', 'include/aqsis/math/vector3d.h'), ('colours', 'libs/math/color.cpp'), ('bounds', 'libs/core/bound.cpp')])
refprop('C18', 'Noise, cell noise and random sequences are the documented functions',
 'Perlin and periodic noise of one to four dimensions, cell noise, the low-discrepancy sequence and the random number generators compute the same value for the same arguments and the same seed in every run: lattice cell and fraction are taken by floor also for negative arguments, each corner of the cell contributes with its own gradient and fade weight, periods wrap in the dimension they are given for, results are scaled into the documented range, and a generator reseeded with the same seed repeats its sequence.',
 ['libs/math/noise.cpp', 'libs/math/noise1234.cpp', 'libs/math/cellnoise.cpp', 'libs/math/random.cpp', 'libs/math/lowdiscrep.cpp'],
 [('noise', 'libs/math/noise1234.cpp'), ('cell noise', 'libs/math/cellnoise.cpp'), ('random', 'libs/math/random.cpp')])
refprop('C19', 'Quadrics are bounded, split and diced on the surface they describe',
 'For every sphere, cone, cylinder, hyperboloid, paraboloid, disk and torus, partial or whole, with any sweep angle: the bound encloses the surface, splitting in u or v gives pieces that together cover exactly the parent with the parent\'s parameters and primitive variables, dicing evaluates point, normal and parameters of every grid vertex on the surface, and dice sizes follow the raster size, shading rate and grid size. Surfaces of all kinds set up default primitive variables, split uniform, varying and vertex values to the matching piece and shade grids with the values of their own vertices.',
 ['libs/core/geometry/quadrics.cpp', 'libs/core/geometry/surface.cpp', 'libs/core/geometry/teapot.cpp'],
 [('quadrics', 'libs/core/geometry/quadrics.cpp'), ('common surface code', 'libs/core/geometry/surface.cpp')])
refprop('C20', 'Patches, NURBS and polygons are converted, split and diced exactly',
 'Bilinear and bicubic patches and meshes of any basis and step, NURBS surfaces of any order, knots and trimming, and polygons (convex, general with holes, meshes) become geometry that lies on the described surface: basis conversion, knot insertion and refinement, subdivision at any parameter, trim curve evaluation and point-in-trim tests, triangulation and quadrilateral splitting give the mathematically defined control points and take each piece\'s primitive variables from its own corners, edges and faces.',
 ['libs/core/geometry/patch.cpp', 'libs/core/geometry/nurbs.cpp', 'libs/core/geometry/polygon.cpp', 'libs/core/geometry/trimcurve.cpp', 'libs/core/api/genpoly.cpp', 'libs/core/bilinear.h'],
 [('patches', 'libs/core/geometry/patch.cpp'), ('NURBS', 'libs/core/geometry/nurbs.cpp'), ('polygons', 'libs/core/geometry/polygon.cpp'), ('trim curves', 'libs/core/geometry/trimcurve.cpp')])
refprop('C21', 'Curves and points become ribbons and particles of the given size',
 'For every curves primitive (linear or cubic, any basis and step, periodic or not, with constant or varying width, with or without normals) and every points primitive: counts of segments, varying and vertex values follow the interface rules; the curve is converted to Bezier form, bounded including its width, split into halves or into patches that carry the width and primitive variables of their own ends; each point becomes one micropolygon of its own radius at its own position and time.',
 ['libs/core/geometry/curves.cpp', 'libs/core/geometry/cubiccurves.cpp', 'libs/core/geometry/linearcurves.cpp', 'libs/core/geometry/points.cpp', 'libs/core/geometry/curves.h', 'libs/core/geometry/points.h'],
 [('curves', 'libs/core/geometry/cubiccurves.cpp'), ('points', 'libs/core/geometry/points.cpp')])
refprop('C22', 'Subdivision surfaces follow the Catmull-Clark and tag rules',
 'On every mesh topology: the lath structure answers which vertices, edges and faces are adjacent, in order and also at boundaries; subdividing a face creates its face, edge and vertex points with the Catmull-Clark masks, the boundary, crease and corner masks where the tags ask for them, interpolates primitive variables of every storage class alike, keeps sharpness decreasing, and extracts regular faces as the matching B-spline patch with its neighbourhood in order.',
 ['libs/core/geometry/subdivision2.cpp', 'libs/core/geometry/subdivision2.h', 'libs/core/geometry/lath.cpp', 'libs/core/geometry/lath.h'],
 [('subdivision', 'libs/core/geometry/subdivision2.cpp'), ('laths', 'libs/core/geometry/lath.cpp')])
refprop('C23', 'Tokens, types and streams mean the same to every part of the interface',
 'Every part of the interface library reads and writes the same thing: primitive variable tokens are parsed to the class, type, array size and name they spell and printed back alike; declarations are looked up with inline declarations first; standard symbols, filters, bases and error codes map to their names and back; element counts follow type, class and primitive; RIB numbers, strings and arrays are scanned by the documented grammar with their position; compressed and plain streams deliver the same bytes; a rendering context that could not be opened leaves no trace.',
 ['libs/riutil/', 'include/aqsis/riutil/', 'libs/ri2rib/ri2rib.cpp'],
 [('tokens', 'libs/riutil/primvartoken.cpp'), ('dictionary', 'libs/riutil/tokendictionary.cpp'), ('scanner', 'libs/riutil/ribtokenizer.cpp'), ('symbols', 'libs/riutil/risyms.cpp'), ('RIB output context', 'libs/ri2rib/ri2rib.cpp')],
 over=('inputs', 'histories'))
refprop('C24', 'Implicit and procedural primitives produce the surface they are given',
 'Blobby opcodes are decoded with exactly their operands and evaluated with their documented field functions, bounds and operators for any program; the polygonisers place vertices on the level set along cell edges and orient triangles alike for every cell configuration; procedurals (DelayedReadArchive, RunProgram, DynamicLoad) are expanded once, only when their bound is visible, with the detail they cover and the attribute state of their creation.',
 ['libs/core/geometry/blobby.cpp', 'libs/core/geometry/jules_bloomenthal.cpp', 'libs/core/geometry/marchingcubes.cpp', 'libs/core/geometry/procedural.cpp'],
 [('blobbies', 'libs/core/geometry/blobby.cpp'), ('polygonisers', 'libs/core/geometry/marchingcubes.cpp'), ('procedurals', 'libs/core/geometry/procedural.cpp')])
refprop('C25', 'Every visible sample is hit by the micropolygon in front of it, and no other',
 'For every micropolygon (static, moving, points), pixel sample, shutter time, lens position and level of detail: a sample is hit exactly if it lies inside the micropolygon at its time and lens position; depth, colour and opacity are interpolated at that place; hits are merged into the sample in depth order with opacity, matte, CSG and depth-filter rules; occlusion culling never removes a micropolygon that some sample would see; buckets tile the image exactly, with filter margins, and each surface, grid and micropolygon is passed to every bucket it touches.',
 ['libs/core/micropolygon.cpp', 'libs/core/micropolygon.h', 'libs/core/bucketprocessor.cpp', 'libs/core/imagepixel.cpp', 'libs/core/imagepixel.h', 'libs/core/occlusion.cpp', 'libs/core/imagebuffer.cpp', 'libs/core/csgtree.cpp', 'libs/core/bucket.cpp', 'libs/core/multijitter.cpp'],
 [('hit testing', 'libs/core/micropolygon.cpp'), ('sampling', 'libs/core/bucketprocessor.cpp'), ('pixel samples', 'libs/core/imagepixel.cpp'), ('occlusion', 'libs/core/occlusion.cpp')],
 over=('inputs', 'histories'))
refprop('C26', 'Filtered pixels reach every display with the requested channels and format',
 'For all sample values and display settings: pixel filters are the documented functions of the offset and the filter width; the imager and exposure are applied to colour as requested; every display gets exactly the channels, order, quantisation (one, min, max, dither) and format it was declared with, buckets or scanlines at their own place in the crop window, each pixel once; arguments of a display are passed under their name with type and count; a display that fails or is missing does not disturb the others.',
 ['libs/core/filters.cpp', 'libs/core/imagers.cpp', 'libs/core/ddmanager/ddmanager.cpp', 'libs/core/optioncache.cpp'],
 [('filters', 'libs/core/filters.cpp'), ('display manager', 'libs/core/ddmanager/ddmanager.cpp')])
refprop('C27', 'Attributes, options, transforms and lights keep their values per scope',
 'Whatever sequence of nested blocks and settings: attributes, options, transforms and light lists read back the value last set in the innermost enclosing scope; writing to a shared attribute or transform never changes another holder (copy on write); leaving a scope restores the values of the enclosing one; moving transforms interpolate between their own times; named coordinate systems convert points, vectors and normals between the spaces they name, at the time asked for; inactive conditionals and modes accept exactly what they should.',
 ['libs/core/attributes.cpp', 'libs/core/options.cpp', 'libs/core/transform.cpp', 'libs/core/renderer.cpp', 'libs/core/motion.h', 'libs/core/lights.cpp', 'libs/core/shaders.h', 'libs/core/api/graphicsstate.cpp', 'libs/core/api/graphicsstate.h', 'libs/core/api/condition.cpp'],
 [('attributes', 'libs/core/attributes.cpp'), ('options', 'libs/core/options.cpp'), ('transforms', 'libs/core/transform.cpp'), ('modes', 'libs/core/api/graphicsstate.h'), ('coordinate systems', 'libs/core/renderer.cpp')],
 over=('inputs', 'histories'))
refprop('C28', 'Every request changes the scene exactly as the interface describes',
 'For every request and every value of its arguments the renderer core makes exactly the described change: options and attributes are stored under their own names with the given values, transformations are concatenated on the right side, shaders and lights are created with their parameters and the current transform, every geometric request creates its primitive with the given dimensions, vertex counts, indices and primitive variables, and anything not implemented or malformed is reported and changes nothing.',
 ['libs/core/api/ri.cpp'],
 [('requests of the renderer', 'libs/core/api/ri.cpp')], over=('inputs', 'histories'))
refprop('C29', 'Primitive variables are stored, copied, split and interpolated by class',
 'For every primitive variable of every type, class and array length: each element keeps its value and position; copies and clones are independent and complete; setting one value from another copies every array element; subdivision in u or v and dicing interpolate (bi)linearly between the right corners for varying and vertex data, copy uniform and constant data, and give each shading point the value of its own place.',
 ['libs/core/parameters.cpp', 'libs/core/parameters.h'],
 [('parameters', 'libs/core/parameters.h')])
refprop('C30', 'Texture, shadow and environment lookups filter the right texels',
 'For every lookup position, footprint, blur, width, wrap mode and image size: the filter support covers the texels under the footprint and no texel outside the image except by the wrap mode; EWA weights are those of the transformed Gaussian, normalised; the mipmap levels and their blend follow the footprint; latitude-longitude and cube-face lookups pick the direction\'s texel and face; percentage-closer and occlusion sampling compare each sampled depth with bias on the right side and average over all samples; the texture cache returns for a name the sampler of that file, and texture making downsamples with the requested filter and wrap.',
 ['include/aqsis/tex/filtering/', 'libs/tex/filtering/', 'libs/tex/maketexture/'],
 [('EWA filter', 'libs/tex/filtering/ewafilter.h'), ('mipmaps', 'libs/tex/filtering/mipmap.h'), ('shadow sampler', 'libs/tex/filtering/shadowsampler.cpp'), ('sample options', 'include/aqsis/tex/filtering/texturesampleoptions.h')])
refprop('C31', 'Image buffers and image files keep every pixel, channel and attribute',
 'For every size, channel list, tile layout and pixel format: a pixel written to a buffer or file is read back from the same place and channel, converted between formats by the documented scaling and clamping; channel lists answer offsets, names and sub-lists exactly; tiled, scanline and subimage access address the same pixels; header attributes read from or written to TIFF, EXR, PNG and depth files are the ones set; files of unknown or inconsistent format are refused; point clouds keep every point with its data.',
 ['include/aqsis/tex/buffers/', 'libs/tex/buffers/', 'include/aqsis/tex/io/', 'libs/tex/io/', 'libs/tex/pointcloud/pointcloud.cpp'],
 [('buffers', 'include/aqsis/tex/buffers/'), ('TIFF', 'libs/tex/io/tiffdirhandle.cpp'), ('file headers', 'include/aqsis/tex/io/texfileheader.h')])
refprop('C32', 'Shadow, environment and texture maps are made and sampled consistently',
 'The map classes of the renderer core convert, allocate and address texture tiles so that the pixel stored at a position is the one sampled there; shadow maps are looked up with the matrices stored in them, with the bias and the sampling pattern asked for; environment maps select the face or latitude and longitude of the direction; downsampling and conversion weight every source pixel by the filter given.',
 ['libs/core/texturing_old/texturemap_old.cpp', 'libs/core/texturing_old/shadowmap_old.cpp', 'libs/core/texturing_old/environment_old.cpp'],
 [('texture maps', 'libs/core/texturing_old/texturemap_old.cpp'), ('shadow maps', 'libs/core/texturing_old/shadowmap_old.cpp')])
refprop('C33', 'Point-based occlusion and radiosity integrate every visible surfel',
 'For every point cloud and shading point: the octree holds every surfel once with aggregates weighted by area; traversal opens exactly the nodes whose solid angle is too large; each surfel is projected to the micro-buffer faces and texels it covers, nearest in front; the integrators give the cosine-weighted occlusion and radiance over the hemisphere or cone around the normal.',
 ['libs/pointrender/'],
 [('micro buffers', 'libs/pointrender/MicroBuf.cpp'), ('projection', 'libs/pointrender/microbuf_proj_func.cpp'), ('octree', 'libs/pointrender/diffuse/DiffusePointOctree.cpp')])
refprop('C34', 'The shader compiler generates the code its source means',
 'For every shader parse tree: types are checked and cast by the language\'s rules with the cheapest valid overload; constants and expressions keep their operator, operands and order; the code generator emits for every node exactly the instructions of its meaning (operands before operations, running-state pushes and pops in pairs, labels defined once and jumps to them, loops with their increment and continue places, function calls with arguments and results copied in and out, illuminance and gather blocks bracketed), and declares every variable, parameter with default, transparent and used external once with its type, storage and array size.',
 ['libs/slcomp/', 'include/aqsis/slcomp/'],
 [('code generator', 'libs/slcomp/backend/vmoutput.cpp'), ('data gathering', 'libs/slcomp/backend/vmdatagather.cpp'), ('type checking', 'libs/slcomp/parse/typecheck.cpp'), ('optimiser', 'libs/slcomp/parse/optimise.cpp')])
refprop('C35', 'Compiled shaders load with the variables, defaults and code they declare',
 'For every compiled shader: the loader creates each variable with its declared type, storage class and array length, resolves every reference to the variable it names, keeps the program words in order with every label at its place, and records usage; setting an argument changes exactly the parameter of that name, with its array length and in the space declared; shader data of every type and class get, set, copy and index the value of the point asked for; shader argument queries report name, type, storage, default and array elements as declared.',
 ['libs/shadervm/shadervm.cpp', 'libs/shadervm/shadervm.h', 'libs/shadervm/shadervariable.h', 'libs/shadervm/shaderstack.cpp', 'libs/shadervm/dsoshadeops.cpp', 'libs/slxargs/'],
 [('loader', 'libs/shadervm/shadervm.cpp'), ('shader data', 'libs/shadervm/shadervariable.h'), ('shader arguments', 'libs/slxargs/slx.cpp')])
refprop('C36', 'Lighting, texture, derivative and message built-ins use their own arguments',
 'The built-ins that are not closed formulas (derivatives and area, noise, illuminance, illuminate, solar, diffuse, specular and phong, texture, environment, shadow, bake3d and texture3d, occlusion and indirect diffuse, transform and coordinate lookups, messages between shaders, attributes and options, printf and format, external functions) evaluate for every point with the arguments of that point, pass every optional parameter on under its name, loop over each light once, and store the result for exactly that point.',
 ['libs/shadervm/shaderexecenv/'],
 [('shading operations', 'libs/shadervm/shaderexecenv/'), ('lighting', 'libs/shadervm/shaderexecenv/shadeops_illum.cpp'), ('textures', 'libs/shadervm/shaderexecenv/shadeops_tmap.cpp')])
refprop('C37', 'Command lines, paths, bit sets, pools and strings behave as documented',
 'For all inputs: command line arguments are taken by the option they name with the count and type declared, and everything malformed is refused; files are found in the first search path that has them, with paths, names and extensions taken apart exactly; bit vectors keep, combine and count exactly the bits set; pools hand out each free slot once; string comparison, trimming, formatting and hashing are the named functions; pipes, sockets and plug-ins report failure and transfer every byte.',
 ['libs/util/', 'include/aqsis/util/'],
 [('arguments', 'libs/util/argparse.cpp'), ('files', 'libs/util/file.cpp'), ('bit vectors', 'libs/util/bitvector.cpp'), ('strings', 'libs/util/sstring.cpp')])
refprop('C38', 'Displays and command line tools write what they were given',
 'For every image size, channel count, format and option: the display drivers write each pixel they are handed at its place with the channels, bit depth, compression and attributes requested, and answer queries about size, overwrite and format; the texture, shader, info and render tools pass every command line option to the operation it names, process every file given and report failures in their exit status.',
 ['tools/displays/', 'tools/aqsis/aqsis.cpp', 'tools/aqsl/aqsl.cpp', 'tools/aqsltell/aqsltell.cpp', 'tools/teqser/teqser.cpp', 'tools/miqser/miqser.cpp', 'tools/eqsl/eqsl.cpp', 'tools/piqsl/'],
 [('file display', 'tools/displays/file/display.cpp'), ('EXR display', 'tools/displays/exr/d_exr.cpp'), ('texture tool', 'tools/teqser/teqser.cpp')])
refprop('C39', 'Generated hair interpolates its parents and follows the emitting mesh',
 'For every emitting mesh, set of parent hairs and parameter string: faces are triangulated and weighted by area, each hair root lies on the face chosen with interpolated primitive variables and the normal of its place, child hairs blend exactly their nearest parents with weights summing to one, primitive variables keep their class and count, and parameters are read under the name given.',
 ['tools/procedurals/hairgen/'],
 [('emitter', 'tools/procedurals/hairgen/emitter.cpp'), ('parents', 'tools/procedurals/hairgen/parenthairs.cpp'), ('hair', 'tools/procedurals/hairgen/hair.cpp')])

prop('C40', 'Numbers and strings survive a round trip through text RIB',
 'Every float, integer and string written by the text RIB writer is read back by the RIB tokenizer as the same value, for every value and every string content.',
 ['inputs'], 'every float bit pattern, every byte string',
 'Tests round-trip a few numbers; the escapes of strings already fail a known test.',
 ['libs/riutil/ribwriter.cpp', 'libs/riutil/ribtokenizer.cpp', 'thirdparty/tinyformat/tinyformat.h'],
 [('number output', 'libs/riutil/ribwriter.cpp'), ('number scanner', 'libs/riutil/ribtokenizer.cpp')],
 na='The value depends on decimal conversion inside iostreams and on the digits accumulated in a data-dependent loop; no static argument in reach bounds the rounding, and the string escapes are known not to agree (a test of the repository fails on it).')
prop('C41', 'The picture does not depend on how the work is cut up',
 'For every scene, the image is the same up to sampling noise whatever the bucket size and order, grid size, eye splits, number of threads and display set, and it approaches the true image as the shading and sampling rates rise.',
 ['inputs', 'schedules'], 'every scene and every setting of the rendering parameters',
 'The tests render nothing; regression images sample single settings.',
 ['libs/core/imagebuffer.cpp', 'libs/core/bucketprocessor.cpp', 'libs/core/geometry/surface.cpp'],
 [('bucket loop', 'libs/core/imagebuffer.cpp')],
 na='Relates whole executions under different settings through floating-point geometry and pseudo-random sampling; convergence is a statistical statement about runtime quantities. The steps it is made of are decided in C19-C26.')
prop('C42', 'A compiled shader computes what its source means on every grid',
 'For every shader source accepted by the compiler and every grid, compiling, loading and executing it gives the values the shading language assigns to the source.',
 ['programs', 'inputs'], 'every shader program and every input grid',
 'A handful of shaders cannot represent all programs.',
 ['libs/slcomp/', 'libs/shadervm/'],
 [('compiler', 'libs/slcomp/'), ('virtual machine', 'libs/shadervm/')],
 na='A compiler-correctness statement over all programs: it needs a semantics of the language and an inductive proof over parse trees and executions, which static rules over the C++ source cannot supply. Its local parts (built-in tables, stack discipline, running sets, formulas, code emitted per node, loading) are decided in C13-C16 and C34-C36.')
prop('C43', 'Rendering ends and keeps its memory bounded by the scene',
 'For every finite scene splitting, dicing and sampling end, and the memory used is bounded by the geometry of the buckets in flight and the configured texture limit.',
 ['inputs', 'histories'], 'every scene, every order of buckets',
 'Only particular scenes (eye splits, huge displacements, degenerate patches) run away.',
 ['libs/core/bucketprocessor.cpp', 'libs/core/geometry/surface.cpp', 'libs/core/texturing_old/texturemap_old.cpp'],
 [('split queue', 'libs/core/bucketprocessor.cpp'), ('texture cache', 'libs/core/texturing_old/texturemap_old.cpp')],
 na='Termination of splitting rests on projected sizes shrinking, a numeric fact of the geometry at run time; memory depends on the data. No sound static bound is in reach.')
prop('C44', 'Text diagnostics describe the error at hand',
 'Every warning and error text names the object, file or value that is at fault and is understandable to the user, whatever the input.',
 ['inputs', 'faults'], 'every error path',
 'Error paths are hardly tested.',
 ['libs/util/logging.cpp', 'libs/riutil/errorhandler.cpp'],
 [('log streams', 'libs/util/logging.cpp')],
 na='What a text should say is a judgement about meaning; there is no oracle to compare with. That errors are raised, reported once and with position is decided in C08 and C09.')

prop('C45', 'The shading language is scanned and parsed as documented',
 'For every shader source: the text is cut into exactly the tokens of the language (keywords, identifiers, symbols, numbers, strings, operators, line directives; longest match); exactly the sentences of the grammar are accepted, operators bind with their documented precedence and associativity; every production builds the node it stands for with its operands in their places, declares variables and functions in the right name space with the right type, storage class and array length, opens and closes name spaces in pairs and reports the documented errors.',
 ['inputs', 'programs'], 'every token sequence; every production with every value of its parts; every pattern',
 'Tests compile a few expressions; the grammar has 185 productions and 87 patterns, and a wrong operand order or precedence shows only in a shader that needs it.',
 ['libs/slcomp/parse/parser.yy', 'libs/slcomp/parse/scanner.ll'],
 [('productions', 'libs/slcomp/parse/parser.yy'), ('patterns', 'libs/slcomp/parse/scanner.ll')],
 'value graph of every semantic action (a function of the right-hand side values) compared with the reference; LALR tables compared by identity, else by the parses of bounded sentences of both grammars; scanner patterns likewise',
 TB + 'Sentences are derived from both grammars up to a bounded size when the tables are not identical; flex and bison are trusted to implement the tables.')

refprop('C46', 'Log streams, counters and reference counts keep what passes through them',
 'For every sequence of messages, levels and settings: a log stream passes on exactly the messages of its level or worse, each once and unaltered except for the tag, time, colour or level prefix asked for at the start of each message; equal messages in a row are folded into one with their number; the level is set and read back per stream and reset after each message. Counters and timers of the statistics are changed by the calls that name them and by nothing else; reference counts go up and down by one and the object dies at zero; work units run once; RifGetDeclaration answers the declared type, class and length; the micropolygon dump writes the records of its format.',
 ['libs/util/logging.cpp', 'include/aqsis/util/logging.h', 'include/aqsis/util/logging_streambufs.h', 'libs/core/stats.cpp', 'libs/core/stats.h', 'libs/core/refcount.h', 'libs/core/refcount.cpp', 'libs/core/threadscheduler.cpp', 'libs/core/api/rif.cpp', 'libs/core/mpdump.cpp', 'libs/core/ddmanager/debugdd.cpp'],
 [('stream buffers', 'libs/util/logging.cpp'), ('statistics', 'libs/core/stats.cpp'), ('declarations', 'libs/core/api/rif.cpp')], over=('inputs', 'histories'))
