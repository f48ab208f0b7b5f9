prop("C01", "Film pixels are updated under mutual exclusion by rendering threads",
     "While an image is rendered by several threads, no two threads ever update the same film pixel at the same time: every update is made either while holding the film's lock, reading and writing the pixel within one critical section, or on a pixel that no sample of any other tile can reach. The thread that started the workers does not use the pixels before they have finished.",
     ["schedules", "inputs"], "every interleaving of any number of rendering threads, every tile position, image size, filter range and sample position",
     "The tests never run two rendering threads against one film; a lost update needs two samples of neighbouring tiles to meet in the same pixel within nanoseconds.",
     ["src/cameras/image_film.cpp", "src/cameras/image_film.hpp", "src/renderer.cpp", "src/utility/array2D.hpp"],
     [("postponed updates guarded by the film mutex", "ImageFilm::add_pixel_deferred, ImageFilm::add_pixel_forced"),
      ("private area of a tile shrunk by the filter range", "ImageFilm::add_pixel")],
     "lockset dataflow plus symbolic comparison of tile borders and sample reach",
     "Every film access reachable from a thread entry is proved locked on all paths or out of reach of other tiles; trusts clang's IR, that samplers stay inside their tile, and that std::mutex works.",
     state=[("film pixels", "accumulated colour and weight per pixel", "ImageFilm::buffer")])

prop("C02", "Every tile is rendered exactly once and the image saved after all workers end",
     "Rendering cuts the image into tiles that cover it without overlap or spill, hands each tile to exactly one worker, renders every sample of that tile into the film with the tile's own bounds, and applies every postponed contribution before the worker ends. All accesses to the shared tile queue happen under one lock, which is released on every path, and the image is saved on every path only after every started worker was joined.",
     ["schedules", "configurations"], "every interleaving, any number of threads from one upwards, any image size accepted by the renderer, any sampler and any number of samples",
     "Unit tests do not exercise the threaded render loop; dropping or doubling a tile, leaking the lock or saving early depends on the schedule, the thread count and the tile count.",
     ["src/renderer.cpp", "src/renderer.hpp", "src/cameras/image_film.cpp", "src/samplers/sampler.cpp"],
     [("queue of tiles protected by a mutex", "executor"), ("join loop before saving", "Renderer::render"),
      ("forced drain at the end of a worker", "ImageFilm::add_pixel_forced")],
     "typestate and lockset dataflow over flattened thread entries and their spawner",
     "All paths of the worker, progress and spawning functions are covered; trusts the standard containers and threads, and that a sampler emits every pixel of its tile.",
     state=[("tile queue", "tiles still to be rendered", "Renderer::jobs")])

prop("C03", "Rendering threads only change their own data, pixels and the tile queue",
     "While rendering, a thread changes no object shared with other threads except film pixels, the tile queue, locks and atomics: scene, geometry, acceleration structures, materials, textures, lights, filters, integrator, global tables and static variables are read only. Every library routine a rendering or progress thread calls is safe to call concurrently.",
     ["schedules", "programs"], "every call path from any thread entry point, for all scenes and all dynamic dispatch targets",
     "A data race through a hidden cache, counter or static buffer gives correct results in single-threaded tests and nearly always in threaded ones.",
     ["src/renderer.cpp", "src/integrators", "src/materials", "src/textures", "src/primitives", "src/lights", "src/samplers"],
     [("const scene data shared by reference", "executor"), ("per-thread sampler, hit point and rays", "executor")],
     "interprocedural points-to and write-effect analysis",
     "Sound for writes through pointers modelled by the Andersen points-to analysis over the whole program; external routines are judged by a list of re-entrant functions.",)

prop("C04", "Samples add weighted colour to every pixel in reach; saved image is the average",
     "Each rendered sample adds, to every image pixel whose centre lies within the filter's range of the sample and to no pixel outside the image, its X, Y and Z colour times the filter weight of that pixel's offset, and that weight to the pixel's weight, exactly once per pixel whether applied at once or postponed. The saved image contains every pixel at its own place, converted from its three components each divided by the accumulated weight, with pixels of zero weight never divided.",
     ["inputs", "histories"], "every sample position and colour, filter and range, image size, and every sequence of immediate and postponed additions",
     "The existing tests check a handful of films with one sample; swapped components, missed borders or lost postponed entries need particular positions, filters or drains.",
     ["src/cameras/image_film.cpp", "src/cameras/image_film.hpp", "src/utility/array2D.hpp", "src/samplers"],
     [("pixel loop over the filter footprint", "ImageFilm::add_pixel"), ("queue of postponed contributions", "ImageFilm::add_pixel_deferred, ImageFilm::add_pixel_forced"),
      ("normalisation and packing", "ImageFilm::save_image")],
     "value-flow decomposition of pixel stores plus path-sensitive counting",
     "Exact symbolic matching of each stored component over all paths; ignores floating-point rounding and assumes filter weights depend only on their arguments.")

prop("C06", "A failure to save the image is reported and never silently becomes success",
     "The image writer returns success only if the output file was opened, every byte handed to the C library, libjpeg, libpng or libtiff was accepted, and the closing flush succeeded. An error inside one of these libraries never ends the program. A failure to save travels from the writer through the film and the renderer to a non-zero exit status of the program.",
     ["inputs", "crash_points"], "a failure of any single open, write, flush, close or library call at any point, for every image format and every combination of optional libraries",
     "The tests write to a healthy file system; a full disk, an I/O error or a library failure at the n-th call never happens in them.",
     ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/jpg.c", "src/utility/imageio/png.c", "src/utility/imageio/tiff.c", "src/cameras/image_film.cpp", "src/renderer.cpp", "src/main.cpp"],
     [("writer per format selected by extension", "img_write"), ("conversion and saving of the film", "ImageFilm::save_image"), ("status of a rendering", "Renderer::render, main")],
     "failure-injection dataflow: outcome of every fallible call tracked to every return",
     "All paths after the failure of each fallible call of each writer, and the status chain to main; trusts a table of which library calls can fail and how they report it.")

prop("C07", "Image readers and probes succeed only on data they really read",
     "Reading or probing an image returns success only if the file was opened and every header field and pixel it uses was read. Short reads, missing values and errors raised by libjpeg, libpng or libtiff make the function return failure instead of ending the program, and nothing is decided on a field that was not read. A successful probe of the dimensions stores both. A texture that cannot be probed or decoded gets the default map and is not kept under its name.",
     ["inputs", "crash_points"], "every content and length of a file, including truncation at any byte and I/O errors at any read, for every format",
     "Unit tests use intact files plus a few wrong ones; a file cut at one particular field or a codec error in the middle of an image is not among them.",
     ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/jpg.c", "src/utility/imageio/png.c", "src/utility/imageio/tiff.c", "src/textures/texture_image.cpp", "src/textures/texture_library.cpp"],
     [("probe and reader per format", "img_valid, img_dimensions, img_read8"), ("map of a texture", "TextureImage::TextureImage"), ("name of a texture", "TextureLibrary")],
     "failure-injection dataflow: short reads and library errors tracked to every return",
     "All paths after the failure of each read of each reader; trusts a table of fallible library calls. libjpeg's premature end of file is a warning, not an error, and is outside the statement.")

prop("C05", "Files, codec sessions, memory and owned objects are released exactly once",
     "Everything a function obtains - memory from malloc or new, open files and directories, codec sessions and structures - is on every path, also after errors and codec long jumps, released once with the matching function, kept by an owner, or handed over to somebody who releases it; it is not used or released afterwards. An object's constructors give a value to everything its destructor releases, its destructor releases every owned field, array element and container entry, replacing an owned field releases the old value, and copies and assignments, also to itself, share nothing that is released. Objects of derived classes are destroyed through virtual destructors.",
     ["inputs", "histories", "crash_points"], "every path through every function that obtains, replaces, hands over or releases something, and every order of construction, copying, replacement and destruction of the owning objects",
     "The test programs run without a leak checker, and double releases and leaks sit on error paths, replacements and rare material or file combinations that no test takes.",
     ["src/utility/imageio", "src/utility/file.cpp", "src/utility/array2D.hpp", "src/utility/scene.cpp", "src/accelerators", "src/primitives", "src/materials", "src/textures", "src/lights", "src/renderer.cpp", "src/parsers/config_driver.cpp", "src/parsers/parser_obj.cpp", "src/cameras/image_film.cpp"],
     [("inherit_ functions take ownership", "Scene, Renderer, TextureLibrary, MaterialLibrary, MultiBSDF, Bsdf"), ("destructors of owning classes", "src/materials, src/textures, src/utility"),
      ("setjmp clean-up", "png_read, png_write, jpg_read, jpg_write")],
     "inferred ownership plus path-sensitive typestate over all functions",
     "All paths with helpers inlined where they pass resources on; who owns what is derived from who releases it. Trusts that a container does not already hold the key that is inserted and that operator new does not fail.",
     state=[("resource", "held, handed over or released", "each function of the program")])

prop("C08", "Ray queries report the nearest valid hit, and a miss leaves no trace",
     "Intersecting a ray with a triangle, a sphere, a mesh or an instance of one that reports a miss has changed neither the distance nor the hit record. One that reports a hit has a distance that is at least the self-intersection threshold and not greater than the one passed in, was accepted by the mask for exactly the texture coordinates it reports, fills every surface member of the record, and reports the point origin + distance * direction. An instance hands its shape the ray transformed by worldToObj, with the direction not rescaled, and transforms point and tangents back with objToWorld and the normal with the transposed worldToObj. A box is reported missed only if the ray leaves one slab before it enters another, and its interval is the largest entry and the smallest exit. The walks through mesh and scene trees drop a node or an element only if it cannot hold a closer hit, remember every hit, record the element that was hit, and end only when nothing useful is left. A shadow ray is occluded exactly if a hit nearer than the light was found.",
     ["inputs"], "every ray, incoming distance, mask, shape, transformation and tree of any size and depth",
     "The tests shoot some dozens of hand-picked rays at unmasked shapes and small trees; rays starting inside a masked sphere, an already known closer hit, a leaf with several elements hit in the wrong order or a plane crossed exactly at the origin are not among them.",
     ["src/primitives", "src/accelerators/bvh.cpp", "src/accelerators/kdtree.cpp", "src/geometry/AABB.cpp", "src/geometry/matrix4.cpp", "src/geometry/ray.cpp", "src/utility/occlusion_tester.cpp"],
     [("hit record only written after the mask accepted", "Triangle::intersect, Sphere::intersect"), ("ray into object space and hit back", "Asset::intersect"),
      ("stack based walks", "Bvh::intersect, KdTree::intersect"), ("slab test", "AABB::intersect"), ("shadow rays", "OcclusionTester::is_occluded")],
     "path-sensitive value numbering with rational normal forms over all paths",
     "All paths of the intersection routines, loops cut at their heads; values are compared as real functions (no rounding, no NaN). Which rays should hit, and what the trees contain, are other properties.")

prop("C09", "Shapes are hit exactly where their surface is, and boxes contain them",
     "Triangle::intersect reports a hit only at the solution of the plane equation with all three barycentric coordinates not negative, with normal, texture coordinates and tangents interpolated by them, and a miss only if the point is outside, behind the threshold, beyond the known hit, or masked. Sphere::intersect reports a solution of the equation of the unit sphere, the nearer one unless that is too near, too far or masked, with the radial normal and a record made of that point, and a miss only with such a reason for both. The boxes of triangle, sphere, box and mesh contain their vertices or corners, also under a matrix; a mesh's box contains all its triangles, the scene's box all assets; growing a box keeps what it contained. An asset keeps its shape's box under its own matrix and the inverse of that matrix.",
     ["inputs"], "every ray, every triangle, matrix, mesh and scene",
     "The tests hit axis-aligned triangles and spheres with a handful of rays and build boxes of a few hand-made meshes; a rotated mesh whose eighth corner is extreme, or the last asset of a scene lying outside, is not among them.",
     ["src/primitives", "src/geometry/AABB.cpp", "src/geometry/point3.hpp", "src/utility/utility.hpp", "src/accelerators/kdtree.cpp"],
     [("barycentric and quadratic solution", "Triangle::intersect, Sphere::intersect"), ("boxes of shapes", "compute_AABB of Triangle, Sphere, Box, Mesh"),
      ("box of a mesh, of a scene, of an asset", "Mesh::finalize, KdTree::buildTree, Asset::Asset")],
     "value numbering over all paths, compared as rational functions; min/max dominance; loop coverage",
     "All paths; real arithmetic, no rounding (the tolerance of equation2 for tangent rays is admitted up to 1e-3). The uv mapping of the sphere is only checked to be a function of the point.")

prop("C10", "Camera rays, matrices and vectors are what they are defined to be",
     "For every resolution, sample position and (for the perspective camera) field of view, the ray of a camera starts where the camera is (orthographic: at the pixel's place on the image plane) and goes through the sample's place on an image plane that spans two units on the shorter side and keeps the aspect ratio, along a unit vector, forwards; the offset rays are the rays of the sample one pixel to the right and one pixel down. The frame of a camera is its position, the direction to the target and two axes square to it, upright. Transformation matrices are those of translation, scale and rotation; products, transposition, inversion (refused only for determinant zero), images of points, vectors, normals and rays, and the vector operations (length, dot and cross product, normalisation, reflection, refraction, minimum, maximum, comparison) give the result of their definition on every path, special cases included. Objects of the input file are scaled, turned around x, y and z by degrees and moved; the camera gets the position, target, up vector, resolution and field of view in degrees given there.",
     ["inputs"], "every resolution, position, sample, matrix and vector",
     "The tests use cameras of 2x1 and 2x2 pixels and axis-aligned frames, matrices of a few numbers, and no input file with a rotation; an image higher than wide, an object turned around two axes or a scale below 0.02 is not among them.",
     ["src/cameras", "src/geometry", "src/parsers/config_driver.cpp", "src/primitives/asset.cpp"],
     [("raster space to rays", "create_ray and create_single_ray of the three cameras, set_lookAt_inverse"), ("matrix algebra", "Matrix4"),
      ("vector algebra", "Vec2, Vec3, Normal, Point2, Point3"), ("placement", "ConfigDriver::build_meshes, ConfigDriver::build_camera, Asset::Asset")],
     "value numbering over all paths, results compared as rational functions with roots, sines and cosines as atoms",
     "All paths; real arithmetic, no rounding. The up vector must not be parallel to the view, the field of view and the sides of the image must be positive; operands that overlap the result are not followed. That the direction is not reversed is read off at one point of each side ratio, as the factor never vanishes.")

prop("C11", "The input file means what its documentation says",
     "Every key, keyword, value, attribute and default documented in src/parsers/README.md has its documented meaning, in any order: the parser stores the value given, for the object it was given for and for no later one, and rejects what the documentation excludes; a setting that is absent has its documented default. Every setting reaches what it is documented to control: output, resolution, samples, sampler, integrator, camera and filter reach the renderer after all chained files were read; relative paths start at the directory of the main file; every material, dual material, shape, light and object described is built, once, after what it depends on, with the class, distribution, refraction index, roughness, textures, mask (texture, channel, inversion), colour or temperature, override material and shape it names; unreadable textures become the default one; a dual material shows its first material where the mask is visible and the second elsewhere; wrong values get the documented default.",
     ["inputs", "configurations"], "every input file written in the documented format, every combination and order of its objects",
     "The tests parse a few dozen short files, and never look at what several objects, several files or an unusual order of attributes leave behind; which class a keyword selects is barely tested.",
     ["src/parsers/README.md", "src/parsers/config.y", "src/parsers/config.l", "src/parsers/config_driver.cpp", "src/parsers/config_driver.hpp", "src/materials/mask_boolean.cpp", "src/materials/dualmaterial.cpp", "src/main.cpp"],
     [("actions of the grammar", "yy::ConfigParser::parse (src/parsers/config.y)"), ("words", "src/parsers/config.l"),
      ("construction from the descriptions", "ConfigDriver::build_*, ConfigDriver::load_texture*, ConfigDriver::parse*"), ("masks", "MaskBoolean, DualMaterial")],
     "generated scanner and parser tables decoded, effects of every action, path-sensitive value flow of the consumers",
     "The grammar is exact; the sentences that are compared cover every key and keyword, alone, in pairs, in both orders and repeated. Consumers are decided on all paths. Images that exist but are unreadable are told by the routines of C07; the rotation order and the camera are C10.")

prop("C12", "Materials scatter light as the models they are named after define",
     "For every pair of directions (unit vectors in the shading frame), every roughness, refraction index and random number, the value, the density and the sampled direction of a scattering function are those of its model: Lambert (1/pi), Oren-Nayar, cosine-weighted sampling on the side of the outgoing direction, the unpolarised Fresnel equations of dielectrics (with total internal reflection) and conductors, mirror reflection, Snell refraction (nothing on total internal reflection), and rough reflection and refraction (F D G over the cosines and their Jacobians, nothing on the wrong side or without a half vector) with the Blinn, Beckmann, GGX and anisotropic GGX distributions (density, shadowing, sampling); refraction indices swap when light comes from inside; constructors keep their parameters, clamped to their range. A composite material adds up exactly the functions that take part (on the side, reflecting or transmitting, given by the surface's own normal; mirrors only if wanted), each coloured by its own texture; sampling chooses evenly among the functions that may take part, in the shading frame, reports their mean density, zero if no direction was drawn, and whether a mirror was chosen; a dual material asks the one its mask selects. The shading frame consists of tangent, normal across tangent, and normal.",
     ["inputs", "configurations"], "every direction, parameter and random number; every composition of up to three kinds of scattering functions",
     "The tests compare a few dozen values, for one or two directions each, with numbers the code itself once printed; directions from inside, on the other side or beside the shading normal and compositions of several functions are hardly tested.",
     ["src/materials"],
     [("scattering functions", "Lambertian, OrenNayar, Reflection, Refraction, MicrofacetR, MicrofacetT: value, sample_value, pdf"), ("Fresnel equations", "Dielectric::eval, Conductor::eval"),
      ("distributions", "Blinn, Beckmann, GGXiso, GGXaniso: D, G, pdf, sample_wh"), ("composite materials", "MultiBSDF, SingleBRDF, DualBsdf"), ("shading frame", "ShadingSpace, Bump::bump")],
     "path-sensitive value numbering, exact algebra over polar coordinates, sign analysis of path conditions",
     "Values are compared as real functions, not with rounding. What is drawn is compared with the sampling formula of the model; that this formula has the model's density (an integral) is N02.")

prop("C13", "Samples and filter weights are those of the chosen sampler and filter",
     "Random numbers are those of the WELL1024a generator started from the seed given, scaled to the interval from 0 to 1, and every number asked for is a draw of its own. A sampler gives each pixel of its tile, row by row and each once, and nothing outside, then ends; a pixel gets as many samples as configured (never more), all inside it: two independent draws each with the random sampler; with the stratified sampler one in each cell of a square grid, at the cell's centre or, if jittered, displaced inside its cell by two draws of its own. Every tile's sampler is given that tile's limits. The filters (box, tent, Gaussian, Mitchell-Netravali, Lanczos) have their extent (1, 2, 2, 2, 4 pixels) and weigh an offset with the product of their one-dimensional kernels for both axes, with the parameters given to the constructor.",
     ["inputs", "histories"], "every seed and state of the generator, tile, place in the tile and offset; up to 25 samples per pixel",
     "The tests draw a few numbers from one seed, walk through one tile that starts in the first column, and compare filter weights for a handful of offsets and one parameter each.",
     ["src/samplers", "src/utility/wellrng.cpp", "src/renderer.cpp"],
     [("random numbers", "WELLrng::getNumber, Sampler::get_random_numbers"), ("sampling", "SamplerRandom::get_samples, SamplerStratified::get_samples, executor"),
      ("reconstruction", "Filter::weight and its implementations")],
     "path-sensitive value numbering; generator as linear functions over bits; exact algebra of kernels",
     "Values are compared as real functions, not with rounding. That the distribution of the numbers is uniform is a property of the published generator.")

prop("C14", "Shapes and lights are sampled evenly by area and densities use world space",
     "The area of a sphere, box, triangle or mesh, untransformed or scaled, is that of its surface; the cumulative areas of a box list its six faces, those of a mesh all its triangles, each once. For two random numbers, a shape's sampled point is on its surface, each part (face, triangle) being chosen by its share of the cumulative areas given, the first number stretched from that share to 0..1 and used within the part, with the outward normal; the search for a triangle always ends and reads only the entries there are. An area light has the area, the cumulative areas and the colour of its shape in its place; the rays it emits start on its surface in the hemisphere of the normal, with density 1/(2 pi area); towards a position it reports the direction of the sampled point and the distance at which the light is hit in that direction, in world space, the density distance^2/(|cosine| area), its colour if that side faces the position and black otherwise; its density for a direction is the same expression, 0 if it is not hit.",
     ["inputs"], "every random number, vertex, transformation (no shear of areas) and position; meshes of up to 8 triangles",
     "The tests sample a few points of unscaled shapes and of one light, and meshes of three triangles.",
     ["src/primitives", "src/lights"],
     [("areas and sampling", "Shape::surface, get_densities_array, sample_point and their implementations"),
      ("lights", "AreaLight: constructor, sample_surface, sample_visible_surface, pdf")],
     "path-sensitive value numbering with exact algebra; interval conditions over ordered unknowns",
     "Values are compared as real functions, not with rounding. Spheres are assumed to be scaled alike on all axes, triangles to have an area.")

prop("C15", "Texture lookups repeat, choose the level and weigh texels as their filter says",
     "A texture's value at a hit is looked up at its coordinates, scaled and shifted by the texture's placement and, where they leave 0..1, repeated by taking away their floor; the four differentials are scaled like the coordinate they belong to, and are zero where there are none or the texture is unfiltered. A hit's differentials are the steps along dpdu and dpdv from it to where the two neighbouring rays meet its plane, as seen along the normal's largest coordinate, unless the two are parallel there. The unfiltered filter returns the full-size texel at the coordinates. Bilinear filtering mixes the four texels around the point, by the product of the distances to each, continuing with the first texel after the last one. The trilinear filter's level is that of the largest absolute differential, the EWA filter's that of the shorter axis (lengthened if the longer one is too many times as long), and both mix the two levels around it by the fraction, using the single texel of the last level beyond it. The EWA filter weighs by table every texel, repeated beyond the borders, inside the ellipse of the differentials, and divides by the weights' sum. Level 0 is the image, every further level holds the means of four texels of the previous one, down to one texel. A mask shows where its channel is at least one half, or the opposite if inverted. A two-dimensional array keeps every element at a place of its own inside its memory and stores the values it is made from where they are read.",
     ["inputs"], "every coordinate, differential, placement and image (levels: sides up to 8)",
     "The tests filter a handful of points of one small image.",
     ["src/textures", "src/utility/array2D.hpp", "src/primitives/hit_point.cpp"],
     [("placement", "TextureImage::map_value, calculate_differentials"),
      ("filters", "ImageMapUnfiltered, ImageMapTrilinear, ImageMapEWA::filter, ImageMap::bilinear, ImageMapEWA::ewa"),
      ("levels and storage", "ImageMap::ImageMap, Array2D"), ("masks", "MaskBoolean::is_visible, is_masked")],
     "path-sensitive value numbering with exact algebra; exhaustive evaluation of index formulas",
     "Rounding is not modelled, neither of coordinates nor of the eight bits of a channel. Bilinear filtering is decided from half a texel after the left and upper border on.")

na("N01", "Surfaces scatter no more energy than they receive",
   "For every material, direction and wavelength, the light scattered over the whole hemisphere does not exceed the light received.",
   ["inputs"], "every direction, roughness and refraction index",
   "An integral over all directions; tests compare single values.",
   ["src/materials"], [("scattering functions", "Bdf::value and its implementations")],
   "the statement is an inequality over an integral of transcendental functions; no static argument over the code in reach bounds it")
na("N02", "Sampled directions follow the probability density that is reported for them",
   "The directions a scattering function, a light or a distribution samples are distributed by the density its pdf function returns.",
   ["inputs", "histories"], "every surface, direction and sequence of random numbers",
   "A statement about a distribution; tests use fixed random numbers.",
   ["src/materials", "src/primitives", "src/utility"], [("sampling routines", "Bdf::sample_value, Shape::sample_point")],
   "equality of a density and of the push-forward of the uniform distribution needs calculus (Jacobians of the mapping), which is not a property of program paths; that the formulas of sampling and density are those of the models is C12")
na("N03", "The rendered image converges to the solution of the rendering equation",
   "With growing samples per pixel the expected value of every pixel is the value of the rendering equation, Russian roulette included.",
   ["inputs", "histories"], "every scene and every sequence of random numbers",
   "A statistical statement; the tests render no image.",
   ["src/integrators"], [("path tracing", "PathTracer::radiance")],
   "unbiasedness is a statement about expected values over random numbers; no static analysis of the code decides it")
na("N04", "Rounding never moves a hit to the wrong side of a surface",
   "Ray origins are offset far enough that rounding errors never let a ray hit the surface it leaves, for every scene scale.",
   ["inputs"], "every scene scale and position",
   "Depends on the magnitude of coordinates; tests use small ones.",
   ["src/geometry/ray.hpp", "src/primitives"], [("fixed offsets", "SELF_INTERSECT_ERROR")],
   "the offsets are absolute constants while rounding grows with the coordinates, which no static argument bounds; scenes far from the origin are known to break it")
na("N05", "The surface-area trees are fast to traverse",
   "The trees built keep the expected cost of a ray query near the minimum of the surface area heuristic.",
   ["inputs"], "every scene",
   "A cost over all rays; tests only compare results.",
   ["src/accelerators"], [("split selection", "KdTree, Bvh")],
   "a quantitative cost bound over runtime data; the structure of the trees and of their traversal is covered by C08 and C09")
