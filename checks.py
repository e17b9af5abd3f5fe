"""The registry: one entry per property, with everything properties.jsonl, MANIFEST.json and run.py need."""
CHECKS = {}
EXPL = {'evaluations': ['evaluations'], 'distinct_nontrivial': ['distinct'], 'cases': ['cases']}
MCCOV = {'states': ['states'], 'transitions': ['transitions'], 'traces_validated_against_impl': ['executions'],
         'cases': ['cases'], 'distinct_outcomes': ['distinct']}


def part(harness, variant='asan', **kw):
    return dict(harness=harness, variant=variant, **kw)


def mc(harness, **kw):
    return dict(harness=harness, variant='mc', extra_src=('lib/mcrt.cpp',), hang=90,
                ldflags='-rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset', **kw)


def add(pid, title, statement, over, quantifier, why, files, mechanism, level, technique, note, parts, rule,
        coverage=None, assumptions=(), observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    CHECKS[pid] = dict(title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                       mechanism=mechanism, level=level, technique=technique, note=note, parts=parts, rule=rule,
                       coverage=coverage or (MCCOV if level == 'model_checking' else EXPL),
                       assumptions=list(assumptions), observe=list(observe), state=list(state))


NOT_APPLICABLE = []

add('C01', 'Concurrent film accumulation is race free and loses no contribution',
    'When several rendering threads add samples to their own areas of one film, every sample contributes to every '
    'pixel within reach of the reconstruction filter, also across area borders, exactly once and with the weight the '
    'filter gives it. The stored picture is the weighted average the filter defines, the same for every interleaving '
    'of the threads and every split of the image, and no two threads ever touch the same pixel without mutual '
    'exclusion. The threads always finish.',
    ['schedules', 'inputs'],
    'all interleavings up to the stated number of preemptions of 2-4 threads adding samples near area borders, for '
    'every filter range and area layout of the harness',
    'the tests drive the film from one thread with a handful of samples; the property is about every interleaving',
    ['src/cameras/image_film.cpp', 'src/cameras/image_film.hpp', 'src/samplers/filter.hpp'],
    [('pixels another area can reach are kept in a deferred list and merged under a mutex', 'ImageFilm::add_pixel / add_pixel_deferred / add_pixel_forced')],
    'model_checking', 'stateless model checking of the real film code under a controlled scheduler with a happens-before race detector',
    'Every schedule of the stated scenarios up to the preemption bound is executed on the real code (compiled with access '
    'instrumentation); memory is sequentially consistent between scheduling points, races are reported separately.',
    [mc('film_mc.cpp')],
    'a case is one film layout, filter range, area split and set of samples; all schedules up to its preemption bound are executed; '
    'states are distinct scheduler states, transitions are scheduling points, distinct_outcomes counts distinct sample/area layouts',
    assumptions=['weak memory behaviours are covered through the race report only'])

add('C02', 'Render samples every pixel spp times, terminates and stores the picture',
    'For every image size, thread count and sampler, rendering samples each pixel of the image exactly as many times as '
    'requested, whatever the interleaving of the rendering threads and of the progress display. It always terminates, '
    'its threads share no data without synchronisation, and the picture stored on disk is the filtered image of exactly '
    'those samples.',
    ['schedules', 'configurations'],
    'all interleavings up to the stated number of preemptions for 1-4 rendering threads plus the progress thread, over '
    'image sizes below, at and above the task size',
    'no test renders with more than one schedule; lost or doubled tasks need a specific interleaving or image size',
    ['src/renderer.cpp', 'src/renderer.hpp', 'src/cameras/image_film.cpp', 'src/samplers/sampler.cpp'],
    [('task queue guarded by a mutex, one executor per thread, joined before the film is saved', 'Renderer::render, executor')],
    'model_checking', 'stateless model checking of the real renderer under a controlled scheduler with a happens-before race detector',
    'Renderer::render with stand-in camera and integrator runs under every schedule of the stated scenarios up to the preemption bound.',
    [mc('render_mc.cpp')],
    'a case is one image size, thread count, sampler and filter (possibly a share of its schedules); all schedules up to its preemption '
    'bound are executed; distinct_outcomes counts distinct assignments of samples to threads',
    assumptions=['time() and rand() are replaced by deterministic functions'])

add('C03', 'The film stores the filtered weighted average of its samples',
    'Each reconstruction filter has the weight its definition gives (box, tent, gaussian, Mitchell-Netravali, Lanczos) at '
    'every offset within its support. For every image size, sample position (also on pixel and image borders) and colour, '
    'each pixel of the stored picture is the weighted average of exactly the samples whose support contains its centre, '
    'black if there is none, however the image was split into areas and whenever the deferred pixels were merged.',
    ['inputs', 'histories'],
    'all filters, film shapes up to 33 pixels a side, a sub-pixel lattice of sample positions, all area modes of the harness',
    'tests check single pixels of one film and statistics of the kernels; support borders and splits are not sampled',
    ['src/cameras/image_film.cpp', 'src/samplers/filter_box.cpp', 'src/samplers/filter_tent.cpp', 'src/samplers/filter_gaussian.cpp',
     'src/samplers/filter_mitchell.cpp', 'src/samplers/filter_lanczos.cpp'],
    [('footprint of a sample clipped to the image, weights accumulated per pixel', 'ImageFilm::add_pixel, ImageFilm::save_image')],
    'exploration', 'bounded exhaustive enumeration of sample positions against a double-precision reference film',
    'Every enumerated film and sample position is executed on the real code; nothing is said about positions off the lattice.',
    [part('film_seq.cpp')],
    'an evaluation is one kernel offset or one film with one bright sample among dark ones; distinct ones are distinct stored pictures or weights')

add('C04', 'Samplers cover every pixel of their area with the requested samples',
    'A sampler started on an area hands out, pixel by pixel and exactly once for each pixel of the area, the requested number of '
    'sample positions, every one inside that pixel, and afterwards reports that the area is finished. The stratified sampler puts '
    'exactly one sample in each stratum of the pixel (its centre when not jittered; sample counts are perfect squares). The random '
    'numbers behind them are the WELL1024a sequence of the seed, always between 0 and 1, and fill exactly the requested amount.',
    ['inputs', 'histories'], 'all areas up to 5x5 (9x9) at several origins, sample counts up to 256, degenerate and one-bit seeds',
    'tests draw from a 2x2 area and only look at the returned flag',
    ['src/samplers/sampler.cpp', 'src/samplers/sampler_random.cpp', 'src/samplers/sampler_stratified.cpp', 'src/utility/wellrng.cpp'],
    [('scan of the area with one stratum loop per pixel', 'SamplerStratified::get_samples, SamplerRandom::get_samples')],
    'exploration', 'bounded exhaustive enumeration of areas, sample counts and seeds; whole call sequence checked',
    'Complete for the enumerated areas, counts and seeds. Stratified counts that are not perfect squares are excluded: the configuration rounds them (C13).',
    [part('sampler.cpp')], 'an evaluation is one whole sampling of an area or one generated number; distinct ones are distinct sample sequences or numbers')

add('C05', 'The scene reports the nearest hit over all its assets',
    'For every scene and ray, the scene accelerator finds a hit exactly when some asset is hit in front of the origin, and then reports '
    'the nearest one with that asset\'s hit details, the same answer as testing every asset. This holds for flat, touching, overlapping, '
    'identical and nested assets, for any number of assets up to the limit (the excess is refused without harm), and after any '
    'sequence of insertions and (repeated) builds.',
    ['inputs', 'histories'], 'all enumerated layouts (subsets, tilings, stacks, nests, up to 5000 assets) and rays in generic position; all insert/build histories up to length 7 (9)',
    'the only test that builds the tree holds two or three assets and shoots a few rays',
    ['src/accelerators/kdtree.cpp', 'src/accelerators/kdtree.hpp', 'src/geometry/AABB.cpp', 'src/primitives/asset.cpp', 'src/utility/scene.cpp'],
    [('split plane selection and front to back traversal with early exit', 'KdTree::build, KdTree::intersect')],
    'exploration', 'bounded exhaustive enumeration of scenes, insert/build histories and rays against a brute-force oracle',
    'Complete for the enumerated scenes and rays; rays lying in the plane of a face are excluded (single precision leaves them undefined).',
    [part('kdtree.cpp', hang=60)], 'an evaluation is one ray against one built scene; distinct ones are distinct vectors of nearest assets of a scene')

add('C06', 'A mesh reports the nearest face hit with that face\'s details and material',
    'For every mesh (any number of triangles, in any order, flat, stacked, identical, degenerate or of wildly different sizes, whatever '
    'size was announced) and every ray, the mesh is hit exactly when one of its triangles is, the reported hit is the nearest one (and nearer '
    'than an already known hit), and its distance, point, interpolated normal, texture coordinates and face index are those of that triangle '
    'as it was added, so that every face is shown with the material assigned to it.',
    ['inputs'], 'all enumerated meshes (grids, spheres, soups, stacks, geometric series, all orders of five faces, up to 20000 faces) and rays clear of edges',
    'the tests shoot a few rays at one small mesh and never look at the face index of a mesh whose triangles were reordered',
    ['src/accelerators/bvh.cpp', 'src/primitives/mesh.cpp', 'src/primitives/triangle.cpp', 'src/primitives/asset.cpp'],
    [('agglomerative clustering over Morton order, triangles reordered in place', 'Bvh::buildTree, Bvh::intersect'), ('per face material table', 'Asset::get_material')],
    'exploration', 'bounded exhaustive enumeration of meshes, insertion orders and rays against a double-precision brute-force oracle',
    'Complete for the enumerated meshes and rays; rays passing within rounding of an edge of a triangle are not judged.',
    [part('mesh.cpp', hang=60)], 'an evaluation is one ray against one mesh; distinct ones are distinct vectors of hit faces of a mesh')

add('C07', 'Spheres, boxes and triangles are hit where geometry says, also when masked',
    'For every shape, transform and ray, an asset is hit exactly when the ray meets its transformed surface beyond the self-intersection '
    'distance, at the nearest point that its mask leaves visible and that is not farther than the hit already known; otherwise nothing is '
    'changed. The reported point lies on the surface and inside the bounding box, the normal is the outward (or interpolated) surface '
    'normal of unit length, the texture coordinates are those of the point (every face of a box shows the whole texture), '
    'and the tangents are the change of the point with them.',
    ['inputs'], 'all enumerated shapes, transforms (translation, rotation, scale, shear, mirror), masks (every channel, inverted or not), distance limits and rays clear of edges',
    'the tests check a few rays per shape, never a box from inside, a mask on the far side of a sphere, or degenerate texture coordinates',
    ['src/primitives/sphere.cpp', 'src/primitives/box.cpp', 'src/primitives/triangle.cpp', 'src/primitives/asset.cpp', 'src/geometry/AABB.cpp', 'src/textures/mask_boolean.cpp'],
    [('object space intersection, results transformed back to world space', 'Asset::intersect, Shape::intersect'), ('mask tested on the candidate hit', 'MaskBoolean::is_masked')],
    'exploration', 'bounded exhaustive enumeration of shapes, transforms, masks, limits and rays against a double-precision reference',
    'Complete for the enumerated combinations; rays within rounding of an edge, silhouette or mask border are not judged; tangents of triangles without extent in texture space only have to be finite and independent.',
    [part('shapes.cpp', hang=60), part('shapes.cpp', variant='asan-dbg', hang=60)], 'an evaluation is one ray and distance limit against one asset; distinct ones are distinct vectors of hit distances')

add('C08', 'Shadow queries do not depend on the queries made before',
    'Whether a path of given length is occluded is answered exactly as if it were the first query: occluded if and only if some asset of '
    'the scene is met closer than the given distance, for every history of earlier queries by the same tester (whatever occluder it '
    'remembers), every bounce number, and masked, nested or self-emitting assets; the surface a path ends on does not occlude it.',
    ['histories', 'inputs'], 'all sequences of up to 4 queries (5 in the thorough tier) out of 21-24 per scene and origin, over 14 scenes and 6 origins',
    'the tests make three queries; a stale or wrongly compared remembered occluder only shows in a sequence of different rays and distances',
    ['src/utility/occlusion_tester.cpp', 'src/utility/scene.cpp', 'src/accelerators/kdtree.cpp', 'src/primitives/asset.cpp'],
    [('last occluder tried first, then the whole scene', 'OcclusionTester::is_occluded')],
    'model_checking', 'explicit exploration of all query sequences up to a depth on the real tester against the stateless answer',
    'Every sequence of the stated alphabet and depth is executed on the real code; paths within 1e-3 of the occluder are not judged.',
    [part('occlusion.cpp', variant='fast', hang=60)], 'a case is one scene, origin and bounce pattern; states are query histories, each reached by copying the tester after its prefix; distinct_outcomes counts distinct answer vectors')

IMGF = ['src/utility/imageio/bmp.c', 'src/utility/imageio/tga.c', 'src/utility/imageio/ppm.c', 'src/utility/imageio/jpg.c', 'src/utility/imageio/png.c', 'src/utility/imageio/tiff.c', 'src/utility/imageio/imageio.c']
add('C09', 'Pictures survive being written and read in every supported format',
    'For every size and content, a picture written as BMP, TGA, PPM, PNG or TIFF is a well-formed file of that format that any decoder shows '
    'with exactly the same size and colours (up to the compression loss for JPEG), also over an older file, and the renderer itself reads it '
    'back unchanged. Every supported variant of these formats written by others (bit depths, row orders, run lengths, grey, palette, '
    'transparency, interlacing) is recognised and read with its true size and colours.',
    ['inputs'], 'all widths up to 17 and heights up to 6 (40x12 thorough), 4 contents, all 256 values per channel, 150 file variants at 36 sizes',
    'the tests write one 10x10 picture per format and read a handful of files; row padding, run lengths and depths depend on size and variant',
    IMGF, [('one encoder and decoder per format behind a dispatcher on the extension', 'img_write, img_read8, img_dimensions, img_valid')],
    'exploration', 'bounded exhaustive enumeration of sizes, contents and file variants against independent encoders and decoders',
    'Complete for the enumerated sizes and variants; JPEG is compared with libjpeg within its loss.',
    [part('images.cpp', hang=60)], 'an evaluation is one file written or read; distinct ones are distinct decoded pictures')
add('C10', 'Damaged picture files are rejected or read safely, never half-read',
    'Whatever a file contains - cut at any byte, with any header or data byte changed, empty, or of another format - looking at it, taking its '
    'size and reading it never touches memory outside of the picture, never crashes, hangs or ends the program; the size is only reported when '
    'it was read, and reading only succeeds when every pixel was set: a cut file never passes for a complete picture.',
    ['inputs', 'faults'], 'every length and every single byte changed to 12 values (pairs of header bytes for BMP and TGA) of 60 small files of all formats, plus malformed text headers',
    'the tests read a few wrong files; the overrun needs a particular run length, size or truncation',
    IMGF, [('sizes and packets of the file trusted while decoding', 'bmp_read, tga_read, ppm_read, jpg_read, png_read, tiff_read')],
    'fault_enumeration', 'enumeration of every truncation point and byte corruption of reference files under AddressSanitizer',
    'Complete for the listed files and corruptions; the buffer has exactly the size the library announces, pictures over a million pixels are not read.',
    [part('images.cpp', hang=60)], 'an evaluation is one damaged file; distinct ones are distinct outcomes (pictures read and return codes)')
add('C11', 'A picture is reported as stored only if all of it reached the disk',
    'When the disk fills up at any byte of the output file, in any format, the writer reports failure and returns; it never reports success for '
    'an incomplete file, crashes or hangs. If there is room for the whole file it succeeds. A rendering whose picture cannot be stored ends '
    'with a failure status, one whose picture is stored with success.',
    ['faults'], 'every (or every n-th, for the larger pictures) byte position of the output file at which writing starts to fail, all formats',
    'no test makes a write fail after the file was opened; it depends on buffer sizes where an error surfaces',
    IMGF + ['src/cameras/image_film.cpp', 'src/renderer.cpp'], [('results of the stream functions checked', 'bmp_write ... tiff_write, ImageFilm::save_image, Renderer::render')],
    'fault_enumeration', 'enumeration of every failing write position (file size limit) on the real writers and renderer',
    'The fault is a file size limit, so it strikes exactly at the enumerated byte as a full disk would; errors that only surface after close are out of reach.',
    [part('images.cpp', hang=60), part('store.cpp', hang=60)], 'an evaluation is one write (or one whole rendering) with a full disk at one position; distinct ones are distinct positions and files')

add('C12', 'Paths resolve to the file they name and folders are created and listed as asked',
    'A path, absolute or relative to the working folder, with any mixture of separators, "." and ".." elements and empty elements, stands '
    'for the one absolute path those elements lead to (never above the root); name, extension, parents up to the root, appended paths, '
    'copies and assignments all agree with it, and existence and kind with what is on disk. Creating a folder (with or without its '
    'missing ancestors) creates exactly those folders, reports whether it did, and listing a folder gives each of its entries once.',
    ['inputs', 'histories'], 'all paths of up to 4 (5) of 11 kinds of elements from 5 working folders, all appends of up to 3 elements, all sequences of 3 (4) directory operations of 17',
    'the tests try some twenty paths, none ending in "..", with one-letter folders or below the root',
    ['src/utility/file.cpp', 'src/utility/file.hpp'], [('lexical resolution of the path', 'append_relative, File::append, File::get_parent'), ('recursive creation', 'File::mkdirs')],
    'exploration', 'bounded exhaustive enumeration of paths and of sequences of directory operations against a lexical and a tree model',
    'Complete for the enumerated elements and sequences on Linux; symbolic links and permissions are not exercised (the checks run as root).',
    [part('files.cpp', hang=60, ldflags='-Wl,--wrap=mkdir')], 'an evaluation is one path (or operation) judged; distinct ones are distinct resolved paths and listings')

CFGW = ','.join('--wrap=' + s for s in ['_ZN8RendererC1EiiiPKci', '_ZN8Renderer11set_samplerEi', '_ZN8Renderer14inherit_cameraEP6Camera', '_ZN8Renderer14inherit_filterEP6Filter', '_ZN8Renderer18inherit_integratorEP15LightIntegrator'])
add('C13', 'A configuration file sets exactly what it says, however it is laid out',
    'The renderer receives exactly the output name, resolution, samples, sampler, filter and camera the configuration asks for, with the '
    'documented defaults for the rest and the documented adjustments (width to a multiple of 32, stratified counts to a square), whatever the '
    'order, separators, comments and number spellings, and also when entries stand in children files, each found from the folder of the main '
    'file. Any other file ends with a message naming file and line of the error, never with a crash, a hang or silence.',
    ['inputs', 'faults'], 'all ordered pairs (triples) of 27 settings, all orders of five entries, all placements in up to 3 children, widths and sample counts up to 130 (400), every cut and byte change of a file with every kind of entry',
    'the tests parse some forty fixed files; orders, combinations over several files and damaged files are not sampled',
    ['src/parsers/config_driver.cpp', 'src/parsers/config_driver.hpp', 'src/parsers/config_parser.y', 'src/parsers/config_lexer.l', 'src/parsers/config_parser.tab.cc', 'src/parsers/lex.yy.cc'],
    [('grammar actions fill the driver, which builds the renderer', 'ConfigParser, ConfigDriver::parse'), ('error location', 'ConfigDriver::error, ConfigDriver::get_line')],
    'exploration', 'bounded exhaustive enumeration of configuration files; settings observed at the renderer and compared with an independent model',
    'Complete for the enumerated files; the renderer is observed at its public constructor and setters, cameras and filters through their rays and weights.',
    [part('config.cpp', hang=60, ldflags='-Wl,' + CFGW)], 'an evaluation is one configuration parsed in a process of its own; distinct ones are distinct files or messages')

add('C14', 'The scene contains exactly what the configuration files describe',
    'Each world and light entry places its shape scaled, turned by degrees about x, y and z and moved, with its mask and its colour or temperature; '
    'world entries wear the materials their faces name or the overriding one, lights always the default one. Each material entry gives the material of its type, roughness, anisotropy, '
    'distribution, index, metal, colours and normal map; names of textures are looked up before paths, the first of equal names stays, and '
    'what is missing is reported and replaced by the default or left out. The order of entries and the file they stand in do not matter.',
    ['inputs'], 'all 12 (16) rotations x 3 (4) positions x 6 (8) scales of 4 shapes as shape and light, 600 material settings, all pairs of 12 texture entries with 16 references each, all masks, all orders of entries, 1300 (8000) orders of a whole scene over two files',
    'the tests place a few spheres without rotation and look at single values of some twenty materials',
    ['src/parsers/config_driver.cpp', 'src/parsers/config_parser.y', 'src/parsers/config_parser.tab.cc', 'src/utility/scene.cpp', 'src/primitives/asset.cpp', 'src/materials/material_library.cpp', 'src/textures/texture_library.cpp'],
    [('entries are kept back and built once all files are read', 'ConfigDriver::build_materials, build_dualmaterials, parse_and_allocate_obj, build_meshes'), ('textures found by name, then by path', 'ConfigDriver::load_texture')],
    'exploration', 'bounded exhaustive enumeration of configuration files; scenes compared ray by ray, materials answer by answer, with an independent model',
    'Complete for the enumerated files. Rays close to an edge, two surfaces or a texture border are left out; materials are compared with ones built by hand from the public lobes.',
    [part('content.cpp', hang=60)], 'an evaluation is one configuration parsed and compared (or one of its materials); distinct ones are distinct files')

add('C15', 'OBJ files yield exactly their meshes, faces, normals, coordinates and materials',
    'From an OBJ file the parser returns every object (or group) that has faces, in order, with its name and exactly the triangles the file '
    'describes: vertices by positive or negative index, polygons as fans, given or recreated normals and texture coordinates, and for each '
    'face the material named last (the default one if unknown). Other statements, separators, comments, line ends, number spellings, a missing last newline, '
    'the position of the read buffer and files parsed before make no difference. Malformed files end in an error or in fewer meshes, never '
    'in a crash, a hang or a face with a wrong vertex. Files are closed again.',
    ['inputs', 'faults'], 'all sequences of 4 (5) of 17 statements, all layouts, every alignment of a file to the 4096 byte buffer, every cut and byte change, all faces of three of 24 index forms',
    'the tests parse fourteen fixed files and look at surfaces and counts, never at a face, its material or its coordinates',
    ['src/parsers/parser_obj.cpp', 'src/parsers/parser_obj.hpp', 'src/primitives/mesh.cpp'],
    [('tokens read through a refilled buffer', 'get_next_token, feed_buffer'), ('faces assembled and triangulated', 'ParserObj::get_next_mesh'), ('materials compacted', 'ParserObj::finalize_mesh')],
    'exploration', 'bounded exhaustive enumeration of OBJ files against an independent reader, meshes compared ray by ray',
    'Complete for the enumerated files. Not judged: names given after faces without one, a material meant to last over the next name, line continuations.',
    [part('obj.cpp', hang=30)], 'an evaluation is one file parsed and compared; distinct ones are distinct parsed meshes')

add('C16', 'Texture lookups give the filtered value of the texture at every coordinate',
    'For every square power of two map, coordinate (negative and beyond 1 as well: the texture repeats), scale, shift and pixel footprint, a '
    'lookup stays inside the map and gives what its filter defines: the nearest texel, the interpolation of the four nearest ones blended '
    'between two reduced maps, or the elliptical average; a flat texture keeps its value. A texture read from a file shows its pixels, any '
    'unusable file the default texture. Masks tell visible from hidden by their channel; normal and height maps yield unit frames facing the surface; where a point has no footprint, nothing left over from another point matters.',
    ['inputs'], 'all maps of side 1-32 (64) with 9 contents, sub-texel lattices of coordinates including far outside, some 150 (500) footprints, 30 scales and shifts, files of all sizes up to 18x18 (34x34) and all cuts, all mask values',
    'the tests look at texel centres and corners of a 2x2 map; their comment says the elliptical filter is known to be wrong between levels',
    ['src/textures/image_map.cpp', 'src/textures/texture_image.cpp', 'src/textures/mask_boolean.cpp', 'src/textures/texture_normal.cpp', 'src/textures/texture_height.cpp', 'src/utility/array2D.hpp'],
    [('level selection and interpolation', 'ImageMapTrilinear::filter, ImageMapEWA::filter, ImageMap::bilinear'), ('repetition, scale and shift', 'TextureImage::map_value')],
    'exploration', 'bounded exhaustive enumeration of maps, coordinates and footprints against double-precision reference filters',
    'Complete for the enumerated combinations, up to the rounding of stored bytes; which texel is nearest exactly between two is not judged, footprints are finite.',
    [part('textures.cpp', hang=60)], 'an evaluation is one lookup (or one texture file) judged; distinct ones are distinct values returned')

add('C17', 'Libraries and scenes own what they were given and find it under its name',
    'Whatever the sequence of additions, removals and clearings: a name of the material or texture library gives the object first added under '
    'it and not removed since, the default ones always stay, and an object refused stays with the caller. A scene counts, lists and hits '
    'exactly its assets and lights, up to the stated limits. Every object taken over is destroyed exactly once, when removed or with its '
    'owner, and never while it can be reached. Block arrays hold at every place the value last written, copied or assigned.',
    ['histories'], 'all sequences of up to 6 (7) operations on the material library, 5 (6) on the texture library, 6 (7) on a scene, 4 (5) on pairs of arrays of 60 sizes; scenes of up to 4097 assets and 100 lights in three orders, 300 nearly equal names',
    'the tests make each call once or twice in one order and do not observe destruction',
    ['src/materials/material_library.cpp', 'src/textures/texture_library.cpp', 'src/utility/scene.cpp', 'src/utility/array2D.hpp'],
    [('maps from names to owned objects', 'MaterialLibrary, TextureLibrary'), ('owned shapes, assets and lights', 'Scene'), ('values stored in square blocks', 'Array2D')],
    'model_checking', 'explicit enumeration of all operation sequences on the real objects, in step with a model of names and owners',
    'Complete for the stated operations, names and lengths; destruction is observed through derived classes, memory through the sanitizer\'s allocator.',
    [part('ownership.cpp', hang=60)], 'states are distinct states of the model (which object under which name, contents of the arrays), transitions the operations performed, traces the sequences executed on the real objects',
    coverage={'states': ['distinct'], 'transitions': ['transitions'], 'traces_validated_against_impl': ['executions'], 'cases': ['cases']})

add('C18', 'Light sampling is on the surface, by area, in world units with true densities',
    'A point sampled on a shape lies on its surface, points are spread in proportion to the area for every number of faces, also empty '
    'ones, and random numbers 0 and 1 are legal. Rays leaving a light start on it, leave from its front evenly over the hemisphere, with the '
    'density one over area times 2 pi. Seen from any point, a sampled direction meets the light at the reported world distance with the '
    'density of that point per solid angle, the same pdf() gives; it is dark exactly when the back is seen, never NaN or infinite.',
    ['inputs'], 'spheres, boxes, cubes, squares and fans of 1-9 (20) triangles incl. empty ones, 8 transforms, complete grids of random numbers (64-2048 per axis) with both ends and all face boundaries, some 45 (130) viewpoints',
    'the tests sample three points of identical faces and the untransformed unit sphere',
    ['src/lights/area_light.cpp', 'src/primitives/mesh.cpp', 'src/primitives/sphere.cpp', 'src/primitives/box.cpp', 'src/primitives/triangle.cpp'],
    [('cumulative areas select the face', 'Mesh::sample_point, Box::sample_point'), ('density in solid angle', 'AreaLight::sample_visible_surface, AreaLight::pdf')],
    'exploration', 'bounded exhaustive enumeration of shapes, transforms, viewpoints and grids of random numbers against double-precision references',
    'Complete for the enumerated grids; shares are judged up to the grid resolution, directions grazing the light or its edges are not judged. Spheres scaled by different factors are a known finding.',
    [part('lights.cpp', hang=60)], 'an evaluation is one sampled point, ray or direction judged; distinct ones are distinct cells of surface or density reached')

add('C19', 'Scattering lobes are physical and sampled with their true density',
    'For every pair of directions a scattering lobe gives a finite value that is not negative, is the same with the directions exchanged, and '
    'gives off no more light than arrives. The directions it samples are unit vectors on the proper side of the surface, spread with exactly the '
    'density it reports, and value and density are the same when asked for the pair; random numbers 0 and 1 are legal. Mirrors and clear glass '
    'follow the laws of reflection and refraction on both sides, with all light reflected beyond the critical angle and what is '
    'reflected and what is refracted adding up to what arrives; no metal reflects more than everything.',
    ['inputs'], 'all lobes with 4 (7) roughnesses, 9 (36) anisotropic pairs and 4 pairs of indices, 74 (266) directions incl. grazing and below, all pairs of them, 12x12 (24x24) random numbers and the ends; 29 metals; 401 (2001) angles',
    'the tests pin a few numbers the formulas of the code gave',
    ['src/materials/bdf.cpp', 'src/materials/lambertian.cpp', 'src/materials/oren_nayar.cpp', 'src/materials/microfacet.cpp', 'src/materials/microfacet_distributions.cpp', 'src/materials/fresnel_conditions.cpp', 'src/materials/reflection.cpp', 'src/materials/refraction.cpp'],
    [('sampling, value and density of facets', 'MicrofacetR, MicrofacetT, MicrofacetDist::sample_wh / pdf'), ('Fresnel terms', 'Dielectric::eval, Conductor::eval')],
    'exploration', 'bounded exhaustive enumeration of lobes, directions and random numbers against double-precision references and the numeric derivative of the sampling',
    'Complete for the enumerated grids; densities are compared where the sampling does not bend within a step of 0.008. Densities of Blinn, Beckmann and refracting facets and the shadowing of GGX are known findings (the tests pin them).',
    [part('bsdf.cpp', variant='fast', hang=60), part('bsdf.cpp', variant='fast-spectral', hang=60)], 'an evaluation is one distribution, value, density or sampled direction judged; distinct ones are distinct values')

add('C20', 'Materials add up their lobes, each with its texture, in the frame of the surface',
    'Whatever lobes a material is made of, its value for a pair of world directions is the sum over the lobes of that side, each multiplied '
    'by its own texture at the hit point, and its density the mean of their densities over the lobes that take part. Sampling picks each '
    'lobe with the same probability for every random number from 0 to 1, takes its direction to the world, reports mirrors as such, and gives the value '
    'and density of the pair; a material without fitting lobes gives no light. A dual material is exactly the one its mask shows. Frames turn directions there and back.',
    ['inputs'], 'all ordered combinations of up to 2 (3) of 8 lobes, many of 3-5, textured or not, frames upright, turned, of tangents of any length and angle and of normal maps, 24 directions and all pairs, random numbers at and around all borders between lobes; all lobes alone; 16 pairs of materials with masks',
    'the tests look at one direction and random number in an upright frame with equal or no textures',
    ['src/materials/multi_bsdf.cpp', 'src/materials/single_brdf.cpp', 'src/materials/dual.cpp', 'src/materials/shading_space.cpp', 'src/materials/bump.cpp', 'src/textures/mask_boolean.cpp'],
    [('choice of a lobe and sum over the lobes', 'MultiBSDF::sample_value / value / pdf'), ('change of frame', 'ShadingSpace::to_world / to_shading')],
    'exploration', 'bounded exhaustive enumeration of lobe combinations, frames, directions and random numbers against the sum over separately evaluated lobes',
    'Complete for the enumerated combinations; the lobes themselves are property C19, bump maps C16.',
    [part('materials.cpp', hang=60), part('materials.cpp', variant='fast-spectral', hang=60)], 'an evaluation is one value and density, sampled direction or change of frame judged; distinct ones are distinct values')

add('C21', 'Transformations, boxes and directions compute what they say',
    'Any sequence of moves, turns, scales, mirrors, shears and view frames is the product of its steps: points, directions, rays and normals '
    'go where the product takes them, normals stay perpendicular to the surface and on its side, and whatever can be undone is inverted, however '
    'small or large the object becomes, while a singular matrix is refused. Bounding boxes enclose exactly what was added to them, and a ray '
    'is said to cross a box exactly if it does, with the true distances of entry and exit, also along the axes and in flat boxes. '
    'Reflected and refracted directions obey the laws of reflection and Snell, and total reflection refracts nothing.',
    ['histories', 'inputs'], 'all sequences of up to 5 (6) of 13 steps; all boxes with corners in a grid, flat and point boxes included, against all rays from a grid of origins along axis parallel, diagonal and general directions; all pairs of 126 (306) directions',
    'the tests use one matrix and a few rays each, none of them small, flat or along an axis',
    ['src/geometry/matrix4.cpp', 'src/geometry/AABB.cpp', 'src/geometry/vec3.hpp', 'src/geometry/ray.cpp'],
    [('determinant and cofactors', 'Matrix4::inverse'), ('slabs of a box, ordered by the sign of the direction', 'AABB::intersect'), ('law of refraction', 'Vec3::refract')],
    'exploration', 'exhaustive search of all sequences of transformations up to a depth, and of all boxes and rays of a grid, against double precision arithmetic',
    'Complete within the bounds. Inverses and normals are only judged where single precision can hold them (condition below 3e4), and rays that just touch a box may hit or miss.',
    [part('geometry.cpp', variant='fast', hang=90), part('geometry.cpp', variant='asan-dbg', hang=200)], 'an evaluation is one result compared with the reference; states are transformations reached, transitions steps taken; distinct ones are distinct matrices, boxes and pairs of directions',
    coverage={'evaluations': ['evaluations'], 'distinct_nontrivial': ['distinct'], 'cases': ['cases'], 'states': ['states'], 'transitions': ['transitions']})

add('C22', 'Every camera sends the ray its picture position asks for',
    'For every position in the picture the perspective, orthographic and panoramic cameras send the one unit ray their geometry defines, from the '
    'place and in the frame given by position, target and up vector, for every resolution and field of view. The two auxiliary rays are the rays of the positions '
    'one pixel further to the right and down, whichever way they are computed.',
    ['inputs'], '3 cameras, 10 resolutions, 9 fields of view from 1 to 178 degrees, up to 64 placements and 72 (338) positions in the picture, corners and borders included',
    'the tests look at 2x2 pictures from one place with a field of view of 60 degrees, where several wrong scalings give the same rays',
    ['src/cameras/camera.cpp', 'src/cameras/camera_perspective.cpp', 'src/cameras/camera_orthographic.cpp', 'src/cameras/camera360.cpp', 'src/geometry/matrix4.cpp'],
    [('matrix from picture to camera', 'CameraPerspective / CameraOrthographic constructors'), ('rays one pixel further', 'Camera::create_ray and its overrides')],
    'exploration', 'bounded exhaustive enumeration of cameras, placements, resolutions and picture positions against a double precision camera',
    'Complete for the enumerated cameras and positions.',
    [part('cameras.cpp', variant='fast', hang=60), part('cameras.cpp', hang=60)], 'an evaluation is one ray compared with the reference; distinct ones are distinct rays')

add('C23', 'The path tracer gives the light that really arrives, each path counted once',
    'The mean of the radiance over all random numbers is the light that arrives by physics: the emission of a light seen directly or through mirrors, '
    'exactly once and from its front only; the light of all lights that reaches a surface past whatever is in between, however many lights there are; and the '
    'light surfaces of any material give to each other, for paths of up to the maximum number of bounces, also where paths are cut short at random. No path '
    'gives negative or infinite light, and every path ends.',
    ['inputs'], 'all points of a lattice of random numbers (2^15, thorough 2^19) for lights seen directly, chains of up to 6 mirrors, 5 floors under 7 sets of lights with and without a body in between, closed boxes of shining walls, and corners that light each other',
    'there is no test of the integrator; a wrong weight or a path counted twice only shows in the mean over all paths',
    ['src/integrators/path_tracer.cpp', 'src/integrators/ray_tracer.cpp', 'src/lights/area_light.cpp', 'src/utility/occlusion_tester.cpp', 'src/materials/multi_bsdf.cpp', 'src/materials/single_brdf.cpp'],
    [('emission of the first hit and after mirrors', 'PathTracer::l_rec'), ('choice of a light and weights of both samplings', 'direct_l'), ('random cut of long paths', 'PathTracer::l_rec')],
    'exploration', 'complete enumeration of a lattice of random number vectors through the real path tracer, its mean compared with double precision integration',
    'Complete for the lattice; the mean over it approximates the mean over all numbers within the tolerance of the comparison (2-8%), so errors of that size go unnoticed. Directly seen lights and mirrors are exact.',
    [part('paths.cpp', variant='fast', hang=120, ldflags='-Wl,--wrap=_ZN7WELLrng9getNumberEv'), part('paths.cpp', variant='fast-spectral', hang=120, ldflags='-Wl,--wrap=_ZN7WELLrng9getNumberEv'), part('paths.cpp', hang=200, ldflags='-Wl,--wrap=_ZN7WELLrng9getNumberEv')], 'an evaluation is one path of the lattice; distinct ones are distinct values',
    coverage={'evaluations': ['evaluations'], 'distinct_nontrivial': ['distinct'], 'cases': ['cases'], 'integrals_compared': ['integrals']})

add('C24', 'A colour stays the same colour through every conversion',
    'Every 8-bit colour survives the way to XYZ and back, XYZ is that of the sRGB primaries with the D65 white, and the spectrum made of '
    'a colour has that colour again (exactly in the RGB build, closely in the spectral one), changes continuously with it and never reflects more light than arrives. '
    'A temperature gives the spectrum of Planck\'s law; luminance is Y; arithmetic acts on every sample by itself. No conversion gives NaN.',
    ['inputs'], 'all 16777216 8-bit colours, a cube of 41 (121) XYZ values per axis, all temperatures to 30000 K (200000 K), all samples and operators with pairs of 7 values, in both builds',
    'the tests convert a handful of colours, among them only ones whose channels are 0 or 1 for spectra',
    ['src/utility/color.cpp', 'src/utility/spectrum.cpp'],
    [('branches of the gamma curve and order of the channels', 'ColorRGB::to_XYZ, ColorXYZ::to_sRGB'), ('six branches of the spectral conversion', 'Spectrum::Spectrum(ColorRGB, bool)'), ('black body', 'Spectrum::Spectrum(int)')],
    'exploration', 'exhaustive enumeration of all 8-bit colours and all temperatures against double precision formulas',
    'Complete for 8-bit colours; the spectral round trip is judged with a tolerance of 0.13-0.16 since the spectra are approximations.',
    [part('colors.cpp', variant='fast', hang=60), part('colors.cpp', variant='fast-spectral', hang=60)], 'an evaluation is one colour, temperature or operation; distinct ones are distinct XYZ values or spectra')

add('C25', 'The texture is filtered over the area a pixel covers',
    'For every shape, size and placement, camera and pixel, the footprint a sample gets is the change of the texture coordinates '
    'from its point to the points its two neighbour pixels see on the same surface, and never infinite or not a number in a way '
    'that changes the colour of a flat texture. What a sample of a picture sees - which asset, through masks as well, '
    'and with which coordinates and footprint - depends on its position alone and not on the samples taken before.',
    ['inputs', 'histories'],
    'spheres, boxes and textured triangles under 9 transformations seen by the three cameras at three resolutions from 3 (5) places, '
    'a grid of 11x11 (23x23) positions each; neighbours along the surface; whole pictures of masked shapes with both samplers',
    'the tests call the function with a few numbers; the unit of the numbers it gets from the shapes is nowhere tested',
    ['src/primitives/hit_point.cpp', 'src/primitives/asset.cpp', 'src/renderer.cpp', 'src/primitives/sphere.cpp', 'src/primitives/triangle.cpp', 'src/primitives/box.cpp'],
    [('neighbour rays are met with the plane of the surface and solved for the tangents', 'calculate_differentials'),
     ('a sample is traced, given its footprint and handed to the integrator', 'executor of the renderer')],
    'exploration', 'exhaustive enumeration of shapes, transformations, cameras and positions against exact double precision footprints',
    'Complete for the enumerated combinations; neighbours beyond the horizon or past a silhouette are not judged, nor surfaces without '
    'extent in texture space. On curved surfaces the reference is the tangent plane, as documented.',
    [part('footprints.cpp'), part('footprints.cpp', 'fast')],
    'an evaluation is one neighbour of one sample, or one sample of a picture; distinct ones are distinct footprints')

add('C26', 'The program turns a scene file into its picture, or says that it could not',
    'For every scene file the program ends with success exactly when the picture asked for was stored: in the asked size and format, at the place the file names, with everything that shines '
    'at its place in the picture, in its colour, the nearest in front, its front only and only where its mask is visible, and black where nothing is; whatever the camera, filter, sampler, samples per pixel, number of '
    'processors, current folder and way the settings are divided over files. In any other case it ends with a failure status and a message, without a picture and without a crash.',
    ['configurations', 'inputs'], '3 scenes x 3 cameras in 4 places x 4 resolutions x 5 filters (half of them in quick) with samplers, sample counts, 8 output names, 1 to all processors and 5 layouts of files in turn; 17 runs with missing or wrong inputs',
    'no test runs the program; the parts are only tested one by one, so wrong connections between them go unnoticed',
    ['src/main.cpp', 'src/renderer.cpp', 'src/parsers/config_driver.cpp', 'src/cameras/image_film.cpp', 'src/cameras/camera.cpp', 'src/primitives/asset.cpp', 'src/integrators/path_tracer.cpp', 'src/utility/file.cpp'],
    [('from a file to a scene and a renderer', 'ConfigDriver::parse'), ('from jobs to samples to the film', 'Renderer::render, executor'), ('from the film to the file', 'ImageFilm::save_image'), ('status of the program', 'main')],
    'exploration', 'bounded exhaustive enumeration of scene files through the whole program in a child process, pictures against an independent double precision ray caster',
    'Complete for the enumerated combinations; pixels are compared where everything the filter reaches is of one colour, within 2 of 255 (14 in the spectral build whose spectra only approximate colours). Schedules are those that happen; C01 and C02 explore them.',
    [part('program.cpp', variant='fast', hang=150), part('program.cpp', variant='fast-spectral', hang=150), part('program.cpp', variant='asan-dbg', hang=150)], 'an evaluation is one run of the program; distinct ones are distinct pictures and outcomes')

add('C27', 'Vectors, points, numbers and blocked arrays compute what their operators say',
    'Every operator, method and function of the vectors, normals and points gives component by component the result of exact arithmetic, whether it is written '
    'as an operator, an assignment, a method or a function, and leaves its operands alone; equal is the opposite of different. The helpers underneath do what they '
    'say for every input: times of any length are written readably within 17 bytes, byte orders and pixel formats convert back and forth, equations have the roots '
    'that solve them, multiples are the nearest, and a blocked array of any size holds what was put in, independently of its copies.',
    ['inputs'], 'all pairs of vectors with 6 (8) values per component in two and three dimensions, clamped to all ordered intervals; all 8640000 times of less than 100 days and 86400 longer ones; all 16 bit values and pixels; quadratic equations with 169 pairs of roots; arrays of all sides to 140 (300)',
    'the tests use one or two values for each operator, so that swapped components, signs or a branch for one order of the values go unnoticed',
    ['src/geometry/vec2.cpp', 'src/geometry/vec3.cpp', 'src/geometry/vec2.hpp', 'src/geometry/vec3.hpp', 'src/geometry/point2.cpp', 'src/geometry/point3.cpp', 'src/utility/utility.cpp', 'src/utility/utility.hpp', 'src/utility/array2D.hpp', 'src/utility/imageio/imageio.c'],
    [('components of vectors and normals', 'operators of Vec2, Vec3, Normal, Point2, Point3'), ('text of a time', 'format_seconds'), ('blocks of an array', 'Array2D::get, Array2D::set')],
    'exploration', 'exhaustive enumeration of all operands of a small lattice and of all times, 16 bit values and pixels, against double precision arithmetic',
    'Complete for the enumerated operands; results may differ from exact ones by 2e-6, and equality is only judged for values at least 0.25 apart.',
    [part('vectors.cpp', variant='fast', hang=60), part('vectors.cpp', variant='asan-dbg', hang=200)], 'an evaluation is one result compared with the reference; distinct ones are distinct operands')

add('C28', 'Messages, progress and times shown to the user are complete and true',
    'Every message reaches the user exactly once, complete whatever its length, on the stream of its severity and marked with it, in order with the others; a critical one ends the '
    'program with a failure and no other does. While a picture is rendered the progress displayed is that of the areas handed out, never goes back, and the time left follows from the time '
    'spent; whenever the display happens to wake, the rendering ends, shows the whole as done, and reports how long it took.',
    ['inputs', 'schedules'], 'all kinds of messages in 9 lengths and 4 forms, all sequences of four messages, all fractions with denominators to 120 (400), all subsets of the areas of pictures with up to 6 (8) areas in which the display wakes, 4 speeds, 17 durations',
    'the tests replace the console by counters and never look at a display or at the moment it wakes',
    ['src/utility/console.cpp', 'src/utility/console.hpp', 'src/renderer.cpp', 'src/utility/utility.cpp'],
    [('messages of a run', 'Console::log, notice, warning, severe, critical'), ('progress of a rendering', 'progressBar, RendererProgressBar, Console::progress_bar'), ('duration', 'Renderer::render')],
    'exploration', 'exhaustive enumeration of messages and of the areas within which the display wakes, the real renderer driven through replaced clocks and pauses',
    'One rendering thread; the area at work may count as done or not.',
    [part('console.cpp', variant='asan', hang=120)], 'an evaluation is one message, display or rendering judged; distinct ones are distinct texts, displays or subsets')
