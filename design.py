"""per property: the oracle, and anything particular about the way it is decided"""
ORACLE = {
'C01': 'the film is filled by the threads, and the stored picture is compared with the sum of all samples times the filter weight '
       'computed in double precision; happens-before over vector clocks; deadlock and livelock detection.',
'C02': 'the stand-in integrator gives every sample a value and records the pixel: counts per pixel must equal spp; the picture read '
       'back must be the filtered average. Schedules are shared between processes by first-level subtree, so the union is complete.',
'C03': 'filter definitions in double precision and the plain weighted sum over all samples of the film.',
'C04': 'a counter per pixel and stratum; an independent WELL1024a.',
'C05': 'all assets tested one after the other (same shapes, no tree). Insert/build histories are explored in all orders.',
'C06': 'all triangles in double precision; rays whose nearest and second triangle or edges are within rounding are left out.',
'C07': 'double precision intersection of the transformed shape, the mask evaluated at the exact texture coordinate.',
'C08': 'the answer of a fresh tester, and the nearest hit over all assets.',
'C09': 'own encoders and decoders of BMP, TGA, PPM, libpng/libjpeg/libtiff for the others.',
'C10': 'AddressSanitizer around a buffer of exactly the announced size, a pattern to find pixels not set, own knowledge of how '
       'many bytes a complete file needs.',
'C11': '`RLIMIT_FSIZE` at every byte; the file is complete or the writer says no. The whole program is run the same way.',
'C12': 'a resolver on lists of elements and a model of the folder tree, compared with `stat`/`readdir` after every step.',
'C13': 'a reference reading of the documented format; the renderer is replaced at link time by a recorder with the same interface.',
'C14': 'the scene built by hand through the public interfaces; rays against both; materials compared by value and density.',
'C15': 'an independent reader of OBJ; every statement sequence is generated with its expected meshes.',
'C16': 'the definition of each filter on the map in double precision, with tolerances of the stored bytes.',
'C17': 'a map from names to objects, a multiset for scenes, plain vectors for arrays; destruction counted by derived classes.',
'C18': 'surfaces, areas and solid angles in double precision; shares of a complete grid of random numbers per cell.',
'C19': 'reciprocity, non-negativity and energy on complete grids; densities against the Jacobian of the sampling map; Fresnel and '
       'Snell in double precision.',
'C20': 'sums over hand-kept lists of lobes; the choice of a lobe from the random number at and around every border.',
'C21': 'matrices in double precision, stepped along; exact rational style slab test in double precision.',
'C22': 'the ray by elementary geometry in double precision.',
'C23': 'closed forms (form factors, projected polygons, geometric series of closed boxes) against the mean over the lattice.',
'C24': 'the sRGB and Planck definitions in double precision.',
'C27': 'component by component in double precision; texts of times are read back.',
'C28': 'the text itself, read back from both streams of a child process; fractions and times from the number of areas handed out and the replaced clock.',
'C26': 'an own ray caster in double precision over the scene file just written; only pixels whose whole filter reach shows one colour are compared, and the scenes let no light reach another one',
'C25': 'exact differences of texture coordinates on planes and tangent planes in double precision; a freshly traced hit for every '
       'sample recorded in a real rendering.',
}
COST = {'C01': '30 s', 'C02': '110 s', 'C08': '60 s', 'C13': '16 s', 'C14': '75 s', 'C15': '20 s', 'C16': '11 s', 'C17': '16 s',
        'C18': '44 s', 'C19': '20 s', 'C20': '18 s', 'C21': '10 s', 'C22': '10 s', 'C23': '31 s', 'C24': '9 s', 'C25': '13 s', 'C26': '35 s', 'C27': '16 s', 'C28': '20 s'}
