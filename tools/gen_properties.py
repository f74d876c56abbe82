"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}))))
MESH='meshmagick/mesh.py'; IO='meshmagick/mmio.py'; CL='meshmagick/mesh_clipper.py'
HS='meshmagick/hydrostatics.py'; IN='meshmagick/inertia.py'; RO='meshmagick/rotations.py'
TO='meshmagick/tools.py'; CLI='meshmagick/cli.py'; DE='meshmagick/densities.py'

prop('C01','Text mesh formats: a written file reads back as the same mesh',
 'For every text format that has both a reader and a writer (mar, nem, nat, hst, tec, gdf, pnl, DAT), writing a mesh of triangles and quadrangles and loading the file again gives the same number of faces, in the same order (for DAT, which groups elements by type, in the same order among triangles and among quadrangles), each face visiting the same points in the same cyclic order (so the same orientation, triangles staying triangles), and every coordinate equal to the original within the number of digits printed.',
 ['inputs'],'all vertex coordinates (any sign, magnitudes up to six integer digits), all connectivities, any mix of triangles and quadrangles, meshes with few faces',
 'The tests write one fixed all-quadrangle mesh and compare one format at a time with itself; triangle conventions, 1-based shifts, field overflow, tiny meshes and signs are never varied.',
 [IO],[('write_mesh / write_* functions',IO),('load_mesh / load_* functions',IO)],['files written by write_mesh','arrays returned by load_mesh'])
prop('C02','VTK-backed and STL/OBJ formats read back as the same surface',
 'Writing a mesh as vtp, vtu, vtk, obj or stl and loading it again gives a surface with the same facets: each face visits points with the same coordinates (within single precision) in the same cyclic order, triangles stay triangles and, for the triangle-only stl format, each quadrangle becomes the two triangles of its first diagonal.',
 ['inputs'],'all vertex coordinates and all mixes of triangles and quadrangles within the stated number of faces, including meshes with fewer than four vertices',
 'Tests load samples but compare at most counts for one mesh per format.',
 [IO],[('_build_vtkPolyData, _build_vtkUnstructuredGrid',IO),('_dump_vtk',IO)])
prop('C03','Readers deliver exactly the mesh the file describes',
 'Loading a file in an input format delivers every face the file describes, exactly once and in file order (for DAT and msh: in file order among triangles and among quadrangles), with node references resolved to the coordinates of the nodes they name, and triangles in the documented triangle convention (first node repeated last); this includes files with several panel or element sections, files with sections in either order, node numbers that are neither consecutive nor ordered where the format numbers its nodes (hst, DAT, rad, inp, msh), and inp files that place several bodies in frames with INCREMENT=YES.',
 ['inputs'],'all coordinates, node numbers and element lists within bounded section counts, for the mar, hst, DAT, pnl, gdf, nat, nem, rad, inp, msh (2.2 and 4.1) and med readers',
 'Sample files exercise one section layout per format and are only compared to themselves.',
 [IO],[('load_* functions',IO)])
prop('C04','Saving a mesh never modifies the mesh being saved',
 'Writing a mesh to any output format leaves the vertices and faces handed to the writer unchanged, so writing a second time (to the same or another format) produces the same file as writing once.',
 ['histories','inputs'],'every output format, all coordinates, all mixes of triangles and quadrangles, and sequences of two writes',
 'The tests write each format once and never look at the caller\'s arrays afterwards.',
 [IO],[('write_* functions',IO)])
prop('C05','Format dispatch by extension or explicit name, with clean failures',
 'For the command line, every file extension announced as supported for reading (resp. writing), in any letter case, selects the reader (resp. writer) of that format, and every announced format name given explicitly (-ifmt, -ofmt) does so whatever the file extension; the names reach the same readers and writers through load_mesh and write_mesh; an extension or name that is not supported, or a format that cannot be written, is refused with an error before any mesh file is created; loading a missing file is refused with an error naming the file.',
 ['inputs','configurations'],'all announced extensions in any letter case, all announced names, all unsupported extensions and names up to 15 characters, all names of missing files up to 8 characters',
 'Tests use one lower-case extension per format.',
 [IO],[('load_mesh / write_mesh / extension_dict',IO)])
prop('C06','Face area, unit normal and center are the geometric ones',
 'For every triangle the area, the unit normal (right-hand rule on the vertex order) and the centroid are the exact ones; for every planar convex quadrangle the area, unit normal and area-weighted centroid are those of the polygon; results do not depend on which faces surround the face.',
 ['inputs'],'all real vertex coordinates of non-degenerate triangles and planar convex quadrangles in meshes of up to three faces mixing both',
 'The tests look at one cylinder whose faces are all alike, through aggregate values.',
 [MESH],[('Mesh face properties',MESH)])
prop('C07','Surface integrals of monomials are exact on every face',
 'On every triangle and planar quadrangle the fifteen reported surface integrals are the exact integrals over the face of x, y, z, yz, xz, xy, x2, y2, z2, x3, y3, z3, x2y, y2z and z2x.',
 ['inputs'],'all real vertex coordinates of the faces',
 'Tests compare sums over one symmetric cylinder, for which several integrals vanish or coincide.',
 [MESH],[('Mesh.get_surface_integrals',MESH)])
prop('C08','Enclosed volume and homogeneous-solid inertia are exact',
 'For every closed outward-oriented mesh with planar faces, the enclosed volume, mass, centre of gravity and the six inertia coefficients about the origin reported for a homogeneous solid are the exact ones of the solid, and the volume changes sign when all faces are reversed.',
 ['inputs'],'all vertex coordinates of tetrahedra, sheared boxes and pyramids mixing triangles and quadrangles, all densities',
 'Tests check volume and inertia of one axis-aligned cylinder, where products of inertia vanish.',
 [MESH,IN],[('Mesh.volume, eval_plain_mesh_inertias',MESH)])
prop('C09','Thin-shell mass properties are exact',
 'For every mesh, the mass, centre of gravity and six inertia coefficients about the origin reported for a homogeneous shell of small thickness are the exact surface sums density x thickness x area, area-weighted centre and second moments.',
 ['inputs'],'all vertex coordinates of meshes of triangles and planar quadrangles, all densities and thicknesses',
 'Tests compare a symmetric cylinder shell, where all products of inertia vanish.',
 [MESH,IN],[('Mesh.eval_shell_mesh_inertias',MESH)])
prop('C10','Rotations and translations move the mesh rigidly',
 'Translating a mesh (by a vector or along one axis) adds exactly that displacement to every vertex, rotating it (by three angles, one axis angle or a rotation matrix) applies to every vertex the rotation composed of the rotations about the fixed x, then y, then z axis and returns the matrix that was applied, and neither changes connectivity.',
 ['inputs'],'all vertices, all displacements, all angles, all orthogonal matrices',
 'Tests apply a few angles and check aggregate inertia only.',
 [MESH,RO],[('Mesh.rotate*, Mesh.translate*',MESH),('cardan_to_rotmat',RO)])
prop('C11','Scaling, mirroring, symmetrizing and flipping act as geometry says',
 'Scaling multiplies all (or one) coordinates by the factor and leaves the faces alone, flipping reverses every face and nothing else, mirroring sends every vertex to its reflection in the plane while keeping a closed mesh outward oriented, and symmetrizing yields the original faces plus their mirror images with the orientation that keeps the whole consistently oriented.',
 ['inputs'],'all vertices, positive factors, planes of any unit normal and offset, meshes of triangles and quadrangles',
 'Tests symmetrize one mesh about one coordinate plane and check only counts.',
 [MESH],[('Mesh.scale*, mirror, symmetrize, flip_normals',MESH)])
prop('C12','Queries after any operation agree with a freshly built mesh',
 'After any sequence of operations on a mesh interleaved with any queries, every derived quantity (face areas, normals, centers, triangle and quadrangle lists, surface integrals, volume, connectivity, boundaries, closedness) equals the one obtained from a new mesh built from the current vertices and faces.',
 ['histories','inputs'],'every public operation applied after every subset pattern of cached queries (all-cached, each single cache), pairs of operations, with arbitrary vertex coordinates and operation parameters',
 'Unit tests query once on fresh meshes; stale caches need a query, an operation and another query.',
 [MESH],[('Mesh cached properties and their invalidation',MESH)])
prop('C13','Merging duplicate vertices is sound and complete',
 'Merging duplicate vertices leaves every face at the same positions up to the tolerance, never merges vertices farther apart than the tolerance in some coordinate, merges all vertices with identical coordinates, and reports an index map that sends every old vertex to its representative; a mesh without near-duplicates is unchanged.',
 ['inputs'],'all coordinates of up to four vertices, every coincidence pattern and ordering, all positive tolerances',
 'Tests merge a sample whose vertices are exact copies; order and near-tolerance cases depend on the values.',
 [TO,MESH],[('merge_duplicate_rows',TO),('Mesh.merge_duplicates',MESH)])
prop('C14','Clean-up operations keep the surface and remove only what they should',
 'Removing unused vertices keeps every face at the same coordinates and leaves no unused vertex; healing triangles turns every face that repeats its vertex in consecutive positions into a triangle in the standard convention with the same orientation and leaves real quadrangles alone; removing degenerated faces removes exactly those whose area is below the relative threshold; triangulating replaces each quadrangle by two triangles that tile it with the same orientation; extracting faces yields exactly the selected faces with the same coordinates.',
 ['inputs'],'all connectivities with up to five vertices and three faces, all coordinates, all selections, all relative tolerances',
 'Tests run these on meshes that need no repair.',
 [MESH],[('remove_unused_vertices, heal_triangles, remove_degenerated_faces, triangulate_quadrangles, extract_faces',MESH)])
prop('C15','Healing normals yields a consistent, outward orientation',
 'After healing normals of a manifold mesh (every edge shared by at most two faces), any two faces that share an edge traverse it in opposite directions, a closed mesh is oriented outward (positive enclosed volume), and every face still has the same vertices up to reversal.',
 ['inputs'],'every pattern of reversed faces on closed and open manifold meshes mixing triangles and quadrangles, with arbitrary coordinates',
 'Tests call it once on an already consistent mesh.',
 [MESH],[('Mesh.heal_normals',MESH)])
prop('C16','Connectivity, boundaries and closedness describe the mesh',
 'The vertex-vertex, vertex-face and face-face adjacency are exactly those of the faces, a conformal mesh is reported closed exactly when every edge belongs to two faces, and for a consistently oriented manifold mesh the boundaries are the closed loops of the edges that belong to one face.',
 ['inputs'],'all connectivities with up to two faces on five vertices and families of larger closed and open meshes, with any face numbering, rotation or orientation of each face',
 'Tests check closedness of a couple of samples.',
 [MESH],[('Mesh.vv, vf, ff, boundaries, is_mesh_closed',MESH)])
prop('C17','Clipping keeps exactly the part of the surface under the plane',
 'Clipping a mesh of planar convex faces by a plane gives faces that all lie under the plane (within the vicinity tolerance), all lie on the original faces with the same orientation, and together with the part above add up to the original area vector face by face; faces entirely below are kept unchanged, faces entirely above are dropped (a face lying in the plane may be either) and the source mesh is not modified.',
 ['inputs'],'all positions of the vertices of a triangle, a planar convex quadrangle and small closed bodies relative to the plane, including vertices exactly on it, and planes of any orientation',
 'Tests clip one cylinder in a few positions; the face/plane configuration table has some thirty cases.',
 [CL],[('MeshClipper',CL)])
prop('C18','Clipping a closed mesh yields the exact closed intersection lines',
 'When a closed mesh is clipped, the intersection is reported as closed polygons lying on the plane whose vertices are the exact intersections of the mesh edges with the plane, oriented so that they close the clipped mesh, with no open line; a mesh entirely on one side of the plane is refused with an error that says which side (a mesh that only touches the plane from above may give an empty result instead).',
 ['inputs'],'all plane heights and orientations, all vertex heights of tetrahedra and hexahedra that keep vertices further than the tolerance from the plane, plus the on-plane configurations listed in the evidence',
 'The outcome depends on the case of every face and on the order in which edges are chained.',
 [CL],[('MeshClipper closed_polygons / open_lines',CL)])
prop('C19','Plane geometry: distance, projection, intersection, frame',
 'For every plane n.x = c with any non-zero normal given, signed distance, orthogonal projection, edge intersection, origin and in-plane coordinates agree with the equation of the plane (in-plane coordinates being a rigid change of frame whose third component is the signed distance), and stay consistent with each other and with the normal and offset of the plane after it is rotated, flipped, re-oriented or moved through any of its setters.',
 ['inputs','histories'],'all normals, offsets, points, rotation angles, and sequences of up to two updates',
 'Only used with the horizontal plane in the tests.',
 [MESH],[('Plane',MESH)])
prop('C20','Rotation representations convert into each other faithfully',
 'Conversions between Cardan angles, rotation matrix, unit quaternion and axis-angle preserve the rotation: every matrix produced is a proper rotation, going from one representation to another directly or through a third gives the same rotation, and converting back gives the same rotation, including half-turn and gimbal-lock rotations (rotations of less than 2e-4 rad may be taken as the identity in the axis-angle form).',
 ['inputs'],'all angles, all unit quaternions, all rotation matrices, every branch of the conversions',
 'The self-test samples random quaternions with positive components only.',
 [RO],[('conversion functions',RO)])
prop('C21','Hydrostatic quantities follow their definitions',
 'For every floating closed body, displaced volume and mass, buoyancy centre, wetted surface, waterplane area and centre, metacentric radii and heights, the hydrostatic stiffness matrix (coefficients below 1e-4 are zeroed), inertia, waterline and submerged extents and draught equal their definitions for the immersed part, about the origin or, when asked at_cog, about the centre of gravity and buoyancy centre, after the vertical and rotational corrections given; intrinsic quantities do not depend on the horizontal position of the body; the mesh passed in is not modified.',
 ['inputs'],'boxes, wedges and prisms with arbitrary dimensions, positions, drafts, gravity, density, centres of gravity and correction rotations about the vertical',
 'Tests compare one cylinder to hard-coded numbers.',
 [HS],[('compute_hydrostatics',HS)])
prop('C22','Equilibrium solvers only return an equilibrium',
 'Whatever the hull, when the displacement or the full equilibrium solver returns without announcing non-convergence, the position it returns satisfies the requested displacement (and, for the full solver, the vertical alignment of gravity and buoyancy) within the requested relative tolerance (for moments: times weight times breadth or length); a displacement that the mesh cannot reach is reported and none other is, and each vertical correction is at most a fifth of the height of the mesh.',
 ['inputs','histories'],'all sequences of hydrostatic results the hull may give (arbitrary positive volumes, areas, stiffness) for a bounded number of iterations, all targets',
 'Tests run one converging hull.',
 [HS],[('displacement_equilibrium, full_equilibrium',HS)])
prop('C23','Rigid-body inertia transport obeys the parallel-axis theorem',
 'Moving the reduction point of a rigid-body inertia gives the inertia of the same body about the new point, whatever the points, the inertia at the centre of gravity being the smallest, and moving back restores the original values.',
 ['inputs','histories'],'all masses, centres, inertias, and pairs of reduction points',
 'Tests move the reduction point once along one axis.',
 [IN],[('RigidBodyInertia',IN)])
prop('C24','Closed-form inertias of elementary solids and shells are right',
 'For every dimension and density, the mass and the inertia returned by each elementary-shape function equal the exact integrals over the shape about its centre of gravity, taken as the origin, in the documented axes (the products of inertia of the right-angle wedge are left out).',
 ['inputs'],'all positive dimensions and densities',
 'Tests check a few shapes for one set of dimensions.',
 [IN],[('right_circular_cylinder, hollow_sphere, ... functions',IN)])
prop('C25','Command line options perform the documented transformation',
 'Each transformation option of the command line changes the written mesh exactly as documented (units in metres and degrees, axis, sign, factor, planes given by key, index or four numbers), whatever the order in which options are given they apply in a fixed order (concatenation, merging, mirror, symmetry, healing, translations, rotations, scalings, flipping, triangulation, clipping, inertia, hydrostatics), an option that is not given has no effect, and options that carry a value into the hydrostatics or inertia computation (density, gravity, displacement, centre of gravity, length between perpendiculars, medium, thickness) reach it unchanged, the mesh being written in its equilibrium position; a lid adds to the mesh the faces gmsh makes of each polygon asked, in the plane z=0 and with the mesh size given (the mean edge length by default), and a polygon that is not one (odd number of coordinates, fewer than three points) is refused.',
 ['inputs','configurations'],'every transformation option with arbitrary real values, pairs of options, arbitrary vertices',
 'No test runs the command line.',
 [CLI],[('main',CLI)])
prop('C26','Concatenating meshes keeps every face of both',
 'Adding two meshes gives a mesh whose faces are those of the first followed by those of the second at the same coordinates and orientation, coincident vertices being shared, and neither operand is modified.',
 ['inputs'],'all vertex coordinates of two small meshes including coincident vertices',
 'Not covered by tests beyond counts.',
 [MESH],[('Mesh.__add__',MESH)])
prop('C27','Density table lookups',
 'Looking up a medium by any letter case of a listed name gives its density, the listed names are exactly those that can be looked up, and an unknown name is refused with an error naming it.',
 ['inputs'],'all listed names in every letter case, unknown names',
 'Not tested.',
 [DE],[('get_density, list_medium',DE)])
prop('C28','Written files respect the definition of their format',
 'A file written in any text format (mar, nem, pnl, nat, hst, tec, gdf, diodore-dat, obj, vtk, stl) follows the definition of that format as the target program reads it, independently of the readers of this package: the announced counts are those of the lines that follow, node numbers start where the format says and refer to nodes of the file, every section is closed, no symmetry is declared that would double a mesh written whole, triangles and quadrangles are written in the form the format has for them (repeated node, count or kind, split in two for STL), STL facets carry the unit normal of their vertices, and the geometry so read is that of the mesh to the precision of the format.',
 ['inputs'],'every mesh and every format',
 'A round trip through the own reader cannot see a convention that both sides ignore; the tests read what was written.',
 [IO],[('write_MAR, write_NEM, write_NAT, write_PNL, write_HST, write_TEC, write_GDF, write_DAT, write_OBJ, write_VTK, write_STL',IO)])
prop('C29','The viewer is handed exactly the mesh',
 'Mesh.show and the --show option hand to the viewer one surface whose polygons are exactly the faces of the mesh as it is at that moment (after the transformations asked), each once, with the coordinates and the orientation of the mesh, triangles as three corners and quadrangles as four; showing does not modify the mesh.',
 ['inputs','configurations'],'all meshes, all vertex coordinates, with and without transformations before',
 'Needs a display; no test.',
 [MESH,CLI],[('Mesh.show, Mesh._vtk_polydata',MESH),('main --show',CLI)])
prop('C30','Sizes and counts of a mesh are those of its geometry',
 'The shortest, longest and mean edge lengths are those of the edges of the faces (three of a triangle, four of a quadrangle), the axis-aligned bounding box is the smallest that contains all vertices, the squared one is the smallest cube with the same centre, and the numbers and lists of faces, vertices, triangles and quadrangles are those of the faces whatever the order in which they are asked and after the mesh changed.',
 ['inputs'],'all vertex coordinates, all mixes of triangles and quadrangles, every order of the queries',
 'Tests look at one mesh made of few kinds of faces.',
 [MESH],[('Mesh._edges_stats, min/max/mean_edge_length',MESH),('Mesh.axis_aligned_bbox, squared_axis_aligned_bbox',MESH),('Mesh.nb_triangles, nb_quadrangles, triangles_ids, is_triangle',MESH)])
prop('C31','Reports print the computed values in the announced units',
 'The hydrostatic report, the printed inertia of a mesh (plain or shell), the summary of a mesh (--info), the description of a plane and the list of media show, under each label, the value of that quantity in the unit written beside it (tonnes for kilograms, degrees for radians, limits as minimum and maximum), with its sign and to the digits printed.',
 ['inputs'],'every value of every quantity within the printed ranges',
 'No test reads a report; a wrong factor, a swapped pair or a missing sign in one of about fifty lines is invisible to tests of the computed values.',
 [HS,IN,MESH,CLI],[('get_hydrostatic_report',HS),('RigidBodyInertia.__str__',IN),('Mesh.__str__',MESH),('main --plain-inertia, --list-medium, --info',CLI)])
prop('C32','Extracting faces gives those faces and nothing else',
 'Extracting a selection of faces gives a mesh with exactly these faces in the order asked, with the same corners and orientation, no unused vertex, vertices shared as in the source, the returned index being the old number of each new vertex; the source is not modified and the result is independent of it.',
 ['inputs'],'all vertex coordinates, every selection',
 'Tests extract one selection of one mesh.',
 [MESH],[('Mesh.extract_faces',MESH)])
prop('C33','Files read through the VTK library keep the geometry',
 'Reading a legacy VTK, Wavefront OBJ, STL or VRML 2.0 file, however it was written (points per line, groups, notation of the numbers, several shapes, shapes placed by a transform), gives the vertices and the faces the file describes, each once, at their places and with their orientation; a VRML file of another version is refused.',
 ['inputs'],'all coordinates, layouts of the file, numbers of shapes','Tests read one file of each format, written by this package, and no VRML file of several shapes.',
 [IO],[('load_VTK, load_OBJ, load_STL, load_WRL, _dump_vtk',IO)])
prop('C36','Invalid requests are refused and leave no file behind',
 'A command line that names a plane by an unknown key, by the index of a plane that was not defined, or by a number of values that defines no plane, gives the wrong number of values or a word where a number is due, names an unknown medium, asks for hydrostatics without the height of the centre of gravity, names a missing file to concatenate or an unknown option, stops with an error and creates no file (neither mesh nor report).',
 ['inputs','configurations'],'all key, index, medium and file names within the stated lengths; all values of the numbers given',
 'Tests only run commands that succeed; a request silently taken for another one (a default plane, the last of a list) writes a wrong mesh without notice.',
 [CLI],[('main',CLI),('medium_density',CLI)],['exit of the command','files written'])
prop('C37','A file cut short is never taken for a smaller mesh',
 'Loading a mesh file that was cut short (an interrupted copy or a full disk), in a format that announces its sizes or closes its sections (mar, nat, nem, gdf, pnl, tec, msh, and inside a section of hst and DAT), either fails with an error or delivers the whole mesh of the complete file; it neither delivers missing, incomplete or displaced nodes or faces nor runs for ever.',
 ['crash points','inputs'],'every cut between two words of the file, all coordinates and node numbers within the stated ranges, for files with few nodes and faces',
 'No test loads a damaged file; a reader that stops early at the end of the file returns a plausible but wrong mesh, whose volume and hydrostatics are then wrong without notice.',
 [IO],[('load_MAR, load_NAT, load_NEM, load_GDF, load_PNL, load_TEC, load_MSH22, load_MSH41, load_HST, load_DAT',IO)],['arrays returned or error raised by load_mesh'])
prop('C38','Computing and querying leave what they are given unchanged',
 'Every query of a mesh (areas, normals, neighbours, boundaries, bounding boxes, edge lengths, integrals, inertias, text), its extraction, copy, addition and clipping, the hydrostatics and the solvers of equilibrium leave the mesh they are given as it was: same vertices, same faces, same answers afterwards, as a new mesh of the same arrays gives. The arrays and planes handed over (vectors and matrices to a transformation, centre of gravity, points, rows to merge, clipping or symmetry plane) are left unchanged too.',
 ['inputs','histories'],'all dimensions, positions, draughts, centres of gravity and planes in the stated ranges, on boxes and wedges with triangles and quadrangles',
 'Tests look at what a function returns, not at what it did to its arguments; a script that sweeps a solver over one mesh, is silently wrong if a call changes it.',
 [MESH,HS,CL,RO,TO],[('Mesh, MeshClipper, compute_hydrostatics, displacement_equilibrium, full_equilibrium, Plane, rotations, tools',MESH)],['arrays given, public attributes of the mesh and of the plane after the call'])
prop('C39','Separate objects and successive calls do not influence each other',
 'Meshes, planes, inertias and clippers made from the same arrays, copied or extracted from one another, added, clipped or made by default are independent: an operation on one leaves every other one, and the arrays they were made of, as they were, and modifying those arrays afterwards changes no object. Results do not depend on what was done before in the same process: the clipping plane by default is always z = 0, the hydrostatics of a hull are the same whenever they are computed and whatever happened to earlier results, a file read twice gives the same mesh twice, a command gives what it gives when run alone.',
 ['histories','inputs'],'every pair of objects and every operation of the list, all dimensions, positions and draughts in the stated ranges; two successive calls',
 'Tests start from new objects each; shared arrays, mutable defaults and module-level state only show when one object is modified between two uses of another.',
 [MESH,HS,CL,IN,IO,CLI],[('Mesh, Plane, MeshClipper.__init__, RigidBodyInertia, compute_hydrostatics, load_mesh, cli.main',MESH)],['public attributes of the objects before and after an operation on another one'])
prop('C40','The Hydrostatics class describes the hull at its position, through every change',
 'For a hull afloat, the Hydrostatics object gives at any moment, without being asked to update, the quantities of its hull at its present position and of its present mass (in tons), density, gravity, centre of gravity and external forces: displaced volume and mass, centre of buoyancy, waterplane area and centre, submerged and waterline extents, draught, metacentric radii and heights and stiffness about the axes through the origin, inertias of the immersed volume about its centre, weight, buoyancy, and the residual of vertical force and horizontal moments; is_at_equilibrium is true exactly when each residual, relative to the weight (times breadth or waterline length), is within the tolerance; a mass is refused exactly when heavier than the water the closed hull holds; the report shows these values under their labels. set_displacement translates the hull, its centre of gravity and its forces vertically by what it returns, and displaces the mass asked within the tolerance when it stops before its last iteration. equilibrate applies to the centre of gravity and forces the motions of the hull, each correction being the solution of the linear problem limited by the relaxations, puts the centre of gravity back above the origin, and answers 1 (stable) or 2 (unstable) only at equilibrium, with the stability the object then reports, wherever the hull lies in plan. reset puts back the hull and the centre of gravity given. The mesh and arrays given are never modified.',
 ['inputs','histories'],'all dimensions and positions of the hulls of the list, all densities, gravities, centres of gravity, masses, tolerances and forces in the stated ranges; histories of three changes and a reset; displacements reached within a few corrections; one full correction with any of the listed rotations',
 'No test imports this class.',
 ['meshmagick/hydrostatics_old.py',CL,MESH],[('Hydrostatics, Force','meshmagick/hydrostatics_old.py')],['public properties and methods of Hydrostatics and Force'])
prop('C34','Computed quantities survive floating-point rounding',
 'The geometric and hydrostatic quantities computed in double precision differ from the exact ones by no more than a small multiple of the rounding of the inputs.',
 ['inputs'],'all meshes','Tests compare a few meshes with tolerances.',
 [MESH,HS],[('Mesh properties',MESH),('compute_hydrostatics',HS)])
prop('C35','The viewer and the quality report show what VTK computes',
 'What the interactive window draws, its key bindings and screenshots, and the figures of the --quality report are those of the mesh.',
 ['inputs'],'all meshes','Needs a display; no test.',['meshmagick/MMviewer.py',MESH],[('MMViewer','meshmagick/MMviewer.py'),('Mesh.print_quality',MESH)])
if __name__ == '__main__':
    with open(os.path.join(HERE,'..','properties.jsonl'),'w') as f:
        for p in P:
            assert len(p['title'])<=80, p['id']
            f.write(json.dumps(p)+'\n')
    print(len(P),'properties')
