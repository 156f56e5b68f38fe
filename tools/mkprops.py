import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['src/hypervehicle/'+f for f in files],mechanism=[dict(name=n,where='src/hypervehicle/'+w) for n,w in mech]))
    if state: d['anchors']['state']=state
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
V='geometry/vector.py';PA='geometry/path.py';S='geometry/surface.py';G='geometry/geometry.py'
CO='components/component.py';U='utilities.py';VE='vehicle.py'
p('P01','Vector arithmetic is exact, closed and side-effect free',
 "Adding, subtracting, negating, scaling, dividing, dotting and crossing 3-vectors gives the component-wise Euclidean result, the magnitude is the Euclidean norm, and normalising a non-zero vector gives a unit vector of the same direction. Two vectors compare equal exactly when all three components are equal, and operands that are not vectors are refused. Only the explicitly in-place operations change an operand, and they change only the vector they are applied to.",
 ['inputs','histories'],'all finite component values and scalars, including zeros, negative and mixed-sign values, and operands that are the same object',
 'Tests evaluate a handful of literals; sign, component-mixup and aliasing errors show only for particular component patterns.',
 [V],[('vector operators and products',V)])
p('P02','Changing to a local frame and back is the identity',
 "Expressing a vector in a right-handed orthonormal frame and mapping it back returns the original vector, with or without a frame origin, and in both directions. The local coordinates are the projections on the frame axes.",
 ['inputs'],'all vectors, all orthonormal frames (in particular frames not aligned with the coordinate axes) and all origins',
 'Tests only use axis-aligned frames in the x-y plane, where whole terms of the transformation vanish.',
 [V],[('local/global frame transformations',V)])
p('P03','Lines and Bezier curves follow their defining points',
 "A straight line is the affine interpolation of its two end points. A Bezier curve with any number of control points equals the Bernstein/de Casteljau combination of them: it starts at the first, ends at the last and stays inside every axis-aligned box that contains all control points for parameters between 0 and 1. Both keep their shape when the points they were built from are later modified, and a line's length is the distance between its end points.",
 ['inputs','histories'],'all control points, any number of control points from one up, all parameter values',
 'Unit tests sample a few curves of one degree; wrong blending for other degrees or parameters is invisible there.',
 [PA],[('Line',PA),('Bezier evaluation',PA)])
p('P04','Polylines and splines traverse their segments in order',
 "A polyline maps equal parameter shares to equal shares of total length: within the share of segment k it returns segment k evaluated at the matching local parameter, so it starts at the start of the first segment, ends at the end of the last, and its length is the sum of the segment lengths. A closed polyline returns to its starting point. A spline passes through all its points in order, without a jump in direction or curvature at its inner points.",
 ['inputs'],'any number of segments of any kind with positive lengths, closed or not, all parameters in [0, 1]',
 'The number of segments and their relative lengths are unbounded; tests look at one two-segment polyline.',
 [PA],[('Polyline break points and evaluation',PA),('Spline construction',PA)])
p('P05','Circular arcs stay on their circle and sweep uniformly',
 "Every point of a circular arc lies in the plane of its three defining points at the arc radius from the centre; the arc starts at the first point and ends at the second, sweeping the smaller angle at a uniform rate, and its length is radius times swept angle. Defining points at different distances from the centre, or collinear with it, are refused.",
 ['inputs'],'all non-degenerate point triples in arbitrary planes and all parameters',
 'Tests use an arc in the x-y plane, where out-of-plane terms vanish.',
 [PA,V],[('Arc evaluation',PA),('frame transformation',V)])
p('P06','Derived paths are faithful re-parameterisations or offsets',
 "A sub-ranged path is the underlying path traversed linearly between the two given parameters, a reversed path is the underlying path traversed backwards, an arc-length parameterised path visits the points of the underlying path in the same order from the same start to the same end with equal parameter shares covering equal shares of the sampled length, and offset and mean paths add the offset at, or average, the corresponding underlying points. The perimeter of a surface runs once around its four edges and closes. The sampled length of a path is never shorter than the distance between its end points.",
 ['inputs'],'all underlying paths, offset functions and parameters, in arbitrary nesting, and any number of length samples',
 'Behaviour depends on arbitrary user-supplied functions and nesting, so sampling particular paths cannot settle it.',
 [G,PA],[('sub-range, reversal, offset and mean paths',G),('arc-length parameterisation',PA),('perimeter path',G)])
p('P07','Leading and trailing edge surfaces meet the lines they blend',
 "An elliptical edge path stays on the ellipse given by its thickness and width and runs between the two semi-axis points of the requested side. Leading edge surfaces add such an ellipse, turned normal to the guiding line in plan view, to the line at the corresponding parameter, flat leading edges blend the two lines vertically, and trailing edge surfaces join the trailing edge line to the flap line displaced by the flap length at the flap angle. Unsupported sides are refused.",
 ['inputs'],'all positive thicknesses and widths, all guiding lines and thickness/width functions, all parameter pairs, both sides',
 'The surfaces take arbitrary functions; the tests only fix the meshes of a few shipped vehicles.',
 [G],[('ellipse path and leading edge surfaces',G),('trailing edge surfaces',G)])
p('P08','Coons patches reproduce the edges they are built from',
 "A patch built from four edges evaluates to exactly those edges on its boundary and to the bilinearly blended interpolation inside, and a patch built from four corners is the bilinear interpolation of the corners. Edges that do not meet at a corner are refused, adding or subtracting a vector returns a displaced copy and leaves the original alone, and later changes to the edges or corners passed in do not alter the patch.",
 ['inputs','histories'],'all edge paths and corners, all parameter pairs, sequences of displacements',
 'Holds for arbitrary edge functions; tests check one planar quadrilateral.',
 [S],[('Coons patch construction and evaluation',S)])
p('P09','Surface transformations act pointwise as the stated mapping',
 "Rotating a surface rotates each of its points rigidly about the given axis through the given point (right-hand rule, axis names case-insensitive), mirroring negates exactly the chosen coordinate, offsetting adds the offset evaluated at the point, and curving lifts the point from its height above the base plane to the same height along the local normal of the curvature function's graph. Nothing else about the surface changes: distances are preserved by rotation and mirroring, and mirroring twice restores the surface.",
 ['inputs'],'all underlying surfaces, angles, pivot points, axes, offset and curvature functions, all parameter pairs',
 'The transformations apply to arbitrary surfaces and functions; tests exercise a few fixed angles on whole vehicles.',
 [G],[('rotated, mirrored, offset and curved patches',G)])
p('P10','Revolved and conical surfaces keep radius and join up',
 "Revolving a curve about the x axis keeps each point's axial position and radius and turns it by an angle that varies linearly between the two limits; the four quarter surfaces of a revolved component join along common meridians and close. A conical surface interpolates linearly between its two end rings.",
 ['inputs'],'all generator curves, angle limits and parameter pairs',
 'Holds for arbitrary curves; tests compare meshes of a few bodies only.',
 [G,'components/revolved.py'],[('revolved and cone patches',G),('quarter surfaces','components/revolved.py')])
p('P11','Cube and sphere faces tile a closed outward-facing solid',
 "The six faces of a cube lie on the boundary of the cube of the given half-length and centre, the six faces of a sphere lie at exactly the radius from the centre, neighbouring faces share their common edge, and every face is oriented with its normal pointing away from the centre. Unknown face names are refused.",
 ['inputs'],'all sizes, centres, faces and parameter pairs',
 'There is no test of these solids; orientation and on-surface facts are universally quantified over parameters.',
 [G,'components/polygon.py'],[('cube and sphere faces',G)])
p('P12','Swept surfaces interpolate every given cross-section',
 "A surface swept through a sequence of edges returns edge k exactly at the k-th equally spaced sweep parameter and the linear blend of the two neighbouring edges in between; a surface swept through cross-section surfaces in order along the sweep axis does the same with their perimeters, placed by their positions on that axis, and refuses sections without any extent along it. A swept component refuses cross-sections with differing edge counts or open loops, its side surfaces share their seams, and its end caps reproduce the first and last cross-section.",
 ['inputs','configurations'],'any number of cross-sections and edges, all sweep parameters, closed or open ends',
 'The number of sections is unbounded and interval-search errors only show for particular parameters.',
 [G,'components/swept.py'],[('swept patches',G),('swept component validation and caps','components/swept.py')])
p('P13','Surface meshing tiles every cell with four conforming triangles',
 "Meshing a surface with m by n cells yields exactly 4mn triangles; for every cell they fan around the mean of the cell's four corner points in a consistent orientation, and every cell corner is the surface evaluated at the node parameters of that row and column. Node parameters run from 0 to 1 in the requested number of steps per direction, following the spacing exponent or clustering function of that direction, so neighbouring cells share nodes exactly; mirroring negates only the y coordinates.",
 ['inputs','configurations'],'all surfaces, all positive cell counts including m different from n, all clustering functions and spacings, all cells',
 'Only square meshes with default spacing are exercised by tests.',
 [U],[('surface to triangle conversion',U),('node distribution',U)])
p('P14','Clustering functions map the unit interval onto itself monotonically',
 "A clustering function returns 0 at 0 and 1 at 1 and is strictly increasing in between; without clustering (no end selected, or factor below one) it is the identity. Distributing n+1 points returns exactly that many increasing values that start at the first limit and end at the second, and clustering at one end is the mirror image of clustering at the other. With clustering, equal steps of the ordinate become strictly shorter towards the selected end, or towards the nearer end when both are selected.",
 ['inputs','configurations'],'all end selections, all stretching factors greater than one, all ordinates in [0, 1], any number of points',
 'The quantifier ranges over real stretching factors and ordinates; no test covers these functions.',
 [PA],[('Roberts clustering and point distribution',PA)])
p('P15','Component transformations reach every patch exactly once',
 "Rotating (degrees), translating (vector or function), curving, modifying or transforming a component replaces each of its patches by that patch mapped accordingly, exactly once per requested step and in the order given, without adding, dropping or renaming patches. Reflecting adds a mirrored copy of every patch under a new name, or replaces every patch by its mirror image when appending is switched off, and does nothing without an axis. The component's mesh afterwards always corresponds to the current patches.",
 ['inputs','histories','configurations'],'any number of patches, any sequence of transformations, with or without a mesh already generated',
 'The patch set and the step sequence are unbounded; tests see only final meshes of fixed vehicles.',
 [CO],[('patch transformations',CO),('mesh cache',CO)])
p('P16','A component mesh contains every patch at its own resolution',
 "Generating a component's mesh converts every patch once, at the component resolution, an explicitly requested one, or the patch's own resolutions in each direction when these were specified per edge, applying the component's clustering functions, and the component mesh is the concatenation of all patch meshes made last. Meshing without patches is refused.",
 ['inputs','configurations'],'any number of patches, all resolutions (scalar and per-edge, differing by direction), all clustering settings, with and without worker processes',
 'Tests use scalar resolutions only and compare whole vehicles.',
 [CO,'components/swept.py'],[('component meshing',CO),('per-edge resolutions','components/swept.py')])
p('P17','Vehicle generation applies the build steps in order to every component',
 "Generating a vehicle builds each component once and then applies its modifier, its curvatures, the vehicle angle offset, its reflection and its own transformations in this order, followed by the vehicle-wide transformations in the order they were added; generating again gives the same vehicle. Transforming a vehicle applies every given transformation, in order, to every component including ghosts and discards meshes made before, and is refused before generation.",
 ['inputs','histories','configurations'],'any number of components, any transformation lists, repeated generate/transform calls',
 'Order and repetition effects need histories tests do not run.',
 [VE,CO],[('generation pipeline',VE),('vehicle transformation',VE)])
p('P18','Component registration and STL export keep names and files consistent',
 "Each component added to a vehicle is registered once under its given name, its own name, or its type with a running number per type, with exactly the options passed for it and no effect on other components, and unknown component types are refused. Exporting writes exactly one STL file per non-ghost component, containing that component's mesh and named from prefix, component name, vehicle name and running number per type as documented, and merging uses exactly the files written; ghosts are never written but keep their place in the numbering.",
 ['inputs','histories','configurations'],'any number and mix of component types, names, prefixes and ghost flags',
 'Combinations of naming options, types and ghosts are unbounded.',
 [VE,CO],[('component registry',VE),('STL export',VE),('component export',CO)])
p('P19','Vehicle mass properties follow rigid-body composition',
 "The vehicle's volume, area and mass are the sums over its components (mass from the component's own density), the centre of gravity is the mass-weighted mean of the component centres, and the inertia matrix is the sum of the component matrices moved to the common centre of gravity by the parallel axis theorem. Per-component results are reported under the component's name, a vehicle that was not generated is generated first, and exporting an analysed vehicle also writes its results and user-defined properties to files.",
 ['inputs','configurations'],'any number of components and any component volumes, centres, inertia matrices and densities',
 'No test evaluates multi-component inertia; the law is quantified over arbitrary mass distributions.',
 [U,VE],[('inertial property assessment',U),('vehicle analysis',VE)])
p('P20','Sensitivities are finite differences of one parameter at a time',
 "For each design parameter the study compares the nominal vehicle with one in which only that parameter is increased by the given percentage, all others and the overrides being unchanged, and reports for every vertex of every component the coordinate differences divided by the change of that parameter, next to the nominal coordinates of the same vertex. The same quotient is reported for analysis results and user-defined properties, the caller's parameter dictionary is left unchanged, and generator parameters given by keyword override the defaults of that instance only.",
 ['inputs','configurations'],'any number of parameters and components, all non-zero nominal values and perturbations, arbitrary meshes',
 'No test runs a sensitivity study; row matching errors appear only with several parameters and components.',
 [U,'generator.py'],[('sensitivity study',U),('generator parameters','generator.py')])
p('P21','Sensitivity data is attached to the matching points in order',
 "Appending sensitivities to a triangulation writes, for every parameter and every point in file order, the sensitivity of the matching data point within the match tolerance, rounding tiny values to zero, and zeros where nothing matches. The returned fraction is the share of matched points, and the combined file lists the same values per point.",
 ['inputs'],'any number of points, parameters and data files, arbitrary match patterns',
 'Order and offset errors show only for particular combinations of unmatched points and several parameters.',
 [U],[('appending sensitivities',U)])
p('P22','Composite components contain every child patch',
 "A composite component consists of exactly the patches of its children, each child generated and then curved, reflected and transformed with the options it was added with, and patches of different children never replace each other. Component types that are not supported are refused.",
 ['inputs','configurations'],'any number and mix of children, any options',
 'Name collisions and option handling need combinations absent from the tests.',
 ['components/composite.py'],[('composite generation','components/composite.py')])
p('P23','Neighbouring wing patches share their boundary curves',
 "Adjacent surfaces of a generated wing (upper and lower planform, leading edge, trailing edge and its end cap) coincide along their common boundary curves, so the wing has no gaps. This holds for elliptical leading edges and arbitrary vertical thickness functions, given or automatic split parameters, and any flap length and angle. The interior surfaces of closed wings join the others in the same way where the thickness varies linearly.",
 ['inputs','configurations'],'all planform points, leading edge curves, thickness and width functions, split parameters and flap settings',
 'Gap-freeness is a statement about all points of the seams for arbitrary user functions.',
 ['components/wing.py',G],[('wing patch construction','components/wing.py')])
p('P24','Neighbouring fin patches share their boundary curves',
 "Adjacent surfaces of a generated fin (sides, leading edge, bottom face, and the flat or sharp trailing edge) coincide along their common boundary curves for uniform fin thickness, and pivot rotation, fin rotation and offset function are applied to every surface of the fin in this order.",
 ['inputs','configurations'],'all planform points, thicknesses, width functions, rudder settings, angles, pivot points and offset functions',
 'Gap-freeness is a statement about all points of the seams for arbitrary user functions.',
 ['components/fin.py',G],[('fin patch construction','components/fin.py')])
p('P25','Evaluating or copying geometry never changes it',
 "Evaluating a curve or surface leaves it and everything it is built from unchanged: evaluating again, or other parameters in between, gives the same points, and modifying a returned point does not alter the geometry. A deep copy of a component is independent of the original.",
 ['inputs','histories'],'all curve and surface kinds, all parameters and evaluation sequences',
 'Aliasing shows only for particular call sequences.',
 [PA,S,G,CO],[('curve and surface evaluation',PA),('surfaces',G),('component copies',CO)])
p('P26','Prepared shapes have the dimensions they are given',
 "The edges of a circular patch run around the circle of the given centre and radius, parallel to the x-y plane, and the patch is flat. The profile of an ogive nose runs without gaps from its tip on the axis to the axis at its base, as a cap of the nose radius and an ogive of the ogive radius that share their tangent where they meet, a body of the given length at the given height, and a closing base. A uniform thickness function moves every point by half the thickness to its side, and the standard leading edge width is positive and symmetric.",
 ['inputs'],'all centres, radii, heights (larger than the nose radius, smaller than the ogive radius), lengths, thicknesses and parameters',
 'The shapes are functions of continuous parameters and no test builds any of them.',
 ['components/common.py',PA],[('prepared shapes','components/common.py')])
p('P27','The mesh check accepts exactly the closed, consistently oriented meshes',
 "The mesh check of a component accepts its mesh exactly if, for the tests asked for, the area vectors of all triangles add up to zero and every edge of a triangle is met exactly once in the opposite direction by another triangle; it leaves the mesh unchanged. Repairing a mesh makes corners within the given distance of each other equal, moves no corner further than that distance, and keeps other corners apart.",
 ['inputs','configurations'],'all meshes, all combinations of the requested tests, all distances',
 'Meshes with a single missing, turned or doubled triangle are never tried.',
 [CO],[('mesh check and repair',CO)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,sch)
    except Exception as e:
        try: jsonschema.validate([x],sch)
        except Exception: print(x['id'],str(e)[:300])
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
