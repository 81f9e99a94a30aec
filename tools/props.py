P("C01", "Homogeneous transforms are rigid and act like their formulas",
  "Every rotation the toolkit builds about a coordinate axis is a rigid motion with the stated angle, and every translation moves points by exactly the given offset while leaving directions alone. Opposite angles and opposite offsets undo each other, and any product of these transforms preserves lengths and angles and keeps the homogeneous coordinate intact.",
  I, "for every batch size, angle, offset and point, and every product of transforms",
  "The tests compare a handful of matrices with stored numbers; rigidity and inversion are statements about all angles and all batch sizes.",
  ["artist/geometry/transforms.py"],
  [("rotation matrices about east, north, up", "artist/geometry/transforms.py: rotate_e, rotate_n, rotate_u, rotate_distortions"), ("translation matrix", "artist/geometry/transforms.py: translate_enu")])
P("C02", "Facet canting and uncanting are mutually inverse rigid alignments",
  "Applying the canting of a facet turns flat facet points and normals into that facet's own canted frame by a rotation that depends only on its canting vectors, maps the facet's flat axes onto its canting directions, and preserves lengths and angles. Undoing the canting gives back the original points and normals exactly, for every facet independently.",
  I, "for every number of heliostats, facets and points, all non-degenerate orthogonal canting vectors",
  "The tests use one measured heliostat; the inverse and frame properties quantify over every canting geometry.",
  ["artist/geometry/transforms.py", "artist/field/surface.py"],
  [("canting rotation and its inverse", "artist/geometry/transforms.py: transform_points_to_canted, perform_canting, undo_canting")])
P("C03", "Coordinate conversions implement their geometric definition",
  "Converting points or directions to homogeneous form appends one or zero and changes nothing else, solar angles become vectors of the requested length pointing from south through west, and geographic coordinates become offsets along the meridian and parallel arcs of the reference ellipsoid plus the altitude difference. Bitmap pixel coordinates map to the pixel-centre point on the addressed planar or cylindrical target surface, target centre look-ups return the target's centre (front point for cylinders), and normalised surface points stay strictly inside the unit interval with order and proportion preserved.",
  IC, "for every number of points, pixel position, bitmap size, and mixture of planar and cylindrical targets",
  "The tests check single reference values; the conversions must hold for all inputs and all mixes of target types.",
  ["artist/geometry/coordinates.py", "artist/field/solar_tower.py"],
  [("homogeneous conversion", "artist/geometry/coordinates.py: convert_3d_points_to_4d_format, convert_3d_directions_to_4d_format"),
   ("solar angles", "artist/geometry/coordinates.py: azimuth_elevation_to_enu"), ("geographic", "artist/geometry/coordinates.py: convert_wgs84_coordinates_to_local_enu"),
   ("pixel to world", "artist/geometry/coordinates.py: bitmap_coordinates_to_target_coordinates"), ("target centres", "artist/field/solar_tower.py: get_centers_of_target_areas")])
P("C04", "Direction decomposition gives a rotation that really aligns the directions",
  "Splitting the change from an initial direction to target directions into a rotation vector gives a rotation about an axis perpendicular to both that takes the initial direction onto each target direction through the smaller angle. The axis-angle form does the same for a single pair: parallel directions give a zero angle and opposite directions give a half turn about a perpendicular unit axis.",
  I, "for every number of directions and every pair of non-zero vectors, including parallel and opposite ones where they are supported",
  "The tests use a few axis-aligned pairs; the alignment law quantifies over all pairs of directions.",
  ["artist/geometry/rotations.py"],
  [("rotation vector between directions", "artist/geometry/rotations.py: decompose_rotations"), ("axis and angle", "artist/geometry/rotations.py: rotation_angle_and_axis")])
P("C05", "Heliostat orientations follow the documented joint chain",
  "The orientation computed for given motor positions equals the documented chain: heliostat position, first joint translation and tilts, rotation by the first joint angle, second joint translation and tilts, rotation by the second joint angle, and concentrator translation and tilt, for every heliostat by itself. The result is always a rigid motion, and an undisturbed mirror at rest faces south from its position.",
  I, "for every number of heliostats and every position, joint angle, translation and tilt deviation",
  "The tests compare a few stored orientation matrices; the chain and its rigidity are statements about all parameters.",
  ["artist/field/kinematics_rigid_body.py", "artist/geometry/transforms.py"],
  [("joint chain", "artist/field/kinematics_rigid_body.py: _compute_orientations_from_motor_positions, motor_positions_to_orientations"), ("rotation and translation building blocks", "artist/geometry/transforms.py")])
P("C06", "Aiming turns the mirror so that it bisects sun and aim point",
  "The motor positions computed for a required mirror normal reproduce exactly that normal when fed through the forward chain, whenever the joints can reach it. Aligning from an incident ray direction and an aim point makes the mirror normal bisect the direction towards the sun and the direction from the mirror to the aim point.",
  I, "for every number of heliostats, normals, incident directions, aim points and joint tilts within the mechanical reach",
  "The tests compare a few stored results; inverse-after-forward identity and the bisector law must hold for every geometry.",
  ["artist/field/kinematics_rigid_body.py", "artist/field/actuators_ideal.py"],
  [("inverse kinematics", "artist/field/kinematics_rigid_body.py: _compute_motor_positions_from_normal, incident_ray_directions_to_orientations"), ("ideal actuators", "artist/field/actuators_ideal.py")])
P("C07", "Motor positions and joint angles convert consistently both ways",
  "For every actuator, converting a motor position to a joint angle and back returns the motor position, and larger motor positions turn the joint strictly further in the actuator's turning direction. Linear actuators obey the law of cosines for their offset, pivot radius and stroke, and the rest position has the stated initial angle; ideal actuators pass positions through unchanged.",
  IC, "for every number of heliostats, actuator geometry, turning direction and motor position in the mechanical range",
  "The tests evaluate single positions of one actuator geometry; inverse and monotonicity laws quantify over all of them.",
  ["artist/field/actuators_linear.py", "artist/field/actuators_ideal.py"],
  [("linear actuators", "artist/field/actuators_linear.py: motor_positions_to_angles, angles_to_motor_positions"), ("ideal actuators", "artist/field/actuators_ideal.py")])
P("C08", "Activation and alignment keep every heliostat's data together",
  "Activating heliostats with a mask repeats all data of every heliostat (surface, kinematic, actuator parameters, aim points) exactly as often as its mask entry says, in order, independent of earlier activations, so that entry k of every active array belongs to the same heliostat. Aligning then moves each active surface's points and normals by that active heliostat's own orientation and refuses to run when the requested heliostats were not activated.",
  ["inputs", "configurations", "histories"], "for every number of heliostats, every multiplicity mask, actuator type, and sequence of activations",
  "The tests activate a fixed mask over four heliostats; the correspondence between arrays must hold for every mask and history.",
  ["artist/field/heliostat_group.py", "artist/field/heliostat_group_rigid_body.py", "artist/field/kinematics_rigid_body.py", "artist/field/actuators.py"],
  [("activation", "artist/field/heliostat_group.py: activate_heliostats"), ("alignment", "artist/field/heliostat_group_rigid_body.py: align_surfaces_with_incident_ray_directions, align_surfaces_with_motor_positions")],
  [("active_* arrays", "per-heliostat data repeated by mask multiplicity"), ("active_heliostats_mask", "how often each heliostat is active")])
P("C09", "Reflection and scattering keep the physics of a ray",
  "A reflected ray has the length of its incident ray, lies in the plane of incident ray and normal, and leaves under the angle of incidence on the other side; reflecting twice at the same surface restores the ray. Scattered rays keep unit length, deviate from the ideal reflected direction exactly by the drawn distortion rotation, get the stated magnitude, and belong to the surface point they start from.",
  I, "for every number of heliostats, rays and surface points and every direction, normal and distortion angle",
  "The tests check a few directions; the reflection law is a statement about all vectors.",
  ["artist/raytracing/geometry.py", "artist/raytracing/heliostat_ray_tracer.py", "artist/scene/rays.py"],
  [("reflection", "artist/raytracing/geometry.py: reflect"), ("scattering", "artist/raytracing/heliostat_ray_tracer.py: scatter_rays"), ("rays", "artist/scene/rays.py")])
P("C10", "Rays hit planar targets exactly where geometry says",
  "For every ray and its own target area, the reported hit lies on the ray and in the target plane, the distance is the true path length, and bitmap coordinates are the hit's position relative to the target's edges in pixels. Rays that run parallel to or away from the plane or arrive from behind contribute no intensity, and rays that hit keep their magnitude.",
  IC, "for every number of heliostats, rays, points and targets, every ray, plane orientation and bitmap resolution",
  "The tests compare a few stored intersections; on-plane, on-ray and sign conditions quantify over all rays and planes.",
  ["artist/raytracing/geometry.py", "artist/field/tower_target_areas_planar.py"],
  [("ray-plane intersection", "artist/raytracing/geometry.py: line_plane_intersections")])
P("C11", "Rays hit cylindrical targets exactly where geometry says",
  "For every ray and its own cylindrical target, the reported hit is the nearest forward point of the ray on the cylinder's lateral surface, the distance is the true path length, and bitmap coordinates are the hit's angle and height relative to the target's opening angle and height. Rays that miss the cylinder, start beyond it, or strike outside its height or opening angle contribute no intensity.",
  IC, "for every number of heliostats, rays, points and targets, every ray, cylinder position, axis, radius, height, opening angle and resolution",
  "The tests use one cylinder with default orientation; the geometry must be right for every placement of the receiver.",
  ["artist/raytracing/geometry.py", "artist/field/tower_target_areas_cylindrical.py"],
  [("ray-cylinder intersection", "artist/raytracing/geometry.py: line_cylinder_intersections")])
P("C12", "Flux bitmaps conserve the energy of the rays",
  "Every hit whose surrounding pixels lie in the bitmap is shared between its four neighbouring pixels in proportion to its distance, so a bitmap is never negative and its total equals the total intensity of those hits, for every bitmap size. The bitmap of a target is exactly the sum of the bitmaps of the heliostats aimed at it, and every heliostat is counted for one target only.",
  IC, "for every number of heliostats, rays and points, every hit position and intensity, every bitmap width and height, and every assignment of heliostats to targets",
  "The tests compare rendered images of square bitmaps with stored ones; conservation is a statement about all hits and bitmap shapes.",
  ["artist/raytracing/heliostat_ray_tracer.py"],
  [("bilinear splatting", "artist/raytracing/heliostat_ray_tracer.py: HeliostatRayTracer.bilinear_splatting"), ("per-target bitmaps", "artist/raytracing/heliostat_ray_tracer.py: HeliostatRayTracer.get_bitmaps_per_target")])

P("C13", "Distributed work is a partition of all work",
  "For every number of ranks, every sample (heliostat and ray repetition) is handed to exactly one rank, exactly once, and nothing else is handed out, so the ranks' results add up to the undistributed result. Every heliostat group is assigned to at least one rank, no rank idles while there are enough groups, and the load of ranks and groups is even.",
  IC, "for every number of samples, active heliostats, ranks and groups",
  "The tests enumerate a handful of world sizes; the partition must hold for every combination.",
  ["artist/raytracing/sampling.py", "artist/util/env.py"],
  [("restricted sampler", "artist/raytracing/sampling.py: RestrictedDistributedSampler"), ("group assignment", "artist/util/env.py: distribute_groups_among_ranks")])

P("C14", "Every surface point lies in the knot span that is used for it",
  "Knot vectors of NURBS surfaces are clamped (first and last knot repeated degree plus one times), evenly spaced in between and identical for all facets. The span found for an evaluation point brackets it between two successive knots and always has degree plus one control points, for uniform and for arbitrary sorted knots, and the end of the knots belongs to the last span.",
  IC, "for every number of surfaces, facets, control points and evaluation points in [0, 1), and every sorted knot vector (degrees 1 to 5 uniform, 3 general)",
  "The tests compare one list of spans for one knot vector.",
  ["artist/nurbs/surfaces.py"],
  [("knot vectors", "artist/nurbs/surfaces.py: NURBSSurfaces.calculate_uniform_knot_vectors"), ("knot spans", "artist/nurbs/surfaces.py: NURBSSurfaces.find_spans")])
P("C15", "NURBS basis functions are the B-spline basis and its derivative",
  "The basis functions computed for a point equal the Cox-de Boor recursion over its knots: they are never negative, sum to one, and are zero outside their support. The derivatives equal the derivative of that recursion and sum to zero.",
  IC, "for every number of surfaces, facets and points, every sorted knot vector and every point in its span (degrees 1 to 3)",
  "The tests fit one smooth surface and look at the final error; identities in knots and parameters quantify over all of them.",
  ["artist/nurbs/surfaces.py"],
  [("basis functions", "artist/nurbs/surfaces.py: NURBSSurfaces.basis_functions_and_derivatives")])

P("C16", "Surface points and normals are those of the NURBS surface",
  "Every surface point is the sum of the control points around it weighted with the basis functions, so it stays within their range, and its unit normal is perpendicular to both surface tangents and points to their right-handed side. Points are homogeneous points and normals homogeneous directions; canting turns the facet and its normals alike and the facet position only moves the points.",
  IC, "for every number of surfaces, facets, control points and evaluation points, all control points, basis values and canting vectors (degrees 1 and 2)",
  "The tests compare one fitted surface; the surface equation is a statement about all control points and parameters.",
  ["artist/nurbs/surfaces.py"],
  [("surface evaluation", "artist/nurbs/surfaces.py: NURBSSurfaces.calculate_surface_points_and_normals")])
P("C17", "Facets are sampled evenly and ideal facets are flat and of the right size",
  "Evaluation points form an even grid strictly inside each facet, in a fixed order. Planar control points lie on a flat even grid as wide and high as the facet's canting vectors state. Updating surfaces replaces the points and normals of every heliostat by those of its own control points, canting and facet positions, facet after facet.",
  IC, "for every number of groups (two), heliostats, facets, control points and evaluation points",
  "The tests check shapes and single examples of square grids.",
  ["artist/nurbs/utils.py", "artist/field/heliostat_field.py"],
  [("evaluation grid", "artist/nurbs/utils.py: create_nurbs_evaluation_grid"), ("planar facets", "artist/nurbs/utils.py: create_planar_nurbs_control_points"), ("surface update", "artist/field/heliostat_field.py: HeliostatField.update_surfaces")])
P("C18", "Flux metrics describe the bitmap they are given",
  "The centre of mass of a bitmap is its intensity-weighted mean pixel, always lies on the bitmap, and is the origin for empty bitmaps. A crop is the bitmap resampled around its own centre of mass with the stated size relative to the dimensions of its own target area, planar or cylindrical. Trapezoid distributions are one on the plateau, fall evenly to zero and are symmetric.",
  IC, "for every number of bitmaps, every bitmap width and height, all intensities, targets and crop sizes",
  "The tests use single Gaussian spots; the definitions must hold for every bitmap shape and target.",
  ["artist/flux/bitmap.py"],
  [("centre of mass", "artist/flux/bitmap.py: get_center_of_mass"), ("crop", "artist/flux/bitmap.py: crop_flux_distributions_around_center"), ("trapezoid", "artist/flux/bitmap.py: trapezoid_distribution")])
P("C19", "Losses measure what they are named after, sample by sample",
  "Every loss of a sample depends on that sample alone, is never negative, and is zero for a perfect prediction: the squared difference of vectors, the squared error of a bitmap relative to its own total, the divergence between the normalised bitmaps, the distance of the two focal spots on the sample's own target. The angle loss is the angle and the cosine loss one minus the cosine between prediction and truth. Reducing losses per heliostat uses only the samples of that heliostat.",
  IC, "for every number of samples, heliostats and samples per heliostat, every bitmap size, all predictions and truths (bitmaps not negative, directions not zero)",
  "The tests compare single stored loss values; non-negativity, zero at the truth and independence of samples quantify over all inputs.",
  ["artist/optim/loss.py"],
  [("vector loss", "artist/optim/loss.py: VectorLoss"), ("bitmap losses", "artist/optim/loss.py: PixelLoss, KLDivergenceLoss"), ("focal spots", "artist/optim/loss.py: FocalSpotLoss"),
   ("directions", "artist/optim/loss.py: AngleLoss, CosineSimilarityLoss"), ("per heliostat", "artist/optim/loss.py: reduce_loss_per_sample")])
P("C20", "Surface reconstruction penalises and locks exactly what it states",
  "The penalties of a reconstructed surface depend on its displacement from the original surface only: the mean squared displacement, and the squared difference between each control point's displacement and those of its neighbours. They are never negative, zero for the original surface (the roughness also for facets that move as a whole) and keep heliostats apart. Outer control points move in height only, and lost intensity is penalised per heliostat and only beyond the tolerance.",
  IC, "for every number of heliostats, facets and control points and every displacement",
  "The tests compare two stored penalty values; the definitions must hold for every control net.",
  ["artist/optim/regularizers.py", "artist/optim/surface_reconstructor.py"],
  [("outer control points", "artist/optim/surface_reconstructor.py: SurfaceReconstructor.lock_control_points_on_outer_edges"), ("intensity", "artist/optim/surface_reconstructor.py: SurfaceReconstructor._compute_flux_integral_constraint"), ("ideal surface", "artist/optim/regularizers.py: IdealSurfaceRegularizer"), ("smoothness", "artist/optim/regularizers.py: SmoothnessRegularizer")])
P("C21", "Training data is split cleanly and training stops when it should",
  "Splitting measurements puts every sample of every heliostat either into training or into testing, together with all of its data, in order and with matching masks. Early stopping looks at exactly the last losses of its window, and stops exactly when the stated number of consecutive windows brought no more than the minimal improvement.",
  ["inputs", "configurations", "histories"], "for every number of heliostats and samples per heliostat, every test fraction, every sequence of losses, window length and patience",
  "The tests run a few epochs and single splits; these are statements about every loss history and every mask.",
  ["artist/optim/training.py"],
  [("split", "artist/optim/training.py: train_test_split"), ("early stopping", "artist/optim/training.py: EarlyStopping")],
  [("loss_history", "the last losses, at most as many as the window is long"), ("counter", "consecutive windows without improvement")])
