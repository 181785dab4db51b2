prop("C26", "The same world always moves in the same way",
     "What happens in a world depends only on the operations made on it: doing the same operations again gives the same positions, velocities, contacts and bounds, bit for bit. Neither the addresses or former contents of memory, other worlds, the thread, queries in between, nor what the world held before it was cleared have any influence.",
     ["histories", "schedules"], "All sequences of creations, removals, kills, pushes, joints, fields, settings and steps; layouts of memory; former lives of the world; pairs of threads.",
     "Unit tests run each scene once.",
     ["src/Simu/physics/World.cpp", P + "World.hpp", P + "RTree.hpp", "include/Simu/utility/FreeListAllocator.hpp"],
     [("World::step, clear", "src/Simu/physics/World.cpp"), ("World::forEachIn, forEachAt", P + "World.hpp"), ("Profiler", P + "Profiler.hpp")],
     "Metamorphic: replays of generated histories compared bit by bit.")
prop("C27", "The camera shows what its center, zoom and dimensions say",
     "The camera maps the rectangle around its center, of its view dimensions divided by its zoom, to the square from -1 to 1 without turning it, and its two transforms undo each other. Setting a zoom, a pixel size or dimensions that are not positive changes nothing; dimensions set from pixels are pixels times the size of a pixel; panning moves the center by exactly what is asked.",
     ["histories", "inputs"], "All sequences of zooms, pans, dimensions and pixel sizes, valid or not, and all points.",
     "There are no tests of the camera.",
     [A + "Camera.hpp", "src/Simu/app/Camera.cpp"],
     [("Camera::transform, invTransform", A + "Camera.hpp"), ("setZoom, setDimensions, setDimensionsFromScreenCoordinates, pan", A + "Camera.hpp")],
     "Model-based stateful testing with a camera in double precision.")
prop("C28", "The renderer covers exactly the shapes it was asked to draw",
     "What is drawn in a frame covers exactly the polygons, triangles, lines, points and contours that were asked for: each point of the plane is covered once by each shape that contains it and by no other, in the color of the shape and in the order of the calls, through the camera of the frame. Lines have the width and points the radius that were set, contours are a band of the width of lines around the border; any number of shapes can be drawn, and no object of OpenGL outlives the renderer.",
     ["inputs", "histories"], "All frames of shapes with any number of vertices, widths, precisions, colors and cameras; all points of the plane.",
     "There are no tests of the renderer.",
     [A + "Renderer.hpp", "src/Simu/app/Renderer.cpp"],
     [("Renderer::drawPolygon, drawLine, drawPoint, drawContouredPolygon", "src/Simu/app/Renderer.cpp"), ("OpenGlRenderer::flush, drawTriangles", "src/Simu/app/Renderer.cpp")],
     "Differential against point in shape tests, with a stand-in for OpenGL that keeps the triangles.")
prop("C29", "An application shows its scene and gives it what the user does",
     "Each frame steps the shown scene once, by the time since the last frame (at most 1/60 s) times its play speed or nothing while it is paused, draws every visible body, contact and constraint where it is, and lets no other scene move. Keys, buttons and modifiers have the values of GLFW. Keys, clicks, moves and scrolls reach the tool and then the scene exactly once, unless the interface captures them or the tool uses them, at the point of the scene that is under the cursor; the documented keys and widgets do what they say, and a scene that is reset or shown again starts empty. The grabber holds one body under the mouse until the button is released, the box spawner makes the box its options describe, and neither is disturbed by bodies that die or scenes that are reset.",
     ["histories"], "All sequences of frames, events, captures, widgets, resizes, tools, kills and resets over one or two scenes.",
     "There are no tests of the application.",
     ["src/Simu/app/Application.cpp", "src/Simu/app/Scene.cpp", "src/Simu/app/Tool.cpp", A + "Scene.hpp", A + "Tool.hpp", A + "VisiblePhysics.hpp"],
     [("Application::run, doGui, callbacks", "src/Simu/app/Application.cpp"), ("Scene::step, onKeypress, onMouseScroll", A + "Scene.hpp"), ("Grabber, BoxSpawner", "src/Simu/app/Tool.cpp")],
     "Model-based stateful testing with stand-ins for GLFW, ImGui and OpenGL, under AddressSanitizer.")
prop("C30", "Solvers solve the constraints of any constraint function",
     "Whatever constraint function a user writes, of one or several components, its solver changes the velocities of the two bodies by impulses along its gradient only, such that after each iteration the relation, with its bias, damping and restitution, holds as far as the bounds on the accumulated impulse allow: equalities hold, inequalities only push, limits act only beyond a limit, toward it. Warm starting applies the impulse of the last step again. Position correction follows the gradient at the current positions until the value of the function reaches its target, changes no velocity, and does nothing between limits. A composition of functions acts on each component as the function it belongs to, at its place.",
     ["inputs", "histories"], "All linear and curved functions of up to 3 components (compositions up to 5), masses (none for structural bodies), velocities, bounds, limits, dampings, restitutions, steps and pushes by others.",
     "Unit tests solve joints of the library only.",
     [P + "ConstraintSolver.hpp", P + "ConstraintFunction.hpp", P + "Constraint.hpp", P + "Bodies.inl.hpp"],
     [("EqualitySolver, InequalitySolver, LimitsSolver", P + "ConstraintSolver.hpp"), ("ConstraintFunctions", P + "ConstraintFunction.hpp"), ("Proxies", P + "Bodies.inl.hpp")],
     "Optimality conditions in double precision over generated functions and histories.")
prop("C31", "Piles, pyramids, pendulums and chains of many bodies hold together",
     "Many bodies at once behave like what they stand for, for hundreds of steps: a pile thrown into a closed container stays in it, gains no energy beyond what corrections of positions lift, and its bodies end up overlapping by little more than the allowed penetration when their masses are alike; a pyramid of boxes with friction stands where it was built; pendulums keep the length of their strings, and neither they nor chains hinged to one or two fixed bodies gain energy; the hinges of a chain stay closed.",
     ["inputs", "histories"], "All piles of up to 12 convex bodies, pyramids of up to 8 rows, pendulums of up to 5 balls and chains of up to 8 links, with any sizes, densities, friction and pushes of moderate size, at 60 steps per second and default settings.",
     "Unit tests run three fixed stacks; joints together with contacts of many bodies are only seen in demos.",
     ["src/Simu/physics/World.cpp", P + "Island.hpp", P + "Constraint.hpp", P + "ConstraintSolver.hpp"],
     [("World::step", "src/Simu/physics/World.cpp"), ("Island", P + "Island.hpp"), ("ContactConstraint", P + "Constraint.hpp")],
     "Invariants (energy, containment, overlap, lengths) in double precision over generated scenes.")
prop("C32", "What makes no sense is refused and changes nothing",
     "What the library cannot simulate is refused with an exception, and only that: constraints between structural bodies only, a distance constraint without limits, with a limit that is not positive or limits that exclude each other, limits that exclude each other given to a limits solver at once or later, a collider without surface or of a density that is not positive, a polygon of less than three vertices, a constraint on one or three bodies. After a refusal, or when an object throws while it is constructed, the world and its bodies, colliders, masses and constraints are as they were, and the following steps go on as if nothing had been tried.",
     ["inputs", "histories"], "All histories of valid operations and refused attempts on worlds of bodies that move, touch or are constrained.",
     "Unit tests check that the assertion macro throws, not what is asserted nor what is left after it.",
     [P + "ConstraintInterfaces.hpp", P + "World.hpp", P + "Bodies.inl.hpp", P + "DistanceConstraint.hpp", P + "Collider.hpp", M + "Polygon.inl.hpp"],
     [("Constraint constructor", P + "ConstraintInterfaces.hpp"), ("World::makeConstraint, makeBody", P + "World.hpp"), ("MassProperties", P + "Collider.hpp")],
     "Twin worlds, one of which hears nothing of the refused attempts, and snapshots around each attempt, under AddressSanitizer.")
prop("C01", "Intervals and bounding boxes behave as sets",
     "Intervals and bounding boxes behave as the sets of numbers and points they stand for: overlap, containment, intersection, union, center and area queries agree with the bounds for any values, including touching, empty, reversed, infinite and degenerate ones. A bounding box built from points, from a shape or by combining boxes is the smallest one that contains them all, and one built from no points at all is not valid and overlaps nothing.",
     ["inputs"], "All intervals and boxes over finite and infinite floats (touching, reversed, degenerate, huge) and all lists of points.",
     "Unit tests check a handful of small integral intervals and boxes; rounding, overflow and empty inputs are never sampled.",
     [M + "Interval.hpp", P + "BoundingBox.hpp", "src/Simu/physics/BoundingBox.cpp"],
     [("Interval::overlaps/contains", M + "Interval.hpp"), ("BoundingBox constructors, combined, overlaps", P + "BoundingBox.hpp")],
     "Exact comparison with set semantics over generated intervals and boxes, including extremes; sampling, not proof.")
prop("C02", "Matrix and vector algebra is element-wise exact",
     "Matrix and vector operations (arithmetic, comparisons, products, transposes, conversions, assembly from rows and columns, dot, cross, perpendicular, norms, projection, normalisation, min, max and rounding helpers) give the values of their mathematical definition, for every size and element type. Indexing reads and writes exactly the designated element, and element-wise in-place operations agree with their out-of-place versions.",
     ["inputs"], "All matrices of sizes 1 to 4 and element types int, float and double over generated values.",
     "Unit tests check a few fixed 2x2 and 3x3 matrices.",
     [M + "Matrix.hpp", M + "Matrix.inl.hpp"],
     [("Matrix operators", M + "Matrix.inl.hpp"), ("Vector operations", M + "Matrix.inl.hpp")],
     "Every operation against scalar loops written from its definition; exact for integers, tolerance for floats.")
prop("C03", "Linear solvers solve every regular system",
     "For every well-conditioned square matrix and right-hand side, the linear solvers return a solution whose residual is at rounding level, inverses multiply back to the identity, and determinants are correct. A solver built from a singular matrix says that it is not valid, and a solver gives back the matrix it was built from.",
     ["inputs"], "All regular matrices (condition number up to about 30) of sizes 2 to 6, plus singular ones.",
     "Unit tests solve a few fixed small systems; pivoting paths and scales are not sampled.",
     [M + "Matrix.inl.hpp"],
     [("Solver, solve, invert", M + "Matrix.inl.hpp")],
     "Residuals and references in double precision over generated conditioned matrices.")
prop("C04", "Complementarity solvers return the solution of the problem",
     "For every 2x2 linear complementarity problem with a positive matrix, the solution x is non-negative, Ax - b is non-negative and one of the two is zero in each component, up to rounding, including for singular and almost singular matrices of positive entries, which have a solution. The iterative solver of inequalities with a projection onto bounds always terminates, with a point inside the bounds that satisfies the optimality conditions in each component.",
     ["inputs"], "All P-matrices of size 2, positive matrices of rank one, exactly or up to rounding, and symmetric positive definite matrices of sizes 2, 3 and 5, any right-hand side (including on the boundary between cases), bounds and initial guess.",
     "Unit tests check a few fixed problems; boundary cases decided by rounding are never sampled.",
     [M + "Matrix.inl.hpp"],
     [("LcpSolver::solve", M + "Matrix.inl.hpp"), ("solveInequalities", M + "Matrix.inl.hpp")],
     "Enumeration in double precision and optimality conditions over generated problems.")
prop("C05", "Rotations, translations and transforms compose as rigid maps",
     "Multiplying any mix of rotations, translations and transforms, in any order and length, gives the map that applies them one after the other; it preserves distances and orientation, and its matrix form maps every point to the same place. Inverses undo a map on both sides, identities change nothing, in-place modification agrees with the parts that were set, and a transform around an origin moves that origin by exactly the offset.",
     ["inputs", "programs"], "All chains of operations over rotations, translations and transforms with generated angles and offsets.",
     "No unit test multiplies transforms in mixed orders; they are only exercised indirectly by scenes.",
     [P + "Transform.hpp"],
     [("operator* overloads, inverse, transformAround", P + "Transform.hpp")],
     "Differential against rigid maps in double precision.")
prop("C06", "Barycentric coordinates give the closest point",
     "For every segment or triangle (any winding) and every query point, the reported closest point is the point of the segment or triangle that is nearest to the query, and no query raises an error. Segment coordinates add up to one and weigh the end points to give the closest point; triangle coordinates are the signed areas opposite to the vertices and add up to the area of the triangle.",
     ["inputs"], "All segments and non-thin triangles with query points on vertices, on the lines of edges, inside and outside.",
     "Unit tests check one triangle with one point per region; points that sit on region boundaries up to rounding are not sampled.",
     [M + "BarycentricCoordinates.hpp", "src/Simu/math/BarycentricCoordinates.cpp"],
     [("LineBarycentric", M + "BarycentricCoordinates.hpp"), ("TriangleBarycentric", "src/Simu/math/BarycentricCoordinates.cpp")],
     "Differential against closest points in double precision.")
prop("C07", "Polygons have the right area, centroid, moment, edges and order",
     "For every simple polygon (convex, concave or with an attached hole; either orientation; any first vertex), the area, centroid and moment of area are those of the region it bounds; a polygon keeps the input vertices in order up to a reversal that makes them positively oriented, and fewer than three vertices are refused. Walking its edges visits each one once in order with outward normals, next and previous are inverses of each other around the whole loop, and side tests, distances, clipping, support vertices and orientation tests follow their geometric definitions.",
     ["inputs"], "All simple polygons of 3 to 10 vertices, convex, star-shaped or with a hole, of either orientation.",
     "Unit tests check a few boxes and triangles with integral coordinates.",
     [M + "Polygon.hpp", M + "Polygon.inl.hpp", M + "Geometry.hpp", M + "Geometry.inl.hpp", "src/Simu/math/Geometry.cpp", M + "Edges.hpp"],
     [("GeometricProperties", M + "Geometry.inl.hpp"), ("Polygon constructor", M + "Polygon.inl.hpp"), ("Edges iterators", M + "Edges.hpp")],
     "Differential against another decomposition in double precision, plus structural invariants of the edge walk.")
prop("C08", "Collision detection answers exactly when convex hulls intersect",
     "Two shapes are reported as colliding when their convex hulls overlap and as not colliding when they are apart, for every pair of polygons, relative position and initial search direction, up to rounding at the touching position. The answer does not depend on the order of the two shapes, on the order of their vertices or on the container that holds them.",
     ["inputs"], "All pairs of polygons (convex or concave) of 3 to 16 vertices, positions and initial search directions.",
     "Unit tests check a few fixed pairs; rounding-dependent simplices are not sampled.",
     [M + "Gjk.hpp", M + "Gjk.inl.hpp"],
     [("Gjk constructor", M + "Gjk.inl.hpp"), ("Simplex::nextDirection, containsOrigin", M + "Gjk.inl.hpp")],
     "Differential against the Minkowski difference hull in double precision.")
prop("C09", "Separation and penetration are minimum translation vectors",
     "The separation vector of two shapes that are apart and the penetration vector of two shapes that collide have the length of the smallest translation that makes them touch, and translating by it as documented makes them touch. The separation is null for colliding shapes and the penetration is null for shapes that are apart.",
     ["inputs"], "All pairs of polygons (convex or concave) of 3 to 16 vertices, positions and initial search directions, away from the touching position.",
     "Unit tests check a few fixed pairs.",
     [M + "Gjk.hpp", M + "Gjk.inl.hpp"],
     [("Gjk::separation", M + "Gjk.inl.hpp"), ("Gjk::penetration, Polytope::addVertex", M + "Gjk.inl.hpp")],
     "Differential against the Minkowski difference hull in double precision.")
prop("C11", "The spatial tree answers every query like a plain list",
     "After any sequence of insertions, moves, removals, clears, copies, moves of the tree and swaps of its allocator, iterating visits each stored element exactly once, and point and region queries visit exactly the elements whose bounds overlap the query, with no leak and no access to freed memory. Removing an element, including during an iteration, does not disturb the others: handles to them stay valid and the returned iterator continues with the elements not yet visited.",
     ["histories"], "All sequences of operations over boxes (overlapping, identical, degenerate, huge).",
     "Unit tests run a few fixed sequences; rebalancing and removal orders are sampled once.",
     [P + "RTree.hpp", P + "RTree.inl.hpp"],
     [("insert, extract, refit, rotations", P + "RTree.hpp"), ("forEachIn, forEachAt, iterators", P + "RTree.hpp")],
     "Model-based stateful testing with a counting allocator and sanitizers.")
prop("C12", "Updating the tree reports every overlapping pair exactly once",
     "Updating the tree with new bounds leaves every element with the bounds it was given, reports each pair of elements whose bounds overlap exactly once and no other pair, and leaves later queries and iterations correct, for every arrangement and movement of the elements.",
     ["inputs", "histories"], "All sets of boxes with generated movements between updates.",
     "Unit tests check one fixed arrangement.",
     [P + "RTree.hpp"],
     [("updateAndCollide", P + "RTree.hpp")],
     "Differential against comparing all pairs.")
prop("C10", "Contacts of overlapping bodies describe the penetration",
     "For every pair of convex bodies that overlap by more than the tolerated penetration, their contact has one or two contact points on the boundary of each body, and a unit normal that points from the second body towards the first. The deepest pair of points is as far apart along the normal as the smallest translation that separates the bodies; bodies that are clearly apart have no contact points.",
     ["inputs"], "All pairs of convex polygons of 3 to 8 vertices at any angle, gap or overlap.",
     "Unit tests check a few fixed boxes at rest; steep and vertex contacts are not sampled.",
     [P + "ContactManifold.hpp", P + "Constraint.hpp"],
     [("ContactManifold::update, computeContacts", P + "ContactManifold.hpp"), ("ContactConstraint::contactInfo", P + "Constraint.hpp")],
     "Differential against separating axes in double precision.")
prop("C13", "The block allocator and owning pointers manage memory correctly",
     "Blocks handed out by the free list allocator are aligned, inside its storage, never overlap a live one, are reused once freed, and are all returned to the system when the last copy of the allocator goes away; containers that use it behave like their standard counterparts when copied, moved, swapped or given another allocator. Owning pointers destroy every object exactly once and return its memory to the allocator, also for derived objects, arrays and objects whose constructor fails.",
     ["histories"], "All sequences of allocations, deallocations, copies and container operations over types of several sizes and alignments.",
     "Unit tests allocate a few objects in one fixed order.",
     [U + "Memory.hpp"],
     [("FreeListAllocator::allocate/deallocate", U + "Memory.hpp"), ("UniquePtr, makeUnique", U + "Memory.hpp"), ("ReplaceAllocator", U + "Memory.hpp")],
     "Model of the free space and counting of objects under AddressSanitizer.")
prop("C14", "Views, partitions, random numbers and profiler statistics keep their contracts",
     "Views iterate over exactly the objects of the range they were given, in order. Partitioning a range by a condition is a permutation that puts every element that satisfies it before the others and returns the boundary. Random numbers stay inside the requested bounds and reach all integers of a small range. Clamping and squaring follow their definition. Timers and time entries count each measure once, with last, average and maximum consistent with the measured durations, also when a timer is moved or measures are committed in parts. The profiler of a world has one measure of each phase (tree, narrow phase, islands, velocities, positions) for each step of a positive duration, that contains the time spent in that phase and no other, and the height of its tree.",
     ["inputs", "histories"], "All ranges, conditions, bounds and sequences of measures.",
     "Unit tests only touch a few of these helpers with fixed values.",
     [U + "View.hpp", U + "Algo.hpp", M + "Random.hpp", P + "Profiler.hpp"],
     [("booleanSort", U + "Algo.hpp"), ("View iterators", U + "View.hpp"), ("TimeEntry, ScopedTimer", P + "Profiler.hpp")],
     "Definitions checked over generated ranges, bounds and measures.")
prop("C15", "Material properties combine by their modes",
     "Combining the bounciness, friction or penetration of two materials gives the average, minimum, product or maximum of their values, according to the mode of higher priority of the two (average, then minimum, then multiply, then maximum), and does not depend on the order of the materials. A collider keeps the material it was described with, and its mass is its density times its area. Without a description a material has a density of 1, no bounciness or friction, a penetration of 0.005, combined by average.",
     ["inputs"], "All pairs of modes and values.",
     "Unit tests check a few pairs of values.",
     [P + "CombinableProperty.hpp", P + "Material.hpp", P + "Collider.hpp"],
     [("CombinableProperty", P + "CombinableProperty.hpp"), ("Collider constructor", P + "Collider.hpp")],
     "Definitions checked over generated pairs.")
prop("C16", "Bodies have the mass, center and motion of their colliders",
     "After any sequence of adding and removing colliders, moving and turning, the mass, center of mass and moment of inertia of a body are those of the union of its colliders as rigidly attached pieces, and converting points between local and world space agrees with the world geometry and bounds of its colliders and is its own inverse. Impulses and forces applied at a point change the linear and angular velocity by the amounts of rigid body mechanics, and a collider that is refused leaves no trace. Changing the colliders of a moving body keeps the velocity of its points.",
     ["histories"], "All sequences of operations on bodies with several convex colliders of generated shapes and densities.",
     "Unit tests check a few fixed bodies.",
     [P + "Body.hpp", "src/Simu/physics/Body.cpp", P + "Collider.hpp"],
     [("Body::onColliderAdd/onColliderRemove", "src/Simu/physics/Body.cpp"), ("Colliders", P + "Collider.hpp"), ("applyForce, applyImpulse, toWorldSpace", P + "Body.hpp")],
     "Differential against rigid bodies in double precision after each operation.")
prop("C17", "Spatial queries of a world find exactly the bodies there",
     "At any point of the life of a world, querying a point or a region visits exactly the bodies that have a collider whose bounds contain the point or overlap the region, whatever bodies and colliders were added, removed, moved or killed before. A query at a point or in a region where there is no body visits none. Steps of a world full of overlapping bodies never raise an error.",
     ["histories"], "All sequences of body and collider creation and removal, kills, clears and steps.",
     "Unit tests query a few fixed worlds.",
     [P + "World.hpp", "src/Simu/physics/World.cpp", P + "BodyTree.hpp", P + "RTree.hpp"],
     [("forEachIn, forEachAt", P + "World.hpp"), ("World::updateColliders", "src/Simu/physics/World.cpp")],
     "Model-based stateful testing under AddressSanitizer, with the bounds recomputed from the geometry.")
prop("C18", "A world keeps exactly one contact per pair of overlapping colliders",
     "After every step, there is exactly one contact for each pair of colliders of different bodies whose bounds overlap, unless both bodies are structural or a constraint between them disables contacts, and no other contact. A contact stays the same object for as long as its pair overlaps. At any time the contacts of the bodies are those of the world, and contacts that were ended, killed or replaced by another contact factory are never reached again.",
     ["histories"], "All sequences of body, collider and constraint creation and removal, kills, steps, clears and changes of contact factory.",
     "Unit tests follow one pair of bodies that meet once.",
     ["src/Simu/physics/World.cpp", P + "World.hpp"],
     [("World::updateBodies, World::removeCollider", "src/Simu/physics/World.cpp"), ("Body::contacts", P + "Body.hpp"), ("setContactFactory", P + "World.hpp")],
     "Model-based stateful testing under AddressSanitizer.")
prop("C19", "Objects of a world live and die in a defined way",
     "Objects are visited by a world from their construction until the first step after they died, however they died (killed, by their own condition, or because an object they depend on died); constraints and contacts die with their bodies. Each object receives onConstruction once, onDestruction once in the step that removes it and before any object of that step is freed, onKill once, and preStep and postStep once in each step it lives through. Hooks may make and kill other objects.",
     ["histories"], "All sequences of creations, kills, dependencies and steps, with hooks that create and kill.",
     "Unit tests kill single objects outside of hooks.",
     ["src/Simu/physics/World.cpp", P + "PhysicsObject.hpp", P + "World.hpp"],
     [("World::cleanup, step", "src/Simu/physics/World.cpp"), ("PhysicsObject", P + "PhysicsObject.hpp")],
     "Model-based stateful testing with objects whose hooks record and act, under AddressSanitizer.")
prop("C20", "Each active constraint is solved with its bodies as often as the settings ask",
     "In each step every active constraint is initialised once, warmstarted once if enabled, and solved for velocities and positions as many times as the settings ask, all constraints of connected bodies going through each phase and iteration together; inactive ones are not solved. The impulses and corrections it applies change its two bodies by their inverse masses scaled by its dominances, and no other body. Connected bodies are grouped in one island, structural bodies do not connect others, and each constraint belongs to exactly one island. Going through the bodies of a constraint visits each of them once, also when there is only one.",
     ["histories"], "All graphs of bodies and constraints with contacts, dominances, activations and settings.",
     "Unit tests build a few fixed islands.",
     [P + "Island.hpp", "src/Simu/physics/World.cpp", P + "Bodies.hpp"],
     [("Island::init", P + "Island.hpp"), ("solveIslands", P + "Island.hpp"), ("Proxies::applyImpulse", P + "Bodies.hpp")],
     "Differential against graph search and rigid body updates, with constraints that record their calls.")

prop("C21", "Bodies that touch nothing move as forces and impulses ask",
     "A body that nothing touches moves as a rigid body: its velocity is its old one plus what gravity, force fields, forces and impulses give to its mass and inertia, wherever they are applied, and its center of mass and orientation advance by velocity times time. Force fields act once per step on every collider of non-structural bodies in their domain, with each collider's mass and centroid, and on nothing else. However long it turns, its colliders stay rigid, at the place that its position and orientation say.",
     ["histories"], "All sequences of impulses, forces, fields (everywhere or in a region), changes of colliders and steps.",
     "Unit tests push one body for a few steps.",
     ["src/Simu/physics/World.cpp", P + "ForceField.hpp", P + "Body.hpp", P + "Collider.hpp"],
     [("World::applyForces, updateBodies", "src/Simu/physics/World.cpp"), ("Gravity, LinearField, domains", P + "ForceField.hpp"), ("Body::applyImpulse", P + "Body.hpp")],
     "Model-based stateful testing with rigid body motion in double precision; rigidity over up to 3000 steps.")
prop("C22", "Contacts and joints exchange momentum, and never move structural bodies",
     "Joints and contacts conserve the momentum of the bodies they connect (with masses scaled by dominance), and their angular momentum when their points coincide. Without friction, bounce and warm starting they never increase the kinetic energy of bodies on fixed supports. No step changes the velocity of a structural body, nor of a body that nothing touches, and velocities stay finite.",
     ["histories"], "All worlds of touching, overlapping and joined bodies of any masses and dominances, with any settings.",
     "Unit tests check the final positions of a few bodies.",
     [P + "Constraint.hpp", P + "ConstraintSolver.hpp", P + "Bodies.inl.hpp", P + "Island.hpp", M + "Matrix.inl.hpp"],
     [("ContactConstraint::solveVelocities", P + "Constraint.hpp"), ("EqualitySolver, LimitsSolver", P + "ConstraintSolver.hpp"), ("Proxies::applyImpulse", P + "Bodies.inl.hpp"), ("LcpSolver", M + "Matrix.inl.hpp")],
     "Invariants over generated histories: momentum, angular momentum, energy, immobility.")
prop("C23", "Contacts stop, bounce, rub and support as materials say",
     "Two bodies that touch never end a step approaching at their contact points: with the smallest pushing impulses along the normal, approaches slower than 1 m/s are stopped and faster ones bounce back at the combined bounciness times their speed. Friction is along the surface, opposes sliding, and is at most the combined coefficient times the normal impulse, so that boxes stay on slopes flatter than their friction and slide with the expected acceleration on steeper ones. Bodies that overlap are pushed apart, in proportion to their masses, until little overlap is left, without being thrown, and things dropped on a floor or stacked come to rest on it.",
     ["histories"], "All pairs of convex bodies, directions, velocities, materials, dominances and settings; stacks of up to 3 boxes.",
     "Unit tests drop a few boxes.",
     [P + "Constraint.hpp", P + "ContactManifold.hpp", P + "Material.hpp", M + "Matrix.inl.hpp"],
     [("ContactConstraint", P + "Constraint.hpp"), ("ContactManifold", P + "ContactManifold.hpp"), ("LcpSolver", M + "Matrix.inl.hpp"), ("Material", P + "Material.hpp")],
     "Differential against the complementarity problem in double precision, Coulomb's law as an invariant, and closed forms for slopes and rest.")
prop("C24", "Joints hold, and act only as they say",
     "A joint changes the velocities of its two bodies by the smallest impulse (in their masses scaled by dominance) for which its relation holds: rotation keeps the relative angle, hinge keeps the shared point together, weld does both, distance keeps the distance of two points, and limits act only when the distance is beyond a limit and would worsen. Position correction brings the joint back without moving the common center of mass or a structural body, so that joints do not drift over steps.",
     ["histories"], "All pairs of bodies, anchors, limits, dominances, velocities, pushes and settings.",
     "Unit tests follow one hinge or weld for a few steps.",
     [P + "Constraint.hpp", P + "ConstraintFunction.hpp", P + "DistanceConstraint.hpp", P + "ConstraintSolver.hpp"],
     [("RotationConstraintFunction, HingeConstraintFunction, DistanceConstraintFunction", P + "ConstraintFunction.hpp"), ("LimitsSolver", P + "ConstraintSolver.hpp"), ("DistanceConstraint", P + "DistanceConstraint.hpp")],
     "Differential against the projection of velocities in double precision, over generated histories.")
prop("C25", "Motors push up to their velocity with bounded force, the mouse pulls a point",
     "A motor brings its body to its maximal velocity along its direction with, in each step, at most throttle times its maximal force or torque; it never brakes a body that is faster, nor acts against its direction, and does nothing without direction or throttle. Its force follows its specification (torque or force, acceleration of its body or of a target, force at a radius). A mouse constraint pulls the grabbed point toward the mouse as a damped spring of fixed softness, follows the mouse when it moves, never moves the body otherwise, and lets go when killed.",
     ["histories"], "All specifications, directions, throttles, bodies, velocities, settings and movements of the mouse.",
     "Unit tests do not cover the mouse, and run motors in one configuration.",
     [P + "Motors.hpp", "include/Simu/app/MouseConstraint.hpp", P + "ConstraintSolver.hpp"],
     [("MotorFunctionBase, RotationMotor, TranslationMotor", P + "Motors.hpp"), ("MouseConstraint", "include/Simu/app/MouseConstraint.hpp")],
     "Differential against closed forms in double precision, over generated histories.")
