"""Writes /verif/properties.jsonl (kept as code so that the entries stay uniform)."""
import json, pathlib

S = "src/mpllayout/"
P = []


def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


add("C01", "Solving a consistent layout yields geometry satisfying every constraint",
    "For every layout whose constraints can be satisfied together, the default solver returns geometry in which every "
    "stated relation (fixed positions, lengths, distances, margins, boxes, alignments, grids, axis and label placement) "
    "holds to solver tolerance when measured directly on the returned coordinates. "
    "This holds from any starting geometry when all relations are linear in the coordinates, and from any start near a "
    "solution when some are not.",
    ["inputs", "configurations"],
    "all sets of primitives, all consistent constraint sets over them, all parameter values and starting coordinates (near a solution if nonlinear)",
    "test_solve solves one 4-constraint quadrilateral and asserts nothing about the result; no test looks at solved coordinates.",
    ["solver.py", "layout.py", "constraints.py", "constructions.py", "primitives.py"],
    [("solve / solve_newton: lstsq Newton iteration", "solver.py"), ("assem_constraint_residual", "solver.py"),
     ("build_prim_from_unique_values", "primitives.py")],
    [("global_param_n", "concatenated parameter vectors of all unique primitives", "solver.py")],
    ["primitive tree returned by solve"])

add("C02", "Solving preserves structure and sharing, and never alters its input",
    "The tree returned by either solver method has exactly the primitives of the layout: same keys in the same order, same "
    "primitive types, same parameter sizes, and points shared between edges of a polygon or between several lines are still one point. "
    "The layout passed in is left unchanged, primitives that no constraint touches keep their coordinates, and solving the same "
    "layout again gives the same result.",
    ["inputs", "histories"],
    "all layouts (nested primitives, shared points, unconstrained primitives), both methods, repeated solves",
    "No test inspects the tree returned by solve or the layout after it.",
    ["solver.py", "primitives.py", "containers.py"],
    [("filter_unique_values_from_prim / build_prim_from_unique_values", "primitives.py"),
     ("flatten / unflatten", "containers.py"), ("minimum-norm lstsq step", "solver.py")],
    (), ["returned tree, layout.root_prim before and after"])

add("C03", "The solver's error report is truthful and its limits are honoured",
    "The reported absolute errors are the 2-norms of the constraint residual vector at successive iterates (starting, for Newton, from "
    "the initial geometry), and the relative errors are these divided by the first. "
    "Iteration never exceeds the maximum iteration count and stops at the first iterate whose absolute or relative error meets its "
    "tolerance, and for the minimisation method the last reported error is that of the returned geometry; an unknown method name is rejected with a ValueError.",
    ["inputs", "configurations"],
    "all layouts, both methods, all tolerance and iteration-limit settings",
    "Tests only print the solver info for one layout.",
    ["solver.py"],
    [("abs_errs / rel_errs bookkeeping and while condition", "solver.py"), ("MinHistory.callback", "solver.py")],
    [("abs_errs, rel_errs", "per-iteration error history", "solver.py")],
    ["second return value of solve, compared with separately evaluated residuals"])

add("C04", "Solutions do not depend on declaration order, names or repeated statements",
    "Declaring the same constraints in another order, stating some of them twice, giving constraints explicit names, or renaming and reordering "
    "primitives does not change the solved coordinates (to solver tolerance). "
    "Geometry that already satisfies its constraints is returned unmoved, so solving a solved layout changes nothing; "
    "and translating the whole start geometry of a layout with only relative constraints translates the solution by the same amount.",
    ["inputs", "histories"],
    "all consistent layouts, permutations of add_prim/add_constraint calls, duplicated constraints, renamings, translations",
    "Tests never solve two variants of one layout.",
    ["solver.py", "layout.py", "containers.py"],
    [("flat_constraints alignment", "layout.py"), ("minimum-norm lstsq step", "solver.py")],
    (), ["solved coordinates of variants of one layout"])

add("C05", "The minimisation method solves well-posed layouts like Newton does",
    "For every well-posed consistent layout, the minimisation method never returns geometry with a larger constraint residual than the "
    "start, and given enough iterations and tight tolerances it reaches geometry satisfying the same relations as the default method "
    "to the accuracy of that optimiser. "
    "It treats primitives, sharing and constraint parameters exactly as the default method does.",
    ["inputs", "configurations"],
    "all well-posed layouts of modest size and their starting coordinates",
    "test_solve runs the method on one layout and asserts nothing.",
    ["solver.py"],
    [("solve_minimize: sum of squared residuals, L-BFGS-B", "solver.py")],
    (), ["tree returned by solve(method='minimize')"])

add("C06", "Point and line measurements equal their Euclidean definitions",
    "For all points and non-degenerate lines, in every quadrant and at every orientation and scale, the measured coordinate, directed/x/y "
    "distance, line vector, unit vector, length, directed/x/y length, midpoint, midpoint distances, signed angle, distance along a line, "
    "orthogonal distance to a line and relative distance along a line equal their documented Euclidean definitions. "
    "Orientation conventions hold: distances run from the first primitive to the second, angles are counter-clockwise from first to second line "
    "within (-pi, pi], orthogonal distance is positive to the left of the line, and the reverse flag swaps the end or side measured from.",
    ["inputs"],
    "all coordinates, directions and reverse flags",
    "Tests draw one sample from the positive unit square with angles in (0, 1); signs, quadrants and reverse cases for constructions are not covered.",
    ["constructions.py"],
    [("Coordinate ... RelativePointOnLineDistance .assem", "constructions.py")],
    (), ["value returned by calling the construction"])

add("C07", "Quadrilateral measurements equal their definitions for every side",
    "For all quadrilaterals, width is the x-extent of the bottom edge, height the y-extent of the right edge, and aspect ratio the bottom length over "
    "the right-side length. "
    "For each side, the inner margin is the gap from a side of the first quadrilateral outward to the same side of the second, and the outer "
    "margin the gap from a side of the first outward to the facing side of the second, measured between side midpoints and positive when the gap is open; an unknown side or dimension is rejected.",
    ["inputs", "configurations"],
    "all quadrilaterals (boxes and general), all four sides, inner/outer",
    "Tests sample one pair of unit-square boxes per side and never use skewed or negative-coordinate quadrilaterals.",
    ["constructions.py"],
    [("RectangleDim, AspectRatio, Margin", "constructions.py")],
    (), ["value returned by calling the construction"])

add("C08", "Point and line constraints vanish exactly when their relation holds",
    "For every point/line constraint (fix, distances, lengths, relative length, coincident, vertical, horizontal, parallel, orthogonal, collinear, "
    "coincident lines, angle, midpoint distance, point on/to line) the residual is zero on geometry that satisfies the relation and non-zero on geometry that "
    "violates it. "
    "A constraint with a target value has the residual 'measured value minus target'.",
    ["inputs"],
    "all geometry, satisfying or violating, and all target values and flags",
    "Tests check only that the residual is zero for one satisfying sample; a residual that is always zero would pass.",
    ["constraints.py", "constructions.py"],
    [("Fix ... CoincidentLines, RelativePointOnLineDistance", "constraints.py"), ("transform_constraint", "constructions.py")],
    (), ["residual returned by calling the constraint"])

add("C09", "Quadrilateral constraints vanish exactly when their relation holds",
    "For every quadrilateral constraint (box, width, height, aspect ratio, inner/outer margin for each side, row/column alignment, outward-facing sides "
    "coincident for each side) the residual is zero on geometry that satisfies the relation and non-zero on geometry that violates it in any one of "
    "its parts. "
    "A margin or size constraint has the residual 'measured value minus target'.",
    ["inputs", "configurations"],
    "all quadrilaterals and pairs of quadrilaterals, sides, and single-part violations",
    "Tests check only zero residuals on one satisfying sample per constraint.",
    ["constraints.py", "constructions.py"],
    [("Box, Width, Height, AspectRatio, OuterMargin, InnerMargin, Align, CoincidentOutwardFaces", "constraints.py")],
    (), ["residual returned by calling the constraint"])

add("C10", "Grid constraints describe a grid of any shape",
    "For every number of rows and columns, the rectilinear grid constraint vanishes exactly when all rows and all columns are aligned, and the dimensioned "
    "grid constraint vanishes exactly when in addition column widths and row heights have the given ratios to the left-most column and "
    "top-most row and the gaps between neighbouring columns (left to right) and rows (top to bottom) are the given margins; quadrilaterals are taken in row-major order from the top left. "
    "The margin array constraint does the same for consecutive quadrilaterals on any side.",
    ["inputs", "configurations"],
    "all grid shapes, sizes, margins, and displacements of any single cell",
    "Tests cover shapes up to 2x2 with constant parameters and never a violating grid; swapped parameters or indices for larger shapes go unnoticed.",
    ["constraints.py", "constructions.py"],
    [("RectilinearGrid, Grid, OuterMarginArray, idx_1d", "constraints.py"), ("transform_map", "constructions.py")],
    (), ["residual returned by calling the constraint"])

add("C11", "Axes constraints place axes and labels on the stated side and position",
    "The axis position constraint vanishes exactly when the x or y axis box abuts the stated side of the frame over the full side, and with a twin "
    "exactly when the twin axis also abuts the opposite side. "
    "The label position constraint vanishes exactly when the (primary or twin) label anchor is at the stated fraction of the frame's width (from the left) or "
    "height (from the bottom), and its residual is that fraction minus the target.",
    ["inputs", "configurations"],
    "all frames, axis boxes, labels, sides, twin settings and fractions",
    "Tests use axes-aligned samples at the origin with zero residuals only; y twins are not tested.",
    ["constraints.py"],
    [("PositionAxis, PositionAxisLabel, CoincidentOutwardFaces", "constraints.py")],
    (), ["residual returned by calling the constraint"])

add("C12", "Construction arithmetic is pointwise arithmetic on measured values",
    "For any constructions, including compound and already combined ones, the value of a sum, negation, scalar multiple, quotient or power (with a constant scalar "
    "or a scalar taken as an extra trailing parameter) equals the same arithmetic on the operands' values, with primitives and parameters of the operands consumed in order. "
    "The result accepts exactly the operands' primitives and parameters and declares the same output sizes.",
    ["inputs", "programs"],
    "all expressions over constructions and scalars, all primitives and parameters",
    "Tests combine a single Coordinate construction with one scalar; compound operands, nesting and operand order are not covered.",
    ["constructions.py"],
    [("transform_sum, transform_scalar_mul/div/pow, operator overloads", "constructions.py"), ("concatenate_*", "constructions.py")],
    (), ["value of evaluated expression vs value computed from operands"])

add("C13", "Turning any construction into a constraint subtracts the target value",
    "For every construction of any tree shape, the derived constraint called with the construction's primitives and parameters followed by a target returns "
    "'measured value minus target', elementwise in the order of the measured value; so it is zero when the target is the construction's own value. "
    "A scalar target of any real numeric type applies to every element, and the vector construction returns exactly the vector it is given.",
    ["inputs", "programs"],
    "all constructions (leaf, compound, nested, mapped, combined), primitives, parameters and target vectors or scalars",
    "Tests use one leaf and one single-child construction with value equal to the measurement.",
    ["constructions.py", "containers.py"],
    [("transform_constraint, Vector, chunk", "constructions.py"), ("accumulate", "containers.py")],
    (), ["residual of derived constraint"])

add("C14", "Mapping and partial application evaluate the underlying construction",
    "Mapping a construction over N primitives returns, in order, its values on each mapped primitive with the trailing primitives held fixed for "
    "multi-primitive constructions, each evaluation consuming its own slice of the parameters. "
    "Fixing any number (including zero) of trailing parameters returns the same values as passing them explicitly, and the reduced construction demands exactly the remaining parameters.",
    ["inputs", "programs"],
    "all constructions, numbers of primitives, numbers of fixed parameters",
    "Tests map one construction without parameters over two points and fix one parameter of one construction.",
    ["constructions.py"],
    [("transform_map, transform_partial", "constructions.py")],
    (), ["value of the transformed construction"])

add("C15", "Evaluation is the depth-first concatenation of parts with matching sizes",
    "Calling any construction or constraint returns one flat array: the values of all its nodes in depth-first order, each evaluated on the primitives and parameters "
    "its parent assigns to it, with each node's part as long as its declared size. "
    "Flattening a layout into separate constraints, keys and parameters yields the same residuals as calling each constraint directly, and a call with the wrong "
    "number or type of primitives, a non-tuple, or the wrong number of parameters is rejected with a TypeError. "
    "A construction whose primitive keys do not match the primitives its children need is rejected when it is built.",
    ["inputs", "programs"],
    "all constructions and constraints, valid and invalid argument lists, all layouts",
    "Tests check three rejection messages for one construction and never compare flattened with direct evaluation.",
    ["constructions.py", "layout.py", "solver.py"],
    [("ConstructionNode.__call__, assem_from_tree, root_prim_keys, root_params, child_prim_keys, validate_*", "constructions.py"),
     ("flat_constraints", "layout.py"), ("assem_constraint_residual", "solver.py")],
    (), ["values, declared signature sizes, raised exceptions"])

add("C16", "Residuals are differentiable and unaffected by compilation",
    "Every construction and constraint evaluated under JAX compilation on primitives of any size returns the value of plain evaluation, and its automatic "
    "derivative with respect to primitive coordinates equals the numerical derivative wherever the measurement is smooth. "
    "No derivative is NaN on non-degenerate geometry.",
    ["inputs", "programs"],
    "all constructions/constraints and non-degenerate geometry",
    "Tests jit one layout without comparing results and never look at derivatives, on which every solve depends.",
    ["constructions.py", "constraints.py", "primitives.py", "containers.py"],
    [("jnp-based assem methods", "constructions.py"), ("pytree registration", "primitives.py"), ("_make_flatten_unflatten", "containers.py")],
    (), ["jit values and jacfwd/jacrev/grad vs central differences"])

add("C17", "A tree node behaves like an ordered dictionary of slash-separated paths",
    "After any sequence of additions, replacements and failed operations, looking up, testing membership, iterating, counting, indexing by position or slice and height "
    "agree with a plain nested ordered dictionary. "
    "Adding an existing path, or replacing, reading or adding under a missing path raises KeyError and changes nothing, and testing membership of any path returns True or False and never raises.",
    ["histories", "inputs"],
    "all operation sequences and paths",
    "Tests build nodes once and check only height and printing; no test exercises a failing path or a sequence.",
    ["containers.py"],
    [("Node.get_child/add_child/__setitem__/__getitem__/__contains__/node_height", "containers.py")],
    [("_children", "ordered dict of child nodes", "containers.py")],
    ["all public Node accessors"])

add("C18", "Flattening, rebuilding, copying, mapping and accumulating preserve trees",
    "Flattening any tree and rebuilding it gives a tree with the same types, keys, key order and values, both with the package's own functions and as a JAX pytree; flattening lists "
    "nodes depth-first with full slash-separated keys, and leftover nodes after the first tree are returned untouched. "
    "Mapping applies the function once to each value, accumulating gives every node the fold of its whole subtree, and a copy has equal content while changes to either tree's structure do not affect the other.",
    ["inputs", "programs"],
    "all trees (any width, depth, key order, node type) and functions",
    "Tests use trees of at most two leaves whose keys happen to be in sorted order.",
    ["containers.py", "primitives.py"],
    [("iter_flat, flatten, unflatten, map, accumulate, Node.copy, from_tree", "containers.py"), ("register_pytree_node", "primitives.py")],
    (), ["rebuilt trees"])

add("C19", "Primitives are built as documented and malformed ones are rejected",
    "A line runs from its first to its second given point; a polygon of n given vertices has n edges in order, each ending at the point where the next starts, closing the loop; a quadrilateral's edges are bottom, "
    "right, top, left for vertices given counter-clockwise from the bottom left; axes contain exactly the requested frame, axis, label and twin parts under their documented names. "
    "Defaults have valid sizes, and wrong parameter sizes, child counts or child types are rejected at construction.",
    ["inputs", "configurations"],
    "all vertex lists and counts, axes option combinations, malformed arguments",
    "Tests construct defaults only and assert nothing about them.",
    ["primitives.py"],
    [("Point, Line, Polygon, Quadrilateral, Axes .init_children/.default_prims", "primitives.py"), ("PrimitiveNode.__init__, validate_prims", "primitives.py")],
    (), ["children, values and raised exceptions"])

add("C20", "Unknowns are exactly the distinct primitives: shared ones once, others apart",
    "Collecting the unknowns of any primitive tree yields one parameter vector per distinct primitive, a primitive reachable by several paths counted once and two separately created primitives never merged, "
    "even when built from equal or the same coordinates. "
    "Rebuilding the tree from any new parameter vectors puts each vector at every path of its primitive and nowhere else, keeping types and keys.",
    ["inputs"],
    "all primitive trees with arbitrary sharing and arbitrary new vectors",
    "One test rebuilds one tree and asserts nothing; sharing is not examined.",
    ["primitives.py"],
    [("filter_unique_values_from_prim, build_prim_from_unique_values", "primitives.py"), ("Primitive.__init__", "primitives.py")],
    (), ["prim_to_idx mapping, values list, rebuilt tree"])

add("C21", "A layout stays consistent through any history of additions and failures",
    "After any sequence of adding primitives and constraints, with automatic or explicit names and with failing calls in between, the constraint, primitive-key and parameter records list the same constraints in the same order, "
    "one entry per declared constraint, and each carries the primitives and parameters it was declared with. "
    "A failed addition (duplicate name, unknown primitive, wrong primitive types, wrong parameters) raises and leaves the layout as it was, and automatic names never collide with existing ones.",
    ["histories", "inputs"],
    "all call sequences including failing calls and clashing names",
    "One test adds two constraints and prints the result.",
    ["layout.py", "containers.py", "constructions.py"],
    [("Layout.add_prim/add_constraint/flat_constraints", "layout.py"), ("ItemCounter.add_item_to_nodes", "containers.py")],
    [("root_constraint, root_prim_keys, root_param", "three parallel trees", "layout.py")],
    ["flat_constraints(), tree keys, residuals after each step"])

add("C22", "Refreshing a layout replaces exactly the plot-dependent parameters",
    "Updating a layout with plotted axes gives a layout whose axis-thickness constraints use the matching plotted x or y axis, found by name wherever the axes primitive sits in the tree, while every other constraint, primitive and parameter is unchanged. "
    "The original layout is not modified, and constraints or top-level primitives later added to either layout do not affect the other; replacing the parameters of named constraints changes those constraints only.",
    ["inputs", "histories"],
    "all layouts with any mix of constraints and axes, and histories of updates and additions",
    "No test calls update_layout_constraints or update_root_param.",
    ["layout.py"],
    [("update_layout_constraints, update_root_param", "layout.py")],
    (), ["flat parameters of both layouts, residuals"])

add("C23", "Axis thickness constraints follow the rendered size of tick labels",
    "The thickness used for an axis is the extent in inches by which its rendered tick labels and offset text, without the axis title, stick out of the axes on the side the axis is on, and zero for an axis without tick labels or with no axis given. "
    "The constraint's residual is the height (x) or width (y) of the axis box minus that thickness, and measuring leaves the figure as it was, including title visibility, also when it fails.",
    ["inputs", "configurations"],
    "all figure sizes, dpi, axes positions, tick configurations and sides, title visibility",
    "Tests use a 1x1 inch figure with axes at the origin and build the expected value with the same function.",
    ["constraints.py"],
    [("get_axis_thickness, AxisThickness", "constraints.py")],
    (), ["residual, axis state"])

add("C24", "Figures and axes get the size, position and sides of their primitives",
    "Creating or updating a matplotlib figure from geometry gives a figure of the figure box's size in inches, each requested axes at its frame's position relative to the figure box's lower-left corner, each axis label anchored at its label "
    "point relative to the same corner, and ticks on the side where the axis box abuts the frame, wherever the figure box lies; a box that abuts no side is reported by a warning; every axes has limits of its own. "
    "By default exactly the top-level primitives with 'Axes' in their name become axes, and updating an existing figure any number of times gives the same result as creating it afresh from the last geometry, for axes and axis hidden meanwhile too.",
    ["inputs", "histories"],
    "all box geometries, figure origins, axes subsets and update sequences",
    "No test calls subplots or update_subplots.",
    ["matplotlibutils.py"],
    [("subplots, update_subplots, rect_from_box, width_and_height_from_quad, find_axis_position", "matplotlibutils.py")],
    (), ["fig.get_size_inches, ax.get_position, label transforms, tick positions"])

add("C25", "A declared layout comes out of matplotlib with the declared inches",
    "From declaration through solving to the matplotlib figure, the figure size, axes sizes, margins, gaps, grid proportions and label pads the user declared are the distances in inches found in the resulting figure, "
    "in JAX's default single precision as well as in double precision. "
    "After plotting, refreshing, re-solving and updating, the margin is kept between the figure edge and the outside of the plotted tick labels.",
    ["inputs", "configurations", "histories"],
    "all README/tutorial style templates with arbitrary sizes, margins, grid shapes, sides and start geometry",
    "No test goes from a layout to a matplotlib figure; the test environment forces double precision.",
    ["layout.py", "solver.py", "matplotlibutils.py", "constraints.py"],
    [("Layout -> solve -> subplots -> update_layout_constraints -> update_subplots", "solver.py")],
    (), ["distances in inches measured on the matplotlib figure"])

add("C26", "Drawings of primitives show every primitive at its true coordinates",
    "Drawing any tree of primitives shows each point at its coordinates, each line of non-zero length from its start to its end, each polygon as a closed patch through its vertices, including primitives nested in axes and groups, and nothing else. "
    "Labels name the primitive and a line's label is placed at its midpoint and rotated along it; drawing works for every primitive type and degenerate line and does not alter the primitives.",
    ["inputs"],
    "all primitive trees, label depths, colours",
    "One test draws a grid of boxes without looking at the result.",
    ["ui.py"],
    [("plot_prim(s), plot_point/line/polygon, rotation_from_line, figure_prims", "ui.py")],
    (), ["matplotlib artists in the drawing"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
