import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
DC="dany/dem_conditioning.py";FD="dany/flow_directions.py";SU="dany/stream_util.py"
p("C01","Sink filling never lowers a cell and keeps the boundary fixed",
  "For every DEM and grid, the elevations returned by the sink-filling function are nowhere lower than the input, are equal to the input at every cell on the outer edge of the grid (methods without a stream mask), and have the input's shape. The caller's DEM array is left unmodified. This holds for the 'priority', 'complete' and 'drain' methods and for any non-negative epsilon.",
  ["inputs","configurations"],"all DEM values and epsilons, all grid topologies (structured, vertex, unstructured), all three methods",
  "Tests compare three filled rasters with stored arrays for one 5x5 structured DEM; a change that lowers a cell or touches the rim only for another relief or grid topology passes.",
  [DC],[("fill_sinks",DC),("_priority_flood closed/pit/open queues",DC),("_flood_and_drain_fill / _inner_flood_and_drain_fill",DC),("_identify_edge_nodes",DC)],obs=["return value of fill_sinks"])
p("C02","Epsilon filling leaves no sink and no flat area in the interior",
  "After sink filling with the 'priority' or 'drain' method (no stream mask) and a positive epsilon, every cell that is not on the grid's outer edge has at least one queen neighbour that is strictly lower, so water can leave every interior cell. For 'drain' that neighbour is lower by at least epsilon.",
  ["inputs","configurations"],"all DEM values (ties, pits, nested pits, plateaus), all positive epsilons, all grid topologies",
  "The tests look at one DEM and one epsilon; whether every possible pit/plateau arrangement gets an outlet depends on queue order and ties that no sample covers.",
  [DC],[("epsilon increment when a neighbour is not higher",DC),("pit FIFO drained before the priority queue",DC),("iterate-until-unmodified loop",DC)],obs=["return value of fill_sinks"])
p("C03","Filled elevation is exactly the spill elevation (within n*eps)",
  "With method 'complete' each filled elevation equals the cell's spill elevation: the minimum, over all queen-neighbour paths from the cell to a grid-edge cell, of the highest input elevation on the path. With 'priority' and 'drain' each filled elevation lies between the spill elevation and the spill elevation plus (number of cells)*eps, and 'drain' yields the lowest surface whose non-edge cells drain by at least eps.",
  ["inputs","configurations"],"all DEM values, all epsilons >= 0, all grid topologies",
  "Over-filling or under-filling needs a particular order of equal or nested elevations; stored reference arrays fix a single order.",
  [DC],[("priority-queue order",DC),("heap vs pit queue hand-over",DC),("np.max(wf[nc]) relaxation",DC)],obs=["return value of fill_sinks"])
p("C04","Stream-mask conditioning drains all land to the masked streams",
  "With a stream mask (boolean or 0/1) and positive epsilon, sink filling never lowers any cell, raises a stream cell only when it has at least two stream neighbours that are all higher (and then to no more than its lowest stream neighbour plus epsilon), and leaves every non-stream cell connected to a stream by queen adjacency with at least one strictly lower queen neighbour, so that its steepest-descent path ends on a stream cell.",
  ["inputs","configurations"],"all DEM values and all stream masks (non-empty), priority and complete methods, all grid topologies",
  "No existing test passes a stream mask at all; the interplay of seed raising, pits and priority order depends on both the mask and the relief.",
  [DC],[("stream seeds and the c in seed branches",DC),("pit fill of stream cells",DC)],obs=["return value of fill_sinks"])
p("C05","NaN filling terminates, fills every NaN and touches nothing else",
  "For every DEM with at least one non-NaN value in each connected part of the grid, NaN filling terminates and returns an array without NaN in which every originally known elevation is unchanged and every filled elevation lies between the minimum and maximum of the known elevations. A NaN cell none of whose neighbours is NaN gets exactly the mean, median, minimum or maximum (as requested) of its neighbours. The input array is not modified.",
  ["inputs","configurations"],"all placements of NaN, all elevations, all four methods, all grid topologies",
  "The test blanks a few isolated cells and uses one relief; termination depends on the placement of the NaN cells.",
  [DC],[("fill_nan_values work stack",DC)],obs=["return value of fill_nan_values"])
p("C06","Each cell flows to a steepest-descent queen neighbour",
  "For every DEM, each cell that is not an outlet (the DEM minimum, a user terminal cell or a NaN cell) is routed to a queen neighbour, never outside the grid, and if the cell has a strictly lower neighbour the chosen one has the steepest downward slope (drop divided by centre distance) among its neighbours, any neighbour attaining the steepest slope being allowed. A cell without a strictly lower neighbour never flows over a rise larger than the burn threshold while a neighbour within the threshold exists; the unresolved marker (-2) appears only at such cells, in a pit or flat without outlet. NaN cells, the minimum cell, user terminal cells and cells without any non-NaN neighbour route to themselves.",
  ["inputs","configurations"],"all DEM values including ties and NaN cells, all grid geometries, terminal cells in any accepted form",
  "Tests compare one real DEM on a uniform structured grid with stored output; wrong distances, wrong neighbours or wrong tie handling on other geometries go unseen.",
  [FD],[("_calculate_slopes",FD),("_calculate_flowcell tie handling",FD),("_fill_irregular_neighbor_array padding",FD)],obs=["FlowDirections.flow_directions","FlowDirections.flow_direction_array"])
p("C07","On a draining surface every flow path ends at an outlet",
  "If every cell of the DEM other than the outlets (unique minimum, user terminal cells, NaN cells) has a strictly lower neighbour, then following the computed flow directions from any cell reaches an outlet without a cycle, and no unresolved marker remains in the flow direction array. Consequently flow accumulation on it terminates.",
  ["inputs","configurations"],"all strictly draining DEMs including equal steepest slopes, any set of terminal cells, all grid topologies",
  "Tie resolution builds routing traces that may overwrite other cells; only specific tie patterns trigger it and the tests contain those of a single DEM.",
  [FD],[("_calculate_flowcell / _resolve_flats",FD),("terminal cells",FD)],obs=["FlowDirections.flow_directions"])
p("C08","Flow accumulation equals own plus all upstream area (or cells)",
  "For every acyclic flow-direction map (outlets route to themselves), flow accumulation of a cell equals the sum of the area (or the count) of exactly the cells whose flow path passes through it, itself included. Hence it never decreases downstream and the outlets' values add up to the total area (number of cells); the computation always terminates and does not alter flow directions or areas.",
  ["inputs","programs"],"all flow-direction forests and all cell areas, accumulation by area and by cells",
  "The single test DEM exercises one forest; double counting or early termination at confluences depends on node numbering and branch order.",
  [FD],[("flow_accumulation nidp counting loop",FD),("get_nidp",FD)],state=[dict(name="_fdir",meaning="node each cell flows to",where=FD),dict(name="_area",meaning="cell areas",where=FD)],obs=["FlowDirections.flow_accumulation","FlowDirections.flow_accumulation_array","FlowDirections.get_nidp"])
p("C09","A watershed is exactly the set of cells draining through its outlet",
  "For every flow-direction map and pour point, the delineated watershed marks with a positive id exactly the cells whose flow path passes through the pour point's cell, and leaves every other cell 0.",
  ["inputs"],"all flow-direction forests and all pour-point cells, all grid types",
  "Tests check one pour point on one DEM.",
  [FD],[("get_watershed_boundary stack",FD),("_reverse_flow_directions",FD)],obs=["FlowDirections.get_watershed_boundary"])
p("C10","Subbasins partition cells by the first pour point downstream",
  "For every flow-direction map and every set of distinct pour points, two cells get the same positive subbasin id exactly when the first pour-point cell met on their flow paths (starting at the cell itself) is the same one; cells whose path meets no pour point get 0. The ids used are 1..number of points, and the partition does not depend on the order in which the points are given.",
  ["inputs"],"all flow-direction forests, all sets and orders of pour points, including nested points and points at any node number",
  "Tests use one list of points in one order on one DEM.",
  [FD,SU],[("get_subbasins downstream ordering",FD),("Topology.sort",SU),("get_watershed_boundary with subbasins",FD)],obs=["FlowDirections.get_subbasins"])
p("C11","Stream delineation is the accumulation threshold within the basin",
  "A cell is delineated as a stream (1) exactly when its flow accumulation is at least the contributing-area threshold given for it (scalar or per cell) and it lies inside the basin boundary if one is given; all other cells are 0, inputs are left unmodified, and with a scalar threshold and no boundary the stream network is closed downstream. Setting a custom stream array or reading the stream array back preserves the values and gives the caller a copy.",
  ["inputs","configurations"],"all accumulations, thresholds (scalar, array) and basin masks",
  "Only one threshold on one DEM is tested; equality at the threshold, per-cell thresholds and mask polarity are not.",
  [SU],[("StreamBase.delineate_streams",SU),("StreamBase.set_stream_array / stream_array",SU)],obs=["delineate_streams","stream_array"])
p("C12","MF6 reach numbering is a bijection that follows the flow",
  "For every stream network, reach connectivity numbers the stream cells 1..n without gaps or repeats, each reach maps to the reach of the cell it flows to (0 when it leaves the network, or itself at a self-draining outlet), and every reach number is smaller than that of the reach it drains to. The stored stream array holds exactly these reach numbers at the stream cells and 0 elsewhere.",
  ["inputs","programs"],"all flow forests and stream masks (integer or boolean), MF6 and ungrouped PRMS networks",
  "One network is compared with a stored graph; the topological order depends on node numbering of the network.",
  [SU],[("_mf6_stream_connectivity",SU),("Topology.sort",SU)],obs=["Sfr6.get_stream_connectivity","PrmsStreams.get_stream_connectivity","stream_array"])
p("C13","MF6 SFR package and connection data are mutually consistent",
  "For every network the connection data have one record per reach in ascending zero-based order, list each stream connection once from either side with the upstream reaches positive and the downstream reach negative, and the package data have one record per reach with the matching cell id, a count of connections equal to the connection record's length, the cell's DEM elevation as reach top, a positive length that is 1.5 times the distance to the downstream cell where the reach has a downstream reach (otherwise between 1.5 times the shortest and the longest of the cell's sides), and the gradient of the cell's flow path divided by 1.5 (drops below 1e-6 may count as 0).",
  ["inputs","configurations"],"all networks, all DEM elevations, all grid types",
  "One network is compared with a stored table on a structured grid; sign, order and count agreement for other confluences and grid types is untested.",
  [SU],[("Sfr6.connectiondata",SU),("Sfr6.packagedata",SU)],obs=["Sfr6.connectiondata","Sfr6.packagedata"])
p("C14","SFR2 segments partition the stream and break at confluences",
  "For every stream network the MODFLOW-2005 connectivity gives each stream cell exactly one segment and reach; segments are numbered 1..n, reaches of a segment are consecutive cells along the flow numbered from 1, a cell with two or more inflowing stream cells starts a segment and no other non-headwater cell does (grouped mode; an outlet that drains to itself may count as flowing into itself and so start its own segment), and in ungrouped mode every cell is its own segment. Each segment's out-segment is the segment of the cell its last reach flows to, has a larger number, and is 0 (or itself at a self-draining outlet) where the stream ends.",
  ["inputs","programs"],"all flow forests and stream masks, grouped and ungrouped",
  "One network is compared with a stored graph.",
  [SU],[("_mf2005_stream_connectivity",SU),("Topology.sort",SU)],state=[dict(name="_node_seg_rch",meaning="node, segment, reach table",where=SU)],obs=["Sfr2005.get_stream_connectivity","stream_array","PrmsStreams.get_stream_connectivity(group_segments=True)"])
p("C15","SFR2 reach and segment tables describe the network's cells",
  "For every stream network on a structured grid, reach data contain exactly one row per stream cell, ordered by segment and reach, with the right row, column, node, segment and reach number and unique reach ids 1..n, the cell's DEM elevation as stream top, a length of 1.5 times the distance to the next cell downstream and a slope equal to the drop to that cell over that length (1.5 times the mean cell size and 0.0001 where there is none). Segment data list every segment once with its out-segment; both agree with the connectivity graph.",
  ["inputs","configurations"],"all networks including ones whose last segments leave the network, all DEM elevations, cell sizes",
  "The stored table covers one network that ends in a self-draining outlet.",
  [SU],[("Sfr2005.reach_data",SU),("Sfr2005.segment_data",SU)],obs=["Sfr2005.reach_data","Sfr2005.segment_data"])
p("C16","Runoff array routes every cell to the first stream segment downstream",
  "For every flow-direction forest and stream network, the land-surface runoff array (irunbnd) holds for each stream cell its own segment, for every other cell the segment of the first stream cell on its flow path, and 0 for cells whose path meets no stream.",
  ["inputs"],"all flow forests and stream masks, grouped and ungrouped segments",
  "Not tested by value; the result depends on the order in which stream cells are visited.",
  [SU],[("Sfr2005.irunbnd",SU)],obs=["Sfr2005.irunbnd"])
p("C17","Many-to-one cascades carry each active cell to its receiver",
  "For every flow-direction map and basin boundary, the many-to-one cascade links, compared as a set, are exactly {cell -> the cell it flows to} over active cells, with the cell linked to itself where its receiver is outside the boundary or unresolved, all fractions equal to 1 and 1-based ids. The stream-segment id of a link is the stream number of the downslope cell, 0 when that is not a stream cell.",
  ["inputs","configurations"],"all flow forests, basin masks and stream arrays",
  "The stored arrays of one basin are compared; masks that cut flow paths elsewhere are not.",
  [SU],[("PrmsStreams.get_cascades",SU),("_build_many_to_one_cascades",SU)],obs=["PrmsStreams.get_cascades"])
p("C18","Many-to-many cascades conserve flow and stay downslope and active",
  "For every strictly draining DEM, stream array and basin boundary, the many-to-many cascade fractions of each active non-stream cell that has an active lower neighbour are each greater than 0, proportional to the downslope gradients and sum to 1 (neighbours that would get 1 % or less of the outflow may be left out), every link goes to an active queen neighbour that is not higher, and each active stream cell has exactly one link, with fraction 1, to its receiver (itself if the receiver is inactive). Inactive cells have no links.",
  ["inputs","configurations"],"all DEM values, stream arrays and basin masks on the bounded grids",
  "many2many is exercised by no existing test.",
  [SU,FD],[("_build_many_to_many_cascades",SU),("_calculate_slopes",FD)],obs=["PrmsStreams.get_cascades(many2many=True)"])
p("C19","Stream vectors trace each segment to its downstream segment",
  "For every stream network each segment with more than one vertex yields exactly one line whose vertices are the centres of its cells in flow order, followed by the centre of the first cell of its out-segment when there is one; no other lines are returned. Computing vectors does not change the stream cells.",
  ["inputs"],"all stream networks, grouped and ungrouped, all grid types",
  "Not tested.",
  [SU],[("create_stream_vectors",SU)],obs=["create_stream_vectors"])
p("C20","Control-point thresholds follow the main stem upstream",
  "For every flow-direction forest and accumulation, thresholds from control points equal the background value except on the cells visited by walking upstream from each control point, always to the inflowing queen neighbour with the largest accumulation (any of them on a tie), until no cell flows in; on those cells the threshold is below the cell's own accumulation, so that delineating with it makes each of them a stream. Diagonal inflow is followed.",
  ["inputs"],"all flow forests and accumulations, sets of control points, all grid types",
  "Not tested.",
  [SU],[("threshold_from_control_points",SU)],obs=["threshold_from_control_points"])
p("C21","Slope, aspect, vectors and HRU length follow the flow direction",
  "For every DEM and flow-direction map, the slope of a cell is its drop to its receiver divided by the distance between cell centres (0 at outlets and unresolved cells; drops below 1e-6 may count as 0), the aspect is the counter-clockwise angle from east to the receiver in [0, 360), the vectors are the cosine and sine of that angle, and the HRU length is twice the mean distance from the cell centre to the shared faces or corners with its receiver and inflowing cells.",
  ["inputs","configurations"],"all elevations, all receivers, all bounded grid geometries",
  "Tests compare one uniform structured grid with stored arrays.",
  [FD],[("slope / aspect / vectors properties",FD),("_calculate_hru_len",FD)],obs=["FlowDirections.slope","aspect","vectors","hru_len"])
p("C22","Cell areas equal the polygon areas",
  "The cell areas used for accumulation equal the areas of the cell polygons for every cell shape (any number of vertices, clockwise or counter-clockwise, mixed in one grid, anywhere in the plane).",
  ["inputs","configurations"],"all vertex coordinates of the bounded polygons",
  "Tests use square cells only.",
  [FD],[("_shoelace_area",FD)],obs=["FlowDirections.area"])
p("C23","Accumulation from the DEM drains the whole basin to its outlets",
  "End to end, for every DEM with one lowest outlet on the rim in which every other rim cell has a lower rim neighbour (or with any rim, when the outlet is given to the fill as stream mask), conditioned with the epsilon fill, the chained calls (fill sinks, flow directions, flow accumulation) terminate and every cell's area arrives at an outlet: the accumulated areas at the self-draining cells add up to the total area and the watershed of an outlet has exactly the area accumulated there.",
  ["inputs","configurations"],"all DEM values on the bounded grids",
  "The pipeline is tested on one DEM.",
  [DC,FD],[("fill_sinks -> flow_directions -> flow_accumulation",FD)],obs=["flow_accumulation","get_watershed_boundary"])
p("C24","Results do not depend on what was computed before",
  "Re-running flow directions, accumulation, watersheds, delineation, connectivity and the tables derived from them on the same object, in any order and after any earlier runs with other parameters, or on a grid whose neighbours were queried before with another method, gives the same result as a fresh object given the same current inputs.",
  ["histories","inputs"],"sequences of public calls up to the stated length, all inputs of the bounded grids",
  "Tests call every method once on a fresh object.",
  [FD,SU,DC],[("cached reverse directions, neighbours, graphs",FD),("cached stream graph / segment graph",SU)],state=[dict(name="_fdir_r",meaning="cached reverse flow directions",where=FD),dict(name="_graph,_seg_graph,_node_seg_rch",meaning="cached connectivity",where=SU)],obs=["all public results"])
p("C25","pyGSFLOW builder objects agree with the network they describe",
  "The cascade builder object reports exactly the number of stream cells as reaches, of segments and of cascade links of the network, with slope, aspect and area in node order and the flag matching the cascade kind. The stream builder object's reach elevations equal the DEM, its slopes are the drop over the distance to the next reach downstream clamped to the minimum and maximum (default slope where there is none; minimum <= default <= maximum), and user keyword defaults are applied to every record while unknown keywords are rejected.",
  ["inputs","configurations"],"all networks, DEM elevations and keyword overrides on the bounded grids",
  "The cascade builder is compared for one basin; the stream builder is untested.",
  [SU],[("PrmsStreams.get_pygsflow_builder_object",SU),("Sfr2005.get_pygsflow_builder_object",SU)],obs=["PygsflowCascades","PygsflowStreams attributes"])
p("C26","Builder objects survive a write/read round trip",
  "Writing a builder object to a file and reading it back yields an object with the same attributes and values.",
  ["inputs"],"all builder objects and file paths",
  "Not tested.",
  [SU],[("PygsflowCompatBase.write / read",SU)],obs=["PygsflowCompatBase.read"])
p("C27","Results are independent of the grid representation",
  "The same cells described as a structured, a vertex or an unstructured grid give the same filled DEM, flow directions, accumulation, watersheds, stream networks and cascades, node by node, as arrays in the shape of a grid layer; further layers and the choice between open and closed cell polygons do not matter (except for which of several equally good neighbours is taken).",
  ["inputs","configurations"],"all DEM values on the bounded grids, all three grid classes",
  "Tests use structured grids only.",
  [DC,FD,SU],[("grid_type branches, shapes, fill index",FD),("shape/nnodes handling",SU)],obs=["all public results"])
p("C28","Filling leaves a drained surface alone and is idempotent",
  "A surface on which every cell off the grid's outer edge already has a strictly lower queen neighbour (for 'drain': lower by at least epsilon) comes back from sink filling unchanged with every method ('priority', 'complete', 'drain'; no stream mask). Filling an already filled surface again with the same method and epsilon changes nothing.",
  ["inputs","configurations","histories"],"all such DEM values, positive epsilons, all three grid classes, all three methods",
  "Tests fill one DEM once; whether a second pass, or a pass over a draining DEM, moves any cell depends on queue order, ties and the relief.",
  [DC],[("raise only where the neighbour is not lower",DC),("start value and stopping rule of flood and drain",DC)],obs=["return value of fill_sinks"])
p("C29","Calls leave the arrays, tables and lists passed to them unaltered",
  "No public call alters the DEM, stream array, stream mask, basin boundary, threshold array, terminal cells, points, stream graph, reach and segment tables or irunbnd arrays passed to it (contents and shape), and a returned fill is independent of its input. Queries (watershed, subbasins, cell attributes, thresholds, networks, tables, cascades) leave the stored flow directions, accumulation, elevations and areas of the flow direction object as they were.",
  ["inputs","configurations","histories"],"all DEM values and masks on the bounded grids, every public call that takes an array, table, graph or list",
  "Tests rebuild or reload their inputs for every call and compare outputs only, so a call that writes into its arguments is invisible.",
  [DC,FD,SU],[("copies of inputs in fill_sinks and fill_nan_values",DC),("ravel of masks and thresholds",SU),("builder's copies of reach and segment data",SU)],obs=["inputs after the call","FlowDirections properties after a query"])
p("C30","Misuse is refused and leaves stored results intact",
  "A DEM with several lowest cells is refused by FlowDirections exactly when the elevation check is on (default) and accepted otherwise; NaN cells do not count. A missing stream array, stream, threshold or basin arrays of a wrong size, points with a wrong number of coordinates or outside the grid, an unknown NaN-fill method (when there is a NaN cell), an unknown builder keyword, and row/column terminal cells on a grid that is not structured raise an error instead of returning something; afterwards the stream array, networks, tables, flow directions and accumulation are those from before the refused call.",
  ["inputs","configurations","histories"],"all DEM values (for the lowest-cell check), all stream masks, every listed kind of misuse before or after successful calls",
  "Tests contain no error case.",
  [DC,FD,SU],[("minimum check",FD),("size checks of set_stream_array, thresholds, basin boundary",SU),("'stream_array is None' guards",SU),("point checks",FD)],obs=["exceptions","stream_array","tables and graphs after a refused call"])
p("C31","Results are independent of the numbering of the cells",
  "Renumbering the cells of a vertex or unstructured grid (with the DEM, masks and points renumbered alike) gives the same filled DEM ('complete', 'drain'), flow directions, accumulation, cell attributes, watersheds, subbasins, delineated streams, stream networks, package data, runoff cells and cascades cell by cell, up to the numbers given to reaches, segments and subbasins, whenever no cell has several equally steep neighbours.",
  ["inputs","configurations"],"all DEM values without equal steepest slopes, all masks on the bounded grids",
  "Tests use a single structured grid, whose cells are always numbered row by row.",
  [DC,FD,SU],[("neighbour tables indexed by node",FD),("node loops in stream numbering and cascades",SU)],obs=["all public results"])
p("C32","Results depend on relative elevations and positions only",
  "Adding a constant to every elevation shifts the filled surface and reach tops by it and leaves flow directions, accumulation, watersheds, subbasins, slopes, aspects, stream networks, thresholds, reach lengths and gradients and cascades as they are; moving the grid horizontally (with the points moved alike) changes none of them.",
  ["inputs","configurations"],"all DEM values and all vertical shifts within the bounds, grids far from and near the origin, all three grid classes",
  "Tests use one DEM with one datum; start values, absolute thresholds or signs that only matter for negative or very high elevations are never exercised.",
  [DC,FD,SU],[("start values of fills and minima",DC),("slope and vector computation",FD),("reach tops and gradients",SU)],obs=["all public results"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
