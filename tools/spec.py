"""The properties and what their checks promise (single source for properties.jsonl and MANIFEST.json)."""

MG = "meshiphi/mesh_generation/"
DL = "meshiphi/dataloaders/"
ST = ("explicit-state enumeration of builds/operation histories on the real code, each compared with an "
      "independent reference model")
NOTE = ("Every element of the stated bounded space is executed on /repo's code and compared with the reference; "
        "exhaustive inside the bounds, nothing is claimed outside them. ")


def P(id, title, statement, over, text, why, files, mech, note="", technique=ST, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None},
            "technique": technique, "level_note": NOTE + note}


PROPS = [
    P("C01", "A built mesh tiles its region exactly",
      "The cells of a built mesh are axis-parallel rectangles that cover the configured region completely, without "
      "overlaps and without leaving it, whatever the region's place on the globe (either hemisphere, poles, across "
      "or ending at the antimeridian, whole globe) and whatever combination of cells the data causes to be split. "
      "Every cell has its own id, results from halving an initial cell of the configured size, and its reported "
      "centre and half-sizes describe the same rectangle as its geometry.",
      ["configurations", "inputs"],
      "all regions, initial cell sizes, split depths and all subdivisions the data can cause",
      "The tests build a handful of fixed meshes and compare some with stored files; the subdivisions reachable "
      "through data and the region placements (antimeridian, globe) are an unbounded family.",
      [MG + "mesh_builder.py", MG + "cellbox.py", MG + "boundary.py", MG + "aggregated_cellbox.py", "meshiphi/utils.py"],
      [("initial grid", "MeshBuilder.initialize_cellboxes"), ("quartering", "CellBox.create_splitted_cell_boxes"),
       ("replacement of a split cell", "MeshBuilder.split_and_replace"), ("geometry text", "Boundary.to_poly_string")],
      "Regions with dyadic and with decimal coordinates; cells narrower than 180 degrees.",
      observe=["EnvironmentMesh.to_json()"]),
    P("C02", "The neighbour graph is exactly the geometric adjacency of the cells",
      "In a built mesh, and after any sequence of cell splits during construction, cell B is listed as a neighbour "
      "of cell A in a compass direction exactly when the rectangles touch that way (edges: E, W, N, S; corners: NE, "
      "SE, NW, SW), also across the antimeridian and around a globe-wide mesh. Each neighbour is listed once, the "
      "relation is symmetric (B in direction d of A means A in the opposite direction of B), and every cell that "
      "exists, and no other, has an entry with all eight directions.",
      ["histories", "configurations"],
      "all meshes reachable by building from data and all orders of splitting cells",
      "Tests check single splits and a few stored graphs; the incremental update must be right for every mixture of "
      "neighbour sizes and every split order.",
      [MG + "neighbour_graph.py", MG + "mesh_builder.py"],
      [("incremental update", "MeshBuilder.split_and_replace, fill_*_map"),
       ("neighbour update", "NeighbourGraph.update_neighbours, update_corner_neighbours"),
       ("geometric case", "NeighbourGraph.get_neighbour_case"), ("wrap-around", "MeshBuilder.check_global_mesh")],
      "Globe-wide meshes have at least three columns.",
      observe=["EnvironmentMesh.to_json()['neighbour_graph']"]),
    P("C03", "Cells are refined exactly as the splitting conditions demand",
      "The set of cells of a built mesh is exactly what the documented rule yields: data sources are processed in "
      "order, and a cell shallower than the maximum split depth is split when, over all splitting conditions of the "
      "sources processed so far, none reports it (lock-)homogeneous and at least one reports it heterogeneous. Cells "
      "are never split beyond the configured depth, splitting goes on until no cell demands it, and what lies in one "
      "initial cell never influences the subdivision of another.",
      ["inputs", "configurations"],
      "all data fields, thresholds, bounds, locks, source orders, depths and minimum datapoint counts",
      "Tests check single calls of the decision on a few cells, never the composition over sources, depth and data.",
      [MG + "cellbox.py", MG + "mesh_builder.py", DL + "scalar/abstract_scalar.py"],
      [("decision", "CellBox.should_split"), ("worklist", "MeshBuilder.split_to_depth"),
       ("per-source verdict", "get_hom_condition")],
      observe=["EnvironmentMesh.to_json()['cellboxes']"]),
    P("C04", "Each cell's value is the chosen aggregate of the data inside it",
      "For every scalar data source, the value of a cell in the mesh is the configured aggregate (MIN, MAX, MEAN, "
      "MEDIAN, STD, COUNT) of exactly the non-missing data points inside the cell, for tabular and gridded input "
      "alike. A cell without data gets the configured numeric fill value, or with 'parent' filling the aggregate "
      "of the nearest ancestor cell that has data, or NaN if none has (COUNT is 0 instead). When two sources provide the same "
      "name the first non-missing value is kept.",
      ["inputs", "configurations"],
      "all data placements, missing values, aggregate types, fill types and cell subdivisions",
      "Tests aggregate a few hand-made samples per loader class and never observe values of split meshes.",
      [MG + "cellbox.py", DL + "scalar/abstract_scalar.py", MG + "mesh_builder.py"],
      [("aggregation and filling", "CellBox.aggregate"), ("aggregates", "ScalarDataLoader.get_value"),
       ("fill type", "MeshBuilder.check_value_fill_type")],
      "Duplicate data at one position, NaN-only ambiguity with min_dp and the STD convention (ddof 0 or 1) are left open.",
      observe=["EnvironmentMesh.to_json()['cellboxes'][i][data_name]"]),
    P("C05", "Every data point in the region and period counts in exactly one cell",
      "A data point inside the region (its upper edges included) and inside the configured period, both end days "
      "included up to their last moment, contributes to exactly one cell of the mesh: the one that contains it, where a point on an edge "
      "shared by cells belongs to the cell below or to the left of it. Points outside the region or the period "
      "contribute to none, however the cells have been split, and likewise across the antimeridian, for tables and "
      "for gridded data.",
      ["inputs", "configurations"],
      "all positions of data points relative to cell edges, region edges and time bounds",
      "Tests use data away from edges or compare with stored results.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", MG + "cellbox.py"],
      [("spatial and temporal trimming", "trim_datapoints"), ("subset inheritance", "CellBox.split")],
      "Data on the antimeridian is spelled +180; the region's own lower/left edge is excluded from the claim.",
      observe=["COUNT values of to_json()['cellboxes']"]),
    P("C06", "The homogeneity verdict follows the documented threshold rule",
      "For any data in a cell and any rule, the verdict is CLR when there are fewer data points than the minimum or "
      "the fraction of non-missing points strictly above the threshold is at most the lower bound; otherwise, when the "
      "fraction reaches the upper bound, HOM with a split lock and CLR without (the default); and HET in between. The "
      "verdict depends only on the data inside the cell and is the same for tabular and gridded data.",
      ["inputs", "configurations"],
      "all multisets of values, thresholds, bounds, ties and minimum counts",
      "Tests check one or two fractions; ties and boundaries between the verdicts are not reached.",
      [DL + "scalar/abstract_scalar.py"],
      [("verdict", "ScalarDataLoader.get_hom_condition")],
      "NaN-only min_dp ambiguity skipped.",
      observe=["get_hom_condition of a configured loader", "which cells of a built mesh are split"]),
    P("C07", "Splitting cells of a finished mesh keeps it a correct mesh",
      "After any sequence of cell splits on a loaded mesh, the cells still tile the region exactly, the neighbour "
      "graph is still the geometric adjacency (across the antimeridian and around the globe too), the four new "
      "quarters carry the values of the cell they replace, and all other cells keep their id and values. Splitting "
      "around points refines exactly the cells that strictly contain a point, down to the configured split depth, "
      "ignores points outside the mesh, and always terminates.",
      ["histories", "inputs"],
      "all sequences of split operations and point lists on all meshes",
      "Tests perform single splits on one stored mesh; the neighbour update depends on the sizes of all neighbours and "
      "hence on the whole history.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py", MG + "boundary.py"],
      [("split and rewire", "EnvironmentMesh.split_and_replace"), ("quartering", "Boundary.split"),
       ("point refinement", "EnvironmentMesh.split_points")],
      observe=["EnvironmentMesh.to_json()"]),
    P("C08", "Merging a mesh replaces exactly its region and wires the seam",
      "Merging a mesh that fits the grid into a mesh containing its region yields exactly the old cells outside that "
      "region plus the merged mesh's cells, all with their own values and distinct ids, tiling the region, with the "
      "neighbour graph equal to the geometric adjacency, including across the seam, the antimeridian and around the "
      "globe, and also after further merges and splits. The mesh passed in is left untouched and its configuration is "
      "recorded. A mesh that is not aligned with the grid, or would replace only part of a cell, is refused without modifying anything.",
      ["histories", "configurations"],
      "all placements, sizes and subdivisions of both meshes, and all sequences of merges and splits",
      "Tests merge a few stored meshes with one relative placement.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py"],
      [("merge", "EnvironmentMesh.merge_mesh"), ("seam", "tie_*_cellbox_ng"),
       ("compatibility", "validate_merge_compatibility")],
      "The merged mesh lies inside the outer region.",
      observe=["EnvironmentMesh.to_json()"]),
    P("C09", "A mesh document describes its mesh completely and independently",
      "Writing a mesh as a JSON object, text or file and loading it again gives a mesh with the same cells, values "
      "(missing ones included), neighbour graph and configuration, any number of times and after any edits. Documents "
      "handed in or out and meshes loaded from them are independent: editing, splitting or updating one never changes "
      "another. Updating a cell by index changes that cell's named values only, and an index out of range is refused.",
      ["histories", "inputs"],
      "all meshes and all sequences of export, save, load, update and split",
      "Tests load stored meshes once and compare a few fields.",
      [MG + "environment_mesh.py", MG + "aggregated_cellbox.py", MG + "neighbour_graph.py"],
      [("export", "EnvironmentMesh.to_json, save"), ("import", "EnvironmentMesh.load_from_json"),
       ("update", "EnvironmentMesh.update_cellbox")],
      observe=["to_json()", "files written by save()"]),
    P("C10", "Boundary arithmetic and touching are right everywhere on the globe",
      "For every rectangle of latitudes and longitudes, crossing the antimeridian or not, the reported width, height, "
      "centre, half-sizes, size in metres, polygon and polygon text describe that rectangle, the text reads back as "
      "the same rectangle, and its four quarters tile it. For every two non-overlapping rectangles the reported "
      "direction of contact (or none) is the geometric one, and longitudes are normalised and subtracted on the circle. "
      "Malformed ranges (latitudes or dates out of order, longitudes beyond 180, wrong counts, invalid dates) are refused, well-formed ones accepted.",
      ["inputs"],
      "all rectangles, all pairs of rectangles, all longitudes",
      "Tests check a few rectangles, mostly away from the antimeridian.",
      [MG + "boundary.py", MG + "neighbour_graph.py", "meshiphi/utils.py"],
      [("geometry", "Boundary"), ("contact", "NeighbourGraph.get_neighbour_case_bounds, get_neighbour_case"),
       ("longitudes", "longitude_domain, longitude_distance")],
      observe=["Boundary getters", "to_poly_string"]),
    P("C11", "Looking up a point finds the cell that contains it",
      "On any mesh, built, loaded or split further, looking up a point strictly inside a cell returns that cell's id "
      "and reports the point as inside, in either hemisphere and across the antimeridian; a point outside the region "
      "is reported as outside and its lookup is refused. A point on an edge is never attributed to a cell that does "
      "not touch it, and a cell is found by its id.",
      ["inputs", "histories"],
      "all points and all meshes",
      "Tests query single points of one mesh.",
      [MG + "environment_mesh.py", MG + "aggregated_cellbox.py"],
      [("lookup", "EnvironmentMesh.query_index, query_inside_mesh, get_cellbox"),
       ("containment", "AggregatedCellBox.contains_point")],
      observe=["query_index", "query_inside_mesh"]),
    P("C12", "Configurations are accepted exactly when well formed",
      "A mesh configuration is accepted by the validator, given as dictionary or as file, and built exactly when it "
      "is well formed: all required entries with the documented types, dates written YYYY-MM-DD (a real date) or "
      "TODAY or TODAY +/- n days, latitudes and dates in order, longitudes within 180, a non-negative minimum number "
      "of data points, and a cell size that divides the region, also across the antimeridian and for the whole "
      "globe. The built mesh records the configured region and the dates that were meant. Vessel and route "
      "configurations and waypoint tables are likewise accepted exactly when they fulfil their schema.",
      ["configurations", "inputs"],
      "all combinations of present, missing and wrong entries and all date strings",
      "Tests validate one good configuration and a few single mistakes.",
      ["meshiphi/config_validation/config_validator.py", "meshiphi/config_validation/mesh_schema.py",
       MG + "mesh_builder.py", MG + "boundary.py", "meshiphi/utils.py"],
      [("validation", "validate_mesh_config, validate_vessel_config, validate_route_config, validate_waypoints"),
       ("date resolution", "Boundary.parse_datetime"), ("refusal when building", "MeshBuilder.__init__")],
      "Order of dates and latitudes, longitude range and minimum data points are decided at the build, not at the "
      "validator. Degenerate extents, latitudes beyond 90 and fractional day offsets are left open.",
      observe=["accepted or refused", "to_json()['config']"]),
    P("C13", "Exports carry every cell and every value of the mesh",
      "Exporting a mesh as GeoJSON (all data or one named layer) gives exactly one feature per cell, whose geometry is "
      "the cell's rectangle and whose properties are the cell's own values, never those of another cell: numbers and "
      "text unchanged, missing or non-finite values as null, lists of numbers as their mean. The geometry table holds "
      "the same cells and values. "
      "The same holds for files written by format name, after any edits, splits and reloads; exporting does not change "
      "the mesh.",
      ["inputs", "histories"],
      "all combinations of values in the columns, all meshes and all histories of edits and exports",
      "Tests compare one stored mesh's export.",
      [MG + "environment_mesh.py"],
      [("GeoJSON", "EnvironmentMesh.to_geojson"), ("files", "EnvironmentMesh.save")],
      "GeoTIFF output needs GDAL, which is absent here.",
      observe=["to_geojson()", "files written by save()"]),
    P("C14", "Builds are reproducible, independent of history and rebuildable",
      "Building a mesh is a function of its configuration and data files: the same configuration always gives the same "
      "document (cells, ids, values, neighbour graph, recorded configuration), in a new process as after any history of "
      "other builds, edits, exports and merges, whatever the hash seed, the order in which a folder is listed or the "
      "state of the global random generators (random fields with a seed are reproducible). Building again with the same "
      "configuration object or the same builder, or from the configuration recorded in the document, gives an identical "
      "mesh, and later builds never change meshes built earlier.",
      ["histories", "configurations"],
      "all histories of builds and operations in one process",
      "Tests build each mesh once per process and never compare builds.",
      [MG + "mesh_builder.py", MG + "mesh.py", DL + "factory.py", DL + "scalar/abstract_scalar.py",
       DL + "scalar/scalar_grf.py", DL + "vector/vector_grf.py", "meshiphi/utils.py"],
      [("build", "MeshBuilder.__init__, build_environmental_mesh"), ("recorded configuration", "MeshBuilder.config"),
       ("file lists", "DataLoaderFactory.translate_file_input"), ("seeding", "ScalarGRFDataLoader.import_data")],
      observe=["to_json()"]),
    P("C15", "Vector data fill and split cells by the data inside them",
      "For vector sources (tables and gridded fields) each cell's two components are the configured aggregate (MIN, MAX: "
      "the vector of least or greatest magnitude; MEAN, STD: per component; COUNT) of exactly the vectors inside the cell and the date "
      "range, missing vectors ignored and cells without data filled by the configured rule, and a later source with the same names "
      "never overwrites values. A cell is split by dmag or curl exactly when the measured "
      "quantity exceeds the threshold and the data count and depth allow it.",
      ["inputs", "configurations"],
      "all placements of vectors in cells, subdivisions, aggregates, fillings and splitting rules",
      "No test loads vector data with other than one stored configuration.",
      [DL + "vector/abstract_vector.py", MG + "cellbox.py", MG + "metadata.py"],
      [("values", "VectorDataLoader.get_value"), ("splitting", "VectorDataLoader.get_hom_condition, calc_curl, calc_dmag"),
       ("filling", "CellBox.aggregate")],
      "Curl is decided on complete unit lattices; vectors of all dates in the period count.",
      observe=["to_json()['cellboxes']"]),
    P("C16", "Data products are read as they are: right variable, place, date and unit",
      "For every supported file format (sea ice, bathymetry, waves, wind, currents: AMSR, BSOSE, Baltic, GEBCO, IceNet, MODIS, "
      "ERA5, ECMWF, North Sea, DUACS, SOSE, ORAS5, visual ice charts), each cell's value is the aggregate of exactly the values the files hold for places "
      "inside the cell and dates inside the period, of the right variable and in the right unit, whether the data come in one file or "
      "several, in any listing order, stored from south to north or from north to south, from west to east or back, with longitudes from -180 to 180 or (where the product has them) from 0 to 360, on polar "
      "grids of either hemisphere, with missing or masked values left out, renamed or downsampled as configured.",
      ["inputs", "configurations"],
      "all arrangements of dates in files, missing values, regions, periods and conventions",
      "Tests read none of the products; their files are too large to be stored with the tests.",
      [DL + "scalar/", DL + "vector/"],
      [("reading", "import_data of every loader"), ("renaming, downsampling, trimming",
                                                    "ScalarDataLoader.__init__, VectorDataLoader.__init__")],
      "GRIB2 files are not covered (cfgrib is absent here).",
      observe=["to_json()['cellboxes']"]),
    P("C17", "Look-up tables fill and split cells by the polygons over them",
      "For polygon sources (tables, GeoJSON, shapefiles, protected areas, seasonal density and thickness) each cell's value is the "
      "configured aggregate of exactly the polygons that cover part of the cell in the period: MIN and MAX of their values, MEAN, "
      "MEDIAN and STD weighted by covered area, COUNT their number; cells without polygons are filled by the rule. A polygon's edge "
      "inside a cell splits it when boundary splitting is on. Density and thickness are those of the documented sector and season of each day "
      "of the period.",
      ["inputs", "configurations"],
      "all placements of polygons relative to the cells, all periods and regions",
      "Tests check the loaders' helper functions on single polygons.",
      [DL + "lut/"],
      [("aggregation", "LutDataLoader.get_value, calculate_coverage"), ("splitting", "LutDataLoader.get_hom_condition"),
       ("season tables", "DensityDataLoader.import_data, ThicknessDataLoader.import_data")],
      "Areas are measured in degrees.",
      observe=["to_json()['cellboxes']"]),
    P("C18", "The command line programs do exactly what the library does",
      "create_mesh, rebuild_mesh, export_mesh and merge_mesh (two files or a directory, in the order of file names) write exactly the "
      "document that the corresponding library calls give, to the named or default output, for every sequence of commands on a "
      "working directory; inputs and all other files stay as they were, an older output is replaced, and a command whose input is "
      "missing or unsuitable fails without leaving or changing an output.",
      ["histories", "configurations"],
      "all sequences of commands and all listing orders of a directory",
      "No test runs the programs.",
      ["meshiphi/cli.py", "meshiphi/utils.py"],
      [("commands", "create_mesh_cli, rebuild_mesh_cli, export_mesh_cli, merge_mesh_cli"), ("file choice", "cli.py get_args")],
      observe=["files of the working directory", "exit status"]),
    P("C19", "A data source added to a builder acts as if it had been configured last",
      "Adding a data source to a mesh builder (add_dataloader) after construction, before or after building meshes, gives exactly the cells "
      "and values that a configuration listing the source last would give: same splitting, same data inside each cell, same filling "
      "from parents, same minimum data points. The call returns the builder, and meshes built before the addition do not change.",
      ["histories", "configurations"],
      "all histories of builds and additions",
      "No test adds a data source to a builder.",
      [MG + "mesh_builder.py"],
      [("addition", "MeshBuilder.add_dataloader"), ("build", "MeshBuilder.build_environmental_mesh")],
      observe=["to_json()['cellboxes']"]),
    P("C20", "Only a source's data matter, not spelling, files or order; bad ones are refused",
      "A source's values depend only on its data: not on how the loader's name is capitalised, whether the rows come in one file, a list of "
      "files or a folder, in which order rows, columns and files stand, or whether default parameters are written out. All values appear "
      "under the configured names, or under the columns' own. Loader names that do not exist and sources without a "
      "required parameter are refused, never built from something else.",
      ["configurations", "inputs"],
      "all divisions of rows over files, all orders, all spellings and all left-out parameters",
      "Tests name each loader once, in one spelling.",
      [DL + "factory.py", DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", DL + "scalar/scalar_csv.py",
       DL + "vector/vector_csv.py"],
      [("choice of loader and files", "DataLoaderFactory.get_dataloader, translate_file_input"),
       ("defaults and names", "add_default_params, set_data_col_name")],
      observe=["to_json()['cellboxes']", "accepted or refused"]),
    P("C21", "Loaders written by a user act on their data wherever and however given",
      "A loader derived from the scalar or vector base class and added to a builder fills and splits the cells by exactly the data its "
      "import_data returns: a table or a grid, in geographic or in any declared projected coordinates (x_col becomes longitude, y_col "
      "latitude, parameters given or defaulted by the class), dated or not, under the configured name or its own, with missing values "
      "ignored; grids are first downsampled by the configured longitude and latitude factors, tables are not.",
      ["inputs", "configurations"],
      "all contents of the points, projections, column names, axis orders and sampling factors",
      "Tests use built-in loaders on geographic data only.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", MG + "mesh_builder.py"],
      [("projection", "reproject_df, reproject_xr"), ("sampling", "downsample_xr"), ("names", "get_data_col_name, set_data_col_name")],
      observe=["to_json()['cellboxes']"]),
    P("C22", "Synthetic shapes and random fields have exactly the described form",
      "circle, rectangle, gradient and checkerboard, their vector forms, and the scalar, binary and vector random fields sample the region "
      "on an even lattice of the configured size, also across the antimeridian, with exactly the described values: shapes around the "
      "given or middle centre (zero included), scaled by the multipliers; random fields of one seed equal everywhere, within their "
      "minimum and maximum times multiplier plus offset, capped or cut at the thresholds. Parameters left out take their defaults.",
      ["inputs", "configurations"],
      "all shapes, sizes, centres, samplings, regions, seeds and scalings",
      "Tests compare a few fixed pictures.",
      [DL + "scalar/shape.py", DL + "vector/vector_shape.py", DL + "scalar/scalar_grf.py", DL + "vector/vector_grf.py"],
      [("shapes", "ShapeDataLoader.gen_*, VectorShapeDataLoader.gen_*"), ("fields", "ScalarGRFDataLoader.import_data, VectorGRFDataLoader.import_data")],
      observe=["to_json()['cellboxes']"]),
    P("C23", "Validation scores every data point once; comparison finds every difference",
      "FullMeshValidator compares every data point inside the mesh exactly once with the value of the cell that holds it (points on "
      "shared edges go to the cell below or to the left; missing values do not count; also across the antimeridian) and reports mean "
      "absolute and root mean squared error, scalar or vector, and the number of cells. MeshValidator does the same for the points in its "
      "sampled windows, whatever the mesh was split into; samples stay in their ranges. MeshComparator reports exactly the second mesh's "
      "cells that the first lacks and the common cells whose values (to four significant digits), attribute names or neighbours (as sets) "
      "differ, once each, and nothing for equal meshes; inputs stay unchanged.",
      ["inputs", "configurations"],
      "all meshes, data sets and pairs of documents",
      "One test samples one unsplit mesh.",
      ["meshiphi/mesh_validation/full_mesh_validator.py", "meshiphi/mesh_validation/mesh_validator.py",
       "meshiphi/mesh_validation/mesh_comparator.py", "meshiphi/mesh_validation/sampler.py"],
      [("scores", "FullMeshValidator.validate_scalar, validate_vector, MeshValidator.validate_mesh"), ("comparison", "MeshComparator.compare_*")],
      observe=["validation results", "reported cells"]),
    P("C24", "GeoTIFF and PNG pictures show every cell's value in its place",
      "A GeoTIFF export has the asked number of pixels (x, then y), lies exactly over the mesh's region with north up (also across the "
      "antimeridian, and in the asked projection), and every pixel shows the value of the cell that holds its centre through the given "
      "colour table, lists as their mean; without a table the least value is white, the greatest dark blue, missing and infinite ones "
      "red. A PNG export paints every cell in its place in the colour map's colour of its value between the least and the greatest, and "
      "the true cells of each boolean in its colour. Meshes without values, odd paths and running elsewhere make no difference, and no "
      "other file is changed, removed or left behind.",
      ["inputs", "configurations"],
      "all meshes, values, resolutions, projections, tables and paths",
      "One test exports one picture and does not look at it.",
      ["meshiphi/mesh_generation/environment_mesh.py", "meshiphi/mesh_plotting/mesh_plotter.py"],
      [("GeoTIFF", "EnvironmentMesh.to_tif, save"), ("PNG", "EnvironmentMesh.to_png, MeshPlotter")],
      observe=["pixels, extent and projection of the written pictures", "files in the folders"]),
    P("C25", "Measures and helpers asked directly give what they define",
      "A vector loader asked for a cell's curl gives the central differences dv/dx - du/dy (one-sided at the rim, east and north positive, also "
      "across the antimeridian) of the vectors of each date, and asked for dmag the distance of every vector from the mean vector; collapsed, it gives "
      "the one of greatest magnitude (MAX) or their mean (MEAN), nothing for cells without data, and any other aggregate is refused; a cell's "
      "value asked of a loader with any aggregate, in upper or lower case, with missing values skipped or kept, is that aggregate of the data inside, "
      "whatever is configured, and configured aggregates may be spelt either way. The flow helpers give the constant curl and divergence of "
      "linear fields; numbers, integers, lists and arrays are rounded to the asked significant figures, the input left as it is; parts of months, day "
      "ranges, readable durations (to the nearest minute, or hundredth of an hour), longitude domain and distance are exact for every date, "
      "duration and longitude; timing or tracing a function changes neither its result nor its errors.",
      ["inputs"],
      "all fields, patterns, numbers, dates, durations and longitudes",
      "Few of these functions are tested, on one example each.",
      [DL + "vector/abstract_vector.py", "meshiphi/utils.py"],
      [("flow measures", "VectorDataLoader.calc_curl, calc_dmag, get_value"), ("helpers",
        "utils.curl, divergence, round_to_sigfig, frac_of_month, date_range, convert_decimal_days, longitude_domain, longitude_distance")],
      "Curl is decided on complete unit lattices.",
      observe=["the returned values"]),
]

NOT_APPLICABLE = []
