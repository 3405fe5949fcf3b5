"""Writes /verif/properties.jsonl from the table below (kept as the single editable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
S='src/ocgis/'

p('C01','Rank decomposition partitions a dimension exactly',
  'For every element count and rank count, the index ranges assigned to the ranks are disjoint, ordered by rank, cover every element exactly once, differ in length by at most one, and a rank with nothing to hold gets no range instead of an empty or overlapping one. Mapping one global slice onto each rank\'s range loses no element and duplicates none. Updating a distribution applies these ranges to the longest distributed dimension on every rank, records the true global extent, carries each rank\'s own part of the source index, and marks the remaining ranks empty.',
  ['inputs','configurations'],'all element counts, rank counts, ranks, global slices and per-rank bounds',
  'Tests sample a handful of sizes and the suite runs on one rank only; the guarantee is over all (size, rank count) pairs.',
  [S+'vmachine/mpi.py'],[('get_rank_bounds',S+'vmachine/mpi.py'),('get_global_to_local_slice',S+'vmachine/mpi.py'),('OcgDist.update_dimension_bounds',S+'vmachine/mpi.py'),('create_nd_slices',S+'vmachine/mpi.py')])

p('C02','Slicing a dimension equals slicing the index sequence it stands for',
  'Slicing a dimension with any step-free slice (open ended, negative, or running past the end), integer, integer array or boolean array gives a dimension whose length is the number of indices that Python indexing selects, and whose source index names exactly those positions of the original source, also after repeated slicing. The original dimension is never modified, and name and distribution flags are kept.',
  ['inputs','histories'],'all dimension sizes, all source offsets, all slice objects and index arrays, all chains of slices',
  'Tests slice a few fixed dimensions with in-range positive slices; open-ended, negative and overlong slices and chains are unsampled combinations.',
  [S+'variable/dimension.py',S+'util/helpers.py'],[('Dimension.__getitem__',S+'variable/dimension.py'),('slice_source_index',S+'variable/dimension.py'),('set_size / _src_idx',S+'variable/dimension.py')])

p('C03','Slice normalisation never changes which elements are selected',
  'Normalising an integer (also negative), integer sequence, boolean mask, slice or missing index gives an index object that selects the same elements in the same order as the original index, once per dimension, and a wrong number of per-dimension indices is an index error. Reducing an index array to one slice gives the tightest contiguous slice containing every index. Trimming an array by its mask returns the smallest rectangular window that contains every unmasked element, together with the slices that produce it, and is an error only when everything is masked.',
  ['inputs'],'all array lengths, index values, index orders, masks and numbers of dimensions',
  'The helpers are called from every subset and slice in the package; tests sample short increasing index lists and one or two masks.',
  [S+'util/helpers.py'],[('get_formatted_slice',S+'util/helpers.py'),('get_optimal_slice_from_array',S+'util/helpers.py'),('get_reduced_slice',S+'util/helpers.py'),('get_trimmed_array_by_mask',S+'util/helpers.py')])

p('C04','Interpolated bounds and corners are gap free and consistent with the centers',
  'For every real coordinate vector of two or more centers, interpolated cell bounds share each interior edge, place it midway between the neighbouring centers, and extend each outer edge by the mean distance between interior midpoints (by the center distance when there are only two centers). Extrapolated two-dimensional corners average the four surrounding centers inside and continue outwards on every edge by the mean center spacing in the direction of the coordinate. Converting corners to the four-corners-per-cell layout and back returns the same (transposed) corner lattice, and expanding a rectilinear grid with bounds repeats each coordinate and assigns every cell its own four corners.',
  ['inputs'],'all lengths, all real coordinate values, increasing and decreasing, all grid shapes',
  'Tests compare against a few stored arrays; edge rules, orientation and every index must hold for every shape and value.',
  [S+'util/helpers.py',S+'spatial/grid.py'],[('get_bounds_from_1d',S+'util/helpers.py'),('get_extrapolated_corners_esmf',S+'util/helpers.py'),('create_ocgis_corners_from_esmf_corners / get_esmf_corners_from_ocgis_corners',S+'util/helpers.py'),('expand_grid',S+'spatial/grid.py')])

p('C05','Longitude wrapping moves coordinates by whole turns and is reversible',
  'Wrapping longitudes changes each value only by a whole number of 360 degree turns and leaves every value above the 180 degree meridian wrapped below it and every value at or below it unchanged; unwrapping adds exactly one turn to every negative value and leaves the others unchanged, so wrap after unwrap and unwrap after wrap restore values, and repeating an operation changes nothing. Wrapping or unwrapping a point moves it by the same rule and keeps its latitude. The wrapped state reported for coordinates is unwrapped exactly when some value exceeds the 180 degree meridian, else wrapped exactly when some value is negative, else unknown, and the action chosen to match two states is to wrap, to unwrap, or nothing accordingly. Points and polygons (interior rings included) move by the same rule as coordinate arrays. Reordering a wrapped grid brings its longitudes into ascending order by rotating each row, and every mask, bound and data value moves along with the coordinate it belongs to.',
  ['inputs'],'all coordinate arrays with values in the geographic range, all combinations of wrapped states',
  'Tests use a few sample grids; boundary values (0, 180, 360) and mixed arrays are unsampled.',
  [S+'spatial/wrap.py',S+'variable/crs.py'],[('CoordinateArrayWrapper',S+'spatial/wrap.py'),('GeometryWrapper',S+'spatial/wrap.py'),('_get_wrapped_state_from_array_ / get_wrap_action',S+'variable/crs.py')])

p('C06','A value-range subset keeps exactly the elements inside the range',
  'Subsetting a one-dimensional coordinate by a lower and upper value selects exactly the elements inside the closed (or, on request, open) interval when there are no bounds, and exactly the elements whose cell overlaps the interval when bounds are present (cells that share an end point with their neighbour are half open at the lower limit), for ascending and descending coordinates and bounds. The returned indices select the returned values, bounds follow their centers, and an empty selection is reported as an error and never returned as data.',
  ['inputs'],'all coordinate vectors, bounds, range limits, closed and bounds flags',
  'Tests use a few vectors; the equality and touching cases at both ends for both orientations are combinatorial.',
  [S+'variable/base.py'],[('Variable.get_between',S+'variable/base.py')])

p('C07','Dates and numeric times stay in step',
  'The dates a time variable reports are those of its current values, mask, units and calendar, and its numeric times those of its current dates, after any sequence of edits: new values, masks, single assignments, units or calendar changes, unit conversion, slicing and copying. For units of months, whole month offsets in any order, with gaps, negative or two-dimensional, turn into the dates that many months from the origin and back into the same offsets; the difference in months between two dates is twelve times the year difference plus the month difference; and the origin is the date the units spell, with or without a day and a clock time, anything else being an error. A date interval meets a month (year) exactly when the month (year) lies from that of the lower end up to but excluding that of the upper end, continuing over the year end, or is that of both ends.',
  ['inputs','histories'],'all origins, offsets, shapes, interval ends, months and years; all edits of a time variable',
  'Tests convert one stored file of consecutive monthly values and read converted times once; gaps, signs, bounds and stale conversions are unsampled.',
  [S+'variable/temporal.py',S+'util/helpers.py'],[('TemporalVariable.value_datetime / value_numtime and setters',S+'variable/temporal.py'),('get_datetime_from_months_time_units / get_num_from_months_time_units / get_difference_in_months',S+'variable/temporal.py'),('get_is_date_between',S+'util/helpers.py')])

p('C08','Temporal grouping puts every time step in exactly its groups',
  'Grouping a time axis, in any order and with or without bounds, by any combination of year, month and day, or by everything, assigns every step to exactly one group, two steps share a group exactly when the chosen parts agree, and each group\'s time bounds are the earliest and latest bounds of its members. Grouping by seasons gives, for each season (and each calendar year, when the year is asked for) with a step in it, a group of exactly the steps in its months; seasons without steps give none. A unique-season grouping gives one group for each occurrence of a season all of whose months have steps, a season over the year end taking its later months from the following year, and no group for an incomplete occurrence. Selecting a time region keeps exactly the steps with a requested month and year, in order, and is an error when there are none. Requests passed in are unchanged.',
  ['inputs'],'all time axes, all grouping and season specifications, all time regions',
  'Tests use a few complete daily or monthly axes and the four standard seasons; gaps, order and unusual seasons are unsampled.',
  [S+'variable/temporal.py'],[('TemporalVariable.get_grouping and helpers',S+'variable/temporal.py'),('get_time_region / get_time_regions / iter_boolean_groups_from_time_regions / get_sorted_seasons',S+'variable/temporal.py')])

p('C09','Combining masks only ever adds masked elements',
  'Setting a mask on a variable, with the update option, leaves every previously masked element masked and masks exactly the union; without it, the mask is exactly what was given, and the variable\'s own values are untouched either way. Cascading a mask to other variables masks every element whose shared-dimension position is masked in the source and no other, for every order and superset of dimensions, and leaves excluded and unrelated variables alone. A mask is all-false or absent when nothing is masked, and shape mismatches are errors.',
  ['inputs','histories'],'all shapes, dimension orders, masks, sequences of mask operations',
  'Tests mask a few small variables; position mapping across dimension orders is sampled once.',
  [S+'variable/base.py',S+'util/helpers.py'],[('Variable.set_mask / get_mask',S+'variable/base.py'),('set_mask_by_variable',S+'variable/base.py'),('VariableCollection.set_mask',S+'variable/base.py')])

p('C10','Slicing variables and collections keeps all members aligned',
  'Slicing a variable or a whole collection by dimension names applies the same index to every member that has the dimension and none to the others, so that values, masks, bounds and dimension sizes of every member agree with plain array indexing of the originals. Indexing with one index array per dimension selects per dimension, and assigning by index sets the value and mask of exactly the addressed elements. Every member afterwards has a shape equal to its dimensions\' sizes and still belongs to the new collection, and the sliced-from collection, its members and its dimensions are unchanged.',
  ['inputs','histories'],'all collections, dimension layouts, slices and chains of slices',
  'Tests slice a few fixed fields; alignment must hold for every layout, slice form and chain.',
  [S+'variable/base.py'],[('VariableCollection.__getitem__',S+'variable/base.py'),('Variable.__getitem__ / get_mapped_slice',S+'variable/base.py')])

p('C11','Broadcasting by dimension name only permutes and inserts unit axes',
  'Broadcasting an array from source dimension names to any permutation and superset of them returns an array in which every element sits at the position named by its dimensions, new dimensions have length one, dropped source dimensions of length one are removed, and masks move with their values. The chain of axis swaps computed between two orderings of the same names turns the first into the second, and the scoped form restores the variable\'s original order, values and mask on exit, also when the body raises.',
  ['inputs','histories'],'all shapes, all name orders and supersets',
  'Tests broadcast a few shapes; the positions must be right for all permutations.',
  [S+'util/broadcaster.py',S+'util/helpers.py'],[('broadcast_array_by_dimension_names',S+'util/broadcaster.py'),('broadcast_scope',S+'util/broadcaster.py'),('get_swap_chain',S+'util/helpers.py')])

p('C12','Tile and chunk decompositions cover every cell exactly once',
  'For every row count, column count and positive tile size, the tiles produced for tiled computation are within the array, pairwise disjoint, no larger than the tile size and together cover every cell exactly once. Splitting an index space into a given number of chunks per dimension yields contiguous, in-order, disjoint chunks that cover every dimension completely, and the number of chunks equals the product of the requested splits. Spatial decompositions split the extent into a gap-free lattice of boxes.',
  ['inputs'],'all shapes, tile sizes and split counts',
  'Tests try a few shapes; exact multiples, single rows and oversized tiles are unsampled.',
  [S+'calc/tile.py',S+'vmachine/mpi.py',S+'spatial/base.py'],[('get_tile_schema / get_slices',S+'calc/tile.py'),('create_slices / create_nd_slices',S+'vmachine/mpi.py'),('create_split_polygons',S+'spatial/base.py')])

p('C13','Chunk-local regridding indices merge to the right global cells',
  'When chunked weight files are merged, every local source or destination index of a chunk is rewritten to the one-based row-major global index of the same cell in the full grid, weights are left unchanged, and entries of all chunks appear once, in file order; a missing weight file is an error when merging strictly, and otherwise skipped without affecting the entries of the other files. The recorded chunk bounds equal the slices used to cut the chunks. Weighted data of a chunk are inserted into the master file at the window recorded for it, for every time, and nowhere else.',
  ['inputs'],'all grid shapes, chunk bounds and local index vectors',
  'Tests merge one small decomposition through files; the index arithmetic must hold for every shape and chunk.',
  [S+'spatial/grid_chunker.py',S+'spatial/grid.py'],[('create_merged_weight_file / _gc_remap_weight_variable_',S+'spatial/grid_chunker.py'),('GridChunker.insert_weighted',S+'spatial/grid_chunker.py'),('Grid._gc_create_global_indices_ / _gc_create_index_bounds_',S+'spatial/grid.py')])

p('C14','Moving-window and convolution outputs use exactly the documented window',
  'For every odd window length k, the moving-window statistic (mean, min, max, median, var, std) at a time position is numpy\'s masked statistic of exactly the unmasked values within (k-1)/2 steps of that position in the same realization, level and cell, and is masked where the window holds no unmasked value. In same mode windows are clipped at the two ends of the series; in valid mode the (k-1)/2 positions at each end are masked. The shape is kept and nothing outside the window influences a result. A one-dimensional convolution gives every unmasked cell numpy\'s convolution of its own series with the kernel: in same mode centred, with the mask of the input; in valid mode the fully overlapping results fill the leading positions and the remaining len(kernel)-1 positions are masked.',
  ['inputs'],'all time lengths, window sizes, modes, values and masks',
  'Tests compare one or two windows on stored arrays without masks.',
  [S+'calc/library/statistics.py',S+'calc/library/math.py'],[('MovingWindow._iter_kernel_values_ / calculate',S+'calc/library/statistics.py'),('Convolve1D.calculate',S+'calc/library/math.py')])

p('C15','Run-length indices count every consecutive run',
  'Duration indices apply the named comparison (gt, lt, gte, lte) to every value, split each cell\'s own time series into maximal runs of consecutive steps that satisfy it, including runs of one step and runs touching either end (masked values never satisfy it), and report exactly the requested summary (mean, median, std, max, min) of those run lengths, or of a single zero where there is no run; the frequency variant reports every distinct run length once with the number of runs of that length. Cells are masked where the first time step is. The freeze-thaw count is the number of alternations between freezing and thawing events after the first event, where an event is the degree-day sum counted from a change of sign reaching the threshold, never negative.',
  ['inputs','histories'],'all time series, thresholds, comparison operators and summary operations',
  'A handful of stored series; runs of one step, masks, run boundaries at the ends and ties with the threshold are unsampled.',
  [S+'calc/library/index/duration.py',S+'calc/library/index/freeze_thaw.py'],[('Duration._iter_consecutive_ / calculate',S+'calc/library/index/duration.py'),('FrequencyDuration.calculate / _get_summary_',S+'calc/library/index/duration.py'),('freezethaw1d',S+'calc/library/index/freeze_thaw.py')])

p('C16','Bounding-box selection picks exactly the cells in the box',
  'Selecting grid cells or coordinates by a bounding box selects exactly the coordinates within the closed box, or the strict interior when touching is excluded, in every layout: coordinate vectors and two-dimensional coordinate arrays select the same cells of the same grid. The subset returned for a box is the smallest index window holding every selected cell, cells of the window outside the box and cells masked before are masked in it, and everything else in it is as in the source. Requests that forbid touching are rejected exactly when some cell coordinate touches the box edge in both directions. The grid extent is the minimum and maximum over all its coordinates or bounds.',
  ['inputs'],'all grids, layouts, boxes and touching options',
  'Tests use a few boxes well inside the grid; non-square grids and edge contacts are unsampled.',
  [S+'spatial/grid.py',S+'spatial/geomc.py'],[('get_hint_mask_from_geometry_bounds',S+'spatial/grid.py'),('arr_intersects_bounds',S+'spatial/grid.py'),('get_xyz_select',S+'spatial/geomc.py'),('Grid._get_extent_',S+'spatial/grid.py')])

p('C17','Temporary scopes restore the state they changed, also on failure',
  'Code run inside a temporary scope sees the temporary state (orphaned variables have no parent but keep their dimensions on request, dimensions carry the mapped names, the grid has the requested abstraction, the communicator over the requested ranks is current, the file of the driver is open), and afterwards the prior state is back exactly, whether the body returns or raises, and for nested scopes: parents, dimension names and objects, automatic or fixed abstraction, current and registered communicators. Every communicator created for a scope or request is freed exactly once, and a driver scope closes exactly what it opened.',
  ['inputs','histories','fault_sequences'],'all objects scoped, all nestings, bodies that return or raise at any point',
  'Tests exercise the normal exit of single scopes; exceptional and nested exits are histories.',
  [S+'base.py',S+'vmachine/core.py',S+'driver/base.py'],[('orphaned / renamed_dimensions / renamed_dimensions_on_variables / grid_abstraction_scope',S+'base.py'),('vm_scope / OcgVM.create_subcomm / free_subcomm',S+'vmachine/core.py'),('driver_scope',S+'driver/base.py')])

p('C18','Record iteration emits each element once with its own coordinates',
  'Iterating a variable with followers yields one record per element of the lead variable in row-major order (skipping masked elements only when masked output is not allowed), and every follower value in a record is the one at the lead element\'s position along the shared dimensions, whatever the follower\'s dimension order. Masked values appear as missing, melted output has one record per melted variable with its own name, value and repeated attributes, entries repeated on the call appear in every record, lower and upper bounds of the element accompany it on request, a collection\'s records are renamed as its header map says (others dropped only when strict), and iterating does not change the variables.',
  ['inputs'],'all shapes, follower dimension orders, masks and options',
  'Tests iterate a few small variables.',
  [S+'variable/iterator.py',S+'variable/base.py'],[('Iterator.__iter__',S+'variable/iterator.py'),('get_record',S+'variable/iterator.py'),('Variable.get_iter / VariableCollection.iter',S+'variable/base.py')])

p('C19','Reducing and exploding mesh connectivity preserves every element',
  'Reducing an integer coordinate index keeps, for every element, the same coordinates through the new index as through the old one, uses each retained coordinate once, drops unreferenced coordinates and numbers them contiguously from the requested start index. Reducing the coordinates of a mesh keeps the start index, the multi-part break value and the break positions of its connectivity. Splitting an element at the multi-part break value yields its parts in order without the breaks. Iterating the geometries of a mesh gives every element part by part, for either start index, gives the same again when repeated, and gives the same on the reduced mesh, leaving the connectivity as it was.',
  ['inputs'],'all coordinate indices, start indices, coordinate arrays, break values',
  'Tests reduce a few small meshes in serial.',
  [S+'spatial/geomc.py',S+'util/helpers.py'],[('reduce_reindex_coordinate_index',S+'spatial/geomc.py'),('iter_multipart_coordinates / get_geometry_iterable',S+'spatial/geomc.py'),('reduce_global',S+'spatial/geomc.py'),('create_unique_global_array',S+'util/helpers.py')])

p('C20','Calculations apply their documented definition at every position',
  'Calculations return exactly the documented expression of the unmasked inputs at each position: the quotient, masked where an input is masked or the divisor is zero; the natural logarithm, masked where the input is masked or not positive; the heat index regression, masked where an input is masked, the temperature is below 80 or the humidity below 40; per cell and temporal group the number of steps for which the named comparison (gt, lt, gte, lte; anything else is refused) or the closed range holds; numpy\'s masked sum, max, min, mean, median and standard deviation and the linearly interpolated percentile of the unmasked steps, masked where every step is masked; and an expression string its formula of the named variables, masked where one of them is. Executed on a field, every output value belongs to the input values at the same position and the same temporal group, whatever the dimension order (dimensions unknown to the dimension map are kept), a transform with a temporal grouping is averaged over each group after it is applied, sample sizes count the unmasked steps of the group, and the source variables keep their values and masks. Each of several requested calculations, functions or expressions, is found in every field of a collection, computed from that field\'s own data.',
  ['inputs'],'all shapes, dimension orders, values, masks, thresholds, operators and temporal groups',
  'Tests compare a few sample arrays; ties with thresholds, masks and permuted dimensions are unsampled.',
  [S+'calc/library/thresholds.py',S+'calc/library/math.py',S+'calc/library/index/heat_index.py',S+'calc/library/statistics.py',S+'calc/base.py',S+'calc/eval_function.py',S+'calc/engine.py'],[('Between / Threshold.calculate',S+'calc/library/thresholds.py'),('Divide / Sum / NaturalLogarithm.calculate',S+'calc/library/math.py'),('HeatIndex.calculate',S+'calc/library/index/heat_index.py'),('_execute_ / _get_temporal_agg_fill_ / _iter_conformed_arrays_',S+'calc/base.py')])

p('C21','Dimension maps survive conversion to and from plain dictionaries',
  'Writing a dimension map to a dictionary and reading it back gives an equal map, for any entries, groups (nested ones too), bounds, attributes, topologies and properties, and shares nothing with the original. Setting an entry changes that entry as documented (attributes already on the entry take precedence over defaults; for the spatial mask, given attributes over those of the variable over defaults; a section belongs to the variable it was set with) and never disturbs other entries, a refused edit changes nothing, asking a map adds no information to it, a group path leads to the map set for it last, and updating one map from another keeps both sets of entries, those of the other map winning, with the two maps staying independent.',
  ['inputs','histories'],'all sequences of map edits',
  'Tests round-trip one or two maps.',
  [S+'driver/dimension_map.py'],[('as_dict / from_dict / set_variable / update',S+'driver/dimension_map.py')])

p('C22','A spatial selection keeps exactly the elements meeting the geometry',
  'Given which geometries intersect (and which only touch) the selection geometry, a spatial subset leaves unmasked exactly the elements that were unmasked before and meet it - not those that only touch it, unless touching ones are kept - with and without a spatial index, for geometry variables, grids whose cells are points or polygons of any sizes, and unstructured coordinates. The subset spans the smallest slices around the selected elements (or everything, masked outside, when slicing is not applied), the returned slice is the one applied, data on the same dimensions show the same elements, and an intersection replaces each selected geometry by its own intersection with the selection. Elements a hint mask rules out are not selected; the object operated on, its masks, its data and the hint mask are unchanged. Selecting nothing is an error or an empty object. Buffering changes every unmasked geometry at its own place, and the nearest geometry is an unmasked one at the least distance.',
  ['inputs'],'all geometry arrays, masks, hints, selection geometries, grids and options',
  'Tests select from a few regular grids of equal cells with one or two shapes.',
  [S+'variable/geom.py',S+'spatial/geomc.py',S+'spatial/grid.py',S+'spatial/index.py'],[('geometryvariable_get_mask_from_intersects',S+'variable/geom.py'),('GeometryProcessor.iter_intersects / iter_intersection',S+'variable/geom.py'),('GeometryVariable.get_intersects / get_intersection / get_buffer / get_nearest',S+'variable/geom.py'),('AbstractGeometryCoordinates.get_spatial_subset_operation',S+'spatial/geomc.py'),('Grid.get_spatial_subset_operation',S+'spatial/grid.py'),('SpatialIndex.iter_intersects',S+'spatial/index.py')])

p('C23','Spatial averages are area-weighted means of the unmasked data',
  'The weight of a geometry is its area (one for a geometry without area) relative to the largest unmasked one, masked where the geometry is. Unioning geometries over all or some of their dimensions gives, for each position along the other dimensions, the union of exactly the unmasked geometries there. Averaging data over the unioned dimensions gives, for each position along all other dimensions of the data and in whatever order its dimensions are, the mean of the unmasked data weighted by the areas of the geometries they belong to, as a real number, and masked where there are none. Spread over several ranks, the union is that of all ranks and each rank counts by the area of its own geometries. The source geometries and data are unchanged.',
  ['inputs','configurations'],'all geometries, masks, dimension orders, data types, sets of unioned dimensions and rank counts',
  'Tests average a few arrays whose dimension order is that of the geometries, without masks.',
  [S+'variable/geom.py'],[('GeometryVariable.area / weights',S+'variable/geom.py'),('GeometryVariable.get_unioned',S+'variable/geom.py')])

p('N01','A run on many processes gives the same result as a serial run',
  'Every operation run on any number of processes produces, once gathered, the same output as on one process.',
  ['schedules','configurations'],'all process counts and message schedules','The suite runs serially here; parallel tests are skipped.',
  [S+'vmachine/core.py',S+'vmachine/mpi.py'],[('OcgVM',S+'vmachine/core.py'),('variable_scatter / variable_gather',S+'vmachine/mpi.py')])
p('N02','Data written to a file reads back unchanged',
  'Writing a field to a supported file format and reading it back returns the same variables, dimensions, attributes, masks and values.',
  ['inputs'],'all fields representable in the format','Tests round-trip a few fields.',
  [S+'driver/nc.py',S+'driver/vector.py',S+'driver/csv_.py'],[('DriverNetcdf.write_variable',S+'driver/nc.py')])
p('N03','Conservative regridding conserves the field integral',
  'Conservative regridding preserves the area-weighted total of the field over fully mapped destinations.',
  ['inputs'],'all source and destination grids','ESMF is an external library and absent from the test environment.',
  [S+'regrid/base.py'],[('RegridOperation',S+'regrid/base.py')])
p('N04','Geometric predicates and intersections are exact',
  'Whether two geometries intersect or touch, and their intersection, union, area and buffer, are computed correctly for every pair of geometries.',
  ['inputs'],'all geometries','Tests intersect a few shapes.',
  [S+'variable/geom.py',S+'spatial/geomc.py'],[('GeometryProcessor.iter_intersects',S+'variable/geom.py')])
p('N05','Unit conversion is physically correct',
  'Conforming a variable to other units converts every value to the same physical quantity.',
  ['inputs'],'all convertible unit pairs and values','Tests convert a few pairs.',
  [S+'util/units.py',S+'variable/base.py'],[('Variable.cfunits_conform',S+'variable/base.py')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
