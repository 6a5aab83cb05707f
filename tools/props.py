"""Property table: the source of properties.jsonl and MANIFEST.json."""

NOTES = ("Every check regenerates its obligations from /repo's current source (see DESIGN.md: extraction, contracts, back ends, "
         "trusted base). A violation is reported with a failing input replayed on the uninstrumented code where one is found; "
         "otherwise the line ends with no-failing-input-found.")
REAL = "Reals for floats; library calls by the assumed contracts listed in the evidence. "

PROPS = [
    dict(
        id="C01", title="Affine sensor models invert exactly and follow the geotransform",
        statement="An image with a geotransform maps pixel (x, y) to the geotransform's world location, with the default or DEM "
        "elevation at that location, and maps every such world location back to the same pixel, with or without a map projection. "
        "A geotransform that is not invertible is rejected when the model is built.",
        for_all="every geotransform with non-zero determinant, every pixel, every elevation surface, every invertible projection",
        why="tests use a handful of pixels of one north-up raster; rotated/sheared geotransforms, projections and round trips for all pixels are not reached",
        files=["photogrammetry/gdal_sensor_model.py", "gdal/gdal_sensor_model_builder.py"],
        mech=["GDALAffineSensorModel.image_to_world / world_to_image @ photogrammetry/gdal_sensor_model.py"],
        note=REAL + "pyproj transforms are assumed mutually inverse; everything else in the model is proved.",
    ),
    dict(
        id="C02", title="Projective, tie-point and chip models are faithful in both directions",
        statement="A projective transform's inverse undoes its forward direction; a model built from tie points maps every tie point "
        "to its location; a chip's pixel maps to the world location of the full-image pixel it was cut from and back, with options and elevation model passed on.",
        for_all="every projective parameter set with non-zero denominators, every consistent set of any number of tie points, every chip offset/scale",
        why="tests sample one transform and one chip",
        files=["photogrammetry/transforms.py", "photogrammetry/projective_sensor_model.py", "photogrammetry/chipped_image_sensor_model.py"],
        mech=["ProjectiveTransform.forward / inverse / estimate @ photogrammetry/transforms.py",
              "ChippedImageSensorModel @ photogrammetry/chipped_image_sensor_model.py"],
        note=REAL + "np.linalg.lstsq is assumed to solve consistent full-rank systems; estimation is proved for any number of tie points.",
    ),
    dict(
        id="C03", title="RPC models evaluate the RPC00B polynomials and image-to-world inverts them",
        statement="World to image is the RPC00B rational polynomial (standard term order, offsets and scales) of the location. Image to "
        "world searches, from the given or default guess, for the location whose projection is nearest to the pixel, and returns it with the elevation of the surface there.",
        for_all="all coefficients, offsets, scales, locations, elevation surfaces and search options",
        why="tests project a few points of one image",
        files=["photogrammetry/rpc_sensor_model.py", "photogrammetry/math_utils.py"],
        mech=["RPCPolynomial.evaluate, RPCSensorModel.world_to_image / image_to_world @ photogrammetry/rpc_sensor_model.py"],
        note=REAL + "scipy.optimize.minimize is assumed to return some x with fun(x); how close it gets is checked on concrete runs only (bounded).",
    ),
    dict(
        id="C04", title="RSM polynomial models evaluate RSM polynomials and image-to-world inverts them",
        statement="World to image normalises the ground location, evaluates the RSM rational polynomials (coefficient of x^i y^j z^k in the "
        "standard order, or the low-order form) and denormalises. Image to world searches from the low-order guess for the location whose projection is nearest to the pixel and returns it with the surface elevation there.",
        for_all="all polynomial powers up to 5, coefficients, normalisation offsets/scales, pixels and elevation surfaces",
        why="tests project a few points of one image",
        files=["photogrammetry/replacement_sensor_model.py"],
        mech=["RSMPolynomial, RSMPolynomialSensorModel @ photogrammetry/replacement_sensor_model.py"],
        note=REAL + "Powers 0..5 enumerated completely (the standard's range); scipy.optimize.minimize assumed to return some x with fun(x).",
    ),
    dict(
        id="C05", title="RSM ground domain conversions are exact and inverse",
        statement="Geodetic coordinates convert to the RSM ground domain (geodetic, 0..2 pi geodetic, rectangular) and back to the same "
        "location, without modifying their input. The default elevation is the reference point's or the vertices' mean and the bounding box is the tight box of the vertices; incomplete domains are rejected.",
        for_all="all locations, domain forms, origins, axes and vertices",
        why="tests use one rectangular and one geodetic domain",
        files=["photogrammetry/replacement_sensor_model.py"],
        mech=["RSMGroundDomain @ photogrammetry/replacement_sensor_model.py"],
        note=REAL + "The geodetic/geocentric conversion is used through its contract (inverse pair, C26).",
    ),
    dict(
        id="C06", title="A segmented RSM image always answers with the section that covers the point",
        statement="For a multi-section RSM image, a pixel is projected with the model of the section whose rows and columns contain it (edges "
        "clamped to the grid), and a world location with the section its low-order estimate falls in.",
        for_all="all section counts and sizes (grids up to 3x3), all pixels, inside or outside the image",
        why="tests use one two-section image and few pixels",
        files=["photogrammetry/replacement_sensor_model.py"],
        mech=["RSMSectionedPolynomialSensorModel.get_section_sensor_model @ photogrammetry/replacement_sensor_model.py"],
        note=REAL + "Grids of section models up to the stated size; the section models themselves are arbitrary functions.",
    ),
    dict(
        id="C07", title="SICD pixel grid and image plane coordinates convert exactly both ways",
        statement="For a SICD image, (row, col) to metric image coordinates to the image plane in earth-fixed space and back returns the same "
        "values, for row and column directions at any angle; off-plane points get the coordinates of their perpendicular foot. The plane normal is the unit vector of row x column.",
        for_all="all unit row/column directions, spacings, scene centers, pixels and points",
        why="tests use three images, all with perpendicular directions",
        files=["photogrammetry/sicd_sensor_model.py"],
        mech=["SARImageCoordConverter @ photogrammetry/sicd_sensor_model.py"],
        note=REAL + "Precondition: unit, non-parallel directions (as SICD metadata guarantees).",
    ),
    dict(
        id="C08", title="Range/range-rate projection to a ground plane satisfies its defining equations",
        statement="The ground point found for a range, range rate, platform position and velocity lies in the plane, at that range, with that "
        "range rate, and on the imaged side of the track. A contour that misses the plane is rejected with an error, and nothing else is.",
        for_all="all planes, platform states above the plane with velocity not normal to it, all ranges and range rates",
        why="tests check a few points of real images to some pixels",
        files=["photogrammetry/sicd_sensor_model.py"],
        mech=["GroundPlaneRRDotSurfaceProjection.rrdot_to_ground @ photogrammetry/sicd_sensor_model.py"],
        note=REAL + "Precondition: platform above the plane and not right above the track line through the reference point.",
    ),
    dict(
        id="C09", title="SICD image grid points get the correct range, range rate and platform state",
        statement="For every SICD image formation (PFA, RGAZCOMP, INCA, PLANE/XRGYCR) the center-of-aperture projection returns the range and range "
        "rate the SICD projection equations define for the grid point, with the platform position and velocity at the point's COA time and the "
        "adjustable parameters (ARP position/velocity offsets, range bias) applied.",
        for_all="all grid points, platform paths, time-of-COA, polar-angle, scale-factor and rate polynomials, all adjustable offsets",
        why="tests exercise a few pixels of three sample images, none with adjustable parameters",
        files=["photogrammetry/sicd_sensor_model.py"],
        mech=["COAProjectionSet.precise_rrdot_computation and _grid_specific_projection of its subclasses @ photogrammetry/sicd_sensor_model.py"],
        note=REAL + "Platform and COA polynomials are arbitrary functions with their derivatives (any degree); np.polynomial by contract, and executed up to 4x4 coefficients / degree 4.",
    ),
    dict(
        id="C10", title="SICD/SIDD sensor models locate pixels on the chosen surface and project back",
        statement="Image to world takes the pixel (shifted by the chip's first pixel) through the image grid and its range/range-rate contour to the "
        "given elevation model's surface, or the SCP ground plane, and returns the geodetic location. A constant-height surface yields a point of that "
        "height, terrain yields every point at which the contour meets it (to the step of 10 m or half a post). For scene points in the ground plane world to image returns a pixel whose ground point is within 1 cm when the iteration converges.",
        for_all="all pixels, grids, contours, plane normals, looks sides and platform geometries with the platform above the scene",
        why="tests project a few points of sample images with loose tolerances",
        files=["photogrammetry/sicd_sensor_model.py", "gdal/sicd_sensor_model_builder.py"],
        mech=["SICDSensorModel.image_to_world / world_to_image, HAERRDotSurfaceProjection, DEMRRDotSurfaceProjection @ photogrammetry/sicd_sensor_model.py"],
        note=REAL + "Geodetic conversion and local normal used by contract. That terrain points are on the contour is proved for any number of contour points, that none is missed for up to 3; full terrain and real images on sampled runs (bounded).",
    ),
    dict(
        id="C11", title="Elevation lookups use the right DEM tile and interpolate its posts",
        statement="Setting an elevation sets the bilinear interpolation of the posts of the tile containing the location and leaves longitude and latitude "
        "alone; outside of the tile set, or with a missing tile, the location is unchanged. The result does not depend on earlier lookups or the cache. "
        "Tile names follow the SRTM and format-string conventions; region summaries give the lowest and highest elevation of the same tile; constant models give their constant.",
        for_all="all locations, tile contents, tile sets and lookup histories",
        why="tests read a few locations of one tile",
        files=["photogrammetry/digital_elevation_model.py", "photogrammetry/srtm_dem_tile_set.py", "photogrammetry/generic_dem_tile_set.py",
               "photogrammetry/elevation_model.py", "gdal/gdal_dem_tile_factory.py"],
        mech=["DigitalElevationModel.set_elevation / describe_region @ photogrammetry/digital_elevation_model.py",
              "GDALDigitalElevationModelTileFactory.get_tile @ gdal/gdal_dem_tile_factory.py", "SRTMTileSet.find_tile_id @ photogrammetry/srtm_dem_tile_set.py"],
        note=REAL + "RectBivariateSpline(kx=ky=1) assumed bilinear inside the grid; histories of 3 calls over 2 tiles of 2x3 posts (bounded), files on sampled runs.",
    ),
    dict(
        id="C12", title="Coordinates format to correct degrees, minutes, seconds and hemisphere",
        statement="Formatting a geodetic coordinate prints, for each directive, the degrees, minutes and whole seconds of the angle's magnitude (minutes and "
        "seconds below 60, fixed widths), the correct hemisphere letter, radians or elevation, keeps literal text, and does not change the coordinate. "
        "Coordinate objects copy their input, reject a wrong number of components and expose their components by every name.",
        for_all="all longitudes, latitudes, elevations; all directives",
        why="tests format a few coordinates; carries at 60 minutes/seconds and negative angles near whole degrees are not sampled",
        files=["photogrammetry/coordinates.py"],
        mech=["GeodeticWorldCoordinate.__format__ / to_dms_string @ photogrammetry/coordinates.py"],
        note=REAL + "Specifications: nine composed ones proved (every directive except %l/%o), random ones of up to 8 tokens on concrete runs (bounded).",
    ),
    dict(
        id="C13", title="Web mercator tiles partition the map and contain their locations",
        statement="For every well-known tile set and zoom level, the tile found for a location inside the map has an existing row and column and bounds that "
        "contain the location; columns divide the longitudes evenly from the west, rows count from the south, neighbours share edges and the next level's four tiles divide "
        "each tile. The tile limits of an area are the smallest that include the tiles of its boundary points. Unknown set ids give no set.",
        for_all="all zoom levels 0..24, tiles, locations between the map's latitude limits, and areas",
        why="tests check a few tiles of low levels",
        files=["image_processing/map_tileset_wmq.py", "image_processing/map_tileset.py", "image_processing/map_tileset_factory.py"],
        mech=["WebMercatorQuadMapTileSet.get_tile / get_tile_for_location @ image_processing/map_tileset_wmq.py",
              "MapTileSet.get_tile_matrix_limits_for_area @ image_processing/map_tileset.py"],
        note=REAL + "pyproj's mercator by contract (linear in longitude, increasing in latitude, invertible). Areas of any number of boundary points.",
    ),
    dict(
        id="C14", title="Dynamic range parameters follow the histogram; scaling follows types",
        statement="Range parameters computed from a histogram: the actual range is the first to the last non-empty bucket; the suggested range is the range between "
        "the outlier percentages widened by the weights and kept inside the actual range, minimum not above maximum. Output type and scale parameters of each band follow its "
        "own values (or type, without adjustment) and the requested or own output type. The histogram is not modified.",
        for_all="all histograms with counts, bucket values, thresholds; all band types, output types and adjustments",
        why="tests use one smooth histogram; single-spike and sparse histograms are not sampled",
        files=["gdal/dynamic_range_adjustment.py", "gdal/gdal_utils.py"],
        mech=["DRAParameters.from_counts @ gdal/dynamic_range_adjustment.py", "get_type_and_scales / get_minmax_for_type @ gdal/gdal_utils.py"],
        note=REAL + "Histograms of any length and any number of bands by loop contracts; bands of mixed types up to 3 (bounded); GDAL statistics and histograms by contract.",
    ),
    dict(
        id="C15", title="Chip metadata map every chip pixel to its full-image pixel",
        statement="After any history of chips, updated SICD metadata describe the latest chip: first row/column relative to the original image and size; updated SIDD "
        "metadata map the latest chip's pixels to the full-image pixels they were cut from, composed with any chip the image already was, at the output size. Nothing else in the metadata "
        "changes, and sensor models built from them agree with the full image's.",
        for_all="all chip windows, output sizes, existing chips and histories",
        over=["inputs", "histories"],
        why="tests update once and compare a few fields",
        files=["image_processing/sicd_updater.py", "image_processing/sidd_updater.py"],
        mech=["SICDUpdater.update_image_data_for_chip @ image_processing/sicd_updater.py",
              "SIDDUpdater.update_image_data_for_chip / chipped_coordinate_to_full @ image_processing/sidd_updater.py"],
        note=REAL + "Fields of the xsdata documents hold exact values (formatting to text excluded); agreement of whole sensor models on sampled chips of real documents (bounded).",
    ),
    dict(
        id="C16", title="Encoded tiles hold the requested window and its own metadata",
        statement="An encoded tile is asked of GDAL with exactly the requested window, size, type, scaling, format and compression; NITF tiles carry the four corner "
        "locations and the SAR metadata of that tile only, whatever was requested before. The bytes written are returned; when a step fails none are; the temporary file is in "
        "memory and always closed and removed.",
        for_all="all windows, sizes, formats, compressions, metadata segments, failing steps; histories of tiles",
        over=["inputs", "histories", "fault_sequences"],
        why="tests create one tile per format and never make a step fail",
        files=["image_processing/gdal_tile_factory.py"],
        mech=["GDALTileFactory.create_encoded_tile / _create_gdal_translate_kwargs @ image_processing/gdal_tile_factory.py"],
        note=REAL + "gdal.Translate and its file system replaced by a recorder that can fail at each step; histories of any length by the frame of the factory; real pixels on sampled runs (bounded).",
    ),
    dict(
        id="C17", title="Temporary GDAL configuration is always undone",
        statement="While a configuration environment is active GDAL holds the options and the AWS credentials given to it; on leaving it, by whatever way and however "
        "environments are nested, entered again or reused, every option it set has again the value it had on entry, or none. Exceptions are not swallowed; options and credentials given are not modified.",
        for_all="all options set before, all given options, credentials, nestings of two, exceptions at every level, repeated uses",
        over=["inputs", "histories", "fault_sequences"],
        why="tests enter one environment once and leave it normally",
        files=["gdal/gdal_config.py"],
        mech=["GDALConfigEnv.__enter__ / __exit__ / with_aws_credentials @ gdal/gdal_config.py"],
        note=REAL + "GDAL's option table is a recorder (the real table on sampled runs); the option names are representatives.",
    ),
    dict(
        id="C18", title="Sensor models are built from exactly their metadata or not at all",
        statement="The RPC, RSM, tie-point and geotransform builders give every parameter of the model the value of its own metadata field, sections assembled by row and "
        "column; corner locations are matched to the corner pixels. When required fields are missing or unreadable no model is built and no exception escapes.",
        for_all="all values of all fields; every single missing, blank or unreadable field; TRE orders; RSM grids up to 2x2 (quick) sections",
        over=["inputs", "fault_sequences"],
        why="tests read one example TRE of each kind, complete and well formed",
        files=["gdal/rpc_sensor_model_builder.py", "gdal/rsm_sensor_model_builder.py", "gdal/projective_sensor_model_builder.py",
               "gdal/gdal_sensor_model_builder.py", "gdal/xmltre_utils.py"],
        mech=["RPCSensorModelBuilder / RSMSensorModelBuilder @ gdal", "ProjectiveSensorModelBuilder @ gdal/projective_sensor_model_builder.py"],
        note=REAL + "float()/int() of a field's text are assumed to give the number the text denotes; ElementTree by its documented behaviour.",
    ),
    dict(
        id="C19", title="NITF data extension segments are read completely and losslessly",
        statement="Segments are found by name, in file order, over all metadata lists; their XML document is the one stored, whether GDAL presents it encoded or inline, and none when there is "
        "none. An extracted header holds every field at its place, left-justified and padded to its fixed width, with the subheader; a missing field is reported.",
        for_all="lists of segments with any names and presentation; header fields of every admissible length",
        why="tests read one header of one file",
        files=["gdal/nitf_des_accessor.py"],
        mech=["NITFDESAccessor.get_segments_by_name / extract_desdata_xml / extract_des_header @ gdal/nitf_des_accessor.py"],
        note=REAL + "Headers: any texts, every version and subheader length (texts as opaque tokens that only record how they are padded). Up to 3 lists of 3 segments (bounded).",
    ),
    dict(
        id="C20", title="Image geometries of features are read by preference and updated in place",
        statement="The image geometry of a feature is the preferred property present (imageGeometry, imageBBox, then deprecated ones if allowed) with exactly its coordinates; reading modifies "
        "nothing. Setting stores the geometry or its bounds; updating replaces the properties that exist and touches no others.",
        for_all="all combinations of properties and deprecated properties, all coordinates",
        why="tests use one feature per property, never combinations",
        files=["features/imaged_feature_property_accessor.py"],
        mech=["ImagedFeaturePropertyAccessor.find_image_geometry / update_existing_image_geometries @ features/imaged_feature_property_accessor.py"],
        note=REAL + "shapely's constructors and mapping by contract (real ones on sampled runs).",
    ),
    dict(
        id="C21", title="Geolocation gives features the locations of their image coordinates",
        statement="After geolocation a feature's geometry has the structure of its image geometry with each coordinate at its interpolated location in degrees and elevation; the bbox holds the located "
        "corners; the center is the located centroid. Nothing else changes. Interpolation agrees with the sensor model on its grid, uses the elevation model and covers every feature.",
        for_all="all interpolations, coordinates of eight geometry types, boxes, missing geometries, sensor and elevation models",
        why="tests locate one feature of each type with an affine model",
        files=["features/geolocation.py"],
        mech=["Geolocator.geolocate_features, LocationGridInterpolator @ features/geolocation.py"],
        note=REAL + "scipy's linear spline is bilinear interpolation by contract; geojson/shapely constructors by contract. Any number of features with points and boxes, and any resolution of the grid, by loop contracts; other geometries up to 3 features, interpolation inside 2x2 and 3x3 grids (bounded).",
    ),
    dict(
        id="C22", title="Spatial index queries answer with the matching features",
        statement="Queries of the spatial index return the features themselves whose (image) geometry intersects the geometry, or is nearest to it within the distance; features without a geometry are "
        "never returned and never shift the answer to another feature.",
        for_all="all collections with and without geometries, accessors, distances and query results of the tree",
        why="tests use collections in which every feature has a geometry",
        files=["features/feature_index.py"],
        mech=["STRFeature2DSpatialIndex.find_intersects / find_nearest @ features/feature_index.py"],
        note=REAL + "shapely.STRtree by contract (any answer); collections of any size proved, up to 30 features sampled against brute force (bounded).",
    ),
    dict(
        id="C23", title="SAR image operations compute the power and its 8-bit stretches",
        statement="For complex pixels of every supported type: the complex value is re + j im, or the amplitude (through its table) at 256ths of a turn; power is re^2 + im^2 without integer overflow; "
        "decibels are 10 log10 of it; the linear mapping takes the smallest value to 0 and the largest to 1 (constant images to 0.5); histogram and quarter-power stretches are "
        "255 x / (scale * mean) limited to [0, 255], blank images black; the given pixels are not modified and unknown pixel types are rejected.",
        for_all="all image shapes, pixel values, amplitude tables, scale factors and precomputed means",
        why="tests use a few 2x2 images; overflow needs the extreme integers and blank images a zero mean",
        files=["image_processing/sar_complex_imageop.py"],
        mech=["image_pixels_to_complex / histogram_stretch / quarter_power_image / linear_mapping @ image_processing/sar_complex_imageop.py"],
        note=REAL + "NumPy's elementwise functions and reductions by contract on arrays of symbolic shape (an arbitrary element is proved).",
    ),
    dict(
        id="C24", title="Images get the best sensor model their metadata describe",
        statement="The factory uses the best readable metadata: SIDD or SICD documents, then RSM, then RPC as the precise model; CSCRNA corners, then four or more ground control points, then the "
        "geotransform as the approximate one; TRE models of chips are wrapped with the pixel pairs of ICHIPB (ignored if unreadable) and their corners are those of the full image; both models are combined "
        "as a composite, unreadable metadata never discard a model of other metadata, and only selected types are used. Datasets that cannot be opened raise ValueError and others are given to the factory "
        "with their own size and metadata.",
        for_all="all combinations of present, absent and unreadable metadata, selections of types, chip pixels and segment orders",
        why="the combinations number in the thousands; tests exercise about ten of them",
        files=["gdal/sensor_model_factory.py", "gdal/gdal_utils.py"],
        mech=["SensorModelFactory.build @ gdal/sensor_model_factory.py", "ChippedImageInfoFacade @ gdal/sensor_model_factory.py", "load_gdal_dataset @ gdal/gdal_utils.py"],
        note=REAL + "Builders by contract (a model or None), gdal.Open by contract.",
        over=["inputs", "configurations"],
    ),
    dict(
        id="C25", title="Composite models answer precisely, started at the approximate answer",
        statement="image_to_world of a composite model is the precise model's answer for the pixel, terrain and options of the caller, its search started at the longitude and latitude of the approximate "
        "model's answer within 0.005 degrees; world_to_image is the precise model's; the caller's pixel, location and options are not modified, also over repeated calls.",
        for_all="all pairs of sensor models (arbitrary functions), pixels, locations, option dictionaries and repeated calls",
        why="tests use one pair of models and never look at the options passed on or changed",
        files=["photogrammetry/composite_sensor_model.py"],
        mech=["CompositeSensorModel.image_to_world / world_to_image @ photogrammetry/composite_sensor_model.py"],
        note=REAL + "The two models are arbitrary.",
        over=["inputs", "histories"],
    ),
    dict(
        id="C26", title="Geodetic and geocentric positions convert both ways; components stay separate",
        statement="geodetic_to_geocentric and geocentric_to_geodetic are mutually inverse conversions between longitude, latitude (radians) and height and earth-centered x, y, z of the WGS84 ellipsoid, "
        "without modifying their argument; every named component of a coordinate reads and writes only itself, coordinates are independent of what they were made from and of other defaults, and wrong "
        "numbers of components raise ValueError.",
        for_all="all locations and geocentric positions, all components and values",
        why="tests convert a handful of places; units and order of the axes matter everywhere",
        files=["photogrammetry/coordinates.py"],
        mech=["geodetic_to_geocentric / geocentric_to_geodetic @ photogrammetry/coordinates.py", "WorldCoordinate / GeodeticWorldCoordinate / ImageCoordinate @ photogrammetry/coordinates.py"],
        note=REAL + "pyproj by contract (any mutually inverse pair); the ellipsoid formulas themselves are sampled (bounded).",
    ),
    dict(
        id="C27", title="Map tiles show the image where it is, in the range asked for",
        statement="Every pixel of a map tile is sampled at the image location of its longitude and latitude (the sensor model at a grid over the tile, bilinear in between), in the coarsest overview that is not "
        "coarser than the tile; the window read lies within the image and covers the tile's part of it, and tiles off the image, or whose locations the sensor model cannot project, are None. MINMAX and DRA map the range of each of "
        "the first three bands linearly to 0..255, clipped, from the band's statistics or else its pixels; complex pixels become their quarter power image; pixels are opaque where no band is 0.",
        for_all="every image and tile size, box, sensor model, pixel values, band statistics known or not, 1 to 4 bands, up to 3 overviews",
        why="tests create tiles of one or two images and look at sizes and hashes; a window off by a pixel, a wrong overview or range goes unseen",
        files=["image_processing/gdal_tile_factory.py"],
        mech=["GDALTileFactory.create_orthophoto_tile @ image_processing/gdal_tile_factory.py", "GDALTileFactory._normalize_bands @ image_processing/gdal_tile_factory.py"],
        note=REAL + "cv2, RectBivariateSpline and gdal bands by contract; arrays of any shape element by element; 0, 1 or 3 overviews (bounded).",
        over=["inputs", "configurations"],
    ),
    dict(
        id="C28", title="SICD and SIDD models take every parameter from its own element",
        statement="SICD documents give the projection of their grid type and image formation (PFA, RGAZCOMP, INCA or plane) with every parameter, unit vector, spacing, polynomial and pixel from its own "
        "element, the slant plane normal of their geometry, and no model if there is no projection for them; SIDD documents give the plane projection of the product, and chips are used through the full "
        "image pixels of their first and last rows and columns. Polynomials have the listed coefficients at their exponents. build() returns None for documents that cannot be used.",
        for_all="all values of the metadata, both SICD versions, all grid types, image formations, sides of track, chip corners and orders of coefficients",
        why="tests build models of five documents; swapped elements or exponents can go unseen in them",
        files=["gdal/sicd_sensor_model_builder.py", "gdal/sidd_sensor_model_builder.py"],
        mech=["SICDSensorModelBuilder.from_dataclass @ gdal/sicd_sensor_model_builder.py", "SIDDSensorModelBuilder.from_dataclass @ gdal/sidd_sensor_model_builder.py"],
        note=REAL + "xsdata parsing by contract; orders of polynomials up to 5 (bounded); 5 real documents through the real parser (bounded).",
        over=["inputs", "configurations"],
    ),
]
