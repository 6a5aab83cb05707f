"""Histories of a single function on the concrete runs.

A call from a contract to one of the functions below becomes: the same argument objects with other contents, then the
contents asked for, with the results changed in place by the caller, and only then the call whose result the contract is about.
A function of its arguments answers the same; one that remembers (by identity of the arguments, or handing out its own
objects) does not.  Arguments have to come out as they went in."""
import contextlib
import importlib

import numpy as np

P = "photogrammetry."
SETTLE = {
    P + "gdal_sensor_model.GDALAffineSensorModel": ("image_to_world", "world_to_image"),
    P + "projective_sensor_model.ProjectiveSensorModel": ("image_to_world", "world_to_image"),
    P + "chipped_image_sensor_model.ChippedImageSensorModel": ("image_to_world", "world_to_image"),
    P + "composite_sensor_model.CompositeSensorModel": ("image_to_world", "world_to_image"),
    P + "rpc_sensor_model.RPCSensorModel": ("image_to_world", "world_to_image"),
    P + "rpc_sensor_model.RPCPolynomial": ("evaluate",),
    P + "replacement_sensor_model.RSMPolynomialSensorModel": (
        "image_to_world", "world_to_image", "ground_domain_to_image", "normalize_world_coordinate", "denormalize_world_coordinate",
        "normalize_image_coordinate", "denormalize_image_coordinate"),
    P + "replacement_sensor_model.RSMSectionedPolynomialSensorModel": ("image_to_world", "world_to_image"),
    P + "replacement_sensor_model.RSMPolynomial": ("evaluate", "__call__"),
    P + "replacement_sensor_model.RSMLowOrderPolynomial": ("evaluate", "__call__"),
    P + "replacement_sensor_model.RSMGroundDomain": ("geodetic_to_ground_domain_coordinate", "ground_domain_coordinate_to_geodetic"),
    P + "sicd_sensor_model.SARImageCoordConverter": ("rowcol_to_xrowycol", "xrowycol_to_rowcol", "xrowycol_to_ipp", "ipp_to_xrowycol"),
    P + "sicd_sensor_model.Polynomial2D": ("__call__",),
    P + "sicd_sensor_model.PolynomialXYZ": ("__call__",),
    P + "sicd_sensor_model.COAProjectionSet": ("precise_rrdot_computation",),
    P + "sicd_sensor_model.PFAProjectionSet": ("_grid_specific_projection",),
    P + "sicd_sensor_model.INCAProjectionSet": ("_grid_specific_projection",),
    P + "sicd_sensor_model.RGAZCOMPProjectionSet": ("_grid_specific_projection",),
    P + "sicd_sensor_model.PlaneProjectionSet": ("_grid_specific_projection",),
    P + "sicd_sensor_model.GroundPlaneRRDotSurfaceProjection": ("rrdot_to_ground",),
    P + "sicd_sensor_model.HAERRDotSurfaceProjection": ("rrdot_to_ground",),
    P + "sicd_sensor_model.DEMRRDotSurfaceProjection": ("rrdot_to_ground",),
    P + "sicd_sensor_model.SICDSensorModel": ("image_to_world", "world_to_image"),
    P + "transforms.ProjectiveTransform": ("forward", "inverse"),
    P + "coordinates": ("geodetic_to_geocentric", "geocentric_to_geodetic"),
    P + "math_utils": ("equilateral_triangle",),
    P + "digital_elevation_model.DigitalElevationModel": ("describe_region",),
    P + "elevation_model.ConstantElevationModel": ("describe_region",),
    P + "srtm_dem_tile_set.SRTMTileSet": ("find_tile_id",),
    P + "generic_dem_tile_set.GenericDEMTileSet": ("find_tile_id",),
    "image_processing.map_tileset_wmq.WebMercatorQuadMapTileSet": ("get_tile", "get_tile_for_location"),
    "image_processing.map_tileset.MapTileSet": ("get_tile_matrix_limits_for_area",),
    "image_processing.sidd_updater.SIDDUpdater": ("chipped_coordinate_to_full",),
    "image_processing.sar_complex_imageop": (
        "image_pixels_to_complex", "complex_to_power_value", "power_value_in_decibels", "get_value_bounds", "linear_mapping",
        "histogram_stretch", "quarter_power_image", "histogram_stretch_mag_values", "quarter_power_mag_values"),
    "gdal.gdal_utils": ("get_minmax_for_type", "get_type_and_scales"),
    "gdal.dynamic_range_adjustment.DRAParameters": ("from_counts",),
    "gdal.nitf_des_accessor.NITFDESAccessor": ("get_segments_by_name", "extract_desdata_xml", "extract_des_header", "parse_field_value"),
    "features.geolocation.LocationGridInterpolator": ("__call__",),
    "features.geolocation.Geolocator": ("radians_coordinate_to_degrees",),
    "features.feature_index.STRFeature2DSpatialIndex": ("find_intersects", "find_nearest"),
    "features.imaged_feature_property_accessor.ImagedFeaturePropertyAccessor": ("find_image_geometry", "get_image_geometry", "get_image_bbox"),
}


def arrays(v, depth=0):
    """the float arrays a value consists of"""
    if isinstance(v, np.ndarray):
        return [v] if v.dtype.kind == "f" and v.size and v.flags.writeable else []
    if hasattr(v, "coordinate") and isinstance(getattr(v, "coordinate"), np.ndarray):
        return arrays(v.coordinate)
    if isinstance(v, (list, tuple)) and depth < 3 and len(v) < 100:
        return [a for x in v for a in arrays(x, depth + 1)]
    return []


def copy(v, depth=0):
    if isinstance(v, np.ndarray):
        return v.copy()
    if hasattr(v, "coordinate") and isinstance(getattr(v, "coordinate"), np.ndarray):
        return ("coordinate", v.coordinate.copy())
    if type(v) in (list, tuple) and depth < 4 and len(v) < 1000:
        return [type(v).__name__] + [copy(x, depth + 1) for x in v]
    if type(v) is dict and depth < 4:
        return {k: copy(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (int, float, str, bytes, bool, type(None))):
        return v
    return ("object", id(v))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.tobytes() == b.tobytes()
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b or a != a


def lists(v):
    """lists of numbers given as an argument"""
    return [v] if type(v) is list and len(v) > 1 and all(type(x) in (int, float) for x in v) else []


def poison(r, depth=0):
    if depth == 0:
        for a in arrays(r):
            a += 0.37
    if type(r) in (list, tuple) and depth < 3:
        for x in r:
            poison(x, depth + 1)
    if type(r) is list:
        r.append(None)


def wrap(f, name, c, busy, method):
    from .ctx import Fail

    def g(*a, **k):
        if busy[0]:
            return f(*a, **k)
        busy[0] = True
        try:
            given = (a[1:] if method else a) + tuple(k.values())
            was = [copy(x) for x in given]
            av = [x for v in given for x in arrays(v)]
            lv = [x for v in given for x in lists(v)]
            if av or lv:
                kept, kept2 = [x.copy() for x in av], [list(x) for x in lv]
                for x in av:
                    x *= 1.001
                    x += 0.001
                for x in lv:
                    x.reverse()
                try:
                    poison(f(*a, **k))
                except (Exception, Fail):
                    pass
                for x, y in zip(av, kept):
                    x[...] = y
                for x, y in zip(lv, kept2):
                    x[:] = y
            r = f(*a, **k)
            if not all(same(x, copy(y)) for x, y in zip(was, given)):
                raise Fail("arguments are not modified", f"{name} modified its arguments: {str(was)[:200]} -> {str([copy(y) for y in given])[:200]}")
            # the caller owns what it was given
            kept = [x.copy() for x in av]
            poison(r)
            for x, y in zip(av, kept):
                x[...] = y
            return f(*a, **k)
        finally:
            busy[0] = False

    return g


@contextlib.contextmanager
def settled(h, c):
    import sys

    undo = []
    busy = [False]
    for owner, names in SETTLE.items():
        if not any(f.startswith(owner + ".") for f in h.functions):
            continue
        try:
            parts = owner.split(".")
            try:
                o = importlib.import_module("aws.osml." + owner)
                mod = o
            except ImportError:
                mod = importlib.import_module("aws.osml." + ".".join(parts[:-1]))
                o = getattr(mod, parts[-1])
        except Exception:
            continue
        for n in names:
            raw = vars(o).get(n)
            if owner + "." + n not in h.functions or raw is None:
                continue
            if o is mod:
                w = wrap(raw, n, c, busy, False)
                for m in list(sys.modules.values()):
                    if m is o or (m is not None and getattr(m, "__name__", "") in ("aws.osml.photogrammetry", "aws.osml.image_processing", "aws.osml.gdal", "aws.osml.features")):
                        if vars(m).get(n) is raw:
                            setattr(m, n, w)
                            undo.append((m, n, raw))
            else:
                st = isinstance(raw, (staticmethod, classmethod))
                w = staticmethod(wrap(getattr(o, n), n, c, busy, False)) if st else wrap(raw, n, c, busy, True)
                setattr(o, n, w)
                undo.append((o, n, raw))
    try:
        yield
    finally:
        for o, n, raw in reversed(undo):
            setattr(o, n, raw)
