"""Cordeau & Laporte files are understood completely and exactly."""
from .. import files
from . import loading

CASES = dict(quick=5000, thorough=30000)
REQUIRED = {"files": 1000, "numbers": 100000, "routes": 3000, "routes_ok": 500, "routes_bad": 500}
RULE = (
    "case = a generated benchmark file (sizes, windows, loads, limits, depot shift, number spellings, line ends, optional "
    "final depot row) loaded from a file and from numbers; every number the library reports is compared with the file, and "
    "routes over the loaded objects are judged against the file's constraints; distinct = by the file's text"
)


def case(ctx, i, rng):
    loading.case(ctx, rng, files.cordeau, "CordeauLaporteLoaderFormatter", "cordeau", "cordeau-laporte")
