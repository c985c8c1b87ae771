"""HashCode files are understood completely and exactly."""
from .. import files
from . import loading

CASES = dict(quick=5000, thorough=30000)
REQUIRED = {"files": 1000, "numbers": 80000, "routes": 3000, "routes_ok": 500, "routes_bad": 500}
RULE = (
    "case = a generated HashCode 2018 file (grid, fleet, bonus, horizon, rides with tight or loose finish, no rides at all, "
    "number spellings, line ends) loaded from a file and from numbers; every number the library reports is compared with the "
    "file, and routes over the loaded objects are judged against the file's constraints; distinct = by the file's text"
)


def case(ctx, i, rng):
    loading.case(ctx, rng, files.hashcode, "HashCodeLoaderFormatter", "hashcode", "hashcode")
