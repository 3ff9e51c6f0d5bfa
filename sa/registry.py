"""all checks"""
from checks_md import CHECKS

for _m in ('checks_geo', 'checks_arr', 'checks_dev', 'checks_ext4', 'checks_fs', 'checks_panic', 'checks_main', 'checks_wrap', 'checks_units'):
    try:
        __import__(_m)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise

ASSUMPTIONS = [
    'rustc nightly builds the MIR analysed here; the deployed binary is built from the same source by the default toolchain',
    'library functions modelled in sa/models.py and sa/models2.py behave as documented',
    'a device operation either succeeds with the requested bytes or fails; contents of failed reads are arbitrary',
    'comparisons the interval domain cannot decide count as undecided and are never reported as violations',
]
