"""Process-wide quieting shared by all checks."""
import warnings


def quiet():
    warnings.simplefilter("ignore")
    try:
        from pyuvdata.telescopes import ignore_telescope_param_update_warnings_for
        ignore_telescope_param_update_warnings_for("HERA")
    except Exception:
        pass
    try:
        from astropy.utils import iers
        iers.conf.auto_max_age = None
    except Exception:
        pass
