"""Which configurations are accepted."""
from sionna.phy.constants import SPEED_OF_LIGHT


def wavelength(fc, offset):
    return SPEED_OF_LIGHT / fc + offset


def scenario(direction, fc, elevation, ut_lambda, bs_lambda):
    ok = direction in ('uplink', 'downlink')
    ok = ok and (1.9e9 <= fc <= 4e9 or 19e9 <= fc <= 40e9)
    ok = ok and 10. <= elevation <= 90.
    return ok and ut_lambda == SPEED_OF_LIGHT / fc and bs_lambda == SPEED_OF_LIGHT / fc


def panels(rows, cols, v=None, h=None, pv=None, ph=None):
    """panels do not overlap; elements are half a wavelength apart unless requested otherwise"""
    v = 0.5 if v is None else v
    h = 0.5 if h is None else h
    pv = (rows - 1) * v + 0.5 if pv is None else pv
    ph = (cols - 1) * h + 0.5 if ph is None else ph
    return pv > (rows - 1) * v and ph > (cols - 1) * h
