"""Configuration lists (covering, not the full product)."""
from .build import cfg

HA = [("ctu", "1", "hlle"), ("ctu", "2", "roe"), ("ctu", "2p", "hllc"), ("ctu", "3", "exact"), ("ctu", "3p", "force"),
      ("vl", "1", "force"), ("vl", "2p", "hllc"), ("vl", "3p", "roe"), ("vl", "3pck", "hlle"), ("vl", "3pcl", "hllc")]
HI = [("ctu", "2", "hllc"), ("ctu", "3", "roe"), ("ctu", "3p", "exact"), ("vl", "2p", "two-shock"), ("vl", "3p", "hlle")]
MA = [("ctu", "1", "roe"), ("ctu", "2", "hlld"), ("ctu", "2p", "roe"), ("ctu", "3", "hlle"), ("ctu", "3p", "force"),
      ("vl", "1", "hlle"), ("vl", "2p", "hlld"), ("vl", "3p", "roe"), ("vl", "3pck", "force"), ("vl", "3pcl", "hlld")]
MI = [("ctu", "2", "roe"), ("ctu", "3", "hlld"), ("ctu", "3p", "hlle"), ("vl", "2p", "hlld"), ("vl", "3p", "force")]


def main(nscal=2, mhd_only=False, hydro_only=False):
    out = []
    for gas, eos, lst in (("hydro", "adiabatic", HA), ("hydro", "isothermal", HI),
                          ("mhd", "adiabatic", MA), ("mhd", "isothermal", MI)):
        if mhd_only and gas != "mhd":
            continue
        if hydro_only and gas != "hydro":
            continue
        for i, o, f in lst:
            out.append(cfg(gas, eos, o, f, i, nscal))
    return out


def special(nscal=2, mhd_only=False):
    out = []
    for gas in ("hydro", "mhd"):
        if mhd_only and gas == "hydro":
            continue
        out.append(cfg(gas, "adiabatic", "2", "roe", "ctu", nscal, hcorr=1))
        out.append(cfg(gas, "adiabatic", "2p", "roe", "vl", nscal, fofc=1))
    return out


def label(c):
    d = dict(c)
    s = "%s-%s-%s-o%s-%s" % (d["gas"], d["eos"][:3], d["integ"], d["order"], d["flux"])
    for k, v in sorted(d.items()):
        if k not in ("gas", "eos", "integ", "order", "flux", "nscal"):
            s += "-" + k + ("" if v in ("1", "True") else v)
    return s
