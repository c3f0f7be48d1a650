"""Checks that everything the checks need is installed (nothing is built)."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import cvc5, h5py, healpy, matplotlib, numpy, pys2let, pyssht, scipy, z3  # noqa
import astropy.coordinates  # noqa
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
