"""Reference encoders: files as other programs may spell them."""
from . import decks, gmsh, hdf, misc, surface, vtk, xml

ENCODERS = [*decks.ENCODERS, *gmsh.ENCODERS, *vtk.ENCODERS, *surface.ENCODERS, *xml.ENCODERS, *misc.ENCODERS, *hdf.ENCODERS]
