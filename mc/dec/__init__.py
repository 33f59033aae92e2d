"""Independent decoders, written from the published descriptions of the formats.
None of them imports or copies anything from meshio. Each returns a dict

    points      (n, d) array in file order
    cells       flat list of (type, [point indices]) in file order
    point_data  name -> array
    cell_data   name -> flat array over all cells

and raises Bad when the file violates the layout (a count that does not match, a
missing keyword, trailing bytes, an id out of range ...).
"""


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)
