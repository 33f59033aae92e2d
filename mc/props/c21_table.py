READ = {
    ('xdmf', 'XML'): 'bytes bytes+ text text+ fileb fileb+ filet filet+',
    ('ply', 'bin'): 'bytes bytes+ fileb fileb+',
    ('ply', 'asc'): 'bytes bytes+ fileb fileb+',
    ('obj', ''): 'text text+ filet filet+',
    ('off', ''): 'filet filet+',
    ('wkt', ''): 'text text+ filet filet+',
    ('neuroglancer', ''): 'bytes bytes+ fileb fileb+',
    ('abaqus', ''): 'text text+ filet filet+',
    ('abaqus', '9'): 'text text+ filet filet+',
    ('nastran', 'flarge/fsmall'): 'text text+ filet filet+',
    ('nastran', 'flarge/flarge'): 'text text+ filet filet+',
    ('nastran', 'flarge/ffree'): 'text text+ filet filet+',
    ('nastran', 'fsmall/fsmall'): 'text text+ filet filet+',
    ('nastran', 'fsmall/flarge'): 'text text+ filet filet+',
    ('nastran', 'fsmall/ffree'): 'text text+ filet filet+',
    ('nastran', 'ffree/fsmall'): 'text text+ filet filet+',
    ('nastran', 'ffree/flarge'): 'text text+ filet filet+',
    ('nastran', 'ffree/ffree'): 'text text+ filet filet+',
    ('nastran', ''): 'text text+ filet filet+',
    ('permas', ''): 'text text+ filet filet+',
    ('ansys', 'bin'): 'fileb fileb+',
    ('ansys', 'asc'): 'bytes bytes+ fileb fileb+',
    ('mdpa', ''): 'fileb fileb+',
    ('med', ''): 'bytes fileb',
    ('cgns', ''): 'bytes fileb',
    ('cgns', 'lzf'): 'bytes fileb',
    ('cgns', 'none'): 'bytes fileb',
    ('cgns', 'gz9'): 'bytes fileb',
    ('h5m', ''): 'bytes fileb',
    ('h5m', 'noid'): 'bytes fileb',
    ('h5m', 'none'): 'bytes fileb',
    ('h5m', 'lzf'): 'bytes fileb',
    ('hmf', ''): 'bytes fileb',
    ('hmf', 'none'): 'bytes fileb',
    ('hmf', 'lzf'): 'bytes fileb',
    ('medit', 'asc'): 'filet filet+',
    ('netgen', ''): 'text text+ filet filet+',
    ('netgen', '12'): 'text text+ filet filet+',
    ('ugrid', 'ascii'): 'fileb fileb+ filet filet+',
    ('avsucd', ''): 'text text+ filet filet+',
    ('su2', ''): 'filet filet+',
    ('tecplot', ''): 'text text+ filet filet+',
    ('flac3d', 'asc'): 'text text+ filet filet+',
    ('flac3d', 'bin'): 'bytes bytes+ fileb fileb+',
    ('flac3d', '9'): 'text text+ filet filet+',
}
WRITE = {
    ('vtk', 'vtk-bin'): 'fileb fileb+',
    ('vtk', 'vtk-asc'): 'fileb fileb+',
    ('vtk', 'vtk42-bin'): 'fileb fileb+',
    ('vtk', 'vtk42-asc'): 'fileb fileb+',
    ('vtk', 'vtk51-bin'): 'fileb fileb+',
    ('vtk', 'vtk51-asc'): 'fileb fileb+',
    ('stl', 'asc'): 'text text+ filet filet+',
    ('stl', 'bin'): 'bytes bytes+ fileb fileb+',
    ('ply', 'bin'): 'bytes bytes+ fileb fileb+',
    ('ply', 'asc'): 'bytes bytes+ fileb fileb+',
    ('obj', ''): 'text text+ filet filet+',
    ('wkt', ''): 'text text+ filet filet+',
    ('neuroglancer', ''): 'bytes bytes+ fileb fileb+',
    ('abaqus', ''): 'text text+ filet filet+',
    ('abaqus', '9'): 'text text+ filet filet+',
    ('nastran', 'flarge/fsmall'): 'text text+ filet filet+',
    ('nastran', 'flarge/flarge'): 'text text+ filet filet+',
    ('nastran', 'flarge/ffree'): 'text text+ filet filet+',
    ('nastran', 'fsmall/fsmall'): 'text text+ filet filet+',
    ('nastran', 'fsmall/flarge'): 'text text+ filet filet+',
    ('nastran', 'fsmall/ffree'): 'text text+ filet filet+',
    ('nastran', 'ffree/fsmall'): 'text text+ filet filet+',
    ('nastran', 'ffree/flarge'): 'text text+ filet filet+',
    ('nastran', 'ffree/ffree'): 'text text+ filet filet+',
    ('nastran', ''): 'text text+ filet filet+',
    ('permas', ''): 'text text+ filet filet+',
    ('ansys', 'bin'): 'fileb fileb+',
    ('ansys', 'asc'): 'bytes bytes+ fileb fileb+',
    ('mdpa', ''): 'bytes bytes+ fileb fileb+',
    ('med', ''): 'bytes fileb',
    ('cgns', ''): 'bytes fileb',
    ('cgns', 'lzf'): 'bytes fileb',
    ('cgns', 'none'): 'bytes fileb',
    ('cgns', 'gz9'): 'bytes fileb',
    ('h5m', ''): 'bytes fileb',
    ('h5m', 'noid'): 'bytes fileb',
    ('h5m', 'none'): 'bytes fileb',
    ('h5m', 'lzf'): 'bytes fileb',
    ('hmf', ''): 'bytes fileb',
    ('hmf', 'none'): 'bytes fileb',
    ('hmf', 'lzf'): 'bytes fileb',
    ('medit', 'asc'): 'bytes bytes+ fileb fileb+',
    ('netgen', ''): 'text text+ filet filet+',
    ('netgen', '12'): 'text text+ filet filet+',
    ('ugrid', 'ascii'): 'bytes bytes+ text text+ fileb fileb+ filet filet+',
    ('avsucd', ''): 'text text+ filet filet+',
    ('su2', ''): 'bytes bytes+ fileb fileb+',
    ('tecplot', ''): 'text text+ filet filet+',
    ('flac3d', 'asc'): 'text text+ filet filet+',
    ('flac3d', 'bin'): 'bytes bytes+ fileb fileb+',
    ('flac3d', '9'): 'text text+ filet filet+',
}
