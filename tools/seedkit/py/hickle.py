# Stand-in for the HDF5 based hickle (h5py is not installed): same interface, gzip-free pickle container.
import os, pickle
MAGIC = b'HKLSTUB1'
class FileError(Exception):
    pass
def dump(root, filename, mode='w', compression=None, **kw):
    with open(filename, 'wb' if mode.startswith('w') else 'ab') as f:
        f.write(MAGIC)
        data = pickle.dumps(root, protocol=4)
        f.write(len(data).to_bytes(8, 'little'))
        f.write(data)
def load(filename, **kw):
    with open(filename, 'rb') as f:
        b = f.read()
    if b[:8] != MAGIC or len(b) < 16:
        raise IOError('unable to open file (file signature not found)')
    n = int.from_bytes(b[8:16], 'little')
    if len(b) < 16 + n:
        raise IOError('unable to open file (truncated file)')
    return pickle.loads(b[16:16 + n])
