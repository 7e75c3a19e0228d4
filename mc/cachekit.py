"""Cache directories of their own for each execution, process restarts, and reading files back."""

import contextlib
import gc
import hashlib
import os
import pathlib
import shutil
import tempfile

import acoular as ac
from acoular.h5cache import H5cache

MODES = ('all', 'individual', 'readonly', 'overwrite', 'none')


def close_all():
    """Closes every open cache file, as the end of the process would."""
    gc.collect()
    for f in list(H5cache.get_open_cachefiles()):
        with contextlib.suppress(Exception):
            H5cache.close_cachefile(f)
    with contextlib.suppress(Exception):
        H5cache.open_file_reference.clear()
    with contextlib.suppress(Exception):
        H5cache.open_files.clear()
    import tables

    with contextlib.suppress(Exception):
        tables.file._open_files.close_all()


@contextlib.contextmanager
def env(lib='tables', mode='all', copy_of=None):
    d = pathlib.Path(tempfile.mkdtemp(prefix='c', dir=os.getcwd()))
    if copy_of is not None:
        for f in pathlib.Path(copy_of).iterdir():
            shutil.copy(f, d / f.name)
    old = ac.config.h5library
    ac.config.h5library = lib
    ac.config.cache_dir = str(d)
    ac.config.global_caching = mode
    try:
        yield d
    finally:
        close_all()
        ac.config.h5library = old
        ac.config.global_caching = 'none'
        shutil.rmtree(d, ignore_errors=True)


def read_nodes(d):
    """{(file, node): (shape, complete, array)} of all cache files, read with h5py."""
    import h5py

    out = {}
    for f in sorted(pathlib.Path(d).glob('*.h5')):
        with h5py.File(f, 'r') as h:

            def visit(name, obj, f=f):
                if isinstance(obj, h5py.Dataset):
                    c = obj.attrs.get('complete')
                    try:
                        data = obj[()]
                    except OSError:  # compressed with a filter that is not available here
                        data = None
                    out[(f.name, name)] = (obj.shape, None if c is None else bool(c), data)

            h.visititems(visit)
    return out


def stamp(d):
    """Names and contents of all files."""
    out = {}
    for f in sorted(pathlib.Path(d).rglob('*')):
        if f.is_file():
            out[str(f.relative_to(d))] = hashlib.sha1(f.read_bytes()).hexdigest()
    return out
