"""Stand-in for the vtk module (filled in by vtkmodel when the I/O checks need it)."""
import types
from . import core


class _Vtk(types.ModuleType):
    VTK_MAJOR_VERSION = 9

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from . import vtkmodel
        try:
            return getattr(vtkmodel, n)
        except AttributeError:
            raise core.Unsupported('vtk.%s' % n)


module = _Vtk('vtk')
module.__path__ = []
