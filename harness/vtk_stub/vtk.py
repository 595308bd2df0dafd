"""Stand-in for the part of VTK that scripts/fdi_plot.py uses: what is connected to what is remembered, legacy
files are read by vlib/vtk.py, and a rendered scene is written to $SCENE, one JSON line per rendering.  A filter
it does not know between a reader and a mapper ends the run with status 77."""
import json
import os
import sys

from vlib import vtk as legacy


def unsupported(what):
    sys.stdout.flush()
    sys.stderr.write("UNSUPPORTED: %s\n" % what)
    sys.stderr.flush()
    os._exit(77)


class _Any:
    """Takes any call."""

    def __init__(self, *a):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a: _Any()


class Array:
    def __init__(self, name, v):
        self.name, self.v = name, v

    def GetRange(self, *a):
        return (min(self.v), max(self.v)) if self.v else (1e299, -1e299)

    def GetName(self):
        return self.name

    def GetNumberOfTuples(self):
        return len(self.v)

    GetSize = GetNumberOfValues = GetNumberOfTuples

    def GetNumberOfComponents(self):
        return 1

    def GetValue(self, i):
        return self.v[i]

    GetTuple1 = GetValue

    def GetTuple(self, i):
        return (self.v[i],)


class Attributes:
    def __init__(self, arrays):
        self.arrays = arrays

    def GetArray(self, k):
        if isinstance(k, str):
            return next((a for a in self.arrays if a.name == k), None)
        return self.arrays[k] if 0 <= k < len(self.arrays) else None

    def GetScalars(self, *a):
        return self.GetArray(*(a or (0,)))

    def GetNumberOfArrays(self):
        return len(self.arrays)

    def GetArrayName(self, k):
        return self.arrays[k].name


class Data:
    """cells, points: lists of Array; of: the cell array the point array was made from; contours: values or None"""

    def __init__(self, file=None, cells=(), points=(), contours=None):
        self.file, self.cells, self.points, self.contours = file, list(cells), list(points), contours

    def GetCellData(self):
        return Attributes(self.cells)

    def GetPointData(self):
        return Attributes(self.points)

    def GetScalarRange(self):
        a = (self.points or self.cells or [Array("", [0.0, 1.0])])[0]
        return a.GetRange()

    def GetNumberOfCells(self):
        return len(self.cells[0].v) if self.cells else 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("data.%s" % name)


class Algorithm:
    KNOWN = ()

    def __init__(self):
        self.source = None

    def SetInputConnection(self, *a):
        self.source = a[-1]

    def SetInputData(self, d):
        self.source = d

    SetInput = SetInputDataObject = SetInputData

    def GetOutputPort(self, *a):
        return self

    def Update(self, *a):
        self.out()

    def GetOutput(self, *a):
        return self.out()

    def input(self):
        s = self.source
        if isinstance(s, Algorithm):
            return s.out()
        if isinstance(s, Data) or s is None:
            return s
        unsupported("input %s" % type(s).__name__)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.startswith("Get"):
            unsupported("%s.%s" % (type(self).__name__, name))
        if name.startswith(("Release", "Modified", "Register", "Debug", "AddObserver", "SetPassCellData", "PassCellData")):
            return lambda *a: None
        unsupported("%s.%s" % (type(self).__name__, name))


class vtkDataSetReader(Algorithm):
    KINDS = ("RECTILINEAR_GRID", "STRUCTURED_GRID")

    def __init__(self):
        Algorithm.__init__(self)
        self.name = ""
        self.data = None

    def SetFileName(self, n):
        self.name, self.data = n, None

    def GetFileName(self):
        return self.name

    def out(self):
        if self.data is None:
            self.data = Data()
            try:
                v = legacy.read(self.name)
                if v["kind"] in self.KINDS:
                    self.data = Data(os.path.realpath(self.name), [Array(v["name"], v["cells"])])
                else:
                    sys.stderr.write("ERROR: cannot read dataset type: %s\n" % v["kind"])
            except (OSError, legacy.Bad) as e:
                sys.stderr.write("ERROR: cannot read %s: %s\n" % (self.name, e))
        return self.data

    def ReadAllScalarsOn(self):
        pass

    def SetReadAllScalars(self, x):
        pass

    def GetNumberOfScalarsInFile(self):
        return len(self.out().cells)

    def GetScalarsNameInFile(self, i):
        c = self.out().cells
        return c[i].name if 0 <= i < len(c) else None

    def GetScalarsName(self):
        return None


class vtkRectilinearGridReader(vtkDataSetReader):
    KINDS = ("RECTILINEAR_GRID",)


class vtkStructuredGridReader(vtkDataSetReader):
    KINDS = ("STRUCTURED_GRID",)


class vtkCellDataToPointData(Algorithm):
    def out(self):
        d = self.input() or Data()
        return Data(d.file, [], d.cells, d.contours)


class vtkContourFilter(Algorithm):
    def __init__(self):
        Algorithm.__init__(self)
        self.values = []

    def SetNumberOfContours(self, n):
        self.values = (self.values + [0.0] * n)[:n]

    def GetNumberOfContours(self):
        return len(self.values)

    def SetValue(self, i, v):
        self.values += [0.0] * (i + 1 - len(self.values))
        self.values[i] = float(v)

    def GetValue(self, i):
        return self.values[i]

    def GetValues(self):
        return tuple(self.values)

    def GenerateValues(self, n, a, b=None):
        lo, hi = a if b is None else (a, b)
        self.values = [lo + i * (hi - lo) / (n - 1) if n > 1 else lo for i in range(n)]

    def SetComputeScalars(self, x):
        pass

    SetComputeNormals = SetComputeGradients = SetComputeScalars

    def ComputeNormalsOn(self):
        pass

    ComputeScalarsOn = ComputeNormalsOff = ComputeGradientsOff = ComputeNormalsOn

    def out(self):
        d = self.input() or Data()
        if not d.points:
            return Data(d.file)  # nothing to contour
        return Data(d.file, [], d.points, list(self.values))


vtkMarchingContourFilter = vtkContourFilter


class vtkPolyDataMapper(Algorithm):
    def out(self):
        return self.input()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a: _Any()


vtkDataSetMapper = vtkPolyDataMapper


class vtkActor(_Any):
    mapper = None
    visible = True

    def SetMapper(self, m):
        self.mapper = m

    def GetMapper(self):
        return self.mapper

    def SetVisibility(self, v):
        self.visible = bool(v)

    def VisibilityOff(self):
        self.visible = False

    def VisibilityOn(self):
        self.visible = True


vtkLODActor = vtkActor


class vtkRenderer(_Any):
    def __init__(self):
        self.actors = []

    def AddActor(self, a):
        self.actors.append(a)

    AddViewProp = AddActor

    def RemoveActor(self, a):
        self.actors = [x for x in self.actors if x is not a]


class vtkRenderWindow(_Any):
    def __init__(self):
        self.renderers = []

    def AddRenderer(self, r):
        self.renderers.append(r)

    def Render(self):
        res = []
        for r in self.renderers:
            for a in r.actors:
                if not isinstance(a, vtkActor) or a.mapper is None or not a.visible:
                    continue
                if not isinstance(a.mapper, Algorithm):
                    unsupported("mapper %s" % type(a.mapper).__name__)
                d = a.mapper.out() or Data()
                res.append({"file": d.file, "contours": d.contours, "array": [x.name for x in d.points]})
        with open(os.environ["SCENE"], "a") as f:
            f.write(json.dumps(res) + "\n")


class vtkRenderWindowInteractor(_Any):
    window = None

    def SetRenderWindow(self, w):
        self.window = w

    def GetRenderWindow(self):
        return self.window

    def Initialize(self, *a):
        self.Render()

    def Render(self, *a):
        if self.window is not None:
            self.window.Render()

    def Start(self, *a):
        self.Render()
        with open(os.environ["SCENE"], "a") as f:
            f.write('"started"\n')


def __getattr__(name):
    if name.startswith("vtk"):
        return type(name, (_Any,), {})
    if name.startswith("VTK_"):
        return 0
    raise AttributeError(name)
