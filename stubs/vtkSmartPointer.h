// file reader library (trusted): arrays are opaque
#pragma once
#include <string>
#include "vc.h"
template <class T> struct vtkSmartPointer {
    T *p = nullptr; vtkSmartPointer() = default; vtkSmartPointer(T *q) : p(q) {} static vtkSmartPointer New() { return vtkSmartPointer(new T()); }
    T *operator->() const { return p; } T &operator*() const { return *p; } operator T *() const { return p; } bool operator!() const { return !p; }
};
struct vtkDataArray { int id; double GetComponent(long i, int j) { return __vc_yreal("vtkarray", id * 1000000 + i * 8 + j); } double GetTuple1(long i) { return GetComponent(i, 0); } int GetTypedComponent(long i, int j) { return (int)__vc_yint("vtkint", id * 1000000 + i * 8 + j); } long GetNumberOfTuples() { return 0; } };
typedef vtkDataArray vtkTypeInt32Array; typedef vtkDataArray vtkTypeUInt8Array; typedef vtkDataArray vtkAbstractArray;
template <class A, class B> A *vtkArrayDownCast(B *b) { return (A *)b; }
struct vtkPoints { long GetNumberOfPoints() { return 0; } void GetPoint(long i, double *x) { for (int k = 0; k < 3; k++) x[k] = __vc_yreal("vtkpoint", i * 3 + k); } double *GetPoint(long i) { static double x[3]; GetPoint(i, x); return x; } vtkDataArray *GetData() { static vtkDataArray a; return &a; } };
struct vtkCellData { vtkDataArray *GetAbstractArray(const char *) { return new vtkDataArray(); } vtkDataArray *GetArray(const char *) { return new vtkDataArray(); } };
struct vtkPolyData { vtkPoints pts; vtkCellData cd; vtkPoints *GetPoints() { return &pts; } vtkCellData *GetCellData() { return &cd; } vtkCellData *GetPointData() { return &cd; } long GetNumberOfCells() { return 0; } };
struct vtkXMLPPolyDataReader { vtkPolyData pd; void SetFileName(const char *) {} void Update() {} vtkPolyData *GetOutput() { return &pd; } };
typedef vtkXMLPPolyDataReader vtkXMLPolyDataReader;
