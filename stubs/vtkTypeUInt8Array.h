#include "vtkSmartPointer.h"
