#pragma once
#include "vtkstandin.h"
