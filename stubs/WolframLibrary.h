#pragma once
#include <complex>
#include <Eigen/Core>
typedef long mint;
typedef struct st_WolframLibraryData *WolframLibraryData;
#define DLLEXPORT extern "C"
#define LIBRARY_NO_ERROR 0
#define LIBRARY_TYPE_ERROR 1
#define LIBRARY_FUNCTION_ERROR 6
#define WolframLibraryVersion 5
