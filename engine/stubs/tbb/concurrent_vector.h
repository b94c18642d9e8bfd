#pragma once
#include <tbb/kse_tbb.h>
