// environment state shared by the stubs (inline so that several TUs may include it)
#pragma once
#include "kse.h"
namespace kse_env {
inline thread_local int tid = 0;
inline thread_local int depth = 0;
}
