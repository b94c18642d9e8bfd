#pragma once
#include_next <sys/mman.h>
#include <fstream>
