#pragma once
#include_next <sys/stat.h>
#include <fstream>
