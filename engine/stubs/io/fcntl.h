#pragma once
#include_next <fcntl.h>
#include <fstream>
