#pragma once
#include_next <unistd.h>
#include <fstream>
