// Stand-in for "./picosat.h": the installed header has no extern "C".
#pragma once
extern "C" {
#include <picosat/picosat.h>
}
