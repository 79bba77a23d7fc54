#ifndef UNITS_H
#define UNITS_H
#include "qtlib.h"
std::vector<mc::Suite> suitesC24(mc::Tier); std::vector<mc::Suite> suitesC16(mc::Tier);
#endif
