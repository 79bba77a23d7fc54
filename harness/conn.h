#ifndef CONN_H
#define CONN_H
#include "qtlib.h"
std::vector<mc::Suite> suitesC01(mc::Tier); std::vector<mc::Suite> suitesC02(mc::Tier); std::vector<mc::Suite> suitesC08(mc::Tier);
std::vector<mc::Suite> suitesC03(mc::Tier); std::vector<mc::Suite> suitesC04(mc::Tier); std::vector<mc::Suite> suitesC05(mc::Tier); std::vector<mc::Suite> suitesC06(mc::Tier); std::vector<mc::Suite> suitesC07(mc::Tier); std::vector<mc::Suite> suitesC09(mc::Tier);
#endif
