#ifndef VERIF_C10_H
#define VERIF_C10_H
#include "mc.h"
void c10_0(std::vector<mc::Scenario>&);
void c10_1(std::vector<mc::Scenario>&);
void c10_2(std::vector<mc::Scenario>&);
void c10_3(std::vector<mc::Scenario>&);
void c10_4(std::vector<mc::Scenario>&);
void c10_5(std::vector<mc::Scenario>&);
void c10_6(std::vector<mc::Scenario>&);
void c10_7(std::vector<mc::Scenario>&);
#endif
