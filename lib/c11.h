#ifndef VERIF_C11_H
#define VERIF_C11_H
#include "mc.h"
void c11_0(std::vector<mc::Scenario>&);
void c11_1(std::vector<mc::Scenario>&);
void c11_2(std::vector<mc::Scenario>&);
void c11_3(std::vector<mc::Scenario>&);
void c11_4(std::vector<mc::Scenario>&);
void c11_5(std::vector<mc::Scenario>&);
void c11_6(std::vector<mc::Scenario>&);
void c11_7(std::vector<mc::Scenario>&);
#endif
