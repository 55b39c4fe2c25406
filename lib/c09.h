#ifndef VERIF_C09_H
#define VERIF_C09_H
#include "mc.h"
void c09_0(std::vector<mc::Scenario>&);
void c09_1(std::vector<mc::Scenario>&);
void c09_2(std::vector<mc::Scenario>&);
void c09_3(std::vector<mc::Scenario>&);
void c09_4(std::vector<mc::Scenario>&);
void c09_5(std::vector<mc::Scenario>&);
void c09_6(std::vector<mc::Scenario>&);
void c09_7(std::vector<mc::Scenario>&);
#endif
