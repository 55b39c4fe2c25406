// C10: every sequence of operations on two variants, with failing constructions and allocations.
// mc: level=model_checking groups=var10 groupopt=1
#include "c10.h"

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> scenarios;
    for (const auto& add : {c10_0, c10_1, c10_2, c10_3, c10_4, c10_5, c10_6, c10_7})
    {
        add(scenarios);
    }
    return mc::run(argc, argv, scenarios);
}
