// C11: every sequence of operations on two type-erased holders, with failing constructions and allocations.
// mc: level=model_checking groups=any11 groupopt=1
#include "c11.h"

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> scenarios;
    for (const auto& add : {c11_0, c11_1, c11_2, c11_3, c11_4, c11_5, c11_6, c11_7})
    {
        add(scenarios);
    }
    return mc::run(argc, argv, scenarios);
}
