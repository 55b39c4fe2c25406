// C09: every sequence of operations on two optionals, with failing constructions and allocations.
// mc: level=model_checking groups=opt9 groupopt=1
#include "c09.h"

int main(int argc, char** argv)
{
    std::vector<mc::Scenario> scenarios;
    for (const auto& add : {c09_0, c09_1, c09_2, c09_3, c09_4, c09_5, c09_6, c09_7})
    {
        add(scenarios);
    }
    return mc::run(argc, argv, scenarios);
}
