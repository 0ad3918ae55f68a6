#pragma once
#include "plan.hpp"
enum { J_STREAM = 0, J_DIAG = 1, J_APP = 2, J_LIFE = 3 };
void otherMain(int entry, void *shared);
bool otherDirector(const std::string &prop, int tier);
void runTextFailures(int tier);
