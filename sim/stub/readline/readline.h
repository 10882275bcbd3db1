#pragma once
// Stand-in for GNU readline: the simulator is the terminal.
#include <cstdio>
extern "C" char* readline(const char* prompt);
