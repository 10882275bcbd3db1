#pragma once
extern "C" void add_history(const char* line);
