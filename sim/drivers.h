#pragma once
#include "plan.h"
namespace sim {
// run steps [from, ...) of the plan in this process until a restart step or the end of the plan
void runObjects(const Plan& p, int from);    // driver D: GroupableTimeSeriesSet objects
void runApi(const Plan& p, int from);        // driver A: OnexAPI
void runCli(const Plan& p, int from);        // driver C: the command line program itself
void runValues(const Plan& p, int from);     // driver T: TimeSeries values
void scheduler(const Step& s);               // disk-level steps (put, mod, drop, quota)
bool isDiskStep(const std::string& op);
void paintStack();
void logFile(const std::string& path);
extern int cliExit;
}
