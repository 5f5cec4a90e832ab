#ifndef SIM_CONF_HPP
#define SIM_CONF_HPP
#include "plan.hpp"
void conf_prepare(const Plan &p, int inc);          // before the ranks start
bool conf_has(const std::string &key);              // not to be set by an API call
const std::vector<std::string> &conf_keys();
#endif
