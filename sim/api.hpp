#pragma once
#include "hxhim/hxhim.hpp"
#include <string>
#include <vector>
// what the accessors say, one line per fact; no further facts when they fail
std::string api_info(hxhim_t *hx, bool capi, int ids, const std::vector<std::string> &names, std::string (*func_name)(hxhim_hash_t), std::string (*args_name)(void *));
// calls that have to be refused; returns the first one that was not
std::string api_refuse_settings(hxhim_t *hx, bool initialized, uint64_t seed);
std::string api_refuse_operations(hxhim_t *hx, bool initialized, uint64_t seed);
// settings that are not valid must be refused and change nothing
std::string api_invalid_settings(hxhim_t *hx);
