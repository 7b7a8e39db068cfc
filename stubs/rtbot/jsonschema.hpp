// Stand-in for the generated header: bindings.cpp only needs the object to exist.
#pragma once
#include <nlohmann/json.hpp>
extern nlohmann::json rtbot_schema;
