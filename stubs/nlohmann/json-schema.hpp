// Declarations only: lets the front end parse libs/api/src/bindings.cpp (the real library is not installed).
#pragma once
#include <functional>
#include <nlohmann/json.hpp>
#include <string>
namespace nlohmann {
namespace json_schema {
class json_uri;
void default_string_format_check(const std::string &format, const std::string &value);
class json_validator {
 public:
  json_validator(std::function<void(const json_uri &, json &)> = nullptr,
                 std::function<void(const std::string &, const std::string &)> = nullptr);
  void set_root_schema(const json &);
  json validate(const json &) const;
};
}  // namespace json_schema
}  // namespace nlohmann
