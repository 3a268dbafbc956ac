#pragma once
#include <string>
namespace fakeros { inline std::string& package_dir() { static std::string d; return d; } }
namespace ros { namespace package { inline std::string getPath(const std::string&) { return fakeros::package_dir(); } } }
