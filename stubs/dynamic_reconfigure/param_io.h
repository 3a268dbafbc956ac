#pragma once
#include <cstdint>
#include <string>
#include <type_traits>
#include <ros/ros.h>
namespace fakeros {
struct ParamLoader {  // parameter server -> config
  ros::NodeHandle nh;
  template <class T> void operator()(const char* n, T& v, uint32_t) { nh.getParam(n, v); }
};
struct ParamSaver {
  ros::NodeHandle nh;
  template <class T> void operator()(const char* n, T& v, uint32_t) { nh.setParam(n, v); }
};
template <class Cfg> struct LevelDiff {  // OR of the levels of the fields that differ
  uint32_t level = 0; size_t idx = 0;
  std::vector<double> num; std::vector<std::string> str; bool second = false;
  template <class T> void operator()(const char*, T& v, uint32_t l) {
    if constexpr (std::is_same<T, std::string>::value) {
      if (!second) { num.push_back(0); str.push_back(v); } else { if (str[idx] != v) level |= l; }
    } else {
      if (!second) { num.push_back(double(v)); str.push_back(""); } else { if (num[idx] != double(v)) level |= l; }
    }
    ++idx;
  }
};
}
