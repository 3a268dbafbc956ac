#pragma once
// A bag held in memory: the harness fills contents() before the tool opens it.
#include <string>
#include <typeindex>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <ros/time.h>
namespace rosbag {
struct Record { std::string topic; std::type_index type; boost::shared_ptr<const void> msg; ros::Time received; };
inline std::vector<Record>& contents() { static std::vector<Record> v; return v; }
template <class M> void add(const std::string& topic, const M& m, ros::Time received = ros::Time()) { contents().push_back(Record{topic, typeid(M), boost::make_shared<M>(m), received}); }
namespace bagmode { enum BagMode { Write = 1, Read = 2, Append = 4 }; }
class Bag {
 public:
  Bag() {}
  explicit Bag(const std::string&, uint32_t = bagmode::Read) : open_(true) {}
  void open(const std::string&, uint32_t = bagmode::Read) { open_ = true; }
  void close() { open_ = false; }
  bool open_ = false;
};
}
