#pragma once
#include <cstddef>
#include <iterator>
#include <stdexcept>
#include <rosbag/bag.h>
namespace rosbag {
struct TopicQuery {
  explicit TopicQuery(const std::string& t) : t_(1, t) {}
  explicit TopicQuery(const std::vector<std::string>& t) : t_(t) {}
  std::vector<std::string> t_;
};
class MessageInstance {
 public:
  const Record* r_ = nullptr;
  template <class M> boost::shared_ptr<M const> instantiate() const {
    if (r_->type != std::type_index(typeid(M))) return boost::shared_ptr<M const>();
    return boost::static_pointer_cast<M const>(r_->msg);
  }
  ros::Time getTime() const { return r_->received; }
  const std::string& getTopic() const { return r_->topic; }
};
class View {
 public:
  class iterator {
   public:
    typedef std::forward_iterator_tag iterator_category; typedef MessageInstance value_type; typedef std::ptrdiff_t difference_type; typedef MessageInstance* pointer; typedef MessageInstance& reference;
    iterator() : v_(nullptr), i_(0) {}
    iterator(const View* v, size_t i) : v_(v), i_(i) {}
    MessageInstance& operator*() const { load(); return m_; }
    MessageInstance* operator->() const { load(); return &m_; }
    iterator& operator++() { if (i_ >= v_->idx_.size()) throw std::out_of_range("incremented past the end of the view"); ++i_; return *this; }
    iterator operator++(int) { iterator r = *this; ++*this; return r; }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
   private:
    void load() const { if (i_ >= v_->idx_.size()) throw std::out_of_range("read past the end of the view"); m_.r_ = &contents()[v_->idx_[i_]]; }
    const View* v_; size_t i_; mutable MessageInstance m_;
  };
  typedef iterator const_iterator;
  View(const Bag&, const TopicQuery& q) {
    for (size_t i = 0; i < contents().size(); ++i) for (const std::string& t : q.t_) if (contents()[i].topic == t) idx_.push_back(i);
  }
  iterator begin() const { return iterator(this, 0); }
  iterator end() const { return iterator(this, idx_.size()); }
  uint32_t size() const { return idx_.size(); }
  std::vector<size_t> idx_;
};
}
