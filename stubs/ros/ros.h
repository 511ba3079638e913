// Stub of the ROS client API: parameters come from a table set by the harness,
// published messages are recorded, subscriptions keep nothing.
#ifndef VC_ROS_ROS
#define VC_ROS_ROS
#include <ros/console.h>
namespace vcros {
struct Log {
  std::map<std::string, bool> bparams; std::map<std::string, double> dparams; std::map<std::string, std::string> sparams; std::map<std::string, int> iparams;
  std::map<std::string, int> subscribers;       // topic -> number of subscribers
  std::map<std::string, int> published;         // topic -> number of messages
  std::map<std::string, boost::shared_ptr<void> > last;
  std::set<std::string> subscribed;
  std::map<std::string, std::function<void(boost::shared_ptr<const void>)> > deliver;   // "topic/type" -> registered callback
  int default_subscribers = 1; double now = 0; bool has_now = false;
};
inline Log& log() { static Log l; return l; }
template <class T> const T& last(const std::string& topic) { return *boost::static_pointer_cast<T>(log().last[topic]); }
template <class M> bool send(const std::string& topic, const boost::shared_ptr<M>& m) { auto it = log().deliver.find(topic + "/" + typeid(M).name()); if (it == log().deliver.end()) return false; it->second(boost::shared_ptr<const void>(m)); return true; }
inline int count(const std::string& topic) { return log().published[topic]; }
}
namespace ros {
struct Duration { double d; Duration(double d = 0) : d(d) {} double toSec() const { return d; } bool sleep() const { return true; } };
struct Time {
  double t;
  unsigned sec, nsec;
  Time() : t(0), sec(0), nsec(0) {}
  explicit Time(double x) : t(x), sec(0), nsec(0) {}
  double toSec() const { return t; }
  static Time now() { return Time(vcros::log().now); }
  static void init() {}
};
inline bool operator<(const Time& a, const Time& b) { return a.t < b.t; }
inline bool operator==(const Time& a, const Time& b) { return a.t == b.t; }
inline Duration operator-(const Time& a, const Time& b) { return Duration(a.t - b.t); }
typedef std::vector<std::string> V_string;
struct TransportHints { TransportHints& tcpNoDelay(bool = true) { return *this; } };
struct Subscriber { std::string topic; std::string getTopic() const { return topic; } void shutdown() {} int getNumPublishers() const { return 0; } };
struct ServiceServer {};
struct Rate { Rate(double) {} void sleep() {} };
struct Publisher {
  std::string topic;
  int getNumSubscribers() const { auto& m = vcros::log().subscribers; auto it = m.find(topic); return it == m.end() ? vcros::log().default_subscribers : it->second; }
  template <class M> void publish(const M& m) const { vcros::log().published[topic]++; vcros::log().last[topic] = boost::shared_ptr<void>(boost::shared_ptr<M>(new M(m))); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  std::string getTopic() const { return topic; }
};
struct NodeHandle {
  std::string ns;
  NodeHandle(const std::string& n = "") : ns(n) {}
  NodeHandle(const NodeHandle& p, const std::string& n) : ns(p.ns + n) {}
  std::string getNamespace() const { return ns; }
  template <class T> bool find(const std::map<std::string, T>& m, const std::string& k, T& out) const { auto it = m.find(k); if (it == m.end()) it = m.find(ns + "/" + k); if (it == m.end()) return false; out = it->second; return true; }
  bool param(const std::string& k, bool& v, const bool& d) const { v = d; return find(vcros::log().bparams, k, v); }
  bool param(const std::string& k, double& v, const double& d) const { v = d; return find(vcros::log().dparams, k, v); }
  bool param(const std::string& k, int& v, const int& d) const { v = d; return find(vcros::log().iparams, k, v); }
  bool param(const std::string& k, std::string& v, const std::string& d) const { v = d; return find(vcros::log().sparams, k, v); }
  template <class M> Publisher advertise(const std::string& t, int, bool = false) { Publisher p; p.topic = t; return p; }
  template <class M, class O> Subscriber subscribe(const std::string& t, int, void (O::*f)(const boost::shared_ptr<const M>&), O* o, const TransportHints& = TransportHints()) { return sub<M>(t, f, o); }
  template <class M, class O> Subscriber sub(const std::string& t, void (O::*f)(const boost::shared_ptr<const M>&), O* o) { vcros::log().subscribed.insert(t); vcros::log().deliver[t + "/" + typeid(M).name()] = [f, o](boost::shared_ptr<const void> m) { (o->*f)(boost::static_pointer_cast<const M>(m)); }; Subscriber s; s.topic = t; return s; }
  template <class F, class O> ServiceServer advertiseService(const std::string&, F, O) { return ServiceServer(); }
};
namespace this_node { inline std::string getName() { return "node"; } inline void getSubscribedTopics(V_string& v) { v.clear(); } inline void getAdvertisedTopics(V_string& v) { v.clear(); } }
inline void init(int, char**, const std::string&) {}
inline void spin() {}
inline bool ok() { return true; }
}
#endif
