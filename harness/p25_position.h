static RV3 position_message(const std::string& n) { RV3 p = vec3(n); boost::shared_ptr<geometry_msgs::PointStamped> s(new geometry_msgs::PointStamped); header(s->header, Real(100), 5); put3(s->point, p); ensure("topic", vcros::send("position_input", s)); return p; }
static void ensure_position(const State& s, const RV3& z) { RV3 pip = s.Get<SD::p_ip>(), a = turn(s.Get<SD::q>(), pip); for (int i = 0; i < 3; ++i) ensure_eq("predicted position of the antenna " + std::to_string(i), s.Get<SD::p>()[i] + a[i], z[i]); }
