// A small Kafka cluster for the real librdkafka: ApiVersions, Metadata and Produce
// (message format v2, uncompressed), with scripted errors, delays and disconnects.
//   server PORT kafka topic=NAME parts=N       (all kafka servers form one cluster)
//   kafka PORT plan N ACTIONS                  actions for the N-th produce request of the cluster
//   kafka PORT default ACTIONS
//   kafka PORT poison CODE HEX                 a batch holding a payload with these bytes is refused with CODE
//   kafka PORT shift K                         partition leaders move
//   kafka PORT meta CODE                       topic metadata reports CODE (0: fine)
//   kafka PORT metaplan N ACTIONS              close/delay for the N-th metadata request
// ACTIONS: '+'-joined of ok, err:CODE, storeerr:CODE, drop, storedrop, hang, storehang, delay:MS
// Log: KREQ port conn n part count | KSTORE n part offset key value headers | KREFUSE n code value | KRSP n code | KDROP n
#include "core.h"
void ep_close(Ep* ep);
extern std::map<int, Server*>& g_servers;

struct Poison { int code; std::string s; };
struct Cluster {
  std::vector<int> ports;
  std::string topic = "t";
  int parts = 1, shift = 0, metaerr = 0;
  u64 nprod = 0, nmeta = 0;
  std::map<u64, std::string> plan, metaplan;
  std::string deflt = "ok";
  std::vector<Poison> poison;
  std::map<int, i64> next;
};
static Cluster& K() { static Cluster* c = new Cluster(); return *c; }

struct Rd {
  const unsigned char* p; size_t n, i = 0; bool bad = false;
  Rd(const void* p, size_t n) : p((const unsigned char*)p), n(n) {}
  u64 be(int k) { u64 v = 0; if (i + k > n) { bad = true; return 0; } while (k--) v = v << 8 | p[i++]; return v; }
  int i8() { return (signed char)be(1); }
  int i16() { return (short)be(2); }
  int i32() { return (int)be(4); }
  i64 i64_() { return (i64)be(8); }
  std::string bytes(i64 k) { if (k < 0) return ""; if (i + (size_t)k > n) { bad = true; return ""; } std::string s((const char*)p + i, k); i += k; return s; }
  std::string str() { int k = i16(); return k < 0 ? "" : bytes(k); }
  i64 varint() {
    u64 v = 0; int s = 0;
    for (;;) { if (i >= n || s > 63) { bad = true; return 0; } unsigned char c = p[i++]; v |= (u64)(c & 127) << s; s += 7; if (c < 128) break; }
    return (i64)(v >> 1) ^ -(i64)(v & 1);
  }
};
struct Wr {
  std::string s;
  void be(u64 v, int k) { while (k--) s.push_back((char)(v >> (8 * k))); }
  void i8(int v) { be(v, 1); } void i16(int v) { be((u64)(i64)v, 2); } void i32(int v) { be((u64)(i64)v, 4); } void i64_(i64 v) { be(v, 8); }
  void str(const std::string& x) { i16((int)x.size()); s += x; }
};
static u32 crc32c(const char* p, size_t n) {
  u32 c = ~0u;
  for (size_t i = 0; i < n; i++) { c ^= (unsigned char)p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1; }
  return ~c;
}
struct Rec { bool nohdr = false; std::string key, val; std::vector<std::pair<std::string, std::string>> hdr; };
static bool parse_batch(const std::string& b, std::vector<Rec>& out) {
  size_t at = 0;
  while (at < b.size()) {
    Rd r(b.data() + at, b.size() - at);
    r.i64_(); int len = r.i32(); r.i32(); int magic = r.i8();
    if (!r.bad && (magic == 0 || magic == 1)) {   // what librdkafka falls back to when its version query was cut off
      Rd m(b.data() + at + 12, b.size() - at - 12);
      m.i32(); m.i8();
      if (m.i8() & 7) return false;
      if (magic == 1) m.i64_();
      Rec rec;
      rec.nohdr = true;
      rec.key = m.bytes(m.i32());
      rec.val = m.bytes(m.i32());
      if (m.bad || (int)m.i != len) return false;
      out.push_back(rec);
      at += 12 + len;
      continue;
    }
    if (r.bad || magic != 2 || len < 49 || (size_t)len + 12 > r.n) return false;
    u32 crc = (u32)r.i32();
    if (crc != crc32c(b.data() + at + r.i, len - 9)) return false;
    int attr = r.i16(); r.i32(); r.i64_(); r.i64_(); r.i64_(); r.i16(); r.i32(); int cnt = r.i32();
    if (attr & 7) return false;
    for (int k = 0; k < cnt; k++) {
      Rec rec;
      r.varint(); r.i8(); r.varint(); r.varint();
      rec.key = r.bytes(r.varint());
      rec.val = r.bytes(r.varint());
      i64 nh = r.varint();
      for (i64 h = 0; h < nh && !r.bad; h++) { std::string hk = r.bytes(r.varint()); std::string hv = r.bytes(r.varint()); rec.hdr.push_back({hk, hv}); }
      if (r.bad) return false;
      out.push_back(rec);
    }
    at += 12 + len;
  }
  return true;
}
static std::string hx(const std::string& s) { return s.empty() ? "-" : tohex(s.data(), s.size()); }

struct KafkaActor : Actor {
  Server* s; Ep* ep; std::string buf;
  u64 busy_until = 0;                // answers leave in request order
  KafkaActor(Server* s, Ep* ep) : s(s), ep(ep) {}
  void answer(int corr, const std::string& body, u64 delay) {
    Wr w; w.i32((int)body.size() + 4); w.i32(corr); w.s += body;
    std::string out = w.s;
    u64 t = g_now + delay;
    if (t < busy_until) t = busy_until;
    busy_until = t;
    Ep* e = ep;
    auto f = [e, out] { if (!e->closed && !e->rst) ep_send(e, out); };
    if (t > g_now) at(t, f); else f();
  }
  int leader(int part) { Cluster& k = K(); return k.ports[(part + k.shift) % k.ports.size()]; }
  void metadata(int ver, int corr, Rd& r) {
    Cluster& k = K();
    int n = r.i32();
    std::vector<std::string> topics;
    for (int i = 0; i < n; i++) topics.push_back(r.str());
    bool all = (ver == 0 && n == 0) || n < 0;
    if (all) topics.push_back(k.topic);
    u64 id = k.nmeta++;
    u64 delay = 0;
    auto it = k.metaplan.find(id);
    if (it != k.metaplan.end()) {
      if (it->second.compare(0, 5, "close") == 0) { logf("KMETADROP %llu", (unsigned long long)id); ep_close(ep); return; }
      if (it->second.compare(0, 6, "delay:") == 0) delay = strtoull(it->second.c_str() + 6, nullptr, 10) * 1000000ull;
    }
    Wr w;
    w.i32((int)k.ports.size());
    for (int p : k.ports) { w.i32(p); w.str("127.0.0.1"); w.i32(p); if (ver >= 1) w.i16(-1); }
    if (ver >= 2) w.str("simcluster");
    if (ver >= 1) w.i32(k.ports[0]);
    w.i32((int)topics.size());
    for (auto& t : topics) {
      bool ok = true;
      int err = k.metaerr;
      w.i16(err); w.str(t);
      if (ver >= 1) w.i8(0);
      if (err) { w.i32(0); continue; }
      w.i32(k.parts);
      for (int p = 0; p < k.parts; p++) { int l = leader(p); w.i16(0); w.i32(p); w.i32(l); w.i32(1); w.i32(l); w.i32(1); w.i32(l); }
      (void)ok;
    }
    answer(corr, w.s, delay);
  }
  void produce(int ver, int corr, Rd& r) {
    Cluster& k = K();
    if (ver >= 3) r.str();
    int acks = r.i16(); r.i32();
    int nt = r.i32();
    std::string topic = r.str();
    int np = r.i32();
    int part = r.i32();
    std::string data = r.bytes(r.i32());
    std::vector<Rec> recs;
    u64 id = k.nprod++;
    if (r.bad || nt != 1 || np != 1 || !parse_batch(data, recs)) { log_hex("KBADDATA", data.data(), data.size()); logf("KBAD %llu nt=%d np=%d", (unsigned long long)id, nt, np); ep_close(ep); return; }
    logf("KREQ %d %llu %llu %d %zu", s->port, (unsigned long long)ep->connno, (unsigned long long)id, part, recs.size());
    std::string plan = k.plan.count(id) ? k.plan[id] : k.deflt;
    int code = 0; bool store = true, drop = false, hang = false; u64 delay = 0;
    size_t i = 0;
    while (i <= plan.size()) {
      size_t j = plan.find('+', i); if (j == std::string::npos) j = plan.size();
      std::string a = plan.substr(i, j - i), v;
      size_t c = a.find(':'); if (c != std::string::npos) { v = a.substr(c + 1); a = a.substr(0, c); }
      if (a == "err") { code = atoi(v.c_str()); store = false; }
      else if (a == "storeerr") code = atoi(v.c_str());
      else if (a == "drop") { drop = true; store = false; }
      else if (a == "storedrop") drop = true;
      else if (a == "hang") { hang = true; store = false; }
      else if (a == "storehang") hang = true;
      else if (a == "delay") delay = strtoull(v.c_str(), nullptr, 10) * 1000000ull;
      i = j + 1;
    }
    if (leader(part) != s->port) { code = 6; store = false; }
    else if (part < 0 || part >= k.parts) { code = 3; store = false; }
    else for (auto& po : k.poison) for (auto& rec : recs) if (rec.val.find(po.s) != std::string::npos) { code = po.code; store = false; }
    if (topic != k.topic && !code) { code = 0; }
    i64 base = -1;
    if (store) {
      base = k.next[part];
      for (auto& rec : recs) {
        std::string h;
        for (auto& kv : rec.hdr) h += (h.empty() ? "" : ",") + hx(kv.first) + "=" + hx(kv.second);
        logf("KSTORE %llu %s %d %lld %s %s %s", (unsigned long long)id, topic.c_str(), part, (long long)k.next[part]++, hx(rec.key).c_str(), hx(rec.val).c_str(), rec.nohdr ? "?" : h.empty() ? "-" : h.c_str());
      }
    } else
      for (auto& rec : recs) logf("KREFUSE %llu %d %s", (unsigned long long)id, code ? code : -1, hx(rec.val).c_str());
    if (drop) { logf("KDROP %llu", (unsigned long long)id); Ep* e = ep; if (delay) at(g_now + delay, [e] { if (!e->closed && !e->rst) ep_close(e); }); else ep_close(ep); return; }
    if (hang || acks == 0) return;
    logf("KRSP %llu %d %llu", (unsigned long long)id, code, (unsigned long long)(delay / 1000));
    Wr w; w.i32(1); w.str(topic); w.i32(1); w.i32(part); w.i16(code); w.i64_(base);
    if (ver >= 2) w.i64_(-1);
    if (ver >= 1) w.i32(0);
    answer(corr, w.s, delay);
  }
  void on_data(Ep* e, const std::string& d) override {
    buf += d;
    while (buf.size() >= 4 && !ep->closed && !ep->rst) {
      Rd l(buf.data(), 4);
      size_t n = (u32)l.i32();
      if (buf.size() < 4 + n) return;
      std::string m = buf.substr(4, n);
      buf.erase(0, 4 + n);
      Rd r(m.data(), m.size());
      int api = r.i16(), ver = r.i16(), corr = r.i32();
      r.str();
      if (api == 18) {
        Wr w; w.i16(0); w.i32(5);
        static const int av[5][3] = {{0, 0, 3}, {1, 0, 4}, {2, 0, 1}, {3, 0, 2}, {18, 0, 0}};
        for (auto& a : av) { w.i16(a[0]); w.i16(a[1]); w.i16(a[2]); }
        answer(corr, w.s, 0);
      } else if (api == 3) metadata(ver, corr, r);
      else if (api == 0) produce(ver, corr, r);
      else { logf("KUNKNOWN %d", api); ep_close(ep); }
    }
  }
  void on_fin(Ep* e) override { ep_close(e); }
};
Actor* kafka_make(Server* s, Ep* ep) { return new KafkaActor(s, ep); }
void kafka_register(Server* s) {
  Cluster& k = K();
  k.ports.push_back(s->port);
  if (s->opt.count("topic")) k.topic = s->opt["topic"];
  if (s->opt.count("parts")) k.parts = atoi(s->opt["parts"].c_str());
}
void kafka_cmd(Server* s, const std::vector<std::string>& w) {
  Cluster& k = K();
  const std::string& c = w[2];
  if (c == "plan") k.plan[strtoull(w[3].c_str(), nullptr, 10)] = w[4];
  else if (c == "default") k.deflt = w[3];
  else if (c == "poison") k.poison.push_back({atoi(w[3].c_str()), unhex(w[4])});
  else if (c == "unpoison") k.poison.clear();
  else if (c == "clear") { k.plan.clear(); k.metaplan.clear(); k.deflt = "ok"; k.metaerr = 0; }
  else if (c == "shift") k.shift = atoi(w[3].c_str());
  else if (c == "meta") k.metaerr = atoi(w[3].c_str());
  else if (c == "metaplan") k.metaplan[strtoull(w[3].c_str(), nullptr, 10)] = w[4];
  logf("KCMD %s", c.c_str());
}
