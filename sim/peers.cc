// Scenario language and simulated remote ends.
#include "core.h"
#include <netinet/in.h>
#include <unistd.h>
#include <algorithm>

void kind_set(const std::string& name, double p, u64 max);
void kind_clear_all();
void sim_signal(int sig);
void threads_stat_log();
void vfs_usage_log(const std::string& prefix);
void vfs_dump_log(const std::string& prefix);
void ep_close(Ep* ep);
Actor* kafka_make(Server* s, Ep* ep);
void kafka_cmd(Server* s, const std::vector<std::string>& w);
void kafka_register(Server* s);
extern std::set<std::string>* g_dns;
extern int g_dns6;
extern u64 g_fdmax;
typedef std::vector<std::string> Words;

static Words words(const std::string& l) {
  Words w;
  size_t i = 0;
  while (i < l.size()) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\n' || l[i] == '\t')) i++;
    size_t j = i;
    while (j < l.size() && l[j] != ' ' && l[j] != '\n' && l[j] != '\t') j++;
    if (j > i) w.push_back(l.substr(i, j - i));
    i = j;
  }
  return w;
}
static u64 num(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  size_t i = 0;
  for (;;) {
    size_t j = s.find(c, i);
    r.push_back(s.substr(i, j == std::string::npos ? j : j - i));
    if (j == std::string::npos) return r;
    i = j + 1;
  }
}
static std::string datahex(const std::string& h) { return h == "-" ? "" : unhex(h); }

// ---------------------------------------------------------------- recording endpoint
struct SinkActor : Actor {
  Server* s;
  SinkActor(Server* s) : s(s) {}
  void on_data(Ep* ep, const std::string& d) override { logf("a %d %d %llu %zu", ep->other->id, s->port, (unsigned long long)ep->connno, d.size()); }
  void on_fin(Ep* ep) override { ep_close(ep); }
};

// ---------------------------------------------------------------- relay: what the application sends comes back to one of its own ports
struct RelayActor : Actor {
  struct Up : Actor {
    Ep* down = nullptr;
    void on_data(Ep*, const std::string& d) override { ep_send(down, d); }
    void on_fin(Ep*) override { ep_close(down); }
    void on_rst(Ep*) override { ep_rst(down); }
  };
  Server* s;
  Up* ua = nullptr;
  Ep* up = nullptr;
  RelayActor(Server* s, Ep* ep) : s(s) {
    ua = new Up();
    ua->down = ep;
    up = client_connect(atoi(s->opt["to"].c_str()), ua);
    logf("RELAY %d %llu ep=%d", s->port, (unsigned long long)ep->connno, up->other->id);
    if (up->closed) at(g_now + 1, [ep] { ep_rst(ep); });
  }
  void on_data(Ep* ep, const std::string& d) override {
    logf("a %d %d %llu %zu", ep->other->id, s->port, (unsigned long long)ep->connno, d.size());
    ep_send(up, d);
  }
  void on_fin(Ep* ep) override { ep_fin(up); ep_close(ep); }
  void on_rst(Ep*) override { ep_rst(up); }
};

// ---------------------------------------------------------------- HTTP
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
struct HttpMsg {
  std::string start, body;
  std::map<std::string, std::string> hdr;
};
// returns true when a whole message was cut from buf
static bool http_cut(std::string& buf, HttpMsg& m, bool response, bool eof) {
  size_t h = buf.find("\r\n\r\n");
  if (h == std::string::npos) return false;
  m = HttpMsg();
  size_t i = buf.find("\r\n");
  m.start = buf.substr(0, i);
  i += 2;
  while (i < h + 2) {
    size_t j = buf.find("\r\n", i);
    std::string l = buf.substr(i, j - i);
    size_t c = l.find(':');
    if (c != std::string::npos) {
      size_t v = c + 1;
      while (v < l.size() && l[v] == ' ') v++;
      m.hdr[lower(l.substr(0, c))] = l.substr(v);
    }
    i = j + 2;
  }
  size_t b = h + 4;
  if (m.hdr.count("transfer-encoding") && lower(m.hdr["transfer-encoding"]).find("chunked") != std::string::npos) {
    std::string body;
    if (response && buf.compare(buf.size() - 5, 5, "0\r\n\r\n")) return false;   // nothing follows a response
    for (;;) {
      size_t e = buf.find("\r\n", b);
      if (e == std::string::npos) return false;
      size_t n = strtoull(buf.substr(b, e - b).c_str(), nullptr, 16);
      if (buf.size() < e + 2 + n + 2) return false;
      body += buf.substr(e + 2, n);
      b = e + 2 + n + 2;
      if (n == 0) break;
    }
    m.body = body;
    buf.erase(0, b);
    return true;
  }
  if (m.hdr.count("content-length")) {
    size_t n = num(m.hdr["content-length"]);
    if (buf.size() < b + n) return false;
    m.body = buf.substr(b, n);
    buf.erase(0, b + n);
    return true;
  }
  if (response) {
    if (!eof) return false;
    m.body = buf.substr(b);
    buf.clear();
    return true;
  }
  buf.erase(0, b);
  return true;
}
struct HttpSrv {
  u64 nreq = 0;
  std::map<u64, std::string> plan;    // request number -> actions
  std::string deflt = "status:204";
  std::map<std::string, std::deque<int>> items;   // queued item statuses (elasticsearch)
};
static std::map<int, HttpSrv>* g_http;
static std::string jstr(const std::string& l, const char* key) {
  std::string k = std::string("\"") + key + "\":\"";
  size_t i = l.find(k);
  if (i == std::string::npos) return "";
  i += k.size();
  size_t j = i;
  while (j < l.size() && l[j] != '"') { if (l[j] == '\\') j++; j++; }
  return l.substr(i, j - i);
}
struct HttpActor : Actor {
  Server* s;
  std::string buf;
  HttpActor(Server* s) : s(s) {}
  static std::string reply(int code, const std::string& body, bool json, bool close) {
    char b[256];
    snprintf(b, sizeof b, "HTTP/1.1 %d %s\r\n%s%s", code, code < 300 ? "OK" : "Error", json ? "content-type: application/json; charset=UTF-8\r\n" : "", close ? "connection: close\r\n" : "");
    std::string r = b;
    if (code != 204 || !body.empty()) { snprintf(b, sizeof b, "content-length: %zu\r\n", body.size()); r += b; }
    return r + "\r\n" + body;
  }
  std::string es_body(const std::string& req, const std::vector<std::string>& st, bool& err) {
    std::string items;
    size_t k = 0;
    err = false;
    auto lines = ::split(req, '\n');
    for (size_t i = 0; i + 1 < lines.size(); i += 2) {
      const std::string& l = lines[i];
      size_t b = l.find('"');
      std::string op = b == std::string::npos ? "index" : l.substr(b + 1, l.find('"', b + 1) - b - 1);
      std::string id = jstr(l, "_id"), idx = jstr(l, "_index"), ty = jstr(l, "_type");
      std::string stt = st.empty() ? "201" : st[k % st.size()];
      std::string idout = id;
      if (!stt.empty() && stt[0] == 'u') { stt = stt.substr(1); idout = "unknown-" + id; }
      int code = atoi(stt.c_str());
      k++;
      char b2[64];
      snprintf(b2, sizeof b2, "%d", code);
      if (!items.empty()) items += ",";
      items += "{\"" + op + "\":{\"_index\":\"" + idx + "\",\"_type\":\"" + ty + "\",\"_id\":\"" + idout + "\",";
      if (code < 300) items += std::string("\"_version\":1,\"result\":\"created\",\"_shards\":{\"total\":2,\"successful\":1,\"failed\":0},\"created\":true,\"status\":") + b2 + "}}";
      else { err = true; items += std::string("\"status\":") + b2 + ",\"error\":{\"type\":\"mapper_parsing_exception\",\"reason\":\"failed to parse\"}}}"; }
      logf("ITEM %s %d", id.c_str(), code);
    }
    return std::string("{\"took\":3,\"errors\":") + (err ? "true" : "false") + ",\"items\":[" + items + "]}";
  }
  void act(Ep* ep, u64 n, const std::string& plan, const HttpMsg& m) {
    int code = 204;
    std::string body;
    u64 delay = 0;
    bool rst = false, close = false, json = false, noreply = false, cut = false;
    for (auto& a : ::split(plan, '+')) {
      auto kv = ::split(a, ':');
      std::string v = kv.size() > 1 ? kv[1] : "";
      if (kv[0] == "status") code = atoi(v.c_str());
      else if (kv[0] == "delay") delay = num(v) * 1000000ull;
      else if (kv[0] == "rst") rst = true, noreply = true;
      else if (kv[0] == "close") close = true, noreply = true;
      else if (kv[0] == "replyclose") close = true;
      else if (kv[0] == "hang") noreply = true;
      else if (kv[0] == "cut") cut = true, close = true;
      else if (kv[0] == "body") { body = datahex(v); }
      else if (kv[0] == "garbage") { body = "<html>oops"; }
      else if (kv[0] == "items") {
        bool err;
        json = true; code = 200;
        body = es_body(m.body, v.empty() ? std::vector<std::string>() : ::split(v, ','), err);
      }
    }
    u64 dn = n; int port = s->port; u64 cn = ep->connno; std::string pl = plan;
    auto doit = [=]() {
      if (ep->rst || ep->closed) return;
      logf("HRSP %d %llu %llu %s", port, (unsigned long long)cn, (unsigned long long)dn, pl.c_str());
      if (!noreply) {
        std::string r = reply(code, body, json, close);
        if (cut) r = r.substr(0, r.size() / 2);
        ep_send(ep, r);
      }
      if (rst) ep_rst(ep);
      else if (close) ep_close(ep);
    };
    if (delay) at(g_now + delay, doit); else doit();
  }
  void on_data(Ep* ep, const std::string& d) override {
    buf += d;
    HttpMsg m;
    while (!ep->closed && http_cut(buf, m, false, false)) {
      HttpSrv& h = (*g_http)[s->port];
      u64 n = h.nreq++;
      char pre[256];
      snprintf(pre, sizeof pre, "HREQ %d %llu %llu %.150s", s->port, (unsigned long long)ep->connno, (unsigned long long)n, m.start.c_str());
      log_hex(pre, m.body.data(), m.body.size());
      auto it = h.plan.find(n);
      act(ep, n, it == h.plan.end() ? h.deflt : it->second, m);
    }
  }
  void on_fin(Ep* ep) override { ep_close(ep); }
};

// ---------------------------------------------------------------- clients of the application
struct Client : Actor {
  std::string id;
  Ep* ep = nullptr;
  void on_data(Ep*, const std::string& d) override { log_hex(("CR " + id).c_str(), d.data(), d.size()); }
  void on_fin(Ep*) override { logf("CFIN %s", id.c_str()); }
  void on_rst(Ep*) override { logf("CRST %s", id.c_str()); }
};
struct Scraper : Actor {
  std::string id, mode, buf;
  bool done = false;
  void fin(bool eof) {
    HttpMsg m;
    if (done || !http_cut(buf, m, true, eof)) return;
    done = true;
    std::string st = m.start.size() > 12 ? m.start.substr(9, 3) : "???";
    log_hex(("SCR " + id + " " + st).c_str(), m.body.data(), m.body.size());
  }
  void on_data(Ep* ep, const std::string& d) override { buf += d; fin(false); if (done) ep_close(ep); }
  void on_fin(Ep* ep) override { fin(true); if (!done) { done = true; logf("SCRFAIL %s fin", id.c_str()); } ep_close(ep); }
  void on_rst(Ep*) override { if (!done) { done = true; logf("SCRFAIL %s rst", id.c_str()); } }
};
static std::map<std::string, Client*>* g_clients;

static Server* server(int port) { auto it = g_servers.find(port); return it == g_servers.end() ? nullptr : it->second; }

void scenario_cmd(const Words& w) {
  if (w.empty()) return;
  const std::string& c = w[0];
  if (c == "udp") udp_inject(atoi(w[1].c_str()), datahex(w[2]));
  else if (c == "connect") {
    Client* k = new Client();
    k->id = w[1];
    (*g_clients)[w[1]] = k;
    k->ep = client_connect(atoi(w[2].c_str()), k);
    logf("CLIENT %s ep=%d", w[1].c_str(), k->ep->other->id);
  } else if (c == "send" || c == "fin" || c == "close" || c == "rst" || c == "stall" || c == "unstall") {
    auto it = g_clients->find(w[1]);
    if (it == g_clients->end()) return;
    Ep* ep = it->second->ep;
    if (c == "send") { std::string d = datahex(w[2]); logf("CS %s %zu", w[1].c_str(), d.size()); ep_send(ep, d); }
    else if (c == "fin") ep_fin(ep);
    else if (c == "close") ep_close(ep);
    else if (c == "rst") ep_rst(ep);
    else if (c == "stall") ep->stalled = true;
    else ep_unstall(ep);
  } else if (c == "append") { std::string d = datahex(w[2]); vfs_append(w[1], d); logf("APPEND %s %zu", w[1].c_str(), d.size()); }
  else if (c == "create") { vfs_create(w[1], w.size() > 2 ? datahex(w[2]) : ""); logf("CREATE %s", w[1].c_str()); }
  else if (c == "rename") { vfs_rename(w[1], w[2]); logf("RENAME %s %s", w[1].c_str(), w[2].c_str()); }
  else if (c == "unlink") { vfs_unlink(w[1]); logf("RM %s", w[1].c_str()); }
  else if (c == "truncate") { vfs_truncate(w[1], num(w[2])); logf("TRUNC %s", w[1].c_str()); }
  else if (c == "signal") sim_signal(atoi(w[1].c_str()));
  else if (c == "scrape") {
    Scraper* s = new Scraper();
    s->id = w[1];
    s->mode = w.size() > 3 ? w[3] : "";
    Ep* ep = client_connect(atoi(w[2].c_str()), s);
    logf("SCRSTART %s ep=%d", w[1].c_str(), ep->other->id);
    std::string req = "GET /metrics HTTP/1.1\r\nHost: sim\r\nConnection: close\r\n\r\n";
    if (s->mode == "half") req = req.substr(0, 20);
    if (s->mode == "stall") ep->stalled = true;
    ep_send(ep, req);
    if (s->mode == "vanish") { u64 d = w.size() > 4 ? num(w[4]) : 0; at(g_now + d * 1000, [ep] { ep_rst(ep); }); }
  } else if (c == "jump") { g_rt_off += (i64)strtoll(w[1].c_str(), nullptr, 10) * 1000000ll; logf("JUMP %s", w[1].c_str()); }
  else if (c == "stat") { fd_stat_log(); threads_stat_log(); }
  else if (c == "dump") vfs_dump_log(w[1]);
  else if (c == "du") { u64 n = 0, b = vfs_usage(w[1], &n); logf("DUSUM %llu %llu", (unsigned long long)b, (unsigned long long)n); vfs_usage_log(w[1]); }
  else if (c == "down" || c == "up" || c == "blackhole" || c == "unblackhole" || c == "kill" || c == "closeall" || c == "stallall" || c == "unstallall") {
    Server* s = server(atoi(w[1].c_str()));
    if (!s) return;
    logf("SRV %s %d", c.c_str(), s->port);
    if (c == "down") s->down = true;
    else if (c == "up") s->down = false;
    else if (c == "blackhole") s->blackhole = true;
    else if (c == "unblackhole") s->blackhole = false;
    else for (Ep* e : s->conns) {
        if (e->closed || e->rst) continue;
        if (c == "kill") { ep_rst(e); if (e->actor) e->actor->on_rst(e); }
        else if (c == "closeall") ep_close(e);
        else if (c == "stallall") e->stalled = true;
        else ep_unstall(e);
      }
    if (c == "stallall") s->opt["stalled"] = "1";
    if (c == "unstallall") s->opt["stalled"] = "0";
  } else if (c == "fault") kind_set(w[1], atof(w[2].c_str()), w.size() > 3 ? num(w[3]) : ~0ull);
  else if (c == "nofaults") { kind_clear_all(); logf("NOFAULTS"); }
  else if (c == "kafka") { Server* s = server(atoi(w[1].c_str())); if (s) kafka_cmd(s, w); }
  else if (c == "mark") logf("MARK %s", w.size() > 1 ? w[1].c_str() : "");
  else if (c == "end") { fd_stat_log(); threads_stat_log(); sim_end(0, "SCENARIOEND"); }
  else logf("BADCMD %s", c.c_str());
}

void scenario_load(const char* path) {
  g_http = new std::map<int, HttpSrv>();
  g_clients = new std::map<std::string, Client*>();
  FILE* f = fopen(path, "re");
  if (!f) { fprintf(stderr, "no scenario %s\n", path); _exit(90); }
  char* line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    Words w = words(std::string(line, n));
    if (w.empty() || w[0][0] == '#') continue;
    const std::string& c = w[0];
    if (c == "epoch") scn.epoch = (i64)num(w[1]);
    else if (c == "maxtime") scn.max_time = num(w[1]) * 1000000ull;
    else if (c == "maxsteps") scn.max_steps = num(w[1]);
    else if (c == "sched") scn.sched = w[1];
    else if (c == "psw") scn.psw = atof(w[1].c_str());
    else if (c == "depth") scn.depth = atoi(w[1].c_str());
    else if (c == "opcost") scn.op_cost = num(w[1]);
    else if (c == "lat") { scn.lat_min = num(w[1]) * 1000; scn.lat_max = num(w[2]) * 1000; }
    else if (c == "sndbuf") scn.sndbuf = num(w[1]);
    else if (c == "fscap") scn.fs_cap = num(w[1]);
    else if (c == "fdmax") g_fdmax = num(w[1]);
    else if (c == "desched") scn.desched_max = num(w[1]) * 1000;
    else if (c == "oversleep") scn.oversleep_max = num(w[1]) * 1000;
    else if (c == "verbose") scn.verbose = true;
    else if (c == "dns") g_dns->insert(w[1]);
    else if (c == "dns6") g_dns6 = atoi(w[1].c_str());
    else if (c == "fault") kind_set(w[1], atof(w[2].c_str()), w.size() > 3 ? num(w[3]) : ~0ull);
    else if (c == "mkdir") vfs_mkdir(w[1]);
    else if (c == "file") vfs_create(w[1], w.size() > 2 ? datahex(w[2]) : "");
    else if (c == "server") {
      Server* s = new Server();
      s->port = atoi(w[1].c_str());
      s->kind = w[2];
      for (size_t i = 3; i < w.size(); i++) { auto kv = split(w[i], '='); s->opt[kv[0]] = kv.size() > 1 ? kv[1] : "1"; }
      if (s->opt.count("down")) s->down = true;
      g_servers[s->port] = s;
      if (s->kind == "kafka") kafka_register(s);
      if (s->kind == "http" && s->opt.count("default")) (*g_http)[s->port].deflt = s->opt["default"];
      s->make = [s](Ep* ep, u64 no) -> Actor* {
        std::string k = "conn" + std::to_string(no);
        auto it = s->opt.find(k);
        if (it != s->opt.end()) {       // connN=rst:BYTES | close:BYTES(0)
          auto kv = split(it->second, ':');
          if (kv[0] == "rst") ep->rst_after = num(kv[1]);
          if (kv[0] == "close") { at(g_now + num(kv[1]) * 1000, [ep] { ep_close(ep); }); }
          if (kv[0] == "kill") { at(g_now + num(kv[1]) * 1000, [ep] { ep_rst(ep); }); }
        }
        if (s->opt["stalled"] == "1") ep->stalled = true;
        if (s->kind == "http") return new HttpActor(s);
        if (s->kind == "kafka") return kafka_make(s, ep);
        if (s->kind == "relay") return new RelayActor(s, ep);
        return new SinkActor(s);
      };
    } else if (c == "plan") {
      (*g_http)[atoi(w[1].c_str())].plan[num(w[2])] = w[3];
    } else if (c == "kafka") {
      Server* s = server(atoi(w[1].c_str()));
      if (s) kafka_cmd(s, w);
    } else if (c == "at") {
      u64 t = 1000000000ull + num(w[1]) * 1000;
      Words r(w.begin() + 2, w.end());
      at(t, [r] { scenario_cmd(r); });
    } else { fprintf(stderr, "bad scenario line: %s\n", c.c_str()); _exit(91); }
  }
  free(line);
  fclose(f);
}
