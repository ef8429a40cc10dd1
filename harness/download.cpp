// Replays download histories through the real dso::http_get against a scripted loopback server.
// All targets live in the scratch directory the harness is started in; it drops root before the first call.
#include "cweb.hpp"
#include "harness.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <dirent.h>
#include <fstream>
#include <map>
#include <netinet/tcp.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using vf::Ev;
using std::string;

static string body(int k) {
  static const int sizes[] = {0, 1, 17, 4095, 4096, 4097, 16384, 16385, 70001, 400003};
  if (k == 0) return "";
  int n = sizes[1 + k % 9];
  string s(n, '\0');
  unsigned x = 2463534242u + 77777u * k;
  for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; s[i] = (char)(x >> 8); }
  if (n) s[0] = (char)k;
  return s;
}
static int listener, port, deadport;
static std::atomic<int> asked{0};
// script of the response: path /<conn>/<code>/<framing>/<cut>/<body>/<to>/<variant>
static void sendall(int s, const string &d, unsigned piece = 0) {
  size_t o = 0;
  while (o < d.size()) {
    size_t n = piece ? std::min<size_t>(piece, d.size() - o) : d.size() - o;
    ssize_t w = send(s, d.data() + o, n, MSG_NOSIGNAL);
    if (w <= 0) return;
    o += w;
  }
}
static void finish(int s, bool rst) {
  if (rst) { linger l{1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(s); return; }
  shutdown(s, SHUT_WR);
  char b[512];
  timeval tv{2, 0};
  setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  while (recv(s, b, sizeof b, 0) > 0) {}
  close(s);
}
static void serve(int s) {
  string rq;
  char b[4096];
  while (rq.find("\r\n\r\n") == string::npos) {
    ssize_t n = recv(s, b, sizeof b, 0);
    if (n <= 0) { close(s); return; }
    rq.append(b, n);
  }
  asked++;
  std::istringstream is(rq);
  string method, path;
  is >> method >> path;
  std::vector<string> f;
  { std::istringstream ps(path.substr(1)); string w; while (std::getline(ps, w, '/')) f.push_back(w); }
  if (f.size() < 7) { finish(s, false); return; }
  string conn = f[0], framing = f[2];
  int code = atoi(f[1].c_str()), cut = atoi(f[3].c_str()), bd = atoi(f[4].c_str()), to = atoi(f[5].c_str()), var = atoi(f[6].c_str());
  if (conn == "mute") { finish(s, var & 1); return; }
  if (conn == "junk") { sendall(s, var & 1 ? string("\x01\x02 what?\r\n\r\n", 13) : "HTTQ/9 none\r\nX: y\r\n\r\nzzz"); finish(s, false); return; }
  string d = body(bd), h;
  if (var & 1) h += "HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n";
  h += "HTTP/1.1 " + std::to_string(code) + (code < 300 ? " OK" : " No") + "\r\nServer: vf\r\n";
  if (to >= 0) h += "Location: http://127.0.0.1:" + std::to_string(port) + "/ok/200/length/0/" + std::to_string(to) + "/-9/0\r\n";
  unsigned piece = (var & 2) ? 1460 : 0;
  // cut: 0 whole, 1 in the status line / headers, 2 before the first body byte, 3 in the middle, 4 just before the end; +10: reset instead of close
  bool rst = cut >= 10; cut %= 10;
  if (cut == 1) { sendall(s, h.substr(0, h.size() - 5)); finish(s, rst); return; }
  size_t keep = cut == 0 ? d.size() : cut == 2 ? 0 : cut == 3 ? d.size() / 2 : d.size() ? d.size() - 1 : 0;
  if (framing == "chunked") {
    h += "Transfer-Encoding: chunked\r\n\r\n";
    string o; size_t i = 0, c = (var & 4) ? 4096 : 1000;
    while (i < keep) { size_t n = std::min(c, keep - i); char t[32]; snprintf(t, 32, "%zx\r\n", n); o += t; o.append(d, i, n); o += "\r\n"; i += n; }
    if (cut == 0) o += "0\r\n\r\n";         // cut = 4 on an empty rest: only the last chunk is missing
    sendall(s, h + o, piece);
  } else if (framing == "close") sendall(s, h + "Connection: close\r\n\r\n" + d.substr(0, keep), piece);
  else sendall(s, h + "Content-Length: " + std::to_string(d.size()) + "\r\n\r\n" + d.substr(0, keep), piece);
  finish(s, rst);
}
static int bindport(bool lis, int &prt) {
  int s = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(s, (sockaddr *)&a, sizeof a)) { perror("bind"); _exit(3); }
  if (lis && listen(s, 64)) { perror("listen"); _exit(3); }
  socklen_t n = sizeof a;
  getsockname(s, (sockaddr *)&a, &n);
  prt = ntohs(a.sin_port);
  return s;
}
static string top;                    // scratch directory
static int nsc = 0;
static std::map<string, string> where; // target -> path
static const std::map<string, int> *known;
static int content(const string &p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return -1;
  if (S_ISDIR(st.st_mode)) return -2;
  std::ifstream f(p, std::ios::binary);
  string s((std::istreambuf_iterator<char>(f)), {});
  if (s.empty()) return 0;
  auto it = known->find(s);
  return it == known->end() ? -3 : it->second;
}
static string fsjson() {
  string o = "{";
  for (auto &kv : where) {
    int c = content(kv.second);
    if (kv.first == "n" && c == -1) c = -4;
    o += (o.size() > 1 ? ",\"" : "\"") + kv.first + "\":" + std::to_string(c);
  }
  return o + "}";
}
static int extras() {
  int n = 0;
  string d = top + "/s" + std::to_string(nsc);
  if (DIR *dp = opendir(d.c_str())) {
    while (dirent *e = readdir(dp)) {
      string f = e->d_name;
      if (f != "." && f != ".." && !where.count(f)) n++;
    }
    closedir(dp);
  }
  return n;
}
int main() {
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  unsetenv("http_proxy"); setenv("no_proxy", "*", 1);
  char t[] = "/tmp/vf-dl-XXXXXX";
  if (!mkdtemp(t)) return 3;
  top = t;
  bool root = geteuid() == 0;
  if (root) { if (chown(t, 65534, 65534) || setgid(65534) || setuid(65534)) return 3; }
  std::map<string, int> kn;
  for (int k = 1; k < 40; k++) kn[body(k)] = k;
  known = &kn;
  listener = bindport(true, port);
  bindport(false, deadport);
  std::thread([] { for (;;) { int s = accept(listener, nullptr, nullptr); if (s < 0) return; int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); serve(s); } }).detach();
  auto wipe = [&] {
    string d = top + "/s" + std::to_string(nsc);
    if (DIR *dp = opendir(d.c_str())) {
      std::vector<string> fs;
      while (dirent *e = readdir(dp)) fs.push_back(e->d_name);
      closedir(dp);
      for (auto &f : fs) if (f != "." && f != "..") { string p = d + "/" + f; if (unlink(p.c_str())) rmdir(p.c_str()); }
    }
    rmdir(d.c_str());
  };
  vf::Driver dr;
  dr.begin = [&] {
    nsc++;
    string d = top + "/s" + std::to_string(nsc);
    mkdir(d.c_str(), 0755);
    where.clear();
    for (string k : {"a", "b", "c"}) where[k] = d + "/" + k;
    where["d"] = d + "/d"; mkdir(where["d"].c_str(), 0755);
    where["n"] = d + "/none/n";
    Ev("Start").raw("fs", fsjson()).out();
  };
  dr.end = wipe;
  dr.cmd = [&](std::vector<string> &a) {
    if (a[0] == "Put") {
      std::ofstream f(where[a[1]], std::ios::binary); string b = body(atoi(a[2].c_str())); f.write(b.data(), b.size()); f.close();
      Ev("Put").str("t", a[1]).i("b", atoi(a[2].c_str())).raw("fs", fsjson()).out();
    } else if (a[0] == "Lock") {
      chmod(where[a[1]].c_str(), 0444);
      Ev("Lock").str("t", a[1]).raw("fs", fsjson()).out();
    } else if (a[0] == "Get") {
      // Get target force conn code framing cut body to variant room
      int force = atoi(a[2].c_str()), bd = atoi(a[7].c_str()), room = atoi(a[10].c_str()), cut = atoi(a[6].c_str());
      string url = "http://127.0.0.1:" + std::to_string(a[3] == "refused" ? deadport : port);
      for (int i : {3, 4, 5, 6, 7, 8, 9}) url += "/" + a[i];
      if (a[3] == "badurl") url = a[9] == "1" ? "nosuch://127.0.0.1/x" : "";
      asked = 0;
      rlimit old, lim;
      getrlimit(RLIMIT_FSIZE, &old);
      lim = old;
      if (!room) { lim.rlim_cur = body(bd).size() / 2; setrlimit(RLIMIT_FSIZE, &lim); }
      int r = force < 0 ? dso::http_get(url.c_str(), where[a[1]].c_str()) : dso::http_get(url.c_str(), where[a[1]].c_str(), force == 1);
      setrlimit(RLIMIT_FSIZE, &old);
      string conn = a[3] == "badurl" ? "refused" : a[3];
      Ev("Get").str("t", a[1]).raw("force", force == 1 ? "true" : "false")
          .raw("r", "{\"conn\":\"" + conn + "\",\"code\":" + a[4] + ",\"whole\":" + (cut == 0 ? "true" : "false") + ",\"body\":" + a[7] +
               ",\"to\":" + a[8] + ",\"room\":" + (room ? "true" : "false") + "}")
          .i("res", r).i("asked", asked).i("extra", extras()).raw("fs", fsjson()).out();
    }
  };
  int rc = dr.run();
  rmdir(top.c_str());
  fflush(stdout);
  _exit(rc);
}
