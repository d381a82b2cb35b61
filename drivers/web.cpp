// C26: downloads from a scripted server on the loopback interface, with transport and
// local write faults; everything happens inside the case's scratch directory.
#include <bits/stdc++.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "cweb.hpp"
#include "vf.hpp"

namespace {
enum Kind { LENGTH, CHUNKED, CLOSE, SLOW, STATUS, CUT_LENGTH, RESET, CUT_CHUNKED, BAD_CHUNK, NO_ANSWER, GARBAGE, REFUSED, REDIRECT, NKINDS };
const char *KN[] = {"content-length", "chunked", "close-delimited", "slow", "error status", "cut short", "reset", "cut chunked", "bad chunk", "no answer", "garbage", "refused", "redirect"};
struct Server {
  int fd = -1, port = 0; std::thread th; std::atomic<int> hits{0}; std::atomic<bool> stop{false};
  std::string head, body; std::vector<size_t> pieces; bool rst = false; bool answer = true;
  // without `listening` the port stays taken and refuses connections
  explicit Server(bool listening = true) {
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0;
    if (bind(fd, (sockaddr *)&a, sizeof a) || (listening && listen(fd, 8))) { perror("loopback server"); exit(3); }
    socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); port = ntohs(a.sin_port);
  }
  void run() { th = std::thread([this] {
    while (!stop) {
      pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, 20) <= 0) continue;
      int c = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC); if (c < 0) continue; hits++;
      std::string req; char b[4096]; ssize_t n; while (req.find("\r\n\r\n") == std::string::npos && (n = read(c, b, sizeof b)) > 0) req.append(b, n);
      if (answer) {
        std::string all = head + body; size_t o = 0, k = 0; 
        while (o < all.size()) { size_t w = pieces.empty() ? all.size() - o : std::min(all.size() - o, pieces[k++ % pieces.size()]); ssize_t s = send(c, all.data() + o, w, MSG_NOSIGNAL); if (s <= 0) break; o += s; if (!pieces.empty() && k < 40) usleep(200); }
      }
      if (rst) { usleep(300); linger l{1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
      else { shutdown(c, SHUT_WR); timeval tv{0, 200000}; setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); while (read(c, b, sizeof b) > 0) {} }
      close(c);
    } }); }
  ~Server() { stop = true; if (th.joinable()) th.join(); if (fd >= 0) close(fd); }
};
int open_fds_now() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
// the fewest seen in a few looks: the sanitizer's watcher opens a file of its own now and then
int open_fds() { int n = open_fds_now(); for (int i = 0; i < 3; i++) { usleep(100); n = std::min(n, open_fds_now()); } return n; }
int open_fds(int want) { int n = open_fds(); for (int i = 0; i < 200 && n > want; i++) { usleep(5000); n = open_fds(); } return n; }
std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
bool exists(const std::string &f) { struct stat s; return !lstat(f.c_str(), &s); }
void spill(const std::string &f, const std::string &t) { std::ofstream(f, std::ios::binary) << t; }
std::string content(vf::Rng &r) {
  size_t n = r.p(.08) ? 0 : r.p(.1) ? (size_t)r.i(500000, 2000000) : r.p(.3) ? (size_t)r.pick({1L, 4095L, 4096L, 4097L, 8192L, 16384L, 16385L, 65536L}) : (size_t)r.i(1, 120000);
  std::string s(n, 0); bool text = r.p(.4); for (char &x : s) x = text ? (char)r.pick({'a', '0', '\n', ' ', '\r'}) : (char)r.i(0, 255); return s;
}
std::string chunked(const std::string &b, vf::Rng &r, std::vector<size_t> &ends) {
  std::string o; size_t p = 0; while (p < b.size()) { size_t w = std::min(b.size() - p, (size_t)r.i(1, 30000)); o += vf::fmt("%zx\r\n", w) + b.substr(p, w) + "\r\n"; ends.push_back(o.size()); p += w; } return o;
}
struct Quiet { Quiet() { setenv("no_proxy", "*", 1); signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN); } } quiet;
// lines the server up for one exchange; returns whether the transfer is complete and right
bool arrange(Server &s, Kind k, const std::string &b, vf::Rng &r) {
  std::string ok = r.p(.8) ? "HTTP/1.1 200 OK\r\n" : r.p(.7) ? "HTTP/1.1 200 Fine\r\nContent-Type: text/plain\r\n" : "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\n"; std::vector<size_t> ends;
  if (r.p(.3)) for (int i = 0; i < 6; i++) s.pieces.push_back((size_t)r.i(1, 20000));
  switch (k) {
  case LENGTH: s.head = ok + vf::fmt("Content-Length: %zu\r\n\r\n", b.size()); s.body = b; return true;
  case CHUNKED: s.head = ok + "Transfer-Encoding: chunked\r\n\r\n"; s.body = chunked(b, r, ends) + "0\r\n\r\n"; return true;
  case CLOSE: s.head = "HTTP/1.0 200 OK\r\n\r\n"; s.body = b; return true;
  case SLOW: s.head = ok + vf::fmt("Content-Length: %zu\r\n\r\n", b.size()); s.body = b; s.pieces.clear(); for (int i = 0; i < 30; i++) s.pieces.push_back((size_t)r.i(1, 400)); s.pieces.push_back(100000); return true;
  case STATUS: { int c = r.p(.7) ? r.pick({400, 401, 403, 404, 408, 410, 416, 429, 500, 502, 503, 504, 599}) : (int)r.i(400, 599); s.head = vf::fmt("HTTP/1.1 %d Sorry\r\nContent-Length: %zu\r\n\r\n", c, b.size()); s.body = b; return false; }
  case CUT_LENGTH: case RESET: s.head = ok + vf::fmt("Content-Length: %zu\r\n\r\n", b.size() + (size_t)r.i(1, 5000)); s.body = b.substr(0, r.p(.3) ? b.size() : (size_t)r.i(0, (long)b.size())); s.rst = k == RESET; return false;
  case CUT_CHUNKED: { s.head = ok + "Transfer-Encoding: chunked\r\n\r\n"; std::string x = chunked(b, r, ends); s.body = r.p(.5) ? x : x.substr(0, (size_t)r.i(0, (long)x.size())); return false; }
  case BAD_CHUNK: s.head = ok + "Transfer-Encoding: chunked\r\n\r\n"; s.body = chunked(b, r, ends) + "zz\r\n"; return false;
  case NO_ANSWER: s.answer = false; s.rst = r.p(.5); return false;
  case GARBAGE: s.head = r.pick({"this is not http\r\n\r\n", "HTP/1.1 200 OK\r\n\r\n", "\n\n\n\n"}); s.body = b; return false;
  case REDIRECT: { int c = r.p(.7) ? r.pick({300, 301, 302, 303, 304, 305, 307, 308, 399}) : (int)r.i(300, 399); s.head = vf::fmt("HTTP/1.1 %d Moved\r\nLocation: http://127.0.0.1:1/elsewhere\r\nContent-Length: %zu\r\n\r\n", c, b.size()); s.body = b; return false; }
  default: return false; }
}
} // namespace

// files an earlier case of this run left behind
static void clear(const std::string &dir) { for (const char *f : {"file.dat", "out.dat", "src.dat", "bystander.txt", "f"}) unlink((dir + "/" + f).c_str()); unlink((dir + "/file.dat/in").c_str()); rmdir((dir + "/file.dat").c_str()); }

VF_GROUP(download, 500, 12000) {
  vf::Rng &r = c.r; Kind k = (Kind)(c.idx % NKINDS); std::string dir = c.scratch(); clear(dir); std::string b = content(r), local = dir + "/file.dat"; 
  bool before = r.p(.3), force = r.p(.5), good; std::string old = r.p(.15) ? "" : "previous content " + std::string((size_t)r.i(0, 200000), 'p');
  int fds = open_fds(); std::unique_ptr<Server> s(new Server(k != REFUSED)); good = arrange(*s, k, b, r); int port = s->port; if (k != REFUSED) s->run();
  if (before) spill(local, old);
  std::string url = vf::fmt("http://127.0.0.1:%d/%s", port, r.pick({"file.dat", "a/b/c.txt", "x?y=1"}));
  spill(dir + "/bystander.txt", "mine"); int rc = dso::http_get(url.c_str(), local.c_str(), force); long hits = s ? (long)s->hits : 0; s.reset(); int fds2 = open_fds(fds);
  std::string tag = vf::fmt("%s, %zu bytes%s%s: status %d", KN[k], b.size(), before ? ", file exists" : "", force ? ", forced" : "", rc);
  c.check(slurp(dir + "/bystander.txt") == "mine", "other_files_untouched", "%s", tag.c_str()); remove((dir + "/bystander.txt").c_str());
  c.check(fds2 <= fds, "descriptor_leak", "%s: %d descriptors before, %d after", tag.c_str(), fds, fds2); // the server has closed all its own
  if (before && !force) { c.check(rc < 0, "existing_is_reported", "%s", tag.c_str()); c.check(slurp(local) == old, "existing_is_kept", "%s", tag.c_str()); c.check(hits == 0, "existing_needs_no_transfer", "%s", tag.c_str()); c.event("existing files kept"); }
  else if (good) { c.check(rc == 0, "complete_transfer_accepted", "%s", tag.c_str()); if (rc == 0) c.check(exists(local) && slurp(local) == b, "file_equals_resource", "%s: %zu bytes on disk", tag.c_str(), slurp(local).size()); c.event("complete transfers"); }
  else { c.check(rc > 0, "failure_is_reported", "%s", tag.c_str()); c.check(!exists(local), "no_partial_file", "%s: %zu bytes left", tag.c_str(), exists(local) ? slurp(local).size() : 0); c.event(("failed: " + std::string(KN[k])).c_str()); }
  c.distinct(vf::fmt("%s %d %d %d", KN[k], before, force, (int)(log2(b.size() + 1) * 3))); c.sample(tag);
}
// the local side fails: size limit (as a full disk), target cannot be opened
VF_GROUP(local_faults, 300, 6000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 6); std::string dir = c.scratch(); clear(dir); std::string b = content(r), local = dir + "/file.dat"; Server s; arrange(s, r.pick({LENGTH, CHUNKED, CLOSE}), b, r); s.run();
  std::string url = vf::fmt("http://127.0.0.1:%d/f", s.port); bool force = r.p(.5); int rc; std::string tag;
  if (kind <= 2) { // the limit falls anywhere in the file
    size_t lim = b.empty() ? 0 : kind == 0 ? b.size() - 1 : kind == 1 ? (size_t)r.i(0, (long)b.size() - 1) : b.size() + (size_t)r.i(0, 100);
    rlimit o; getrlimit(RLIMIT_FSIZE, &o); rlimit n = o; n.rlim_cur = lim; if (setrlimit(RLIMIT_FSIZE, &n)) return; 
    rc = dso::http_get(url.c_str(), local.c_str(), force); setrlimit(RLIMIT_FSIZE, &o);
    tag = vf::fmt("%zu bytes, disk takes %zu: status %d", b.size(), lim, rc);
    if (lim < b.size()) { c.check(rc > 0, "write_failure_is_reported", "%s", tag.c_str()); c.check(!exists(local), "no_partial_file", "%s: %zu bytes left", tag.c_str(), exists(local) ? slurp(local).size() : 0); c.event("writes failed"); }
    else { c.check(rc == 0 && slurp(local) == b, "file_equals_resource", "%s", tag.c_str()); c.event("complete transfers"); }
  } else if (kind == 3) { // the name is a directory
    mkdir(local.c_str(), 0700); bool full = r.p(.3); if (full) spill(local + "/in", "x"); rc = dso::http_get(url.c_str(), local.c_str(), force);
    tag = vf::fmt("target is %s directory: status %d", full ? "a" : "an empty", rc);
    c.check(rc > 0, "failure_is_reported", "%s", tag.c_str()); struct stat st; c.check(!stat(local.c_str(), &st) && S_ISDIR(st.st_mode) && (!full || slurp(local + "/in") == "x"), "existing_directory_kept", "%s", tag.c_str()); c.event("targets that cannot be opened");
    remove((local + "/in").c_str()); rmdir(local.c_str());
  } else if (kind == 4) { // missing parent
    std::string l2 = dir + "/none/file.dat"; rc = dso::http_get(url.c_str(), l2.c_str(), force); tag = vf::fmt("target directory missing: status %d", rc);
    c.check(rc > 0 && !exists(dir + "/none"), "failure_is_reported", "%s", tag.c_str()); c.event("targets that cannot be opened");
  } else { // a running program cannot be written
    { std::ifstream i("/bin/sleep", std::ios::binary); std::ofstream o(local, std::ios::binary); o << i.rdbuf(); } chmod(local.c_str(), 0700); size_t sz = slurp(local).size();
    int p[2]; if (pipe2(p, O_CLOEXEC)) return; pid_t pid = fork(); if (!pid) { execl(local.c_str(), "sleep", "60", (char *)0); _exit(9); }
    close(p[1]); char x; (void)!read(p[0], &x, 1); close(p[0]); // returns once the child has executed
    int fd = open(local.c_str(), O_WRONLY | O_CLOEXEC); bool busy = fd < 0 && errno == ETXTBSY; if (fd >= 0) close(fd);
    rc = dso::http_get(url.c_str(), local.c_str(), true); tag = vf::fmt("target is a running program: status %d", rc);
    if (busy) { c.check(rc > 0, "failure_is_reported", "%s", tag.c_str()); c.check(exists(local) && slurp(local).size() == sz, "existing_file_kept_when_unopened", "%s", tag.c_str()); c.event("targets that cannot be opened"); } else c.event("busy target not reproducible here");
    kill(pid, SIGKILL); waitpid(pid, nullptr, 0);
  }
  c.distinct(vf::fmt("%d %d %d", kind, force, (int)(log2(b.size() + 1) * 3))); c.sample(tag);
}
// file: resources and unusable addresses
VF_GROUP(addresses, 200, 3000) {
  vf::Rng &r = c.r; int kind = (int)(c.idx % 4); std::string dir = c.scratch(); clear(dir); std::string b = content(r), src = dir + "/src.dat", local = dir + "/out.dat"; spill(src, b); std::string url; bool good = false;
  if (kind == 0) { url = "file://" + src; good = true; } else if (kind == 1) url = "file://" + dir + "/nothing.dat"; else if (kind == 2) url = r.pick({"", "nonsense://x/y", "http://", "http://256.1.1.1.1/", "ht!tp://x"}); else url = "http://no-such-host.invalid/";
  int rc = dso::http_get(url.c_str(), local.c_str(), r.p(.5)); std::string tag = vf::fmt("'%s': status %d", kind ? url.c_str() : "file:", rc);
  if (good) c.check(rc == 0 && slurp(local) == b, "file_equals_resource", "%s", tag.c_str()); else { c.check(rc > 0, "failure_is_reported", "%s", tag.c_str()); c.check(!exists(local), "no_partial_file", "%s", tag.c_str()); }
  c.check(slurp(src) == b, "other_files_untouched", "%s", tag.c_str()); c.event(good ? "complete transfers" : "unusable addresses"); c.distinct(vf::fmt("%d %s %d", kind, kind == 2 ? url.c_str() : "", (int)(log2(b.size() + 1))));
}
// repeated calls leak neither descriptors nor memory
VF_GROUP(leaks, 6, 60) {
  vf::Rng &r = c.r; std::string dir = c.scratch(); auto once = [&](int k) { std::string b = content(r); Server s; arrange(s, (Kind)k, b, r); s.run(); std::string local = dir + "/f"; dso::http_get(vf::fmt("http://127.0.0.1:%d/f", s.port).c_str(), local.c_str(), true); dso::http_get("file:///nonexistent/x", (dir + "/no/f").c_str(), true); remove(local.c_str()); };
  for (int i = 0; i < 3; i++) for (int k = 0; k < NKINDS; k++) if (k != REFUSED && k != SLOW) once(k);
  int fds = open_fds(); size_t m = vf::live_bytes(); int n = 0;
  for (int i = 0; i < 3; i++) for (int k = 0; k < NKINDS; k++) if (k != REFUSED && k != SLOW) once(k), n += 2;
  int fds2 = open_fds(fds); size_t m2 = vf::live_bytes(); c.check(fds2 <= fds, "descriptor_leak", "%d calls: %d descriptors before, %d after", n, fds, fds2); c.check((double)m2 - (double)m < 16.0 * n, "memory_leak", "%d calls: %zu bytes live before, %zu after", n, m, m2); c.event("calls watched for leaks", n); c.distinct(vf::fmt("leaks %d", (int)r.i(0, 1 << 20)));
}
