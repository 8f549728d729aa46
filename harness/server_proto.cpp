// Conversations of raw sessions with the real server, in virtual time.
// usage: server_proto OUT SEED COUNT LEVEL
#define verif_server_sim_implementation
#include "server_sim.h"

#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/error/Destructor_Logger.h"

#include <unordered_set>

using namespace verif;
using namespace joedb;

static const int64_t H = 41; // size of the header

struct Data
{
 std::string d;
 bool tail_locked = false;
};

struct View: public Abstract_File
{
 Data &data;
 size_t max_read;
 View(Data &data, Open_Mode mode, size_t max_read = 1 << 30): Abstract_File(mode), data(data), max_read(max_read) {}
 int64_t get_size() const override {return int64_t(data.d.size());}
 size_t pread(char *out, size_t size, int64_t offset) const override
 {
  if (size_t(offset) >= data.d.size()) return 0;
  size = std::min(std::min(size, data.d.size() - size_t(offset)), offset < H ? size_t(1000) : max_read);
  memcpy(out, data.d.data() + offset, size);
  return size;
 }
 void pwrite(const char *in, size_t size, int64_t offset) override
 {
  if (data.d.size() < size_t(offset) + size) data.d.resize(size_t(offset) + size);
  memcpy(&data.d[offset], in, size);
 }
 void exclusive_lock(int64_t start, int64_t size) override
 {
  if (start > 0)
  {
   if (data.tail_locked) {fprintf(stderr, "locked twice\n"); _exit(5);}
   data.tail_locked = true;
  }
 }
 void unlock(int64_t start, int64_t size) noexcept override {if (start > 0) data.tail_locked = false;}
};

static std::string block(int id, int64_t U)
{
 std::string s(size_t(U), char('a' + id % 26));
 for (int i = 0; i < 8; i++) s[i] = char(i == 0 ? id & 127 : i == 1 ? id >> 7 : 'B');
 for (int64_t i = 8; i < U; i += 97) s[i] = char(id + i);
 return s;
}

static int64_t effective(const std::string &d)
{
 if (d.size() < size_t(H)) return 0;
 int64_t s[4];
 memcpy(s, d.data(), 32);
 int64_t r = H;
 for (int i = 0; i < 2; i++)
  if (s[2 * i] == s[2 * i + 1]) r = std::max(r, s[2 * i]);
 for (int i = 0; i < 4; i++)
  if (-s[i] <= int64_t(d.size())) r = std::max(r, -s[i]);
 return r;
}

// the blocks in a range of bytes; -1 for anything else
static std::vector<int> blocks(std::string_view d, int64_t U)
{
 std::vector<int> r;
 for (size_t i = 0; i < d.size(); i += size_t(U))
 {
  if (i + size_t(U) > d.size()) {r.push_back(-1); break;}
  const int id = uint8_t(d[i]) + 128 * uint8_t(d[i + 1]);
  r.push_back(d.substr(i, size_t(U)) == block(id, U) ? id : -1);
 }
 return r;
}

static const int max_sessions = 5;

struct Session
{
 int fd = -1;
 bool open = false;
 bool greeted = false;
 std::string op; // the request that is pending
 bool data = false;
 int64_t from = 0;
 std::string unsent; // rest of the request
 int64_t unsent_data = 0; // of which this many bytes are the data of a push
 std::string rx;
};

struct World
{
 Rng rng;
 Trace trace;
 Data data;
 int64_t U = 0, T = 0;
 bool writable = true, shared = false;
 Session ss[max_sessions + 1];
 int next_session = 1;
 int next_id = 1;
 std::vector<int> hist;
 int64_t counter = 0;
 std::string path;
 Destructor_Logger *dl = nullptr;

 explicit World(uint64_t seed): rng(seed) {}

 int64_t pos(int64_t n) const {return H + n * U;}
 int64_t units(int64_t p) const {return p < H || (p - H) % U ? -1 : (p - H) / U;}

 //////////////////////////////////////////////////////////////////////////
 void transmit(int s, size_t n)
 {
  Session &x = ss[s];
  while (n > 0)
  {
   const ssize_t k = ::send(x.fd, x.unsent.data(), std::min(n, x.unsent.size()), MSG_NOSIGNAL | MSG_DONTWAIT);
   if (k < 0)
   {
    if (errno == EAGAIN) {sim.run(); continue;}
    x.unsent.clear();
    x.unsent_data = 0;
    return; // closed by the server: it will be noticed
   }
   const size_t header = x.unsent.size() - size_t(x.unsent_data);
   x.unsent.erase(0, size_t(k));
   n -= size_t(k);
   if (size_t(k) > header)
   {
    const int64_t bytes = k - int64_t(header);
    x.unsent_data -= bytes;
    trace.add("data", {{"s", s}, {"n", bytes}});
   }
  }
 }

 void receive_all()
 {
  for (int s = 1; s <= max_sessions; s++)
  {
   Session &x = ss[s];
   if (!x.open) continue;
   bool eof = false;
   char b[65536];
   while (true)
   {
    const ssize_t k = ::recv(x.fd, b, sizeof(b), MSG_DONTWAIT);
    if (k > 0) {x.rx.append(b, size_t(k)); sim.step();}
    else
    {
     eof = k == 0 || (errno != EAGAIN && errno != EWOULDBLOCK);
     break;
    }
   }
   parse(s);
   if (eof)
   {
    if (!x.rx.empty()) trace.add("reply", {{"s", s}, {"r", J::raw("{\"op\":\"garbage\"}")}});
    trace.add("reply", {{"s", s}, {"r", J::raw("{\"op\":\"eof\"}")}});
    ::close(x.fd);
    x.open = false;
   }
  }
 }

 static int64_t i64(const std::string &s, size_t at) {int64_t r; memcpy(&r, s.data() + at, 8); return r;}

 void reply(int s, const Fields &f)
 {
  trace.add("reply", {{"s", s}, {"r", J::raw(object(f))}});
  ss[s].op.clear();
 }

 void parse(int s)
 {
  Session &x = ss[s];
  if (x.rx.empty()) return;
  if (x.op.empty()) {trace.add("reply", {{"s", s}, {"r", J::raw("{\"op\":\"unexpected\"}")}}); x.rx.clear(); return;}
  const auto is = [&](const char *o) {return x.op == o;};
  size_t used = 0;
  if (is("hello"))
  {
   if (x.rx.size() < 30) return;
   used = 30;
   x.greeted = true;
   reply(s, {{"op", "hello"}, {"ok", x.rx.substr(0, 5) == "joedb" && i64(x.rx, 5) == protocol_version},
    {"cp", units(i64(x.rx, 21))}, {"w", x.rx[29] == 'W'}});
  }
  else if (is("pull") || is("read"))
  {
   if (x.rx.size() < 9) return;
   const int64_t cp = i64(x.rx, 1);
   const int64_t n = x.data ? std::max<int64_t>(0, cp - x.from) : 0;
   if (int64_t(x.rx.size()) < 9 + n) return;
   used = size_t(9 + n);
   const std::vector<int> got = blocks(std::string_view(x.rx).substr(9, size_t(n)), U);
   if (is("pull"))
    reply(s, {{"op", "pull"}, {"ok", x.rx[0] != 'R'}, {"cp", units(cp)}, {"got", got}});
   else
    reply(s, {{"op", "read"}, {"until", units(cp)}, {"got", got}});
  }
  else if (is("unlock"))
  {
   used = 1;
   reply(s, {{"op", x.rx[0] == 'M' ? "unlock" : "?"}});
  }
  else if (is("push"))
  {
   used = 1;
   const char c = x.rx[0];
   reply(s, {{"op", "push"}, {"st", c == 'C' ? "C" : c == 'R' ? "R" : c == 't' ? "t" : c == 'N' || c == 'O' ? "ok" : "?"}});
  }
  else if (is("hash"))
  {
   used = 1;
   reply(s, {{"op", "hash"}, {"same", x.rx[0] != 'h'}});
  }
  x.rx.erase(0, used);
  parse(s);
 }

 void observe()
 {
  const int64_t e = effective(data.d);
  std::vector<int> h = blocks(std::string_view(data.d).substr(H, size_t(std::max<int64_t>(0, e - H))), U);
  if (h != hist)
  {
   hist = h;
   trace.add("hist", {{"hist", hist}});
  }
 }

 void settle()
 {
  for (int i = 0; i < 4; i++) {sim.run(); observe(); receive_all();}
  trace.add("idle", {{"hist", hist}});
 }

 void partly(int n)
 {
  for (int i = 0; i < n; i++)
   if (!sim.step()) break;
  observe();
  receive_all();
 }

 //////////////////////////////////////////////////////////////////////////
 template<typename T> static void put(std::string &s, T x) {s.append((const char *)&x, sizeof(x));}

 // sends the request, or only its beginning
 void ask(int s, const char *name, const std::string &bytes, int64_t data_bytes, const Fields &f, int how)
 {
  Session &x = ss[s];
  x.op = name;
  x.unsent = bytes;
  x.unsent_data = data_bytes;
  const size_t header = bytes.size() - size_t(data_bytes);
  if (how == 1 && header > 1)
   transmit(s, 1 + size_t(rng.below(int64_t(header) - 1))); // an incomplete header, completed later
  if (how == 1 && rng.chance(50)) partly(1 + int(rng.below(3)));
  Fields g{{"s", s}};
  for (const auto &y: f) g.push_back(y);
  trace.add(name, g);
  const size_t rest = x.unsent.size() - size_t(x.unsent_data);
  transmit(s, rest);
  if (how == 0) transmit(s, x.unsent.size());
 }

 void hello(int s, int kind)
 {
  Session &x = ss[s];
  x.fd = connect_to(path);
  if (x.fd < 0) {fprintf(stderr, "cannot connect\n"); _exit(3);}
  x.open = true;
  if (rng.chance(20)) partly(1);
  std::string b = kind == 2 ? "jeodb" : "joedb";
  put(b, int64_t(kind == 1 ? protocol_version - 1 : protocol_version));
  ask(s, "hello", b, 0, {{"kind", kind == 0 ? "good" : kind == 1 ? "old" : "garbage"}}, rng.chance(10));
 }

 void pull(int s, bool lock, bool want, int64_t wait, int64_t from, int how)
 {
  std::string b(1, char('D' + lock + 2 * want));
  put(b, wait);
  put(b, pos(from));
  ss[s].data = want;
  ss[s].from = pos(from);
  ask(s, "pull", b, 0, {{"lock", lock}, {"data", want}, {"wait", wait}, {"from", from}}, how);
 }

 void push(int s, bool unlock, int64_t from, int n, int how)
 {
  std::string b(1, unlock ? 'O' : 'N');
  put(b, pos(from));
  put(b, pos(from + n));
  std::vector<int> ids;
  std::string d;
  for (int i = 0; i < n; i++)
  {
   ids.push_back(next_id++);
   d += block(ids.back(), U);
  }
  ask(s, "push", b + d, int64_t(d.size()), {{"un", unlock}, {"from", from}, {"blk", ids}, {"left", d.size()}}, how);
 }

 void read(int s, int64_t from, int64_t until)
 {
  std::string b(1, 'r');
  put(b, pos(from));
  put(b, pos(until));
  ss[s].data = true;
  ss[s].from = pos(from);
  ask(s, "read", b, 0, {{"from", from}, {"until", until}}, rng.chance(10));
 }

 void hash(int s, std::vector<int> cells, bool full)
 {
  std::string content = data.d.substr(0, H);
  for (const int id: cells) content += block(id, U);
  int64_t slots[4] = {int64_t(content.size()), int64_t(content.size()), 0, 0};
  memcpy(content.data(), slots, 32);
  Readonly_Memory_File f(content);
  Readonly_Journal j(f);
  std::string b(1, full ? 'I' : 'H');
  put(b, int64_t(content.size()));
  put(b, full ? Journal_Hasher::get_full_hash(j, int64_t(content.size())) : Journal_Hasher::get_fast_hash(j, int64_t(content.size())));
  ask(s, "hash", b, 0, {{"cells", cells}, {"full", full}}, rng.chance(10));
 }

 void leave(int s)
 {
  trace.add("leave", {{"s", s}});
  ::close(ss[s].fd);
  ss[s].open = false;
 }

 void local()
 {
  if (data.tail_locked) return;
  const int id = next_id++;
  trace.add("local", {{"blk", std::vector<int>{id}}});
  View v(data, Open_Mode::shared_write);
  Writable_Journal j{Journal_Construction_Lock(v, Recovery::overwrite)};
  j.lock_pull();
  Async_Writer w = j.get_async_tail_writer();
  const std::string b = block(id, U);
  w.write(b.data(), b.size());
  j.soft_checkpoint_at(w.get_position());
  j.unlock();
  observe();
 }

 //////////////////////////////////////////////////////////////////////////
 // one action, chosen at random among those that make sense
 void act()
 {
  const int64_t n = int64_t(hist.size());
  std::vector<int> open;
  for (int s = 1; s <= max_sessions; s++) if (ss[s].open) open.push_back(s);
  const int c = int(rng.below(100));
  if (open.empty() || (next_session <= max_sessions && c < (open.size() < 2 ? 60 : 8)))
  {
   if (next_session <= max_sessions)
   {
    const int k = int(rng.below(100));
    hello(next_session++, k < 90 ? 0 : k < 95 ? 1 : 2);
   }
   return;
  }
  if (c < 22)
  {
   sim.advance(10);
   trace.add("time", {{"t", sim.ms()}});
   return;
  }
  if (shared && c < 28) {local(); return;}
  const int s = open[size_t(rng.below(int64_t(open.size())))];
  Session &x = ss[s];
  if (!x.unsent.empty())
  {
   if (rng.chance(8)) leave(s);
   else transmit(s, rng.chance(40) ? x.unsent.size() : 1 + size_t(rng.below(int64_t(x.unsent.size()))));
   return;
  }
  if (!x.op.empty() || !x.greeted)
  {
   if (rng.chance(15)) leave(s);
   return;
  }
  const int how = rng.chance(15) ? 1 : rng.chance(20) ? 2 : 0;
  const int k = int(rng.below(100));
  if (k < 22) pull(s, true, rng.chance(80), rng.chance(25) ? 30 : 0, rng.chance(70) ? n : rng.below(n + 2), how);
  else if (k < 38) pull(s, false, rng.chance(80), rng.chance(70) ? 10 * (1 + rng.below(8)) : 0, rng.chance(75) ? n : rng.below(n + 2), how);
  else if (k < 52) {ask(s, "unlock", "M", 0, {}, 0);}
  else if (k < 84)
  {
   const int64_t from = rng.chance(75) ? n : std::max<int64_t>(0, n - 1 + rng.below(3));
   push(s, rng.chance(60), from, rng.chance(80) ? 1 : rng.below(3), how == 0 && rng.chance(35) ? 2 : how);
  }
  else if (k < 88) {const int64_t a = rng.below(n + 1); read(s, a, shared ? a : rng.below(n + 2));}
  else if (k < 92)
  {
   std::vector<int> cells(hist.begin(), hist.begin() + (shared ? 0 : rng.below(n + 1)));
   if (!cells.empty() && rng.chance(40)) cells[size_t(rng.below(int64_t(cells.size())))] += 1;
   else if (!shared && rng.chance(20)) cells.push_back(next_id + 5);
   hash(s, cells, rng.chance(60));
  }
  else if (k < 96) leave(s);
  else ask(s, "quit", rng.chance(50) ? "Q" : "?", 0, {}, 0);
 }

 //////////////////////////////////////////////////////////////////////////
 // a short script: letters are requests, digits choose the session
 void script(const std::string &prog)
 {
  int s = 1;
  for (const char c: prog)
  {
   const int64_t n = int64_t(hist.size());
   if (c >= '1' && c <= '5') {s = c - '0'; continue;}
   Session &x = ss[s];
   if (c == 't' || c == 'T')
   {
    for (int i = 0; i < (c == 't' ? 1 : 5); i++)
    {
     sim.advance(10);
     trace.add("time", {{"t", sim.ms()}});
     settle();
    }
    continue;
   }
   if (c == 'c') {if (!x.open && x.op.empty() && !x.greeted) hello(s, 0);}
   else if (c == 'l') {if (shared) local();}
   else if (!x.open) continue;
   else if (c == 'x') leave(s);
   else if (c == 'r') {if (!x.unsent.empty()) transmit(s, x.unsent.size());}
   else if (c == 'h') {if (!x.unsent.empty()) transmit(s, (x.unsent.size() + 1) / 2);}
   else if (!x.op.empty() || !x.unsent.empty()) continue;
   else if (c == 'g') pull(s, true, true, 0, n, 0);
   else if (c == 'G') pull(s, true, true, 30, n, 0);
   else if (c == 'f') pull(s, false, true, 0, std::max<int64_t>(0, n - 1), 0);
   else if (c == 'F') pull(s, false, true, 70, n, 0);
   else if (c == 'm') ask(s, "unlock", "M", 0, {}, 0);
   else if (c == 'o') push(s, true, n, 1, 0);
   else if (c == 'n') push(s, false, n, 1, 0);
   else if (c == 'O') push(s, true, n, 1, 2);
   else if (c == 'N') push(s, false, n, 1, 2);
   else if (c == 'p') push(s, true, std::max<int64_t>(0, n - 1), 1, 0);
   else if (c == 'P') push(s, false, std::max<int64_t>(0, n - 1), 1, 2);
   else if (c == 'B') push(s, true, n, 3, 2);
   else if (c == 'd') read(s, 0, n + 2);
   else if (c == 'D') read(s, n, n + 3);
   else if (c == 'q') ask(s, "quit", "Q", 0, {}, 0);
   settle();
  }
 }

 void run(const std::string &prog, const std::string &dir)
 {
  static int number = 0;
  path = dir + "/s" + std::to_string(number++);
  sim.now_ns = 1000000000000;
  const size_t max_read = rng.chance(20) ? size_t(1 + rng.below(700)) : size_t(1) << 30;
  std::unique_ptr<View> view;
  std::unique_ptr<Client> client;
  std::unique_ptr<Writable_Journal_Client> writer;
  {
   View v(data, Open_Mode::write_existing_or_create_new);
   Writable_Journal j(v);
   const int initial = writable ? int(rng.below(2)) : 3;
   if (initial)
   {
    Async_Writer w = j.get_async_tail_writer();
    for (int i = 0; i < initial; i++) {const std::string b = block(next_id++, U); w.write(b.data(), b.size());}
    j.soft_checkpoint_at(w.get_position());
   }
  }
  trace.extra = ",\"T\":" + std::to_string(T) + ",\"w\":" + (writable ? "true" : "false") + ",\"shared\":" + (shared ? "true" : "false");
  view.reset(new View(data, !writable ? Open_Mode::read_existing : shared ? Open_Mode::shared_write : Open_Mode::write_existing, max_read));
  if (writable) client.reset(new Writable_Journal_Client(*view));
  else client.reset(new Readonly_Client(*view));

  hist = blocks(std::string_view(data.d).substr(H, size_t(effective(data.d) - H)), U);
  trace.add("start", {{"hist", hist}});
  {
   Sim_Server<joedb::Server> server;
   server.start(Logger::dummy_logger, 0, 1, path, *client, std::chrono::milliseconds(T));
   if (!prog.empty())
   {
    for (int s = 1; s <= 3 + (prog.find_first_of("45") != std::string::npos) + (prog.find('5') != std::string::npos); s++) {hello(s, 0); settle();}
    script(prog);
   }
   else
   {
    const int64_t n = 6 + rng.below(30);
    for (int64_t i = 0; i < n; i++)
    {
     act();
     if (rng.chance(65)) settle();
     else partly(int(rng.below(5)));
    }
   }
   settle();
   for (int s = 1; s <= max_sessions; s++)
    if (ss[s].open) ::close(ss[s].fd);
   server.stop();
  }
  observe();
 }
};

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 const uint64_t seed = strtoull(argv[2], nullptr, 10);
 const int64_t count = atoll(argv[3]);
 const int level = atoi(argv[4]);
 Destructor_Logger::set_logger(nullptr);
 Trace_Writer out(argv[1]);
 Rng rng(seed);
 std::unordered_set<std::string> known;
 int64_t evaluations = 0;
 char dir[] = "/tmp/svXXXXXX";
 if (!mkdtemp(dir)) return 3;

 const auto go = [&](const std::string &prog, int kind)
 {
  World w(seed * 1000003 + uint64_t(evaluations));
  evaluations++;
  w.U = kind & 1 ? 9000 : kind & 2 ? 12 : 100;
  w.T = kind & 4 ? 50 : 0;
  w.shared = (kind & 24) == 8;
  w.writable = (kind & 24) != 24;
  w.trace.id = (prog.empty() ? "random" : prog) + " " + std::to_string(kind) + " " + std::to_string(seed) + "/" + std::to_string(evaluations);
  w.run(prog, dir);
  if (known.insert(w.trace.text).second)
   out.write(w.trace);
 };

 // every sequence of a few requests of two sessions, or a sample of them
 static const std::string alphabet = "gGfFmonONpPrhqxtTlBdD";
 const int64_t m = int64_t(alphabet.size());
 const auto random_script = [&](int len)
 {
  const bool many = rng.chance(30);
  if (many) len += 4;
  std::string p;
  for (int i = 0; i < len; i++)
  {
   p += char('1' + rng.below(i < 2 ? 2 : many ? 5 : 3));
   p += alphabet[size_t(rng.below(m))];
  }
  return p;
 };
 if (level > 1)
 {
  for (int64_t a = 0; a < m * 2; a++)
   for (int64_t b = 0; b < m * 2; b++)
    for (int64_t c = 0; c < m * 2; c++)
    {
     std::string p;
     for (const int64_t x: {a, b, c}) {p += x < m ? '1' : '2'; p += alphabet[size_t(x % m)];}
     if ((a * 7 + b * 3 + c + int64_t(seed)) % 4 == 0) go(p, int(rng.below(16)));
    }
 }
 // situations that random requests rarely reach
 for (const char *p: {"1g2g3g1m2m3m", "1g2g3g2x1m3m", "1g2O2r", "1n1p2p", "1n1m2o1p2f", "1n1m2o1P1r2f3f", "1g1O1hTT1r2f", "1O1hTT2o1r2f",
  "1F2o", "1F2F3o", "1F2p", "1F2xttttttt", "1G2g3Fttt", "1g2G3gttt1m2m", "1F1xttttttt", "1g2g1x3g2m", "1gTT2gTT3g", "1O2g3g1hTT1r2m",
  "1g2g3g1TTTT", "1o2o3o1f2f", "1g1g2g", "1n1n1n2g1mTT", "1O1h1x2o", "1F2O2h2r3f", "1n2F1p2f", "1n1nT1p2o1p", "1G2O2h2xttt2f3o",
  "1g2F3F4g1n", "1g2g3F4F1n", "1g2g3F4F1m2o", "1g2F3g4F5F1n1o3o", "1F2F3F4F5o", "1F2F3F4F5g5x", "1g2g3g4g5g1x3x2m4m", "1B2D2d1h2D2d1r2d", "1B1h1h2D2f2d1x2d", "1N1hTT2o1r2f", "1g1N1hTT1r2f", "1N1hTT2n1r2m2f", "1N1TT2o3o1r2f3f", "2g1N1h2mTT3o1r", "1B1h2dTT2d1r2o2d"})
  for (const int kind: {0, 1, 4, 5, 8, 12, 24})
   go(p, kind);
 for (int64_t i = 0; i < count; i++)
  go(random_script(3 + int(rng.below(6))), int(rng.below(16)));
 for (int64_t i = 0; i < count; i++)
  go("", rng.chance(10) ? 24 + int(rng.below(8)) : int(rng.below(16)));

 out.close();
 rmdir(dir);
 printf("{\"evaluations\":%lld,\"traces\":%zu,\"events\":%zu,\"rounds\":%lld}\n", (long long)evaluations, out.traces, out.events, (long long)sim.rounds);
 return 0;
}
