// Runner: forks worker processes, collects statistics, isolates, shrinks and
// re-confirms failures.  See pbt.hpp.
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace pbt {
namespace {

const uint64_t CAP = 1u << 18;          // choices recorded per case
const int RC_FAIL = 10, RC_DISCARD = 11, RC_HANG = 12;

struct Shm
{
  volatile uint64_t case_index;
  volatile int state;                    // 0 running, 1 failed (message set), 2 done
  char msg[16384];
  uint64_t rec[CAP + 1];
};

Shm* new_shm()
{
  void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shm*>(p);
}

double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

int cpu_limit = 20;
void on_prof(int) { static const char m[] = "case exceeded its CPU limit (hang)\n"; if(write(2, m, sizeof m - 1)) { } _exit(RC_HANG); }

void arm()
{
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &it, 0);
}

int size_for(uint64_t idx) { return 5 + static_cast<int>((idx * 37) % 96); }

uint64_t case_seed(uint64_t seed, const std::string& id, uint64_t idx)
{ return mix64(mix64(seed) ^ hash_str(id) ^ mix64(idx * 2 + 1)); }

// runs one case; returns 0 pass, RC_FAIL fail, RC_DISCARD discard
int run_case(const Property& p, Ctx& c, std::string& msg)
{
  try { p.fn(c); return 0; }
  catch(const Fail& f) { msg = f.msg; return RC_FAIL; }
  catch(const Discard&) { return RC_DISCARD; }
  catch(const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return RC_FAIL; }
  catch(...) { msg = "unexpected exception of unknown type"; return RC_FAIL; }
}

struct Outcome { int rc = 0; std::string msg; std::string desc; };   // rc 0 pass, RC_FAIL, 99 crash

void quiet_stderr(const std::string& to)
{
  int fd = open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if(fd >= 0) { dup2(fd, 2); close(fd); }
}

std::string slurp(const std::string& f, size_t max = 6000)
{
  std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf();
  std::string r = s.str(); if(r.size() > max) r.resize(max); return r;
}

Shm* iso_shm = 0;
std::string scratch;

std::string crash_summary(const std::string& err)
{
  size_t p = err.find("SUMMARY:");
  if(p == std::string::npos) p = err.find("ERROR: AddressSanitizer");
  if(p == std::string::npos) p = err.find("runtime error:");
  if(p == std::string::npos) p = err.find("Assertion");
  if(p == std::string::npos) return err.substr(0, 300);
  return err.substr(p, err.find('\n', p) - p);
}

// what a case that crashes had written about itself
Ctx* dying = 0; std::string dying_to;
void last_words() { if(dying) { Ctx* c = dying; dying = 0; std::ofstream d(dying_to.c_str()); d << c->desc.str(); } }
void on_abort(int) { last_words(); _exit(134); }

Outcome run_isolated(const Property& p, const std::vector<uint64_t>& choices, int size, std::vector<uint64_t>* used = 0)
{
  iso_shm->state = 0; iso_shm->msg[0] = 0; iso_shm->rec[0] = 0;
  std::string errf = scratch + "/iso.err", descf = scratch + "/iso.desc";
  unlink(descf.c_str());
  fflush(0);
  pid_t pid = fork();
  if(pid == 0)
  {
    quiet_stderr(errf);
    signal(SIGPROF, on_prof); arm();
    Ctx c(choices, size, iso_shm->rec, CAP);
    std::string msg;
    dying = &c; dying_to = descf; signal(SIGABRT, on_abort);
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(last_words);
    int rc = run_case(p, c, msg);
    dying = 0;
    struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_PROF, &off, 0);
    snprintf(iso_shm->msg, sizeof iso_shm->msg, "%s", msg.c_str());
    { std::ofstream d(descf.c_str()); d << c.desc.str(); }
    iso_shm->state = 2;
    _exit(rc);
  }
  int st = 0; waitpid(pid, &st, 0);
  Outcome o;
  if(WIFEXITED(st) && iso_shm->state == 2)
  {
    o.rc = WEXITSTATUS(st) == RC_FAIL ? RC_FAIL : 0;
    o.msg = iso_shm->msg;
  }
  else if(WIFEXITED(st) && WEXITSTATUS(st) == RC_HANG) { o.rc = 99; o.msg = "hang: case exceeded its CPU limit"; }
  else { o.rc = 99; o.msg = "crash: " + crash_summary(slurp(errf)); if(WIFSIGNALED(st)) o.msg += std::string(" (signal ") + std::to_string(WTERMSIG(st)) + ")"; }
  o.desc = slurp(descf, 20000);
  if(used) { used->clear(); for(uint64_t i = 0; i < iso_shm->rec[0] && i < CAP; ++i) used->push_back(iso_shm->rec[1 + i]); }
  return o;
}

std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, int size, const Outcome& first, double budget, int& attempts)
{
  double end = now() + budget;
  const int want = first.rc;
  const bool hang = first.msg.compare(0, 5, "hang:") == 0;
  if(hang) return best;                     // too slow to shrink
  auto ok = [&](const std::vector<uint64_t>& cand) -> bool
  {
    if(now() > end) return false;
    ++attempts;
    std::vector<uint64_t> used;
    Outcome o = run_isolated(p, cand, size, &used);
    if(o.rc != want || o.msg.compare(0, 5, "hang:") == 0) return false;
    best = cand;
    if(o.rc == RC_FAIL && used.size() < best.size()) best = used;
    return true;
  };
  bool progress = true;
  while(progress && now() < end)
  {
    progress = false;
    for(size_t blk = std::max<size_t>(best.size() / 2, 1); blk >= 1 && now() < end; blk = blk > 1 ? blk / 2 : 0)
    {
      for(size_t i = best.size(); i > 0 && now() < end; )
      {
        size_t s = i >= blk ? i - blk : 0;
        std::vector<uint64_t> cand(best.begin(), best.begin() + std::min(s, best.size()));
        if(s + blk < best.size()) cand.insert(cand.end(), best.begin() + s + blk, best.end());
        if(cand.size() < best.size() && ok(cand)) { progress = true; i = std::min(s, best.size()); }
        else i = s;
        if(s == 0) break;
      }
      if(blk == 1) break;
    }
    for(size_t blk : { size_t(16), size_t(4) })
      for(size_t i = 0; i < best.size() && now() < end; i += blk)
      {
        std::vector<uint64_t> cand = best; bool any = false;
        for(size_t j = i; j < std::min(i + blk, cand.size()); ++j) { any |= cand[j] != 0; cand[j] = 0; }
        if(any && ok(cand)) progress = true;
      }
    for(size_t i = 0; i < best.size() && now() < end; ++i)
    {
      if(i < best.size() && best[i] != 0) { std::vector<uint64_t> cand = best; cand[i] = 0; if(ok(cand)) { progress = true; continue; } }
      while(i < best.size() && best[i] > 1 && now() < end)
      { std::vector<uint64_t> cand = best; cand[i] /= 2; if(!ok(cand)) break; progress = true; }
      if(i < best.size() && best[i] > 0 && now() < end)
      { std::vector<uint64_t> cand = best; cand[i] -= 1; if(ok(cand)) progress = true; }
    }
  }
  return best;
}

std::string json_str(const std::string& s)
{
  std::string r = "\""; char b[8];
  for(unsigned char ch : s)
    if(ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
    else if(ch == '\n') r += "\\n";
    else if(ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += char(ch);
  return r + "\"";
}

void write_replay(const std::string& file, const Property& p, int size, const std::vector<uint64_t>& choices, const Outcome& o)
{
  std::ofstream f(file.c_str());
  f << "pbt-replay 1\nproperty " << p.id << "\nsize " << size << "\nchoices " << choices.size();
  for(uint64_t v : choices) f << ' ' << v;
  f << "\nmessage " << esc(o.msg) << "\ncase\n" << o.desc << "\n";
}

void write_history_replay(const std::string& file, const Property& p, uint64_t seed, uint64_t from, uint64_t to, uint64_t stride, const std::string& msg)
{
  std::ofstream f(file.c_str());
  f << "pbt-history 1\nproperty " << p.id << "\nseed " << seed << "\nfrom " << from << "\nto " << to << "\nstride " << stride
    << "\nmessage " << esc(msg) << "\n";
}

// runs cases from, from+stride .. to in one fresh process; true if it fails
bool run_history(const Property& p, uint64_t seed, uint64_t from, uint64_t to, uint64_t stride, std::string& msg, uint64_t& at)
{
  iso_shm->state = 0; iso_shm->msg[0] = 0;
  std::string errf = scratch + "/hist.err";
  fflush(0);
  pid_t pid = fork();
  if(pid == 0)
  {
    quiet_stderr(errf);
    signal(SIGPROF, on_prof);
    for(uint64_t i = from; i <= to; i += stride)
    {
      iso_shm->case_index = i; arm();
      Ctx c(case_seed(seed, p.id, i), size_for(i), iso_shm->rec, CAP);
      std::string m;
      if(run_case(p, c, m) == RC_FAIL) { snprintf(iso_shm->msg, sizeof iso_shm->msg, "%s", m.c_str()); iso_shm->state = 1; _exit(RC_FAIL); }
    }
    iso_shm->state = 2;
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  at = iso_shm->case_index;
  if(iso_shm->state == 2) return false;
  msg = iso_shm->state == 1 ? std::string(iso_shm->msg) : "crash: " + crash_summary(slurp(errf));
  return true;
}

struct Stats
{
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

} // namespace

int run_main(int argc, char** argv)
{
  std::string id, out = "out.json", replay, replays_dir = ".";
  uint64_t seed = 1, cases = 1000, jobs = 8;
  double maxtime = 300, shrink_time = getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : 40;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if(a == "--prop") id = val();
    else if(a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if(a == "--cases") cases = strtoull(val().c_str(), 0, 10);
    else if(a == "--jobs") jobs = strtoull(val().c_str(), 0, 10);
    else if(a == "--maxtime") maxtime = atof(val().c_str());
    else if(a == "--shrink") shrink_time = atof(val().c_str());
    else if(a == "--cpu") cpu_limit = atoi(val().c_str());
    else if(a == "--out") out = val();
    else if(a == "--replay") replay = val();
    else if(a == "--replays") replays_dir = val();
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  iso_shm = new_shm();
  char tmpl[] = "/tmp/pbtXXXXXX";
  if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  scratch = tmpl;
  struct Cleanup { ~Cleanup() { 
      DIR* d = opendir(scratch.c_str());
      if(d) { while(struct dirent* e = readdir(d)) if(e->d_name[0] != '.') unlink((scratch + "/" + e->d_name).c_str()); closedir(d); }
      rmdir(scratch.c_str()); } } cleanup;

  const Property* p = 0;
  auto find_prop = [&]() { for(const Property& q : registry()) if(q.id == id) p = &q; };

  if(!replay.empty())
  {
    std::ifstream f(replay.c_str()); std::string w; uint64_t n = 0, from = 0, to = 0, stride = 1; int size = 50; std::vector<uint64_t> ch; bool hist = false;
    f >> w; hist = w == "pbt-history"; f >> w;
    while(f >> w)
    {
      if(w == "property") f >> id; else if(w == "size") f >> size;
      else if(w == "choices") { f >> n; for(uint64_t i = 0; i < n; ++i) { uint64_t v; f >> v; ch.push_back(v); } }
      else if(w == "seed") f >> seed; else if(w == "from") f >> from; else if(w == "to") f >> to; else if(w == "stride") f >> stride;
      else break;
    }
    find_prop(); if(!p) { std::cerr << "no property " << id << "\n"; return 2; }
    if(hist)
    {
      std::string m; uint64_t at;
      if(run_history(*p, seed, from, to, stride, m, at)) { std::cout << "FAIL at case " << at << ": " << m << "\n"; return 1; }
      std::cout << "pass\n"; return 0;
    }
    Outcome o = run_isolated(*p, ch, size);
    std::cout << o.desc << "\n";
    if(o.rc) { std::cout << "FAIL: " << o.msg << "\n"; if(o.rc == 99) std::cout << slurp(scratch + "/iso.err") << "\n"; return 1; }
    std::cout << "pass\n"; return 0;
  }

  find_prop();
  if(!p) { std::cerr << "no property " << id << "\n"; return 2; }

  double t0 = now();
  // known findings first, each in a child of its own
  std::vector<std::string> known_present;
  for(const Known& k : known())
    if(k.id == id)
    {
      fflush(0);
      pid_t pid = fork();
      if(pid == 0) { quiet_stderr(scratch + "/known.err"); signal(SIGPROF, on_prof); arm(); bool b = true; try { b = k.fn(); } catch(...) { b = true; } _exit(b ? 1 : 0); }
      int st; waitpid(pid, &st, 0);
      if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) known_present.push_back(k.key);
    }

  std::vector<pid_t> pids; std::vector<Shm*> shms;
  for(uint64_t w = 0; w < jobs; ++w)
  {
    Shm* shm = new_shm(); shms.push_back(shm);
    fflush(0);
    pid_t pid = fork();
    if(pid == 0)
    {
      quiet_stderr(scratch + "/w" + std::to_string(w) + ".err");
      signal(SIGPROF, on_prof);
      Stats s;
      for(uint64_t i = w; i < cases; i += jobs)
      {
        if(now() - t0 > maxtime) break;
        shm->case_index = i; shm->rec[0] = 0; arm();
        Ctx c(case_seed(seed, p->id, i), size_for(i), shm->rec, CAP);
        std::string msg;
        int rc = run_case(*p, c, msg);
        if(rc == RC_FAIL)
        {
          snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
          shm->state = 1; _exit(RC_FAIL);
        }
        if(rc == RC_DISCARD) { ++s.discarded; continue; }
        ++s.evaluations;
        for(const std::string& l : c.labels) ++s.labels[l];
        if(c.is_nontrivial())
        {
          ++s.nontrivial;
          std::string d = c.desc.str();
          s.hashes.insert(hash_str(d));
          if(s.samples.size() < 2 && i > cases / 3) s.samples.push_back(d.substr(0, 1500));
        }
      }
      struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_PROF, &off, 0);
      std::ofstream f((scratch + "/w" + std::to_string(w) + ".stats").c_str(), std::ios::binary);
      f << s.evaluations << ' ' << s.discarded << ' ' << s.nontrivial << ' ' << s.labels.size() << '\n';
      for(auto& l : s.labels) f << l.second << ' ' << l.first << '\n';
      f << s.hashes.size() << '\n';
      for(uint64_t h : s.hashes) f << h << '\n';
      f << s.samples.size() << '\n';
      for(auto& d : s.samples) { f << d.size() << '\n' << d << '\n'; }
      f.close();
      shm->state = 2; _exit(0);
    }
    pids.push_back(pid);
  }

  // first failure wins; the rest are stopped
  int failed = -1; int failed_status = 0;
  size_t running = jobs;
  while(running)
  {
    int st; pid_t pid = waitpid(-1, &st, 0);
    if(pid < 0) break;
    for(size_t w = 0; w < pids.size(); ++w)
      if(pids[w] == pid)
      {
        --running; pids[w] = 0;
        if(shms[w]->state != 2 && failed < 0)
        {
          failed = static_cast<int>(w); failed_status = st;
          for(pid_t q : pids) if(q) kill(q, SIGKILL);
        }
      }
  }

  Stats tot; std::vector<std::string> samples;
  for(uint64_t w = 0; w < jobs; ++w)
  {
    std::ifstream f((scratch + "/w" + std::to_string(w) + ".stats").c_str(), std::ios::binary);
    if(!f) continue;
    uint64_t e, d, n, nl; if(!(f >> e >> d >> n >> nl)) continue;
    tot.evaluations += e; tot.discarded += d; tot.nontrivial += n;
    for(uint64_t i = 0; i < nl; ++i) { uint64_t k; std::string l; f >> k; f.get(); std::getline(f, l); tot.labels[l] += k; }
    uint64_t nh; f >> nh; for(uint64_t i = 0; i < nh; ++i) { uint64_t h; f >> h; tot.hashes.insert(h); }
    uint64_t ns; f >> ns; for(uint64_t i = 0; i < ns; ++i) { uint64_t len; f >> len; f.get(); std::string d2(len, 0); f.read(&d2[0], len); f.get(); if(samples.size() < 6) samples.push_back(d2); }
  }

  int rc = 0; std::string vmsg, vfile; int attempts = 0; std::string note;
  if(failed >= 0)
  {
    uint64_t idx = shms[failed]->case_index;
    int size = size_for(idx);
    std::vector<uint64_t> ch;
    for(uint64_t i = 0; i < shms[failed]->rec[0] && i < CAP; ++i) ch.push_back(shms[failed]->rec[1 + i]);
    std::string wmsg = shms[failed]->state == 1 ? std::string(shms[failed]->msg)
                     : "worker died: " + crash_summary(slurp(scratch + "/w" + std::to_string(failed) + ".err"));
    std::cerr << "case " << idx << " failed: " << wmsg << "\n";
    // confirm in isolation, three times
    Outcome o; int fails = 0;
    for(int k = 0; k < 3; ++k) { o = run_isolated(*p, ch, size); if(o.rc) ++fails; }
    if(fails == 3)
    {
      std::vector<uint64_t> best = shrink(*p, ch, size, o, shrink_time, attempts);
      int again = 0; Outcome b;
      for(int k = 0; k < 3; ++k) { b = run_isolated(*p, best, size); if(b.rc) ++again; }
      if(again != 3) { best = ch; b = o; }
      vfile = replays_dir + "/" + id + "-" + std::to_string(seed) + ".replay";
      write_replay(vfile, *p, size, best, b);
      vmsg = b.msg; rc = 1;
      std::cerr << "shrunk (" << attempts << " attempts, " << ch.size() << " -> " << best.size() << " choices)\n" << b.desc << "\n" << b.msg << "\n";
      if(b.rc == 99) std::cerr << slurp(scratch + "/iso.err") << "\n";
    }
    else
    {
      // depends on earlier cases in the same process: replay that history
      std::string m; uint64_t at = 0; int hf = 0;
      for(int k = 0; k < 2; ++k) if(run_history(*p, seed, failed, idx, jobs, m, at)) ++hf;
      if(hf == 2)
      {
        uint64_t from = failed;
        for(uint64_t back = 1; back * jobs <= idx - failed; back *= 4)
        { std::string m2; uint64_t at2; if(run_history(*p, seed, idx - back * jobs, idx, jobs, m2, at2) && at2 == idx) { from = idx - back * jobs; m = m2; break; } }
        vfile = replays_dir + "/" + id + "-" + std::to_string(seed) + ".replay";
        write_history_replay(vfile, *p, seed, from, idx, jobs, m);
        vmsg = "(fails only after earlier cases in the same process) " + m; rc = 1;
      }
      else
      {
        note = "a failure did not reproduce: " + wmsg; std::cerr << note << "\n"; rc = 3;
        vfile = replays_dir + "/" + id + "-" + std::to_string(seed) + ".replay";
        write_replay(vfile, *p, size, ch, o); vmsg = note;
      }
    }
  }
  if(!note.empty()) samples.push_back(note);

  std::ofstream j(out.c_str());
  j << "{\"property\":" << json_str(id) << ",\"evaluations\":" << tot.evaluations << ",\"discarded\":" << tot.discarded
    << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct_nontrivial\":" << tot.hashes.size()
    << ",\"rule\":" << json_str(p->rule) << ",\"labels\":{";
  bool firstl = true;
  for(auto& l : tot.labels) { if(!firstl) j << ','; firstl = false; j << json_str(l.first) << ':' << l.second; }
  j << "},\"samples\":[";
  for(size_t i = 0; i < samples.size(); ++i) { if(i) j << ','; j << json_str(samples[i]); }
  j << "],\"known\":[";
  for(size_t i = 0; i < known_present.size(); ++i) { if(i) j << ','; j << json_str(known_present[i]); }
  j << "],\"wall\":" << (now() - t0) << ",\"rc\":" << rc << ",\"message\":" << json_str(vmsg) << ",\"replay\":" << json_str(vfile) << "}\n";
  j.close();
  (void)failed_status;
  return rc;
}

} // namespace pbt

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
  static const pbt::Property* p = 0;
  if(!p) { const char* id = getenv("PBT_PROP"); for(const pbt::Property& q : pbt::registry()) if(id && q.id == id) p = &q; if(!p) abort(); }
  static uint64_t* rec = new uint64_t[pbt::CAP + 1];
  rec[0] = 0;
  pbt::Ctx c(data, size);
  std::string msg;
  if(pbt::run_case(*p, c, msg) == pbt::RC_FAIL) { std::cerr << c.desc.str() << "\n" << "PBT-FAIL " << msg << "\n"; __builtin_trap(); }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
