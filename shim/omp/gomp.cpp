// A stand-in for the OpenMP run time which, unlike the real one, is compiled with the program under test: ThreadSanitizer then sees every
// synchronisation of a parallel region and nothing else. It hands out the work in seeded, perturbed schedules and counts what it did.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <thread>
#include <vector>
#include <set>
namespace {
struct Share { long next, end, incr, chunk; };
struct Team { int n; std::mutex m; std::condition_variable cv; int waiting=0; unsigned long round=0; std::deque<Share> shares; std::deque<bool> singles; void* copy=nullptr; uint64_t trace=1469598103934665603ull; };
thread_local Team* team=nullptr; thread_local int me=0; thread_local size_t my_share=0, my_single=0; thread_local Share* cur=nullptr; thread_local uint64_t rng=0; thread_local int icv=0; thread_local int depth=0;
int initial() { static const int n=[]{ const char* s=getenv("OMP_NUM_THREADS"); int v=s?atoi(s):0; return v>0?v:4; }(); return n; }
int most() { return icv>0?icv:initial(); }
uint64_t seed() { static const uint64_t s=[]{ const char* e=getenv("VERIF_SCHEDULE"); return e?strtoull(e,nullptr,10):1ull; }(); return s; }
std::atomic<uint64_t> regions{0}, threads{0}, chunks{0}, delays{0}, wide{0}; std::mutex seen_m; std::set<uint64_t>& seen() { static auto* s=new std::set<uint64_t>; return *s; }
uint64_t draw() { if (!rng) rng=seed()*0x9E3779B97F4A7C15ull+regions.load(std::memory_order_relaxed)*0xBF58476D1CE4E5B9ull+uint64_t(me+1)*0x94D049BB133111EBull; rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
void perturb() { uint64_t d=draw()%32; if (d<6) { delays.fetch_add(1,std::memory_order_relaxed); if (d<4) sched_yield(); else { timespec t{0,long(1000*(draw()%60))}; nanosleep(&t,nullptr); } } }
void note(int who) { team->trace=(team->trace^uint64_t(who+1))*1099511628211ull; }
void barrier() { if (!team||team->n==1) return; perturb(); std::unique_lock<std::mutex> l(team->m); auto r=team->round; if (++team->waiting==team->n) { team->waiting=0; ++team->round; l.unlock(); team->cv.notify_all(); } else team->cv.wait(l,[&]{ return team->round!=r; }); }
bool next(long* a, long* b) { if (!cur) return false; perturb(); std::lock_guard<std::mutex> l(team->m); chunks.fetch_add(1,std::memory_order_relaxed); long left=cur->incr>0?cur->end-cur->next:cur->next-cur->end; if (left<=0) return false; note(me); *a=cur->next; long step=cur->incr*cur->chunk; *b=cur->incr>0?(cur->next+step>cur->end?cur->end:cur->next+step):(cur->next+step<cur->end?cur->end:cur->next+step); cur->next=*b; return true; }
Team& lonely() { static thread_local Team t; t.n=1; return t; }
bool start(long a, long b, long incr, long chunk, long* x, long* y) { if (!team) { team=&lonely(); } { std::lock_guard<std::mutex> l(team->m); if (team->shares.size()<=my_share) team->shares.push_back({a,b,incr,chunk>0?chunk:1}); cur=&team->shares[my_share++]; } return next(x,y); }
void region(void (*f)(void*), void* d, unsigned n, const Share* first=nullptr) { Team t; if (n==0) n=unsigned(most()); if (depth>0||n<1) n=1; t.n=int(n); if (first) t.shares.push_back(*first); auto r=regions.fetch_add(1)+1; threads.fetch_add(n); if (n>1) wide.fetch_add(1); const int nt=icv;
  auto body=[&,r,nt](int k) { Team* ot=team; int om=me; size_t os=my_share, og=my_single; Share* oc=cur; uint64_t orng=rng; team=&t; me=k; my_share=0; my_single=0; cur=nullptr; rng=0; if (k) icv=nt; ++depth; if (first) { cur=&t.shares[0]; my_share=1; } if (t.n>1) perturb(); f(d); --depth; team=ot; me=om; my_share=os; my_single=og; cur=oc; rng=orng; };
  std::vector<std::thread> w; for (unsigned k=1;k<n;++k) w.emplace_back(body,int(k)); body(0); for (auto& x : w) x.join(); if (n>1) { std::lock_guard<std::mutex> l(seen_m); seen().insert(t.trace*31+n); } }
std::mutex& critical() { static std::mutex m; return m; }
std::mutex& named(void** p) { static std::mutex g; static std::map<void**,std::unique_ptr<std::mutex>> m; std::lock_guard<std::mutex> l(g); auto& x=m[p]; if (!x) x=std::make_unique<std::mutex>(); return *x; }
}
extern "C" {
unsigned long verif_omp_regions() { return regions; } unsigned long verif_omp_wide() { return wide; } unsigned long verif_omp_threads() { return threads; } unsigned long verif_omp_chunks() { return chunks; } unsigned long verif_omp_delays() { return delays; } unsigned long verif_omp_schedules() { std::lock_guard<std::mutex> l(seen_m); return seen().size(); }
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) { region(f,d,n); }
void GOMP_barrier() { barrier(); } bool GOMP_barrier_cancel() { barrier(); return false; }
#define LOOP(K) bool GOMP_loop_##K##_start(long a,long b,long i,long c,long* x,long* y) { return start(a,b,i,c,x,y); } bool GOMP_loop_##K##_next(long* x,long* y) { return next(x,y); } \
  void GOMP_parallel_loop_##K(void (*f)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { Share s{a,b,i,c>0?c:1}; region(f,d,n,&s); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(K) bool GOMP_loop_##K##_start(long a,long b,long i,long* x,long* y) { return start(a,b,i,1,x,y); } bool GOMP_loop_##K##_next(long* x,long* y) { return next(x,y); } \
  void GOMP_parallel_loop_##K(void (*f)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { Share s{a,b,i,1}; region(f,d,n,&s); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
bool GOMP_loop_static_start(long a,long b,long i,long c,long* x,long* y) { return start(a,b,i,c,x,y); } bool GOMP_loop_static_next(long* x,long* y) { return next(x,y); }
// loops over unsigned long long
typedef unsigned long long ull;
#define ULOOP(K) bool GOMP_loop_ull_##K##_start(bool up, ull a, ull b, ull i, ull c, ull* x, ull* y) { (void)up; long p=0,q=0; bool r=start(long(a),long(b),long(i),long(c),&p,&q); *x=ull(p); *y=ull(q); return r; } bool GOMP_loop_ull_##K##_next(ull* x, ull* y) { long p=0,q=0; bool r=next(&p,&q); *x=ull(p); *y=ull(q); return r; }
ULOOP(dynamic) ULOOP(nonmonotonic_dynamic) ULOOP(guided) ULOOP(nonmonotonic_guided)
void GOMP_loop_end() { cur=nullptr; barrier(); } void GOMP_loop_end_nowait() { cur=nullptr; }
void GOMP_critical_start() { perturb(); critical().lock(); if (team) { std::lock_guard<std::mutex> l(team->m); note(me+64); } } void GOMP_critical_end() { critical().unlock(); perturb(); }
void GOMP_critical_name_start(void** p) { perturb(); named(p).lock(); } void GOMP_critical_name_end(void** p) { named(p).unlock(); perturb(); }
void GOMP_atomic_start() { perturb(); critical().lock(); } void GOMP_atomic_end() { critical().unlock(); }
bool GOMP_single_start() { if (!team) return true; std::lock_guard<std::mutex> l(team->m); bool first=team->singles.size()<=my_single; if (first) team->singles.push_back(true); ++my_single; return first; }
void* GOMP_single_copy_start() { bool first=GOMP_single_start(); if (first) return nullptr; barrier(); return team->copy; } void GOMP_single_copy_end(void* d) { if (team) team->copy=d; barrier(); }
bool GOMP_sections_start(unsigned) { abort(); }
int omp_get_thread_num() { return team?me:0; } int omp_get_num_threads() { return team?team->n:1; } int omp_get_max_threads() { return most(); } void omp_set_num_threads(int n) { if (n>0) icv=n; } int omp_get_num_procs() { return 8; } int omp_in_parallel() { return depth>0&&team&&team->n>1; } int omp_get_level() { return depth; } void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_thread_limit() { return 256; } void omp_set_max_active_levels(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return double(t.tv_sec)+1e-9*double(t.tv_nsec); }
}
