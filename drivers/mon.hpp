// Monitor kit: seeded case generation, violation records with stable keys, event counters, distinct-state hashing,
// samples and crash attribution.  Used by every driver; nothing here knows about brille.
#pragma once
#include <cassert>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {
inline uint64_t splitmix(uint64_t& s){ uint64_t z=(s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
inline uint64_t hash_mix(uint64_t h, uint64_t v){ uint64_t s = h ^ (v + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2)); return splitmix(s); }
inline uint64_t hash_str(const std::string& s, uint64_t h=1469598103934665603ULL){ for (unsigned char c: s){ h^=c; h*=1099511628211ULL;} return h; }
inline uint64_t hash_dbl(uint64_t h, double d){ uint64_t u; std::memcpy(&u,&d,8); return hash_mix(h,u); }

class Rng {
  uint64_t s_;
public:
  explicit Rng(uint64_t s): s_(s) {}
  uint64_t u64(){ return splitmix(s_); }
  double uni(){ return static_cast<double>(u64()>>11) * (1.0/9007199254740992.0); }
  double uni(double a, double b){ return a + (b-a)*uni(); }
  // inclusive range
  long long integer(long long a, long long b){ return a + static_cast<long long>(u64() % static_cast<uint64_t>(b-a+1)); }
  bool chance(double p){ return uni() < p; }
  double normal(){ double u=0; while(u<=0) u=uni(); return std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*uni()); }
  template<class V> const typename V::value_type& pick(const V& v){ return v[static_cast<size_t>(u64()%v.size())]; }
  template<class V> void shuffle(V& v){ for (size_t i=v.size(); i>1; --i) std::swap(v[i-1], v[static_cast<size_t>(u64()%i)]); }
};

inline std::string json_escape(const std::string& s){
  std::string o;
  for (unsigned char c: s){
    if (c=='"'||c=='\\') { o+='\\'; o+=static_cast<char>(c);} else if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t";
    else if (c<0x20) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=static_cast<char>(c);
  }
  return o;
}
struct Skip: std::exception { std::string why; explicit Skip(std::string w): why(std::move(w)){} const char* what() const noexcept override {return why.c_str();} };

class Monitor {
  std::string id_, tier_="quick", out_, cur_;
  uint64_t seed_=1;
  size_t begin_=0, end_=0, stride_=1, offset_=0; bool only_=false; size_t only_case_=0;
  size_t case_=0; std::string site_, note_;
  std::map<std::string, uint64_t> counters_;
  std::map<std::string, double> maxima_;
  std::map<std::string, int> viol_count_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  FILE* f_=nullptr; char* shared_=nullptr;
  static constexpr size_t shared_len_=4096;
  void publish(){ if(shared_) snprintf(shared_, shared_len_, "%zu\n%s\n%s\n", case_, site_.c_str(), note_.c_str()); }
public:
  Monitor(std::string id, int argc, char** argv): id_(std::move(id)) {
    auto val=[&](int& i){ if(i+1>=argc){fprintf(stderr,"missing value for %s\n",argv[i]); exit(3);} return std::string(argv[++i]); };
    for (int i=1;i<argc;++i){ std::string a=argv[i];
      if(a=="--seed") seed_=strtoull(val(i).c_str(),nullptr,10);
      else if(a=="--tier") tier_=val(i);
      else if(a=="--out") out_=val(i);
      else if(a=="--cur") cur_=val(i);
      else if(a=="--begin") begin_=strtoull(val(i).c_str(),nullptr,10);
      else if(a=="--end") end_=strtoull(val(i).c_str(),nullptr,10);
      else if(a=="--stride") stride_=strtoull(val(i).c_str(),nullptr,10);
      else if(a=="--offset") offset_=strtoull(val(i).c_str(),nullptr,10);
      else if(a=="--only"){ only_=true; only_case_=strtoull(val(i).c_str(),nullptr,10);}
      else { fprintf(stderr,"unknown argument %s\n",a.c_str()); exit(3); } }
    if(!out_.empty()) f_=fopen(out_.c_str(),"a");
    if(!cur_.empty()){ int fd=open(cur_.c_str(),O_RDWR|O_CREAT,0644); if(fd>=0&&ftruncate(fd,shared_len_)==0){ void*p=mmap(nullptr,shared_len_,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p!=MAP_FAILED) shared_=static_cast<char*>(p); close(fd);} }
  }
  bool thorough() const { return tier_=="thorough"; }
  uint64_t seed() const { return seed_; }
  size_t case_index() const { return case_; }
  bool verbose() const { return only_; }
  //! name of the operation being exercised: part of the key of crashes and unexpected exceptions
  void site(const std::string& s){ site_=s; publish(); }
  //! description of the present case
  void note(const std::string& s){ note_=s; publish(); }
  const std::string& note() const { return note_; }
  void event(const std::string& name, uint64_t n=1){ counters_[name]+=n; }
  void eval(uint64_t n=1){ counters_["evaluations"]+=n; }
  void maximum(const std::string& name, double v){ auto it=maxima_.find(name); if(it==maxima_.end()) maxima_[name]=v; else if(v>it->second) it->second=v; }
  void distinct(uint64_t h){ if (distinct_.size()<2000000) distinct_.insert(h); }
  void sample(const std::string& s){ if (samples_.size()<3) samples_.push_back(s); }
  void fail(const std::string& key, const std::string& detail){
    int& n=viol_count_[key];
    if(++n<=3){
      std::string line="{\"violation\":{\"key\":\""+json_escape(key)+"\",\"case\":"+std::to_string(case_)+",\"note\":\""+json_escape(note_)+"\",\"detail\":\""+json_escape(detail)+"\"}}\n";
      if(f_){ fputs(line.c_str(), f_); fflush(f_);} 
      if(only_||!f_) { fputs(line.c_str(), stdout); fflush(stdout);} 
    }
  }
  //! record one monitored observation; failing it is a violation
  bool check(bool ok, const std::string& key, const std::function<std::string()>& detail){ counters_["observations"]++; if(!ok) fail(key, detail()); return ok; }
  bool check(bool ok, const std::string& key){ counters_["observations"]++; if(!ok) fail(key, ""); return ok; }
  void run_case(size_t i, const std::function<void(Rng&, size_t)>& fn){
    case_=i; site_.clear(); note_.clear(); publish();
    uint64_t from=seed_; from=splitmix(from); Rng rng(hash_mix(hash_mix(hash_str(id_), from), i)); // the streams of two seeds have nothing in common
    try { fn(rng, i); counters_["cases"]++; }
    catch (const Skip& s){ counters_["skipped"]++; counters_["skipped: "+s.why]++; }
    catch (const std::exception& e){ fail("exception:"+site_, std::string("unexpected exception: ")+e.what()); }
    catch (...) { fail("exception:"+site_, "unexpected non-standard exception"); }
  }
  int run(size_t n, const std::function<void(Rng&, size_t)>& fn){
    if(end_ && end_<n) n=end_;
    if(only_) run_case(only_case_, fn);
    else for (size_t i=begin_; i<n; ++i) if (i%stride_==offset_) run_case(i, fn);
    finish();
    return 0;
  }
  void finish(){
    std::string o="{\"stats\":{\"counters\":{"; bool first=true;
    for(auto&kv:counters_){ if(!first)o+=","; first=false; o+="\""+json_escape(kv.first)+"\":"+std::to_string(kv.second);} 
    o+="},\"maxima\":{"; first=true;
    for(auto&kv:maxima_){ if(!first)o+=","; first=false; char b[64]; snprintf(b,64,"%.6g",std::isfinite(kv.second)?kv.second:1e300); o+="\""+json_escape(kv.first)+"\":"+b; }
    o+="},\"violations\":{"; first=true;
    for(auto&kv:viol_count_){ if(!first)o+=","; first=false; o+="\""+json_escape(kv.first)+"\":"+std::to_string(kv.second);} 
    o+="},\"distinct\":["; first=true;
    for(auto h:distinct_){ if(!first)o+=","; first=false; o+=std::to_string(h);} 
    o+="],\"samples\":["; first=true;
    for(auto&s:samples_){ if(!first)o+=","; first=false; o+="\""+json_escape(s)+"\"";} 
    o+="]}}\n";
    if(f_){ fputs(o.c_str(), f_); fclose(f_); f_=nullptr; }
    else { for(auto&kv:counters_) printf("%s = %llu\n", kv.first.c_str(), static_cast<unsigned long long>(kv.second)); for(auto&kv:maxima_) printf("max %s = %g\n", kv.first.c_str(), kv.second); for (auto&kv:viol_count_) printf("VIOL %s x%d\n", kv.first.c_str(), kv.second); printf("distinct=%zu\n", distinct_.size()); for(auto&s:samples_) printf("sample: %s\n", s.c_str()); }
  }
};
template<class... A> std::string cat(A&&... a){ std::ostringstream s; s.precision(12); (void)std::initializer_list<int>{((s<<a),0)...}; return s.str(); }
template<class V> std::string vstr(const V& v){ std::ostringstream s; s.precision(12); s<<"["; bool f=true; for(auto const& x: v){ if(!f)s<<","; f=false; s<<x;} s<<"]"; return s.str(); }
} // namespace mon
