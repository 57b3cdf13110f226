#include "pbt.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <algorithm>
#include <unordered_set>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace pbt {

std::vector<Test>& tests() { static std::vector<Test> t; return t; }
static std::string& rule() { static std::string s; return s; }
static std::vector<std::string>& assumptions() { static std::vector<std::string> s; return s; }
static std::function<void()>& reset() { static std::function<void()> f; return f; }
void set_rule(std::string s) { rule()=s; }
void add_assumption(std::string s) { assumptions().push_back(s); }
void set_reset(std::function<void()> f) { reset()=f; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (double)t.tv_sec+(double)t.tv_nsec*1e-9; }

static uint64_t mix(uint64_t h, uint64_t v) { h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xD6E8FEB86659FD93ull; h^=h>>32; return h; }
static uint64_t hash_string(std::string const& s) { uint64_t h=1469598103934665603ull; for (unsigned char c : s) { h^=c; h*=1099511628211ull; } return h; }
static uint64_t hash_rec(std::vector<uint64_t> const& r) { uint64_t h=r.size(); for (auto v : r) h=mix(h,v); return h; }
static uint64_t case_seed(uint64_t seed, std::string const& name, uint64_t i) { return mix(mix(mix(0x1234567,seed),hash_string(name)),i); }

static std::string json(std::string const& s) {
    std::string r="\""; char b[8];
    for (unsigned char c : s) {
        if (c=='"' || c=='\\') { r+='\\'; r+=(char)c; } else if (c=='\n') r+="\\n"; else if (c=='\t') r+="\\t";
        else if (c<32 || c>=127) { snprintf(b,8,"\\u%04x",c); r+=b; } else r+=(char)c; }
    return r+"\""; }

enum Status { PASS, DISCARDED, FAILED, CRASHED, HUNG };
struct Outcome { Status status=PASS; std::string key, msg, text; bool nontrivial=false; std::set<std::string> labels; size_t used=0; };

static Outcome evaluate(Test const& t, Src& s, bool verbose) {
    Outcome o; Case c; c.verbose=verbose;
    if (reset()) reset()();
    try { t.fn(s,c); }
    catch (Discard const& d) { o.status=DISCARDED; o.msg=d.why; }
    catch (Fail const& f) { o.status=FAILED; o.key=t.name+"/"+f.key; o.msg=f.msg; }
    catch (std::exception const& e) { int st=0; char* n=abi::__cxa_demangle(typeid(e).name(),0,0,&st);
        o.status=FAILED; o.key=t.name+"/exception"; o.msg=std::string("unexpected exception ")+(n?n:"")+": "+e.what(); free(n); }
    catch (...) { o.status=FAILED; o.key=t.name+"/exception"; o.msg="unexpected exception of unknown type"; }
    if (o.status==FAILED) if (const char* fl=getenv("PBT_FAILLOG")) if (FILE* ff=fopen(fl,"a")) { fprintf(ff,"%s: %s\n%s\n",o.key.c_str(),o.msg.c_str(),c.text.str().c_str()); fclose(ff); }
    o.nontrivial=c.nontrivial; o.labels=c.labels; o.text=c.text.str(); o.used=s.used();
    return o;
}

static void write_all(int fd, std::string const& s) { size_t n=0; while (n<s.size()) { ssize_t k=write(fd,s.data()+n,s.size()-n); if (k<=0) return; n+=(size_t)k; } }

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_abort=0:handle_sigbus=0:handle_sigill=0:allocator_may_return_null=0:quarantine_size_mb=16:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
#endif
static void limit_memory(double gb) { rlimit r; r.rlim_cur=r.rlim_max=(rlim_t)(gb*1e9);
#ifndef __SANITIZE_ADDRESS__
    setrlimit(RLIMIT_AS,&r);
#endif
    rlimit z{0,0}; setrlimit(RLIMIT_CORE,&z); }

// Cases to be run in the child before the one evaluated, for failures which need state left behind by earlier cases.
struct Earlier { Test const* t; std::vector<uint64_t> rec; };
static std::vector<Earlier> earlier;

// One evaluation of a recorded case in a child process.
static Outcome evaluate_in_child(Test const& t, std::vector<uint64_t> const& rec, bool seeded, uint64_t seed, std::vector<uint64_t>* out_rec=nullptr) {
    int p[2]; if (pipe(p)!=0) { perror("pipe"); exit(3); }
    pid_t pid=fork();
    if (pid==0) {
        close(p[0]); limit_memory(6);
        if (!getenv("PBT_STDERR")) { int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2); }
        itimerval it{{0,0},{(time_t)t.hang_s,0}}; setitimer(ITIMER_PROF,&it,nullptr); signal(SIGPROF,SIG_DFL);
        for (auto const& e : earlier) { Src es(e.rec); evaluate(*e.t,es,false); }
        Src s = seeded ? Src(seed) : Src(rec);
        Outcome o=evaluate(t,s,true);
        std::ostringstream os;
        os << (int)o.status << "\n" << o.key << "\n" << o.msg.size() << "\n" << o.msg << "\n" << o.text.size() << "\n" << o.text << "\n" << (o.nontrivial?1:0) << " " << o.used << " ";
        auto const& r=s.record(); os << r.size(); for (auto v : r) os << " " << v; os << "\n";
        write_all(p[1],os.str()); close(p[1]); _exit(0);
    }
    close(p[1]); std::string data; char buf[65536]; ssize_t k; while ((k=read(p[0],buf,sizeof buf))>0) data.append(buf,(size_t)k); close(p[0]);
    int st=0; waitpid(pid,&st,0);
    Outcome o;
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st)==SIGPROF) { o.status=HUNG; o.key=t.name+"/hang"; o.msg="the case did not end within "+std::to_string(t.hang_s)+" s of processor time"; }
        else { o.status=CRASHED; o.key=t.name+"/crash"; o.msg=std::string("the process was ended by signal ")+std::to_string(WTERMSIG(st))+" ("+strsignal(WTERMSIG(st))+")"; }
        return o;
    }
    std::istringstream is(data); int si; std::string line; size_t n;
    if (!(is>>si)) { o.status=CRASHED; o.key=t.name+"/crash"; o.msg="the process ended with exit code "+std::to_string(WEXITSTATUS(st)); return o; }
    std::getline(is,line); std::getline(is,o.key); o.status=(Status)si;
    is>>n; is.get(); o.msg.resize(n); is.read(&o.msg[0],(std::streamsize)n); is.get();
    is>>n; is.get(); o.text.resize(n); is.read(&o.text[0],(std::streamsize)n); is.get();
    int nt; is>>nt>>o.used; o.nontrivial=nt; is>>n; std::vector<uint64_t> r(n); for (auto& v : r) is>>v;
    if (out_rec) *out_rec=r;
    return o;
}

static bool bad(Outcome const& o) { return o.status>=FAILED; }

// The shared page through which a worker says what it is doing.
struct Progress { volatile int test; volatile uint64_t index; volatile double started; volatile uint64_t total; };

struct Stats { uint64_t run=0, discarded=0, nontrivial=0, distinct=0; std::map<std::string,uint64_t> labels; };

struct Options { std::string property, tier="quick", evidence, replaydir, known, replay, regress, only, level="exploration"; uint64_t seed=1; double budget=0, scale=1; int jobs=8; bool list=false; };

struct Known { std::string key, what, file; };

struct ReplayFile { std::string test; std::vector<uint64_t> rec; std::vector<std::pair<std::string,std::vector<uint64_t>>> earlier; };
static bool read_replay(std::string const& path, ReplayFile& r) {
    // the lines "test <name>" and "choices <n> ..." of a replay file
    std::ifstream f(path); std::string line; bool t=false,c=false;
    while (std::getline(f,line)) {
        std::istringstream is(line); std::string w; is>>w;
        if (w=="test") { std::getline(is>>std::ws,r.test); t=true; }
        else if (w=="earlier") { std::string n; std::getline(is>>std::ws,n); r.earlier.push_back({n,{}}); }
        else if (w=="earlier-choices" && !r.earlier.empty()) { uint64_t v; while (is>>v) r.earlier.back().second.push_back(v); }
        else if (w=="choices") { uint64_t v; r.rec.clear(); while (is>>v) r.rec.push_back(v); c=true; } }
    return t&&c; }

static std::vector<uint64_t> shrink(Test const& t, std::vector<uint64_t> rec, std::string const& key, double seconds, unsigned& evals) {
    double end=now()+seconds; evals=0;
    auto still=[&](std::vector<uint64_t> const& r, std::vector<uint64_t>& got) {
        ++evals; Outcome o=evaluate_in_child(t,r,false,0,nullptr); got=r; if (bad(o)&&o.key==key) { if (o.used>0&&o.used<got.size()) got.resize(o.used); return true; } return false; };
    std::vector<uint64_t> best=rec, got;
    if (!still(best,got)) return rec;
    best=got;
    bool changed=true;
    while (changed && now()<end) {
        changed=false;
        for (size_t b : {64u,32u,16u,8u,4u,2u,1u})
            for (size_t i=best.size(); i>0 && now()<end; ) {
                i = i>b ? i-b : 0;
                if (i+b>best.size()) continue;
                std::vector<uint64_t> r(best); r.erase(r.begin()+(ptrdiff_t)i,r.begin()+(ptrdiff_t)(i+b));
                if (still(r,got)) { best=got; changed=true; if (i>best.size()) i=best.size(); } }
        for (size_t b : {32u,8u,2u})
            for (size_t i=0; i+b<=best.size() && now()<end; i+=b) {
                std::vector<uint64_t> r(best); bool any=false; for (size_t j=i;j<i+b;++j) { any|=r[j]!=0; r[j]=0; }
                if (any && still(r,got)) { best=got; changed=true; } }
        for (size_t i=0; i<best.size() && now()<end; ++i) {
            if (best[i]==0) continue;
            std::vector<uint64_t> r(best); r[i]=0;
            if (still(r,got)) { best=got; changed=true; continue; }
            uint64_t lo=0, hi=best[i]; // hi fails, lo does not
            while (hi-lo>1 && now()<end) { uint64_t m=lo+(hi-lo)/2; r=best; if (i>=r.size()) break; r[i]=m; if (still(r,got)) { best=got; hi=m; changed=true; } else lo=m; } }
    }
    return best;
}

int main(int argc, char** argv) {
    Options o;
    for (int i=1;i<argc;++i) { std::string a=argv[i]; auto val=[&]{ if (i+1>=argc) { fprintf(stderr,"missing value for %s\n",a.c_str()); exit(3);} return std::string(argv[++i]); };
        if (a=="--property") o.property=val(); else if (a=="--tier") o.tier=val(); else if (a=="--evidence") o.evidence=val();
        else if (a=="--replaydir") o.replaydir=val(); else if (a=="--known") o.known=val(); else if (a=="--replay") o.replay=val();
        else if (a=="--regress") o.regress=val(); else if (a=="--only") o.only=val(); else if (a=="--seed") o.seed=std::stoull(val());
        else if (a=="--budget") o.budget=std::stod(val()); else if (a=="--scale") o.scale=std::stod(val()); else if (a=="--jobs") o.jobs=std::stoi(val());
        else if (a=="--list") o.list=true; else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 3; } }
    double start=now();
    if (o.list) { for (auto const& t : tests()) printf("%s %g %g\n",t.name.c_str(),t.quick,t.thorough); return 0; }
    auto find_test=[&](std::string const& n)->Test const* { for (auto const& t : tests()) if (t.name==n) return &t; return nullptr; };
    if (!o.replay.empty()) {
        ReplayFile r; if (!read_replay(o.replay,r)) { fprintf(stderr,"cannot read %s\n",o.replay.c_str()); return 3; }
        Test const* t=find_test(r.test); if (!t) { fprintf(stderr,"no test %s\n",r.test.c_str()); return 3; }
        for (auto const& e : r.earlier) if (Test const* et=find_test(e.first)) earlier.push_back({et,e.second});
        Outcome c=evaluate_in_child(*t,r.rec,false,0);
        printf("%s\n%s",r.test.c_str(),c.text.c_str());
        printf("%s %s\n%s\n",bad(c)?"FAILED":"PASSED",c.key.c_str(),c.msg.c_str());
        if (bad(c)) { printf("VIOLATION property=%s replay=%s\n",o.property.c_str(),o.replay.c_str()); return 1; }
        return 0; }

    std::vector<Known> known; // lines: key<TAB>replay file<TAB>what fails
    if (!o.known.empty()) { std::ifstream f(o.known); std::string line; while (std::getline(f,line)) { if (line.empty()) continue; std::istringstream is(line); Known k; std::getline(is,k.key,'\t'); std::getline(is,k.file,'\t'); std::getline(is,k.what); known.push_back(k); } }
    std::set<std::string> known_keys; for (auto const& k : known) known_keys.insert(k.key);

    double shrink_left=60; uint64_t violations=0; std::vector<std::string> violation_lines;
    std::set<std::string> reported;
    auto report=[&](Test const& t, std::vector<uint64_t> const& rec, Outcome const& first, bool do_shrink) {
        if (reported.count(first.key)) return; reported.insert(first.key);
        unsigned evals=0; std::vector<uint64_t> best=rec;
        if (do_shrink) { double t0=now(); best=shrink(t,rec,first.key,first.status==HUNG?0.0:std::min(30.0,shrink_left),evals); shrink_left-=now()-t0; }
        Outcome c; int n=0, times=first.status==HUNG?1:3; for (int i=0;i<times;++i) { c=evaluate_in_child(t,best,false,0); if (bad(c)) ++n; }
        if (n<times) { // fall back to the case as found
            best=rec; n=0; for (int i=0;i<times;++i) { c=evaluate_in_child(t,best,false,0); if (bad(c)) ++n; } }
        if (n<times) { printf("note: %s failed once and then did not reproduce; not reported\n",first.key.c_str()); return; }
        std::string fn=o.property+"-"; for (char ch : c.key) fn+=(isalnum((unsigned char)ch)||ch=='_'||ch=='.')?ch:'-'; fn=o.replaydir+"/"+fn+".replay";
        { std::ofstream f(fn); f << "# shrunk from case of " << rec.size() << " choices in " << evals << " evaluations; run with: python3 tools/check.py " << o.property << " --replay " << fn << "\n";
          for (auto const& e : earlier) { f << "earlier " << e.t->name << "\nearlier-choices"; for (auto v : e.rec) f << " " << v; f << "\n"; }
          f << "test " << t.name << "\nchoices"; for (auto v : best) f << " " << v; f << "\n# key " << c.key << "\n";
          std::istringstream is(c.text+"\n"+c.msg); std::string line; while (std::getline(is,line)) f << "# " << line << "\n"; }
        ++violations;
        printf("---- %s\n%s%s\n",c.key.c_str(),c.text.c_str(),c.msg.c_str());
        std::string vl="VIOLATION property="+o.property+" replay="+fn; printf("%s\n",vl.c_str()); fflush(stdout); violation_lines.push_back(vl);
    };

    uint64_t regress_run=0;
    if (!o.regress.empty()) { // saved inputs, plain replay
        std::ifstream f(o.regress); std::string path;
        while (std::getline(f,path)) { ReplayFile r; if (path.empty()||!read_replay(path,r)) continue; Test const* t=find_test(r.test); if (!t) continue; ++regress_run;
            Outcome c=evaluate_in_child(*t,r.rec,false,0); if (bad(c)&&!known_keys.count(c.key)) report(*t,r.rec,c,false); } }
    for (auto const& k : known) {
        ReplayFile r; bool fails=false; if (read_replay(k.file,r)) { Test const* t=find_test(r.test); if (t) { Outcome c=evaluate_in_child(*t,r.rec,false,0); fails=bad(c)&&c.key==k.key; } }
        if (fails) printf("KNOWN-FINDING: property=%s %s\n",o.property.c_str(),k.what.c_str()); }
    fflush(stdout);

    size_t nt=tests().size();
    std::vector<uint64_t> target(nt);
    for (size_t i=0;i<nt;++i) { double c=(o.tier=="thorough"?tests()[i].thorough:tests()[i].quick)*o.scale; target[i]=(uint64_t)std::max(1.0,c); if (!o.only.empty()&&tests()[i].name.find(o.only)==std::string::npos) target[i]=0; }
    double budget=o.budget>0?o.budget:(o.tier=="thorough"?3000:300);
    double deadline=now()+budget;

    // Workers.  A worker that crashes or hangs is replaced by one that goes on after the case.
    char dirbuf[]="/tmp/pbt.XXXXXX"; std::string dir=mkdtemp(dirbuf);
    Progress* prog=(Progress*)mmap(nullptr,sizeof(Progress)*64,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    struct Shared { volatile int stop; volatile int failures[4096]; }; Shared* shared=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    const uint64_t ROUNDS=16;
    struct Position { uint64_t round=0; size_t test=0; uint64_t index=0; bool set=false; };
    struct Worker { pid_t pid=0; int gen=0; bool done=false; };
    std::vector<Worker> workers((size_t)o.jobs); int nfiles=0; std::vector<std::string> files;
    // case indices of test t in round r: target*r/ROUNDS .. target*(r+1)/ROUNDS, those that are w modulo jobs
    auto spawn=[&](int w, uint64_t skip_to_round, int skip_to_test, uint64_t skip_to_index) {
        std::string file=dir+"/w"+std::to_string(nfiles++); files.push_back(file);
        pid_t pid=fork();
        if (pid==0) {
            limit_memory(6);
            int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2);
            FILE* f=fopen(file.c_str(),"w"); signal(SIGPROF,SIG_DFL);
            std::vector<Stats> st(nt); std::vector<std::unordered_set<uint64_t>> seen(nt); std::vector<std::vector<uint64_t>> samples(nt);
            auto flush=[&]{
                for (size_t t=0;t<nt;++t) { fprintf(f,"S %zu %lu %lu %lu\n",t,st[t].run,st[t].discarded,st[t].nontrivial);
                    for (auto const& l : st[t].labels) fprintf(f,"L %zu %lu %s\n",t,l.second,l.first.c_str());
                    for (auto i : samples[t]) fprintf(f,"X %zu %lu\n",t,i);
                    fprintf(f,"H %zu %zu",t,seen[t].size()); for (auto h : seen[t]) fprintf(f," %lx",h); fprintf(f,"\n");
                    st[t]=Stats(); seen[t].clear(); samples[t].clear(); } fflush(f); };
            double last=now();
            for (uint64_t r=skip_to_round; r<ROUNDS; ++r) for (size_t t=0;t<nt;++t) {
                uint64_t a=target[t]*r/ROUNDS, b=target[t]*(r+1)/ROUNDS;
                for (uint64_t i=a;i<b;++i) {
                    if ((int)(i%(uint64_t)o.jobs)!=w) continue;
                    if (r==skip_to_round && ((int)t<skip_to_test || ((int)t==skip_to_test && i<=skip_to_index))) continue;
                    if (shared->failures[t]>=3) break; // enough failures of this test
                    if (now()>deadline) goto out;
                    prog[w].index=i; prog[w].total=r; prog[w].test=(int)t; prog[w].started=now();
                    itimerval it{{0,0},{(time_t)tests()[t].hang_s,0}}; setitimer(ITIMER_PROF,&it,nullptr);
                    Src s(case_seed(o.seed,tests()[t].name,i));
                    Outcome c=evaluate(tests()[t],s,false);
                    ++st[t].run; if (c.status==DISCARDED) { ++st[t].discarded; st[t].labels["discarded: "+c.msg]++; }
                    else if (c.status==FAILED) {
                        if (known_keys.count(c.key)) st[t].labels["excluded, known finding "+c.key]++;
                        else { fprintf(f,"F %zu %lu\n",t,i); fflush(f); shared->failures[t]++; } }
                    if (c.nontrivial && c.status==PASS) { ++st[t].nontrivial; seen[t].insert(hash_rec(s.record())); if (samples[t].size()<2) samples[t].push_back(i); }
                    for (auto const& l : c.labels) st[t].labels[l]++;
                    if (now()-last>2) { itimerval z{{0,0},{0,0}}; setitimer(ITIMER_PROF,&z,nullptr); flush(); last=now(); }
                } }
          out:
            flush(); fclose(f); prog[w].test=-1; _exit(0);
        }
        workers[(size_t)w].pid=pid; workers[(size_t)w].gen++; };
    struct Bad { size_t test; uint64_t index; };
    std::vector<Bad> bads; std::vector<uint64_t> crashes(nt,0);
    for (int w=0;w<o.jobs;++w) { prog[w].test=-1; spawn(w,0,-1,0); }
    int alive=o.jobs;
    while (alive>0) {
        int st=0; pid_t pid=wait(&st); if (pid<0) break;
        for (int w=0;w<o.jobs;++w) if (workers[(size_t)w].pid==pid) {
            workers[(size_t)w].pid=0;
            if (WIFEXITED(st) && WEXITSTATUS(st)==0 && prog[w].test==-1) { --alive; break; }
            int t=prog[w].test; uint64_t i=prog[w].index;
            if (t<0) { --alive; printf("note: a worker ended early (%d)\n",st); break; }
            bads.push_back({(size_t)t,i}); shared->failures[t]++; crashes[(size_t)t]++;
            prog[w].test=-1;
            spawn(w,prog[w].total,t,i); } }

    // Collect.
    std::vector<Stats> st(nt); std::vector<std::unordered_set<uint64_t>> seen(nt); std::vector<std::vector<uint64_t>> samples(nt);
    for (auto const& file : files) { std::ifstream f(file); std::string line; while (std::getline(f,line)) { std::istringstream is(line); char k; size_t t; is>>k>>t; if (!is||t>=nt) continue;
        if (k=='S') { uint64_t a,b,c; is>>a>>b>>c; st[t].run+=a; st[t].discarded+=b; st[t].nontrivial+=c; }
        else if (k=='L') { uint64_t n; is>>n; is.get(); std::string l; std::getline(is,l); st[t].labels[l]+=n; }
        else if (k=='X') { uint64_t i; is>>i; samples[t].push_back(i); }
        else if (k=='F') { uint64_t i; is>>i; bads.push_back({t,i}); }
        else if (k=='H') { size_t n; is>>n; std::string h; while (is>>h) seen[t].insert(std::stoull(h,nullptr,16)); } } unlink(file.c_str()); }
    rmdir(dir.c_str());
    for (size_t t=0;t<nt;++t) st[t].run+=crashes[t];
    std::sort(bads.begin(),bads.end(),[](Bad const& a, Bad const& b){ return a.test!=b.test?a.test<b.test:a.index<b.index; });
    int shrunk=0;
    for (auto const& b : bads) {
        Test const& t=tests()[b.test]; std::vector<uint64_t> rec; uint64_t cs=case_seed(o.seed,t.name,b.index);
        Outcome c=evaluate_in_child(t,{},true,cs,&rec);
        if (!bad(c)) { // does it fail after the cases which the worker ran before it?
            std::vector<Earlier> all; uint64_t r0=0; while (r0+1<ROUNDS && b.index>=target[b.test]*(r0+1)/ROUNDS) ++r0;
            for (long r=(long)r0; r>=0 && all.size()<40; --r) for (long k=(r==(long)r0?(long)b.test:(long)nt-1); k>=0 && all.size()<40; --k) { uint64_t lo=target[(size_t)k]*(uint64_t)r/ROUNDS, hi=(r==(long)r0&&k==(long)b.test)?b.index:target[(size_t)k]*(uint64_t)(r+1)/ROUNDS;
                for (uint64_t i=hi; i>lo && all.size()<40; --i) { if ((i-1)%(uint64_t)o.jobs!=b.index%(uint64_t)o.jobs) continue; Test const& et=tests()[(size_t)k]; std::vector<uint64_t> er; Outcome ec=evaluate_in_child(et,{},true,case_seed(o.seed,et.name,i-1),&er); if (ec.status<CRASHED) all.insert(all.begin(),Earlier{&et,er}); } }
            auto fails=[&](std::vector<Earlier> const& e) { earlier=e; Outcome w=evaluate_in_child(t,{},true,cs,&rec); bool y=bad(w)&&w.status!=HUNG; if (y) c=w; earlier.clear(); return y; };
            std::vector<Earlier> cur; bool found=false;
            for (size_t n=1; !found; n*=4) { cur.assign(all.end()-(long)std::min(n,all.size()),all.end()); found=fails(cur); if (n>=all.size()) break; }
            if (!found) { printf("note: %s case %lu failed once and then passed, alone and after the cases before it; not reported\n",t.name.c_str(),b.index); continue; }
            for (size_t i=0;i<cur.size();) { std::vector<Earlier> w(cur); w.erase(w.begin()+(long)i); if (fails(w)) cur=w; else ++i; }
            fails(cur); if (known_keys.count(c.key)) continue;
            earlier=cur; report(t,rec,c,c.status<CRASHED&&++shrunk<=6&&shrink_left>1); earlier.clear(); continue; }
        if (known_keys.count(c.key)) continue;
        if (c.status>=CRASHED) { // the child could not send its record: draw it again, up to the crash, through shared memory
            uint64_t* buf=(uint64_t*)mmap(nullptr,8u<<20,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
            pid_t pid=fork(); if (pid==0) { limit_memory(6); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2);
                itimerval it{{0,0},{(time_t)t.hang_s,0}}; setitimer(ITIMER_PROF,&it,nullptr);
                Src s(cs); static Src* sp; static uint64_t* bp; sp=&s; bp=buf;
                auto h=[](int sig){ auto const& r=sp->record(); bp[0]=std::min<size_t>(r.size(),(1u<<20)-1); for (size_t j=0;j<bp[0];++j) bp[j+1]=r[j]; signal(sig,SIG_DFL); raise(sig); _exit(1); };
                for (int sg : {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGPROF}) signal(sg,h);
                evaluate(t,s,false); _exit(0); }
            int ws; waitpid(pid,&ws,0); rec.assign(buf+1,buf+1+buf[0]); munmap(buf,8u<<20); }
        report(t,rec,c,++shrunk<=6&&shrink_left>1);
        if (reported.size()>=12) break;
    }

    // Evidence.
    uint64_t evals=regress_run, distinct=0, disc=0; for (size_t t=0;t<nt;++t) { evals+=st[t].run; distinct+=seen[t].size(); disc+=st[t].discarded; }
    std::ostringstream js; js << "{\n \"property\": " << json(o.property) << ",\n \"tier\": " << json(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    js << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"discarded\": " << disc << ",\n  \"regressions_replayed\": " << regress_run << ",\n  \"rule\": " << json(rule()) << ",\n  \"tests\": {\n";
    bool firstt=true;
    for (size_t t=0;t<nt;++t) { if (target[t]==0) continue; js << (firstt?"":",\n") << "   " << json(tests()[t].name) << ": {\"planned\": " << target[t] << ", \"evaluations\": " << st[t].run << ", \"discarded\": " << st[t].discarded << ", \"nontrivial\": " << st[t].nontrivial << ", \"distinct_nontrivial\": " << seen[t].size() << ", \"labels\": {"; firstt=false;
        bool fl=true; for (auto const& l : st[t].labels) { js << (fl?"":", ") << json(l.first) << ": " << l.second; fl=false; } js << "}}"; }
    js << "\n  },\n  \"samples\": [";
    bool fs=true; size_t nsamples=0;
    for (size_t t=0;t<nt;++t) { std::sort(samples[t].begin(),samples[t].end()); size_t per=nt>20?1:2;
        for (size_t k=0;k<samples[t].size()&&k<per&&nsamples<60;++k,++nsamples) { Outcome c=evaluate_in_child(tests()[t],{},true,case_seed(o.seed,tests()[t].name,samples[t][k]));
            std::string tx=c.text; if (tx.size()>1500) tx=tx.substr(0,1500)+"..."; js << (fs?"\n   ":",\n   ") << json(tests()[t].name+" #"+std::to_string(samples[t][k])+": "+tx); fs=false; } }
    js << "\n  ]\n },\n \"assumptions\": ["; bool fa=true; for (auto const& a : assumptions()) { js << (fa?"":", ") << json(a); fa=false; }
    js << "],\n \"wall_s\": " << (now()-start) << ",\n \"violations\": " << violations << "\n}\n";
    if (!o.evidence.empty()) { std::ofstream f(o.evidence); f << js.str(); }
    for (size_t t=0;t<nt;++t) if (target[t]) printf("%-40s %10lu of %10lu cases, %lu discarded, %zu distinct non-trivial\n",tests()[t].name.c_str(),st[t].run,target[t],st[t].discarded,seen[t].size());
    printf("%s %s seed=%lu: %lu cases, %lu distinct non-trivial, %lu violations, %.1f s\n",o.property.c_str(),o.tier.c_str(),o.seed,evals,distinct,violations,now()-start);
    return violations?1:0;
}

} // namespace pbt

int main(int argc, char** argv) { return pbt::main(argc,argv); }
