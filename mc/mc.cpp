#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=77"; }

namespace mc {

static const unsigned NW_MAX=64;
static const std::size_t SHOWSZ=3000;
static const std::size_t TAPESZ=16000;

struct Slot
{
	std::atomic<uint64_t> started;        // ms timestamp at which the current case started, 0 = idle
	std::atomic<uint64_t> caseno;
	volatile uint32_t suite, budget, tapelen;
	uint16_t tape[ TAPESZ];
	char show[ SHOWSZ];
};
struct Found { int suite; unsigned budget; std::vector<uint16_t> tape; std::string msg; std::string show; };
struct Shared
{
	std::atomic<uint64_t> states, transitions, traces, cases, outcomes, stop, full;
	std::atomic<uint64_t> suitecases[64];
	std::atomic<uint64_t> maxdepth;
	Slot slot[ NW_MAX];
};
static Shared* g=0;
static std::atomic<uint64_t>* g_set=0; static uint64_t g_setmask=0;
static std::atomic<uint64_t>* g_oset=0; static const uint64_t g_osetmask=(1u<<18)-1;
static uint64_t l_steps=0,l_traces=0,l_cases=0;

static uint64_t now_ms(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000ULL+t.tv_nsec/1000000; }

std::string esc(const std::string& s)
{
	std::string r; char b[8];
	for (unsigned char c:s)
	{
		if (c=='\\') r+="\\\\"; else if (c=='\n') r+="\\n"; else if (c=='\r') r+="\\r"; else if (c=='\t') r+="\\t";
		else if (c>=32 && c<127) r.push_back(c); else { snprintf(b,8,"\\x%02x",c); r+=b; }
	}
	return r;
}

static bool insert(std::atomic<uint64_t>* set, uint64_t mask, uint64_t h)
{
	if (h==0) h=1;
	uint64_t i=mix(h)&mask;
	for (unsigned n=0;n<64;n++,i=(i+1)&mask)
	{
		uint64_t cur=set[i].load(std::memory_order_relaxed);
		if (cur==h) return false;
		if (cur==0)
		{
			uint64_t z=0;
			if (set[i].compare_exchange_strong(z,h,std::memory_order_relaxed)) return true;
			if (z==h) return false;
		}
	}
	if (g) g->full=1;
	return false;
}
void Choice::state(uint64_t h){ if (!g) return; if (insert(g_set,g_setmask,hcomb(h,m_suite+1))) g->states.fetch_add(1,std::memory_order_relaxed); }
void Choice::outcome(uint64_t h){ if (!g) return; if (insert(g_oset,g_osetmask,hcomb(h,m_suite+1))) g->outcomes.fetch_add(1,std::memory_order_relaxed); }
static char* g_showbuf=0;
void Choice::show(const std::string& s){ m_show=s; if (g_showbuf) { std::string e=esc(s); std::size_t n=std::min(e.size(),SHOWSZ-1); memcpy(g_showbuf,e.data(),n); g_showbuf[n]=0; } }
void Choice::step(uint64_t n){ l_steps+=n; }
void Choice::trace(uint64_t n){ l_traces+=n; }

unsigned Choice::choose(unsigned n, bool dev)
{
	if (n==0) { fprintf(stderr,"mc: choice out of nothing\n"); abort(); }
	if (!m_sharded && m_pos>=m_sharddepth)
	{
		m_sharded=true;
		uint64_t h=7; for (std::size_t i=0;i<m_sharddepth;i++) h=hcomb(h,m_tape[i].v);
		if (h%m_nworkers!=m_worker) throw SkipSubtree();
	}
	if (n==1) return 0;
	if (m_pos<m_tape.size())
	{
		Ent& e=m_tape[m_pos];
		if (m_replay && e.n==0) { e.n=n; e.dev=dev; }
		if (e.n!=n || e.dev!=dev || e.v>=n) throw BadTape();
		if (dev && e.v) ++m_used;
		++m_pos; return e.v;
	}
	if (m_replay) { m_tape.push_back(Ent{0,n,dev}); ++m_pos; return 0; }
	m_tape.push_back(Ent{0,n,dev}); ++m_pos;
	return 0;
}

struct Explorer
{
	Choice c; const Suite* s; Slot* slot; unsigned nw, me; uint64_t deadline=0; bool capped=false;
	void prepare(int suiteidx, const Suite& s_, unsigned budget, bool thorough){ s=&s_; c.m_suite=suiteidx; c.m_budget=budget; c.m_thorough=thorough; c.m_sharddepth=s_.sharddepth; }
	// next tape in depth first order, skipping tapes with more deviations than the budget
	bool next()
	{
		while (!c.m_tape.empty())
		{
			Choice::Ent& e=c.m_tape.back();
			unsigned used=0; for (std::size_t i=0;i+1<c.m_tape.size();i++) if (c.m_tape[i].dev && c.m_tape[i].v) ++used;
			if (e.v+1<e.n && (!e.dev || e.v>0 || used<c.m_budget)) { ++e.v; return true; }
			c.m_tape.pop_back();
		}
		return false;
	}
	enum Res { OK, SKIPPED, BAD };
	Res runOne(std::string& msg)
	{
		c.m_pos=0; c.m_used=0; c.m_sharded=(c.m_nworkers<=1); c.m_show.clear();
		Res r=OK;
		try { s->body(c); }
		catch (const SkipSubtree&) { r=SKIPPED; }
		catch (const Violation& v) { msg=v.msg; r=BAD; }
		catch (const BadTape&) { msg="mc: nondeterministic harness (tape mismatch)"; throw; }
		catch (const std::exception& e) { msg=std::string("unexpected exception: ")+(e.what()?e.what():"(null)"); r=BAD; }
		c.m_tape.resize(c.m_pos);
		return r;
	}
	void setReplay(const std::vector<uint16_t>& t)
	{
		c.m_replay=true; c.m_nworkers=1;
		for (auto v:t) c.m_tape.push_back(Choice::Ent{v,0,false});
	}
	// count each tape once, also the short ones executed by all workers
	bool owned()
	{
		if (c.m_nworkers<=1) return true;
		if (c.m_sharded) return true;
		uint64_t h=7; for (auto& e:c.m_tape) h=hcomb(h,e.v);
		return h%c.m_nworkers==c.m_worker;
	}
};

static std::string jesc(const std::string& s)
{
	std::string r; char b[8];
	for (unsigned char c:s){ if (c=='"'||c=='\\'){r.push_back('\\');r.push_back(c);} else if (c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b;} else r.push_back(c);}
	return r;
}

static std::vector<Suite> g_suites;
static bool g_thorough=false;
static std::string g_resdir;

// worker process: explore the share of all suites
static void worker(unsigned me, unsigned nw, uint64_t deadline)
{
	Slot& slot=g->slot[me];
	std::vector<std::string> samples; bool capped=false;
	for (std::size_t si=0; si<g_suites.size(); ++si)
	{
		Suite& su=g_suites[si];
		unsigned maxb=g_thorough?su.budgetThorough:su.budgetQuick;
		Explorer ex; ex.slot=&slot; ex.c.m_worker=me; ex.c.m_nworkers=nw;
		ex.prepare((int)si,su,maxb,g_thorough);
		slot.suite=si; slot.budget=maxb;
		uint64_t n=0, loops=0, nextsample=1; bool more=true; std::string msg;
		while (more)
		{
			slot.caseno=n;
			// the tape prefix is published so that a crash or a hang can be attributed; choices behind it are default 0
			std::size_t tl=std::min(ex.c.m_tape.size(),TAPESZ);
			for (std::size_t i=0;i<tl;i++) slot.tape[i]=ex.c.m_tape[i].v;
			slot.tapelen=tl;
			slot.started=now_ms();
			uint64_t s0=l_steps,t0=l_traces;
			Explorer::Res res=ex.runOne(msg);
			bool ok=(res!=Explorer::BAD);
			slot.started=0;
			bool mine=(res!=Explorer::SKIPPED && ex.owned());
			if (!mine) { l_steps=s0; l_traces=t0; } else ++l_cases;
			if (!ok)
			{
				std::ofstream o(g_resdir+"/v"+std::to_string(me));
				o << si << ' ' << maxb << ' ' << ex.c.m_tape.size();
				for (auto& e:ex.c.m_tape) o << ' ' << e.v;
				o << '\n' << esc(msg) << '\n' << esc(ex.c.shown()) << '\n';
				o.close();
				g->stop=1;
				goto done;
			}
			if (mine && ++n==nextsample && samples.size()<400) { if (!ex.c.shown().empty()) samples.push_back(su.name+": "+esc(ex.c.shown()).substr(0,300)); nextsample*=7; }
			if ((++loops&15)==0)
			{
				if (g->stop) goto done;
				if (now_ms()>deadline) { capped=true; goto done; }
			}
			if (mine) g->suitecases[si<64?si:63].fetch_add(1,std::memory_order_relaxed);
			more=ex.next();
		}
	}
done:
	g->transitions+=l_steps; g->traces+=l_traces; g->cases+=l_cases;
	{
		std::ofstream o(g_resdir+"/s"+std::to_string(me));
		for (auto& s:samples) o << s << "\n";
	}
	if (capped) { std::ofstream o(g_resdir+"/capped"); o << "1"; }
}

static bool readFound(const std::string& f, Found& r)
{
	std::ifstream i(f); if (!i) return false;
	std::size_t n; if (!(i>>r.suite>>r.budget>>n)) return false;
	r.tape.resize(n); for (auto& x:r.tape) i>>x;
	std::string l; std::getline(i,l); std::getline(i,r.msg); std::getline(i,r.show);
	return true;
}

// run one tape alone in this process. exit code 0 holds, 1 violation
static int replayHere(const Found& f, bool verbose)
{
	if (f.suite<0 || f.suite>=(int)g_suites.size()) { fprintf(stderr,"no such suite\n"); return 2; }
	Explorer ex; ex.slot=0;
	ex.prepare(f.suite,g_suites[f.suite],f.budget,g_thorough);
	ex.setReplay(f.tape);
	std::string msg;
	bool ok;
	try { ok=(ex.runOne(msg)!=Explorer::BAD); } catch (const BadTape&) { fprintf(stderr,"mc: tape does not fit\n"); return 2; }
	if (verbose) { printf("scenario: %s\n",esc(ex.c.shown()).c_str()); if (!ok) printf("violated: %s\n",esc(msg).c_str()); else printf("holds\n"); }
	return ok?0:1;
}
} // namespace mc

static int waitLimited(pid_t p, int limit_s, int& status)
{
	for (int i=0;i<limit_s*20;i++)
	{
		pid_t r=waitpid(p,&status,WNOHANG);
		if (r==p) return 0;
		usleep(50000);
	}
	kill(p,SIGKILL); waitpid(p,&status,0);
	return 1;
}

using namespace mc;

static void quiet()
{
	int d=open("/dev/null",O_WRONLY); if (d>=0) { dup2(d,1); dup2(d,2); close(d);} 
}

int main(int argc, char** argv)
{
	std::string evidence, replayf, replaydir, known; int seed=1; unsigned nw=8; int cap=420;
	for (int i=1;i<argc;i++)
	{
		std::string a=argv[i]; auto val=[&](){ return std::string(argv[++i]); };
		if (a=="--thorough") g_thorough=true; else if (a=="--evidence") evidence=val(); else if (a=="--replay") replayf=val();
		else if (a=="--replaydir") replaydir=val(); else if (a=="--known") known=val(); else if (a=="--seed") seed=atoi(val().c_str());
		else if (a=="--workers") nw=atoi(val().c_str()); else if (a=="--cap") cap=atoi(val().c_str());
		else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; }
	}
	if (nw>NW_MAX) nw=NW_MAX;
	if (nw<1) nw=1;
	uint64_t t0=now_ms();
	g_suites=suites(g_thorough);
	if (!replayf.empty())
	{
		Found f; if (!readFound(replayf,f)) { fprintf(stderr,"cannot read %s\n",replayf.c_str()); return 2; }
		return replayHere(f,true);
	}
	char tmpl[]="/tmp/mcrunXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
	g_resdir=tmpl;
	g=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	uint64_t nslots=g_thorough?(1ull<<27):(1ull<<25); g_setmask=nslots-1;
	g_set=(std::atomic<uint64_t>*)mmap(0,nslots*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	g_oset=(std::atomic<uint64_t>*)mmap(0,(g_osetmask+1)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	if (g==MAP_FAILED||g_set==MAP_FAILED||g_oset==MAP_FAILED) { perror("mmap"); return 2; }
	fflush(stdout); fflush(stderr);

	int violations=0;
	// known findings: probes of exactly the listed inputs
	for (auto& p:probes())
	{
		bool listed=false; std::string text; std::ifstream kf(known); std::string l;
		std::string pat="finding: property="+std::string(property)+" key="+p.key+" ";
		while (std::getline(kf,l)) if (l.compare(0,pat.size(),pat)==0) { listed=true; text=l.substr(pat.size()); }
		std::string r;
		try { r=p.run(); } catch (const Violation& v) { r=v.msg; }
		if (r.empty()) continue;
		if (listed) printf("KNOWN-FINDING: property=%s %s\n",property,text.c_str());
		else
		{
			std::string path=replaydir+"/"+property+"-probe-"+p.key+".txt";
			std::ofstream o(path); o << "probe " << p.key << ": " << esc(r) << "\n";
			printf("VIOLATION property=%s replay=%s\n  %s\n",property,path.c_str(),esc(r).c_str()); ++violations;
		}
	}
	fflush(stdout);

	const int hang_s=g_thorough?60:25;
	uint64_t deadline=t0+(uint64_t)cap*1000;
	std::vector<pid_t> pid(nw,0);
	for (unsigned i=0;i<nw;i++)
	{
		pid_t p=fork();
		if (p<0) { perror("fork"); return 2; }
		if (p==0)
		{
			quiet();
			try { worker(i,nw,deadline); } catch (...) { _exit(99); }
			_exit(0);
		}
		pid[i]=p;
	}
	std::vector<Found> found; unsigned alive=nw; bool toolerror=false; std::vector<unsigned> fworker;
	uint64_t stopped=0;
	while (alive)
	{
		if (g->stop && !stopped) stopped=now_ms();
		for (unsigned i=0;i<nw;i++) if (pid[i])
		{
			int st=0; pid_t r=waitpid(pid[i],&st,WNOHANG); bool crashed=false, hung=false;
			if (r==pid[i]) { if (!WIFEXITED(st) || (WEXITSTATUS(st)!=0 && WEXITSTATUS(st)!=99)) crashed=true; else if (WEXITSTATUS(st)==99) toolerror=true; pid[i]=0; --alive; }
			else
			{
				uint64_t s=g->slot[i].started; 
				if (s && stopped && found.size() && now_ms()>stopped+3000 && now_ms()>s+3000) { kill(pid[i],SIGKILL); waitpid(pid[i],&st,0); pid[i]=0; --alive; }   // there is a candidate already, others need not be waited for
				else if (s && now_ms()>s+(uint64_t)hang_s*1000) { hung=true; kill(pid[i],SIGKILL); waitpid(pid[i],&st,0); pid[i]=0; --alive; }
			}
			if ((crashed||hung) && !(g->stop && crashed && WIFSIGNALED(st) && WTERMSIG(st)==SIGKILL))
			{
				Found f; Slot& sl=g->slot[i]; f.suite=sl.suite; f.budget=sl.budget; f.tape.assign(sl.tape,sl.tape+sl.tapelen);
				f.msg=hung?"does not terminate":"crash (memory error, signal or sanitizer report)";
				found.push_back(f); fworker.push_back(i); g->stop=1;
			}
			Found f; if (!pid[i] && readFound(g_resdir+"/v"+std::to_string(i),f)) { found.push_back(f); fworker.push_back(i); unlink((g_resdir+"/v"+std::to_string(i)).c_str()); }
		}
		if (alive) usleep(20000);
	}
	// confirm each candidate alone in a fresh process, those that do not terminate only if there is no other one
	{
		std::vector<std::size_t> ord; for (int h=0;h<2;h++) for (std::size_t k=0;k<found.size();k++) if ((found[k].msg=="does not terminate")==(h==1)) ord.push_back(k);
		std::vector<Found> ff; std::vector<unsigned> fw; for (std::size_t k:ord) { ff.push_back(found[k]); fw.push_back(fworker[k]); } found.swap(ff); fworker.swap(fw);
	}
	bool unconfirmed=false; int reported=0;
	for (std::size_t k=0;k<found.size() && reported<3;k++)
	{
		Found& f=found[k]; if (reported && f.msg=="does not terminate") break;
		std::string path=replaydir+"/"+property+"-"+(g_thorough?"t":"q")+std::to_string(k)+".tape";
		{
			std::ofstream o(path); o << f.suite << ' ' << f.budget << ' ' << f.tape.size(); for (auto v:f.tape) o << ' ' << v;
			o << '\n' << f.msg << '\n' << f.show << '\n';
		}
		g->slot[0].show[0]=0;
		pid_t p=fork();
		if (p==0) { quiet(); g_showbuf=g->slot[0].show; _exit(replayHere(f,false)); }
		int st=0; int to=waitLimited(p,hang_s+35,st);
		bool again = to || !WIFEXITED(st) || WEXITSTATUS(st)==1 || WEXITSTATUS(st)==77;
		if (!again)
		{
			// state leaked from an earlier scenario? re-run the same share of the exploration in a fresh process
			unsigned w=fworker[k]; g->stop=0; unlink((g_resdir+"/v"+std::to_string(w)).c_str());
			pid_t q=fork();
			if (q==0) { quiet(); try { worker(w,nw,now_ms()+(uint64_t)cap*1000); } catch (...) { _exit(99); } _exit(0); }
			int to2=waitLimited(q,std::max(60,(int)((now_ms()-t0)/1000)*3),st);
			Found f2; again = (to2==0 && (!WIFEXITED(st) || WEXITSTATUS(st)==77)) || readFound(g_resdir+"/v"+std::to_string(w),f2);
			if (again) { std::ofstream o(path,std::ios::app); o << "only in sequence: worker " << w << " of " << nw << "\n"; }
		}
		if (again)
		{
			if (f.show.empty()) f.show=g->slot[0].show;
			printf("VIOLATION property=%s replay=%s\n",property,path.c_str());
			printf("  suite %s: %s\n  scenario: %s\n",g_suites[f.suite].name.c_str(),f.msg.c_str(),f.show.c_str());
			++violations; ++reported;
		}
		else { unconfirmed=true; printf("note: unconfirmed candidate ignored: %s\n",f.msg.c_str()); }
	}
	bool capped=access((g_resdir+"/capped").c_str(),F_OK)==0;
	std::vector<std::string> samples;
	for (unsigned i=0;i<nw;i++) { std::ifstream s(g_resdir+"/s"+std::to_string(i)); std::string l; while (std::getline(s,l)) samples.push_back(l); }
	{ // spread over suites
		std::map<std::string,int> cnt; std::vector<std::string> sel;
		std::reverse(samples.begin(),samples.end());
		for (auto& s:samples) { std::string k=s.substr(0,s.find(':')); if (cnt[k]++<4 && sel.size()<24) sel.push_back(s); }
		samples.swap(sel);
	}
	if (toolerror && violations==0) { fprintf(stderr,"mc: internal error of the harness\n"); }
	double wall=(now_ms()-t0)/1000.0;
	bool exhaustive=!capped && violations==0 && !toolerror && !unconfirmed;
	if (!evidence.empty())
	{
		std::ofstream o(evidence);
		o << "{\"property\":\"" << property << "\",\"tier\":\"" << (g_thorough?"thorough":"quick") << "\",\"seed\":" << seed
		  << ",\"level\":\"model_checking\",\"coverage\":{\"states\":" << (uint64_t)g->states << ",\"transitions\":" << (uint64_t)g->transitions
		  << ",\"traces_validated_against_impl\":" << (uint64_t)g->traces << ",\"executions\":" << (uint64_t)g->cases
		  << ",\"distinct_outcomes\":" << (uint64_t)g->outcomes << ",\"exhaustive\":" << (exhaustive?"true":"false")
		  << ",\"time_cap_hit\":" << (capped?"true":"false") << ",\"state_table_full\":" << (g->full?"true":"false") << ",\"suites\":[";
		for (std::size_t i=0;i<g_suites.size();i++) o << (i?",":"") << "{\"name\":\"" << jesc(g_suites[i].name) << "\",\"executions\":" << (uint64_t)g->suitecases[i<64?i:63]
			<< ",\"deviation_bound\":" << (g_thorough?g_suites[i].budgetThorough:g_suites[i].budgetQuick) << ",\"bounds\":\"" << jesc(g_suites[i].bounds) << "\"}";
		o << "],\"samples\":[";
		for (std::size_t i=0;i<samples.size();i++) o << (i?",":"") << "\"" << jesc(samples[i]) << "\"";
		o << "]},\"assumptions\":[";
		auto as=assumptions(); for (std::size_t i=0;i<as.size();i++) o << (i?",":"") << "\"" << jesc(as[i]) << "\"";
		o << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
	}
	printf("%s: %s states=%llu transitions=%llu traces=%llu executions=%llu outcomes=%llu wall=%.1fs%s%s\n",property,violations?"VIOLATED":"ok",
		(unsigned long long)g->states,(unsigned long long)g->transitions,(unsigned long long)g->traces,(unsigned long long)g->cases,(unsigned long long)g->outcomes,wall,
		capped?" (time cap hit)":"",exhaustive?" exhaustive within bounds":"");
	for (std::size_t i=0;i<g_suites.size();i++) printf("   %-28s %llu executions\n",g_suites[i].name.c_str(),(unsigned long long)g->suitecases[i<64?i:63]);
	std::string cmd; 
	for (unsigned i=0;i<nw;i++) { unlink((g_resdir+"/v"+std::to_string(i)).c_str()); unlink((g_resdir+"/s"+std::to_string(i)).c_str()); }
	unlink((g_resdir+"/capped").c_str()); rmdir(g_resdir.c_str());
	if (violations) return 1;
	return toolerror?3:0;
}
