// Engine: one executable per wrench build configuration.  Reads requests
// (lists of operations) on stdin, performs them against wrench through its
// public interface only, and writes one reply per request on stdout.
#include "wrench.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <malloc.h>

typedef std::string S;
typedef std::vector<S> F;

#ifdef WRENCH_HANDLE_MALLOC_FAIL
extern bool g_mallocFailed;
#endif

//---------------------------------------------------------------- allocator
static long a_live, a_bytes, a_calls, a_peak, a_failAt = -1, a_failEvery = 0, a_cap = 0;
static void* cAlloc(size_t n)
{
	++a_calls;
	if (a_failAt >= 0 && a_calls >= a_failAt && (a_calls == a_failAt || a_failEvery)) return 0;
	if (a_cap && a_bytes + (long)n > a_cap) { const char m[] = "ENGINE-OOM\n"; if (write(2, m, sizeof(m) - 1)) {} _exit(78); }
	void* p = malloc(n);
	if (p) { ++a_live; a_bytes += (long)malloc_usable_size(p); if (a_bytes > a_peak) a_peak = a_bytes; }
	return p;
}
static void cFree(void* p)
{
	if (!p) return;
	--a_live; a_bytes -= (long)malloc_usable_size(p);
	free(p);
}

//---------------------------------------------------------------- io
WRContext* g_context = 0; // referenced by builds that define WRENCH_CLI_DEBUG
static void die(const char* m) { fprintf(stderr, "ENGINE-FATAL %s\n", m); _exit(99); }
static int g_in = 0; // request channel
static void readAll(void* d, size_t n)
{
	char* p = (char*)d;
	while (n) { ssize_t r = read(g_in, p, n); if (r <= 0) _exit(0); p += r; n -= (size_t)r; }
}
static void writeAll(const S& s)
{
	const char* p = s.data(); size_t n = s.size();
	while (n) { ssize_t r = write(3, p, n); if (r <= 0) _exit(0); p += r; n -= (size_t)r; }
}
static void put32(S& s, uint32_t v) { s.append((const char*)&v, 4); }
static void putF(S& s, const F& f) { put32(s, f.size()); for (size_t i = 0; i < f.size(); ++i) { put32(s, f[i].size()); s += f[i]; } }
static S num(long v) { char b[32]; snprintf(b, 32, "%ld", v); return b; }

//---------------------------------------------------------------- dumping
static void dumpStr(S& o, const char* d, unsigned n)
{
	o += '"';
	for (unsigned i = 0; i < n; ++i)
	{
		unsigned char c = (unsigned char)d[i];
		if (c < 32 || c > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	o += '"';
}
static void dumpV(S& o, const WRValue& in, int depth)
{
	static int budget; // containers that contain themselves would print for ever
	if (depth == 0) budget = 300000;
	if (depth > 8 || --budget < 0) { o += "..."; return; }
	WRValue& v = in.deref();
	char b[48];
	if (v.type == WR_REF) { o += "?ref"; return; }
	if (v.type == WR_INT) { snprintf(b, 48, "i%d", v.i); o += b; return; }
	if (v.type == WR_FLOAT)
	{
		if (v.f != v.f) { o += "fnan"; return; }
		snprintf(b, 48, "f%08x", v.ui); o += b; return;
	}
	int len = 0;
	if (v.isString(&len))
	{
		unsigned n = 0; char* d = (char*)v.array(&n, SV_CHAR);
		dumpStr(o, d, n); return;
	}
	if (v.isStruct())
	{
		o += "<"; 
		std::vector<S> items;
		for (WRValue::Iterator it(v); it != v.end(); ++it)
		{
			S e; const WRIteratorEntry& en = *it;
			if (en.value) dumpV(e, *en.value, depth + 1);
			items.push_back(e);
		}
		std::sort(items.begin(), items.end());
		for (size_t i = 0; i < items.size(); ++i) { if (i) o += ","; o += items[i]; }
		o += ">"; return;
	}
	if (v.isHashTable())
	{
		std::vector<S> items;
		for (WRValue::Iterator it(v); it != v.end(); ++it)
		{
			S e; const WRIteratorEntry& en = *it;
			if (en.key) dumpV(e, *en.key, depth + 1); else e += "?";
			e += ":";
			if (en.value) dumpV(e, *en.value, depth + 1); else e += "?";
			items.push_back(e);
		}
		std::sort(items.begin(), items.end());
		o += "{";
		for (size_t i = 0; i < items.size(); ++i) { if (i) o += ","; o += items[i]; }
		o += "}"; return;
	}
	if (v.isRawArray(&len))
	{
		unsigned n = 0; char* d = (char*)v.array(&n, SV_CHAR);
		o += "raw"; if (d) dumpStr(o, d, n); return;
	}
	if (v.isWrenchArray(&len))
	{
		unsigned n = 0; WRValue* d = (WRValue*)v.array(&n, SV_VALUE);
		o += "[";
		for (unsigned i = 0; d && i < n; ++i) { if (i) o += ","; dumpV(o, d[i], depth + 1); }
		o += "]"; return;
	}
	snprintf(b, 48, "?ex%02x", (unsigned)v.xtype); o += b;
}
static S dump(const WRValue* v) { if (!v) return "NULL"; S o; dumpV(o, *v, 0); return o; }

//---------------------------------------------------------------- host callbacks
static S g_log;
static long g_outCalls, g_outForceYieldEvery;
static std::map<long, WRState*> states;
static std::map<long, WRContext*> ctxs;
struct Buf { unsigned char* p; int n; bool wr; };
static std::map<long, Buf> bufs;
static std::map<long, WRFunction*> funcs;
static std::map<long, WRValue> vals;
#ifdef WRENCH_TIME_SLICES
static std::map<long, WrenchScheduler*> scheds;
static std::map<long, int> taskIds;
#endif

static void cbOut(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	for (int i = 0; i < argn; ++i) { if (i) g_log += ' '; dumpV(g_log, argv[i], 0); }
	g_log += '\n';
	if (g_log.size() > (1u << 24)) die("log too large");
	++g_outCalls;
#ifdef WRENCH_TIME_SLICES
	if (g_outForceYieldEvery && (g_outCalls % g_outForceYieldEvery) == 0) wr_forceYield(c->w);
#endif
}
// returns its first argument's dump as nothing, value 1000+argn: used to see
// how many arguments arrive
static void cbArgc(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	wr_makeInt(&ret, argn);
}
static void cbSum(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	unsigned s = 0;
	for (int i = 0; i < argn; ++i) s = s * 31u + (unsigned)argv[i].asInt();
	wr_makeInt(&ret, (int)s);
}
static void cbMkStr(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	S o; for (int i = 0; i < argn; ++i) dumpV(o, argv[i], 0);
	if (o.size() > 4000) o.resize(4000); // escapes multiply when a program feeds its own result back
	wr_makeString(c, &ret, o.c_str(), (int)o.size());
}
static void cbMkFloat(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	wr_makeFloat(&ret, argn ? argv[0].asFloat() * 0.5f : 0.25f);
}
static void cbNone(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr) {}
static void cbUsr(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	wr_makeInt(&ret, (int)(intptr_t)usr);
}
static void cbCtx(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	wr_makeInt(&ret, (int)(intptr_t)wr_getStateContext(c->w) * 1000 + (int)(intptr_t)wr_getLocalContext(c));
}
static void libLog(WRValue* stackTop, const int argn, WRContext* c)
{
	g_log += "L";
	for (int i = argn; i > 0; --i) { g_log += ' '; dumpV(g_log, *(stackTop - i), 0); }
	g_log += '\n';
	stackTop->init(argn);
}
static void registerAll(WRState* w)
{
	wr_registerFunction(w, "out", cbOut);
	wr_registerFunction(w, "argc", cbArgc);
	wr_registerFunction(w, "hsum", cbSum);
	wr_registerFunction(w, "hstr", cbMkStr);
	wr_registerFunction(w, "hhalf", cbMkFloat);
	wr_registerFunction(w, "hnone", cbNone);
	wr_registerFunction(w, "husr7", cbUsr, (void*)(intptr_t)7);
	wr_registerFunction(w, "husr9", cbUsr, (void*)(intptr_t)9);
	wr_registerFunction(w, "hctx", cbCtx);
	wr_registerLibraryFunction(w, "tst::log", libLog);
	wr_registerLibraryConstant(w, "tst::KI", (int32_t)-12345);
	wr_registerLibraryConstant(w, "tst::KF", 2.5f);
}
static WRState* newState(int stack, int libs)
{
	WRState* w = stack > 0 ? wr_newState(stack) : wr_newState();
	if (!w) return 0;
	if (libs) wr_loadAllLibs(w);
	registerAll(w);
	return w;
}

//---------------------------------------------------------------- helpers
static long L(const S& s) { return strtol(s.c_str(), 0, 10); }
static char* exactCopy(const S& s, bool nul)
{
	char* p = (char*)malloc(s.size() + (nul ? 1 : 0) + (s.empty() && !nul ? 1 : 0));
	memcpy(p, s.data(), s.size());
	if (nul) p[s.size()] = 0;
	return p;
}
static void freeBuf(Buf& b) { if (b.p) { if (b.wr) wr_free(b.p); else free(b.p); } b.p = 0; }
static void setBuf(long id, unsigned char* p, int n, bool wr)
{
	std::map<long, Buf>::iterator it = bufs.find(id);
	if (it != bufs.end()) freeBuf(it->second);
	Buf b = { p, n, wr }; bufs[id] = b;
}
static S c_str(WRstr& s) { return S(s.c_str(), s.size()); }
static bool parseVal(WRContext* c, const S& t, WRValue& out)
{
	switch (t[0])
	{
		case 'i': out.init((int)L(t.substr(1))); return true;
		case 'f': { uint32_t u = (uint32_t)strtoul(t.c_str() + 1, 0, 16); float f; memcpy(&f, &u, 4); out.init(f); return true; }
		case 's': wr_makeString(c, &out, t.data() + 1, (int)t.size() - 1); return true;
		case 'v': out = vals[L(t.substr(1))]; return true;
	}
	die("bad val"); return false;
}

static void cleanup()
{
	for (std::map<long, WRState*>::iterator i = states.begin(); i != states.end(); ++i) wr_destroyState(i->second);
	states.clear(); ctxs.clear(); funcs.clear(); vals.clear();
#ifdef WRENCH_TIME_SLICES
	for (std::map<long, WrenchScheduler*>::iterator i = scheds.begin(); i != scheds.end(); ++i) delete i->second;
	scheds.clear();
#endif
	for (std::map<long, Buf>::iterator i = bufs.begin(); i != bufs.end(); ++i) freeBuf(i->second);
	bufs.clear();
}

static S errOf(WRState* w) { return num(wr_getLastError(w)); }

// drive a context that may have yielded until it stops; returns final value
// mode 0: plain continue, answers left at default
// mode 1: log yield args, return value = 1000 + k
static WRValue* drive(WRContext* c, WRValue* r, long mode, long maxYields, long& yields)
{
	yields = 0;
	while (wr_getYieldInfo(c))
	{
		if (yields++ >= maxYields) { g_log += "MAXYIELDS\n"; return 0; }
		if (mode)
		{
			WRValue* args = 0; int n = 0; WRValue* rv = 0;
			wr_getYieldInfo(c, &args, &n, &rv);
			g_log += "Y";
			for (int i = 0; i < n; ++i) { g_log += ' '; dumpV(g_log, args[i], 0); }
			g_log += '\n';
			if (mode == 2 && rv) wr_makeInt(rv, 1000 + (int)yields);
		}
		r = wr_continue(c);
	}
	return r;
}

// one complete run of a script in a fresh state
static void opScript(const F& f, F& o)
{
	long flags = L(f[1]), gc = L(f[2]), stack = L(f[3]), slice = L(f[4]), libs = L(f[5]), ymode = L(f[6]), maxY = L(f[7]);
	g_log.clear(); g_outCalls = 0; g_outForceYieldEvery = L(f[9]);
	wr_Seed = 1;
	long live0 = a_live, bytes0 = a_bytes;
	char* src = exactCopy(f[8], true);
	unsigned char* out = 0; int outLen = 0;
	S msg; long cerr;
	{
		WRstr em; em.clear();
		cerr = wr_compile(src, (int)f[8].size(), &out, &outLen, &em, (uint8_t)flags);
		msg = c_str(em);
	}
	free(src);
	o.push_back(num(cerr));
	if (cerr)
	{
		if (out) { o.push_back("OUT-ON-ERROR"); }
		else o.push_back(num(a_live - live0));
		o.push_back(msg);
		return;
	}
	// run from an exactly sized private copy so an over-read is visible
	unsigned char* code = (unsigned char*)malloc(outLen); memcpy(code, out, outLen); wr_free(out);
	WRState* w = newState((int)stack, (int)libs);
	if (gc >= 0) wr_setAllocatedMemoryGCHint(w, (uint32_t)gc);
#ifdef WRENCH_TIME_SLICES
	wr_setInstructionsPerSlice(w, (int)slice);
#endif
	a_peak = a_bytes;
	a_cap = f.size() > 10 ? a_bytes + L(f[10]) : 0;
	WRContext* c = wr_run(w, code, outLen);
	S ret = "NULL"; long yields = 0; S err = errOf(w);
	if (c)
	{
		WRValue* r = wr_returnValueFromLastCall(c);
		if (wr_getYieldInfo(c)) { r = drive(c, 0, ymode, maxY, yields); }
		err = errOf(w);
		ret = dump(r);
	}
	long peak = a_peak - bytes0;
	a_cap = 0;
	wr_destroyState(w);
	free(code);
	o.push_back(err); o.push_back(ret); o.push_back(g_log); o.push_back(num(yields));
	o.push_back(num(a_live - live0)); o.push_back(num(a_bytes - bytes0)); o.push_back(num(peak)); o.push_back(num(outLen));
}

#include "engine_ops.inc"

static void onHang(int) { const char m[] = "ENGINE-HANG\n"; if (write(2, m, sizeof(m) - 1)) {} _exit(77); }

int main()
{
	wr_setGlobalAllocator(cAlloc, cFree);
	// reply channel: fd 3; keep script prints off it
	dup2(1, 3);
	if (!freopen("/dev/null", "w", stdout)) die("freopen");
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onHang; sigaction(SIGPROF, &sa, 0);
	const char* hs = getenv("WV_HANG"); int hang = hs ? atoi(hs) : 20;
	for (;;)
	{
		uint32_t n; readAll(&n, 4);
		S req(n, 0); readAll(&req[0], n);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = hang; setitimer(ITIMER_PROF, &it, 0);
		size_t p = 0; uint32_t nops; memcpy(&nops, &req[p], 4); p += 4;
		S body;
		put32(body, nops);
		long live0 = a_live, bytes0 = a_bytes;
		g_log.clear(); a_peak = a_bytes; 
		for (uint32_t k = 0; k < nops; ++k)
		{
			uint32_t nf; memcpy(&nf, &req[p], 4); p += 4;
			F f(nf);
			for (uint32_t j = 0; j < nf; ++j) { uint32_t l; memcpy(&l, &req[p], 4); p += 4; f[j].assign(req, p, l); p += l; }
			F o;
			if (f[0] == "script") opScript(f, o);
			else opOther(f, o);
			putF(body, o);
		}
		cleanup();
		a_failAt = -1;
		F tail; tail.push_back(num(a_live - live0)); tail.push_back(num(a_bytes - bytes0));
		putF(body, tail);
		memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, 0);
		S msg; put32(msg, body.size()); msg += body;
		writeAll(msg);
	}
}
