// stateful operations; each acts on numbered slots
static void opOther(const F& f, F& o)
{
	const S& op = f[0];
	if (op == "newstate") // id stack libs gc slice
	{
		WRState* w = newState((int)L(f[2]), (int)L(f[3]));
		if (!w) { o.push_back("NULL"); return; }
		if (L(f[4]) >= 0) wr_setAllocatedMemoryGCHint(w, (uint32_t)L(f[4]));
#ifdef WRENCH_TIME_SLICES
		wr_setInstructionsPerSlice(w, (int)L(f[5]));
#endif
		states[L(f[1])] = w; o.push_back("ok");
	}
	else if (op == "killstate") { wr_destroyState(states[L(f[1])]); states.erase(L(f[1])); }
	else if (op == "compile") // buf flags nul source
	{
		bool nul = L(f[3]) != 0;
		char* src = exactCopy(f[4], nul);
		unsigned char* out = 0; int outLen = 0; S msg; long e; long live0 = a_live;
		{
			WRstr em;
			e = wr_compile(src, (int)f[4].size(), &out, &outLen, &em, (uint8_t)L(f[2]));
			msg = c_str(em);
		}
		free(src);
		o.push_back(num(e)); o.push_back(num(outLen)); o.push_back(msg); o.push_back(num(a_live - live0 - (out ? 1 : 0)));
		if (out) setBuf(L(f[1]), out, outLen, true);
	}
	else if (op == "fds") { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; o.push_back(num(n)); }
	else if (op == "stdin") { if (!g_in) g_in = fcntl(0, F_DUPFD, 100); if (stdin) fclose(stdin); stdin = fopen(f[1].c_str(), "rb"); o.push_back(stdin ? "1" : "0"); }
	else if (op == "setbuf") { setBuf(L(f[1]), (unsigned char*)exactCopy(f[2], false), (int)f[2].size(), false); }
	else if (op == "wrbuf") // buffer allocated with wr_malloc, so ownership can be handed over
	{ unsigned char* p = (unsigned char*)wr_malloc(f[2].size() ? f[2].size() : 1); memcpy(p, f[2].data(), f[2].size()); setBuf(L(f[1]), p, (int)f[2].size(), true); }
	else if (op == "getbuf") { Buf& b = bufs[L(f[1])]; o.push_back(S((char*)b.p, b.n)); }
	else if (op == "tight") // re-home a buffer into an exactly sized block
	{ Buf& b = bufs[L(f[1])]; unsigned char* p = (unsigned char*)malloc(b.n ? b.n : 1); memcpy(p, b.p, b.n); setBuf(L(f[1]), p, b.n, false); }
	else if (op == "valid")
	{
		Buf& b = bufs[L(f[1])]; uint32_t h = 0;
		bool ok = wr_isBytecodeValid(b.p, b.n, &h); o.push_back(ok ? "1" : "0"); o.push_back(num((long)h));
	}
	else if (op == "run" || op == "newctx") // ctx state buf own
	{
		WRState* w = states[L(f[2])]; Buf& b = bufs[L(f[3])]; bool own = L(f[4]) != 0;
		WRContext* c = op == "run" ? wr_run(w, b.p, b.n, own) : wr_newContext(w, b.p, b.n, own);
		if (own) { b.p = 0; bufs.erase(L(f[3])); }
		if (c) ctxs[L(f[1])] = c;
		o.push_back(c ? "ok" : "NULL"); o.push_back(errOf(w));
		o.push_back(c ? dump(wr_returnValueFromLastCall(c)) : S("NULL"));
		o.push_back(c && wr_getYieldInfo(c) ? "1" : "0");
	}
	else if (op == "exec") { WRContext* c = ctxs[L(f[1])]; WRValue* r = wr_executeContext(c); o.push_back(dump(r)); o.push_back(errOf(c->w)); o.push_back(wr_getYieldInfo(c) ? "1" : "0"); }
	else if (op == "import") // ctx buf own
	{
		WRContext* c = ctxs[L(f[1])]; Buf& b = bufs[L(f[2])]; bool own = L(f[3]) != 0;
		WRContext* r = wr_import(c, b.p, b.n, own);
		if (own) { b.p = 0; bufs.erase(L(f[2])); }
		if (r && f.size() > 4) ctxs[L(f[4])] = r;
		o.push_back(r ? "ok" : "NULL"); o.push_back(errOf(c->w));
	}
	else if (op == "killctx") { std::map<long, WRContext*>::iterator i = ctxs.find(L(f[1])); wr_destroyContext(i->second); ctxs.erase(i); }
	else if (op == "getfn") { WRFunction* fn = wr_getFunction(ctxs[L(f[2])], f[3].c_str()); if (fn) funcs[L(f[1])] = fn; o.push_back(fn ? "1" : "0"); }
	else if (op == "call" || op == "callh" || op == "callp") // ctx name|fnslot args...
	{
		WRContext* c = ctxs[L(f[1])];
		std::vector<WRValue> a;
		for (size_t i = 3; i < f.size(); ++i) { WRValue v; parseVal(c, f[i], v); a.push_back(v); }
		WRValue* r;
		const WRValue* av = a.empty() ? 0 : &a[0];
		if (op == "call") r = wr_callFunction(c, f[2].c_str(), av, (int)a.size());
		else if (op == "callh") r = wr_callFunction(c, (int32_t)wr_hashStr(f[2].c_str()), av, (int)a.size());
		else r = wr_callFunction(c, funcs[L(f[2])], av, (int)a.size());
		o.push_back(dump(r)); o.push_back(errOf(c->w)); o.push_back(wr_getYieldInfo(c) ? "1" : "0");
		o.push_back(dump(wr_returnValueFromLastCall(c)));
	}
	else if (op == "cont") { WRContext* c = ctxs[L(f[1])]; WRValue* r = wr_continue(c); o.push_back(dump(r)); o.push_back(errOf(c->w)); o.push_back(wr_getYieldInfo(c) ? "1" : "0"); }
	else if (op == "yinfo") // ctx [answer]
	{
		WRContext* c = ctxs[L(f[1])]; WRValue* a = 0; int n = 0; WRValue* rv = 0;
		bool y = wr_getYieldInfo(c, &a, &n, &rv);
		S s; for (int i = 0; y && i < n; ++i) { if (i) s += ' '; dumpV(s, a[i], 0); }
		if (y && rv && f.size() > 2) { WRValue v; parseVal(c, f[2], v); *rv = v; }
		o.push_back(y ? "1" : "0"); o.push_back(num(y ? n : 0)); o.push_back(s);
	}
	else if (op == "global") { WRValue* g = wr_getGlobalRef(ctxs[L(f[1])], f[2].c_str()); o.push_back(dump(g)); }
	else if (op == "setglobal")
	{
		WRContext* c = ctxs[L(f[1])];
		WRValue* g = wr_getGlobalRef(c, f[2].c_str());
		if (!g) { o.push_back("NULL"); return; }
		WRValue v; parseVal(c, f[3], v); *g = v; o.push_back(dump(g));
	}
	else if (op == "wvint" || op == "wvfloat") // WrenchValue conversion + optional store
	{
		WRContext* c = ctxs[L(f[1])]; WrenchValue wv(c, f[2].c_str());
		if (!wv.isValid()) { o.push_back("NULL"); return; }
		if (op == "wvint") { int32_t* p = wv.Int(); o.push_back(p ? num(*p) : S("NULL")); if (p && f.size() > 3) *p = (int32_t)L(f[3]); }
		else { float* p = wv.Float(); char b[16]; uint32_t u = 0; if (p) memcpy(&u, p, 4); snprintf(b, 16, "%08x", u); o.push_back(p ? S(b) : S("NULL")); if (p && f.size() > 3) { u = strtoul(f[3].c_str(), 0, 16); memcpy(p, &u, 4); } }
	}
	else if (op == "wvidx") // ctx label index [val]
	{
		WRContext* c = ctxs[L(f[1])]; WrenchValue wv(c, f[2].c_str());
		if (!wv.isValid()) { o.push_back("NULL"); return; }
		WRValue* m = wv.asArrayMember((int)L(f[3]));
		if (m && f.size() > 4) { WRValue v; parseVal(c, f[4], v); m = wv.asArrayMember((int)L(f[3])); *m = v; }
		o.push_back(dump(m)); o.push_back(num(wv.arraySize()));
	}
	else if (op == "wvadd" || op == "wvget") // ctx label key [val]
	{
		WRContext* c = ctxs[L(f[1])]; WrenchValue wv(c, f[2].c_str());
		if (!wv.isValid()) { o.push_back("NULL"); return; }
		WRValue v; if (f.size() > 4) parseVal(c, f[4], v);
		WRValue* m = op == "wvadd" ? wv.addHashTableValue(f[3].c_str()) : wv.getHashTableValue(f[3].c_str());
		if (m && f.size() > 4) *m = v;
		o.push_back(dump(m));
	}
	else if (op == "err") { o.push_back(errOf(states[L(f[1])])); }
	else if (op == "ret") { o.push_back(dump(wr_returnValueFromLastCall(ctxs[L(f[1])]))); }
	else if (op == "log") { o.push_back(g_log); g_log.clear(); }
	else if (op == "regconst") { WRValue v; parseVal(0, f[3], v); if (f[3][0] == 'i') wr_registerLibraryConstant(states[L(f[1])], f[2].c_str(), (int32_t)v.i); else wr_registerLibraryConstant(states[L(f[1])], f[2].c_str(), v.f); }
	else if (op == "setgc") { wr_setAllocatedMemoryGCHint(states[L(f[1])], (uint32_t)L(f[2])); }
	else if (op == "sctx") { wr_setStateContext(states[L(f[1])], (void*)(intptr_t)L(f[2])); }
	else if (op == "lctx") { wr_setLocalContext(ctxs[L(f[1])], (void*)(intptr_t)L(f[2])); }
	else if (op == "setval") { WRValue v; parseVal(f.size() > 3 ? ctxs[L(f[3])] : 0, f[2], v); vals[L(f[1])] = v; }
	else if (op == "alloc") { o.push_back(num(a_live)); o.push_back(num(a_bytes)); o.push_back(num(a_calls)); o.push_back(num(a_peak)); a_peak = a_bytes; }
	else if (op == "failat") // relative nth allocation from now, every
	{ long n = L(f[1]); a_failAt = n < 0 ? -1 : a_calls + n; a_failEvery = L(f[2]); }
	else if (op == "seed") { wr_Seed = (int32_t)L(f[1]); }
	else if (op == "runcmd") { char* s = exactCopy(f[2], true); WRState* w = states[L(f[1])]; bool ok = L(f[3]) ? wr_runCommand(w, s, (int)f[2].size()) : wr_runCommand(w, s); free(s); o.push_back(ok ? "1" : "0"); o.push_back(errOf(w)); }
	else if (op == "serglobal") // ctx label -> bytes
	{
		WRValue* g = wr_getGlobalRef(ctxs[L(f[1])], f[2].c_str()); char* b = 0; int n = 0;
		if (!g || !wr_serialize(&b, &n, *g)) { o.push_back("0"); return; }
		o.push_back("1"); o.push_back(S(b, n)); wr_free(b);
	}
	else if (op == "deser") // ctx bytes -> dump; optional label to store it in
	{
		WRContext* c = ctxs[L(f[1])]; char* b = exactCopy(f[2], false); WRValue v; v.init();
		bool ok = wr_deserialize(c, v, b, (int)f[2].size());
		o.push_back(ok ? "1" : "0");
		if (ok) { o.push_back(dump(&v)); if (f.size() > 3) { WRValue* g = wr_getGlobalRef(c, f[3].c_str()); if (g) *g = v; } }
		free(b);
	}
	else if (op == "asstr" || op == "techstr") // ctx val maxlen [hex]  (maxlen 0 = unlimited)
	{
		WRContext* c = ctxs.count(L(f[1])) ? ctxs[L(f[1])] : 0; long ml = L(f[3]);
		WRValue v;
		if (f[2][0] == 'g') { WRValue* g = wr_getGlobalRef(c, f[2].c_str() + 1); if (!g) { o.push_back("NULL"); return; } v = *g; }
		else parseVal(c, f[2], v);
		char* b = (char*)malloc(ml ? ml : 70000); memset(b, 'Z', ml ? ml : 70000);
		unsigned sl = 0xFFFFFFFF;
		char* r = op == "asstr" ? v.asString(b, (unsigned)ml, &sl) : v.technicalAsString(b, (unsigned)ml, L(f[4]) != 0, &sl);
		o.push_back(r == b ? "1" : "0");
		size_t n = ml ? (size_t)ml : 70000; size_t k = 0; while (k < n && b[k]) ++k;
		o.push_back(S(b, k)); o.push_back(k < n ? "1" : "0"); o.push_back(num((long)sl));
		free(b);
	}
	else if (op == "mstr") // ctx val
	{
		WRContext* c = ctxs.count(L(f[1])) ? ctxs[L(f[1])] : 0; WRValue v;
		if (f[2][0] == 'g') { WRValue* g = wr_getGlobalRef(c, f[2].c_str() + 1); if (!g) { o.push_back("NULL"); return; } v = *g; }
		else parseVal(c, f[2], v);
		unsigned sl = 0xFFFFFFFF; char* s = v.asMallocString(&sl);
		o.push_back(s ? S(s) : S("NULL")); o.push_back(num((long)sl)); if (s) wr_free(s);
	}
	else if (op == "gidx" || op == "ghash") // ctx label index|key create [val]
	{
		WRContext* c = ctxs[L(f[1])]; WRValue* g = wr_getGlobalRef(c, f[2].c_str());
		if (!g) { o.push_back("NULL"); return; }
		WRValue v; if (f.size() > 5) parseVal(c, f[5], v);
		uint32_t h = op == "gidx" ? (uint32_t)L(f[3]) : f[3][0] == 'i' ? (uint32_t)L(f[3].substr(1)) : wr_hashStr(f[3].c_str() + 1);
		WRValue* m = op == "gidx" ? g->indexArray(c, h, f[4] == "1") : g->indexHash(c, h, f[4] == "1");
		if (m && f.size() > 5) *m = v;
		o.push_back(dump(m)); o.push_back(dump(g));
	}
	else if (op == "giter") // ctx label: what a host iteration yields
	{
		WRValue* g = wr_getGlobalRef(ctxs[L(f[1])], f[2].c_str());
		if (!g) { o.push_back("NULL"); return; }
		std::vector<S> e; int n = 0;
		for (WRValue::Iterator it = g->begin(); it != g->end(); ++it)
		{
			WRIteratorEntry const& m = *it; S s;
			if (m.type == SV_HASH_TABLE) s += dump(m.key) + "|" + dump(m.value);
			else if (m.type == SV_VALUE) s += num(m.index) + "|" + dump(m.value);
			else s += num(m.index) + "|" + num((unsigned char)m.character) + (m.value ? "!" : "");
			e.push_back(s); if (++n > 100000) break;
		}
		std::sort(e.begin(), e.end()); S all; for (size_t i = 0; i < e.size(); ++i) all += e[i] + "\n";
		o.push_back(all);
	}
	else if (op == "info") // ctx global: type predicates and accessors
	{
		WRValue* g = wr_getGlobalRef(ctxs[L(f[1])], f[2].c_str());
		if (!g) { o.push_back("NULL"); return; }
		int n1 = -9, n2 = -9, n3 = -9; S s;
		s += g->isInt() ? "I" : "."; s += g->isFloat() ? "F" : "."; s += g->isString(&n1) ? "S" : "."; s += g->isWrenchArray(&n2) ? "A" : ".";
		s += g->isHashTable(&n3) ? "H" : "."; s += g->isStruct() ? "T" : ".";
		o.push_back(s); o.push_back(num(g->arraySize())); o.push_back(num(g->asInt()));
		uint32_t u; float fl = g->asFloat(); memcpy(&u, &fl, 4); char b[16]; snprintf(b, 16, "%08x", u); o.push_back(fl != fl ? S("nan") : S(b));
		o.push_back(num(n1)); o.push_back(num(n2)); o.push_back(num(n3));
	}
	else if (op == "hash") { char* b = exactCopy(f[1], true); o.push_back(num((long)wr_hash(b, (int)f[1].size()))); o.push_back(num((long)wr_hashStr(b))); free(b); }
	else if (op == "disasm")
	{
		Buf& b = bufs[L(f[1])]; char* out = 0; unsigned n = 0;
		wr_disassemble(b.p, b.n, &out, &n); o.push_back(out ? S(out, n) : S("NULL")); if (out) wr_free(out);
	}
	else if (op == "struct") // ctx name args... ; fields listed after "|"
	{
		WRContext* c = ctxs[L(f[1])]; std::vector<WRValue> a; size_t i = 3;
		for (; i < f.size() && f[i] != "|"; ++i) { WRValue v; parseVal(c, f[i], v); a.push_back(v); }
		WRValue v; v.init(); WRValue* r = wr_instanceStruct(&v, c, f[2].c_str(), a.empty() ? 0 : &a[0], (int)a.size());
		o.push_back(r ? "ok" : "NULL");
		for (++i; r && i < f.size(); ++i) { WRValue* m = v.indexStruct(f[i].c_str()); o.push_back(dump(m)); }
	}
	else if (op == "mkcont") { WRValue v; v.init(); wr_makeContainer(&v, (uint16_t)L(f[2])); vals[L(f[1])] = v; }
	else if (op == "killcont") { wr_destroyContainer(&vals[L(f[1])]); vals.erase(L(f[1])); }
	else if (op == "contint") { wr_addIntToContainer(&vals[L(f[1])], f[2].c_str(), (int)L(f[3])); }
	else if (op == "contflt") { uint32_t u = strtoul(f[3].c_str(), 0, 16); float x; memcpy(&x, &u, 4); wr_addFloatToContainer(&vals[L(f[1])], f[2].c_str(), x); }
	else if (op == "contarr") { Buf& b = bufs[L(f[3])]; wr_addArrayToContainer(&vals[L(f[1])], f[2].c_str(), (char*)b.p, b.n); }
	else if (op == "pokebuf") { bufs[L(f[1])].p[L(f[2])] = (unsigned char)L(f[3]); }
	else if (op == "contval") { wr_addValueToContainer(&vals[L(f[1])], f[2].c_str(), &vals[L(f[3])]); }
	else if (op == "contget") { WRValue* r = wr_getValueFromContainer(vals[L(f[1])], f[2].c_str()); o.push_back(dump(r)); }
	else if (op == "dumpval") { o.push_back(dump(&vals[L(f[1])])); }
#ifdef WRENCH_TIME_SLICES
	else if (op == "slice") { wr_setInstructionsPerSlice(states[L(f[1])], (int)L(f[2])); }
	else if (op == "sched") { scheds[L(f[1])] = new WrenchScheduler((int)L(f[2])); WRState* w = scheds[L(f[1])]->state(); wr_loadAllLibs(w); registerAll(w); if (f.size() > 3 && L(f[3]) >= 0) wr_setAllocatedMemoryGCHint(w, (uint32_t)L(f[3])); }
	else if (op == "killsched") { delete scheds[L(f[1])]; scheds.erase(L(f[1])); }
	else if (op == "addthread") { Buf& b = bufs[L(f[2])]; bool own = L(f[4]) != 0; int r = scheds[L(f[1])]->addThread(b.p, b.n, (int)L(f[3]), own); if (own) { b.p = 0; bufs.erase(L(f[2])); } taskIds[L(f[2])] = r; o.push_back(num(r)); o.push_back(errOf(scheds[L(f[1])]->state())); }
	else if (op == "rmtag") { o.push_back(scheds[L(f[1])]->removeTask(taskIds[L(f[2])]) ? "1" : "0"); }
	else if (op == "tick") { WrenchScheduler* s = scheds[L(f[1])]; s->tick((int)L(f[2])); o.push_back(num(s->lastErr())); o.push_back(num(s->lastErrTaskId())); }
	else if (op == "clearerr") { scheds[L(f[1])]->clearErr(); }
	else if (op == "rmtask") { o.push_back(scheds[L(f[1])]->removeTask((int)L(f[2])) ? "1" : "0"); }
#endif
	else die(("unknown op " + op).c_str());
}
