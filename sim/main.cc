// Driver: explore seeds in worker processes, shrink and write replay files, replay them.
#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Case { const Scenario* sc; Prog p; Strategy s; u64 dseed; };

static std::vector<const Scenario*> for_property(const std::string& prop) {
	std::vector<const Scenario*> v;
	for (auto& s : scenarios()) if (prop == s.property) for (int i = 0; i < s.weight; i++) v.push_back(&s);
	std::stable_sort(v.begin(), v.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
	return v;
}
static Case make_case(const std::vector<const Scenario*>& scs, u64 seed, u64 idx) {
	Case c;
	c.sc = scs[idx % scs.size()];
	u64 base = mix(mix(seed, fnv(c.sc->name, strlen(c.sc->name))), idx);
	Rng r(base);
	c.sc->gen(r, c.p, c.s);
	c.dseed = mix(base, 0xdecdec);
	return c;
}
static const Scenario* find_scenario(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return nullptr; }

// ---------------------------------------------------------------- replay files
static std::string dump(const Scenario& sc, const Prog& p, const std::vector<Decision>& dec, const Result& r, u64 seed, u64 idx) {
	std::ostringstream o;
	o << "sim-replay 1\nproperty " << sc.property << "\nscenario " << sc.name << "\nseed " << seed << "\nrun " << idx << "\n";
	o << "class " << r.v.cls << "\nmessage " << r.v.msg << "\nhash " << std::hex << r.hash << std::dec << "\n";
	const Env& e = p.env;
	o << "env " << e.fill << " " << e.wall_sec << " " << e.wall_nsec << " " << e.mono_sec << " " << e.mono_nsec << " " << e.tick << " " << e.entropy << " " << e.cap << " " << e.maxalloc << "\n";
	o << "cfg"; for (auto v : p.cfg) o << " " << v; o << "\n";
	for (size_t t = 0; t < p.thr.size(); t++) {
		o << "thread " << t << "\n";
		for (auto& op : p.thr[t]) o << "op " << op.code << " " << op.a << " " << op.b << " " << op.c << " # " << (sc.opname ? sc.opname(op.code) : "") << "\n";
	}
	for (auto& d : dec) {
		if (d.kind == K_SCHED) {
			o << "switch " << (int)d.tid << " " << d.key << " " << d.val << " # at its step " << d.key << ", T" << (int)d.tid;
			if (d.val == TIMER) o << ": the next timer fires\n"; else o << " gives way to T" << d.val << "\n";
		} else o << "fault " << (int)d.kind << " " << (int)d.tid << " " << d.key << " " << d.val << " # " << fault_name[d.kind] << "\n";
	}
	return o.str();
}
struct Replay { const Scenario* sc = nullptr; Prog p; std::vector<Decision> dec; std::string cls, msg; u64 hash = 0; };
static bool load(const char* path, Replay& r) {
	std::ifstream f(path);
	if (!f) return false;
	std::string line;
	while (std::getline(f, line)) {
		std::string full = line;
		size_t h = line.find(" # ");
		if (h != std::string::npos && line.compare(0, 7, "message")) line = line.substr(0, h);
		std::istringstream i(line);
		std::string k; i >> k;
		if (k == "scenario") { std::string n; i >> n; r.sc = find_scenario(n); if (!r.sc) return false; }
		else if (k == "class") { i >> r.cls; }
		else if (k == "message") r.msg = full.size() > 8 ? full.substr(8) : "";
		else if (k == "hash") i >> std::hex >> r.hash;
		else if (k == "env") { Env& e = r.p.env; i >> e.fill >> e.wall_sec >> e.wall_nsec >> e.mono_sec >> e.mono_nsec >> e.tick >> e.entropy >> e.cap >> e.maxalloc; }
		else if (k == "cfg") { i64 v; while (i >> v) r.p.cfg.push_back(v); }
		else if (k == "thread") r.p.thr.emplace_back();
		else if (k == "op") { Op o; i >> o.code >> o.a >> o.b >> o.c; r.p.thr.back().push_back(o); }
		else if (k == "switch") { int t, v; u64 s; i >> t >> s >> v; r.dec.push_back(Decision{ K_SCHED, (u8)t, s, v }); }
		else if (k == "fault") { int kd, t, v; u64 s; i >> kd >> t >> s >> v; r.dec.push_back(Decision{ (u8)kd, (u8)t, s, v }); }
	}
	return r.sc != nullptr;
}

// ---------------------------------------------------------------- one run in a child process
struct Out { bool ok = false; bool set = false; std::string cls, msg; u64 hash = 0; std::vector<Decision> dec; u64 steps = 0; };
static void put(std::string& b, const void* p, size_t n) { b.append((const char*)p, n); }
static Out in_child(std::function<Result()> f, bool want_dec) {
	Out o;
	int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(3); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		close(fd[0]);
		alarm(20);
		Result r = f();
		std::string b;
		u8 s = r.v.set; put(b, &s, 1); put(b, &r.hash, 8); put(b, &r.steps, 8);
		u32 n = r.v.cls.size(); put(b, &n, 4); b += r.v.cls;
		n = r.v.msg.size(); put(b, &n, 4); b += r.v.msg;
		n = want_dec ? r.dec.size() : 0; put(b, &n, 4);
		for (u32 i = 0; i < n; i++) put(b, &r.dec[i], sizeof(Decision));
		size_t off = 0;
		while (off < b.size()) { ssize_t k = write(fd[1], b.data() + off, b.size() - off); if (k <= 0) break; off += k; }
		_exit(0);
	}
	close(fd[1]);
	std::string b; char tmp[65536]; ssize_t k;
	while ((k = read(fd[0], tmp, sizeof tmp)) > 0) b.append(tmp, k);
	close(fd[0]);
	int st; waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st) || b.size() < 25) return o;
	const char* q = b.data();
	auto get = [&](void* d, size_t n) { memcpy(d, q, n); q += n; };
	u8 s; get(&s, 1); o.set = s; get(&o.hash, 8); get(&o.steps, 8);
	u32 n; get(&n, 4); o.cls.assign(q, n); q += n; get(&n, 4); o.msg.assign(q, n); q += n;
	get(&n, 4); o.dec.resize(n); for (u32 i = 0; i < n; i++) get(&o.dec[i], sizeof(Decision));
	o.ok = true;
	return o;
}
static Out eval(const Scenario& sc, const Prog& p, const std::vector<Decision>& d) {
	return in_child([&] { return run(sc, p, nullptr, 0, &d, false); }, false);
}

static void shrink(const Scenario& sc, Prog& p, std::vector<Decision>& dec, const std::string& cls, double budget, u64& evals) {
	double end = wall() + budget;
	auto bad = [&](const Prog& q, const std::vector<Decision>& d) { evals++; Out o = eval(sc, q, d); return o.ok && o.set && o.cls == cls; };
	auto min_dec = [&]() {
		bool any = false;
		for (size_t chunk = std::max<size_t>(1, dec.size() / 2); ; chunk = chunk / 2) {
			for (size_t i = 0; i < dec.size() && wall() < end; ) {
				std::vector<Decision> d(dec.begin(), dec.begin() + i);
				if (i + chunk < dec.size()) d.insert(d.end(), dec.begin() + i + chunk, dec.end());
				if (bad(p, d)) { dec = d; any = true; } else i += chunk;
			}
			if (chunk <= 1 || wall() >= end) break;
		}
		return any;
	};
	auto min_ops = [&]() {
		bool any = false;
		for (size_t t = 0; t < p.thr.size(); t++) {
			for (size_t chunk = std::max<size_t>(1, p.thr[t].size()); ; chunk = chunk / 2) {
				for (size_t i = 0; i < p.thr[t].size() && wall() < end; ) {
					Prog q = p;
					auto& v = q.thr[t];
					v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
					if (bad(q, dec)) { p = q; any = true; } else i += chunk;
				}
				if (chunk <= 1 || wall() >= end) break;
			}
		}
		return any;
	};
	for (int round = 0; round < 6 && wall() < end; round++) {
		bool a = min_dec(), b = min_ops();
		if (!a && !b) break;
	}
}

// ---------------------------------------------------------------- exploring
struct Shared { std::atomic<u64> min_viol; std::atomic<u64> cur[64]; std::atomic<u64> beat[64]; std::atomic<int> nondet; std::atomic<u64> nondet_idx, nondets, known; };
struct Stats {
	u64 runs = 0, steps = 0, switches = 0, sim_us = 0, faults[NF] = {0}, rechecked = 0, faultfree = 0, maxthreads = 0, multi = 0, preempted = 0;
	std::map<std::string, u64> per_sc;
};
static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}
static std::string describe(const Case& c, const Result& r) {
	std::ostringstream o;
	o << c.sc->name << " cfg";
	for (auto v : c.p.cfg) o << " " << v;
	for (size_t t = 0; t < c.p.thr.size(); t++) {
		o << "; T" << t << ":";
		size_t k = 0;
		for (auto& op : c.p.thr[t]) { if (k++ == 12) { o << " ..(" << c.p.thr[t].size() << " ops)"; break; } o << " " << (c.sc->opname ? c.sc->opname(op.code) : "op") << "(" << op.a << "," << op.b << ")"; }
	}
	u64 f = 0; for (int i = 0; i < NF; i++) f += r.faults[i];
	o << " => " << (r.v.set ? r.v.cls : std::string("held")) << ", " << r.steps << " steps, " << r.switches << " switches, " << f << " faults, hash " << std::hex << r.hash;
	return o.str();
}
int main(int argc, char** argv) {
	// A constant stack canary: uninitialised reads must not depend on the process.
	asm volatile("movq %0, %%fs:0x28" : : "r"(0x00a1b2c3d4e5f600ull));
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	std::string file;
	bool vb = false;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i];
		if (a == "-v") vb = true;
		else if (a.substr(0, 2) == "--" && i + 1 < argc) opt[a.substr(2)] = argv[++i];
		else file = a;
	}
	auto num = [&](const char* k, u64 d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
	if (mode == "list") { for (auto& s : scenarios()) printf("%s %s %d\n", s.property, s.name, s.weight); fflush(stdout); _exit(0); }
	if (mode == "replay") {
		Replay r;
		if (!load(file.c_str(), r)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
		alarm(60);
		Result o = run(*r.sc, r.p, nullptr, 0, &r.dec, vb);
		printf("property=%s scenario=%s class=%s hash=%llx\n%s\n", r.sc->property, r.sc->name, o.v.set ? o.v.cls.c_str() : "none", (unsigned long long)o.hash, o.v.msg.c_str());
		fflush(stdout);
		if (!o.v.set) { printf("not reproduced\n"); fflush(stdout); _exit(r.cls.empty() ? 0 : 4); }
		bool same = o.v.cls == r.cls && (o.hash == r.hash || !r.hash);
		printf(!same ? "differs from the recorded execution\n" : r.hash ? "reproduced exactly\n" : "reproduced\n");
		fflush(stdout);
		_exit(same ? 1 : 4);
	}
	std::string prop = opt["prop"];
	u64 seed = num("seed", 1);
	auto scs = for_property(prop);
	if (opt.count("scenario")) { scs.clear(); if (auto* s = find_scenario(opt["scenario"])) scs.push_back(s); }
	if (scs.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
	if (mode == "hashes") {
		u64 from = num("from", 0), n = num("count", 32);
		for (u64 i = from; i < from + n; i++) { Case c = make_case(scs, seed, i); Result r = run(*c.sc, c.p, &c.s, c.dseed, nullptr, false); printf("%llu %llx %s\n", (unsigned long long)i, (unsigned long long)r.hash, r.v.set ? r.v.cls.c_str() : "-"); fflush(stdout); if (r.v.set) {} }
		_exit(0);
	}
	if (mode == "one") {
		u64 i = num("run", 0);
		Case c = make_case(scs, seed, i);
		Result r = run(*c.sc, c.p, &c.s, c.dseed, nullptr, vb);
		printf("%s\n%s %s\n", describe(c, r).c_str(), r.v.cls.c_str(), r.v.msg.c_str());
		fflush(stdout); _exit(r.v.set ? 1 : 0);
	}
	if (mode != "run") { fprintf(stderr, "usage: sim run|replay|hashes|one|list\n"); return 2; }

	u64 runs = num("runs", 1000), jobs = num("jobs", 8), secs = num("secs", 60);
	std::string outf = opt["out"], rdir = opt["replays"].empty() ? "." : opt["replays"], tmp = opt["tmp"].empty() ? "/tmp" : opt["tmp"];
	if (jobs > 60) jobs = 60;
	// Findings listed as not repaired, as scenario:class; meeting one is counted and exploration goes on.
	std::string known = "," + opt["known"] + ",";
	double t0 = wall();
	Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (sh) Shared();
	sh->min_viol = ~0ull; sh->nondet = 0;
	for (auto& c : sh->cur) c = ~0ull;
	std::vector<pid_t> pids(jobs, 0);
	std::vector<bool> alive(jobs, false);
	char base[64]; snprintf(base, sizeof base, "/sim.%d.", (int)getpid());
	for (u64 w = 0; w < jobs; w++) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			Stats st; std::vector<u64> sched, hist; std::vector<std::string> samples;
			for (u64 i = w; i < runs; i += jobs) {
				if (i > sh->min_viol.load() || wall() - t0 > secs || sh->nondets.load() > 200) break;
				sh->cur[w] = i; sh->beat[w]++;
				Case c = make_case(scs, seed, i);
				Result r = run(*c.sc, c.p, &c.s, c.dseed, nullptr, false);
				st.runs++; st.steps += r.steps; st.switches += r.switches; st.sim_us += r.sim_ns / 1000;
				u64 f = 0; for (int k = 0; k < NF; k++) { st.faults[k] += r.faults[k]; if (k != F_TIMER && k != F_SIGPICK) f += r.faults[k]; }
				if (!f) st.faultfree++;
				if (r.threads > 1) { st.multi++; if (r.switches > r.threads) st.preempted++; }
				if (r.threads > st.maxthreads) st.maxthreads = r.threads;
				st.per_sc[c.sc->name]++;
				// Non-trivial: a fault was injected, a thread was preempted, or a sequential program of some length ran.
				size_t ops = 0; for (auto& t : c.p.thr) ops += t.size();
				if (f || r.faults[F_TIMER] || (r.threads > 1 ? r.switches > r.threads : ops >= 5)) sched.push_back(r.sched_hash);
				hist.push_back(r.hash);
				if (samples.size() < 2) samples.push_back(describe(c, r));
				if (r.v.set && known.find("," + std::string(c.sc->name) + ":" + r.v.cls + ",") != std::string::npos) { sh->known++; continue; }
				if (r.v.set) {
					// One that cannot be repeated is no evidence: go on looking for one that can.
					Out again = in_child([&] { return run(*c.sc, c.p, nullptr, 0, &r.dec, false); }, false);
					if (!again.ok || !again.set || again.cls != r.v.cls) { sh->nondet = 3; sh->nondet_idx = i; sh->nondets++; continue; }
					u64 m = sh->min_viol.load();
					while (i < m && !sh->min_viol.compare_exchange_weak(m, i)) {}
					break;
				}
				if (st.runs <= 12 || st.runs % 97 == 0) {
					// Same seed again, and again from the recorded decisions: must be the same execution.
					Result a = run(*c.sc, c.p, &c.s, c.dseed, nullptr, false);
					Result b = run(*c.sc, c.p, nullptr, 0, &r.dec, false);
					st.rechecked++;
					if (a.hash != r.hash || b.hash != r.hash) { sh->nondet = a.hash != r.hash ? 1 : 2; sh->nondet_idx = i; sh->nondets++; }
				}
			}
			sh->cur[w] = ~0ull;
			std::ofstream o(tmp + base + std::to_string(w));
			o << st.runs << " " << st.steps << " " << st.switches << " " << st.sim_us << " " << st.rechecked << " " << st.faultfree << " " << st.maxthreads << " " << st.multi << " " << st.preempted << "\n";
			for (int k = 0; k < NF; k++) { o << st.faults[k] << " "; }
			o << "\n";
			o << st.per_sc.size() << "\n"; for (auto& p : st.per_sc) o << p.first << " " << p.second << "\n";
			o << probes().size() << "\n"; for (auto& p : probes()) o << p.second << " " << p.first << "\n";
			o << samples.size() << "\n"; for (auto& s : samples) o << s << "\n";
			auto uniq = [](std::vector<u64>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
			uniq(sched); uniq(hist);
			o << sched.size() << " " << hist.size() << "\n";
			o.write((const char*)sched.data(), sched.size() * 8); o.write((const char*)hist.data(), hist.size() * 8);
			o.close();
			_exit(0);
		}
		pids[w] = pid; alive[w] = true;
	}
	std::vector<u64> beat(jobs, 0); std::vector<double> since(jobs, wall());
	int left = (int)jobs; bool broken = false;
	while (left > 0) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (u64 w = 0; w < jobs; w++) if (pids[w] == p && alive[w]) {
				alive[w] = false; left--;
				if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "sim: worker ended abnormally (status %x) in run %llu\n", st, (unsigned long long)sh->cur[w].load()); broken = true; }
			}
			continue;
		}
		for (u64 w = 0; w < jobs; w++) if (alive[w]) {
			u64 b = sh->beat[w].load();
			if (b != beat[w]) { beat[w] = b; since[w] = wall(); }
			else if (wall() - since[w] > 30) { kill(pids[w], SIGALRM); since[w] = wall(); }
		}
		usleep(2000);
	}
	double t_explore = wall() - t0;
	Stats st; std::vector<u64> sched, hist; std::vector<std::string> samples; std::map<std::string, u64> pr;
	for (u64 w = 0; w < jobs; w++) {
		std::string fn = tmp + base + std::to_string(w);
		{
			std::ifstream i(fn);
			u64 a[9] = {0}; for (auto& x : a) i >> x;
			st.runs += a[0]; st.steps += a[1]; st.switches += a[2]; st.sim_us += a[3]; st.rechecked += a[4]; st.faultfree += a[5]; st.maxthreads = std::max(st.maxthreads, a[6]); st.multi += a[7]; st.preempted += a[8];
			for (int k = 0; k < NF; k++) { u64 x = 0; i >> x; st.faults[k] += x; }
			size_t n = 0; i >> n; for (size_t k = 0; k < n; k++) { std::string s; u64 v; i >> s >> v; st.per_sc[s] += v; }
			n = 0; i >> n; std::string line; std::getline(i, line);
			for (size_t k = 0; k < n; k++) { std::getline(i, line); size_t sp = line.find(' '); if (sp != std::string::npos) pr[line.substr(sp + 1)] += strtoull(line.c_str(), nullptr, 10); }
			n = 0; i >> n; std::getline(i, line); for (size_t k = 0; k < n; k++) { std::getline(i, line); if (samples.size() < 4) samples.push_back(line); }
			size_t na = 0, nb = 0; i >> na >> nb; i.get();
			if (i) {
				size_t a0 = sched.size(), b0 = hist.size();
				sched.resize(a0 + na); i.read((char*)(sched.data() + a0), na * 8);
				hist.resize(b0 + nb); i.read((char*)(hist.data() + b0), nb * 8);
			}
		}
		unlink(fn.c_str());
	}
	auto uniq = [](std::vector<u64>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
	uniq(sched); uniq(hist);
	int rc = 0; std::string replay, cls, msg, err; u64 evals = 0;
	if (sh->min_viol.load() != ~0ull) {
		u64 idx = sh->min_viol.load();
		Case c = make_case(scs, seed, idx);
		Out o = in_child([&] { return run(*c.sc, c.p, &c.s, c.dseed, nullptr, false); }, true);
		if (!o.ok || !o.set) { rc = 2; err = "a violation was not repeatable from its seed"; }
		else {
			std::vector<Decision> dec = o.dec; Prog p = c.p;
			Out o1 = eval(*c.sc, p, dec);
			if (!o1.ok || !o1.set || o1.cls != o.cls) { rc = 2; err = "a violation was not repeatable from its recorded decisions (" + o.cls + " vs " + (o1.ok ? (o1.set ? o1.cls : std::string("none")) : std::string("error")) + ")"; }
			else {
				shrink(*c.sc, p, dec, o.cls, (double)num("shrink", 40), evals);
				Out a = eval(*c.sc, p, dec), b = eval(*c.sc, p, dec);
				auto good = [&] { return a.ok && b.ok && a.set && b.set && a.cls == o.cls && b.cls == o.cls; };
				// Code under test that strays outside the simulated memory may make details vary: fall back to the whole
				// execution, and then to one that always ends in the same violation (recorded without its hash).
				if (!good() || a.hash != b.hash) { p = c.p; dec = o.dec; a = eval(*c.sc, p, dec); b = eval(*c.sc, p, dec); if (a.hash != b.hash) a.hash = 0; }
				if (!good()) { rc = 2; err = "the minimised execution is not repeatable"; }
				else {
					Result r; r.v.cls = a.cls; r.v.msg = a.msg; r.hash = a.hash;
					mkdir(rdir.c_str(), 0755);
					replay = rdir + "/" + prop + "-s" + std::to_string(seed) + "-r" + std::to_string(idx) + ".replay";
					std::ofstream f(replay); f << dump(*c.sc, p, dec, r, seed, idx); f.close();
					cls = a.cls; msg = a.msg; rc = 1;
				}
			}
		}
	}
	else if (broken) { rc = 2; err = "a worker process ended abnormally"; }
	else if (sh->nondet.load()) { rc = 2; const char* how[] = { "", "same seed twice", "recorded decisions", "a violation that happened once" }; char b[160]; snprintf(b, sizeof b, "run %llu is not repeatable (%s)", (unsigned long long)sh->nondet_idx.load(), how[sh->nondet.load()]); err = b; }
	std::ostringstream j;
	j << "{\"rc\":" << rc << ",\"error\":" << jstr(err) << ",\"class\":" << jstr(cls) << ",\"message\":" << jstr(msg) << ",\"replay\":" << jstr(replay) << ",\"shrink_evals\":" << evals
	  << ",\"runs\":" << st.runs << ",\"steps\":" << st.steps << ",\"switches\":" << st.switches << ",\"sim_us\":" << st.sim_us << ",\"rechecked\":" << st.rechecked
	  << ",\"fault_free_runs\":" << st.faultfree << ",\"max_threads\":" << st.maxthreads << ",\"multi_thread_runs\":" << st.multi << ",\"preempted_runs\":" << st.preempted
	  << ",\"distinct_nontrivial\":" << sched.size() << ",\"distinct_executions\":" << hist.size() << ",\"explore_s\":" << t_explore << ",\"jobs\":" << jobs << ",\"known\":" << sh->known.load();
	j << ",\"faults\":{"; bool first = true; for (int k = 0; k < NF; k++) if (st.faults[k]) { if (!first) j << ","; first = false; j << jstr(fault_name[k]) << ":" << st.faults[k]; } j << "}";
	j << ",\"scenarios\":{"; first = true; for (auto& p : st.per_sc) { if (!first) j << ","; first = false; j << jstr(p.first) << ":" << p.second; } j << "}";
	j << ",\"probes\":{"; first = true; for (auto& p : pr) { if (!first) j << ","; first = false; j << jstr(p.first) << ":" << p.second; } j << "}";
	j << ",\"samples\":["; first = true; for (auto& s : samples) { if (!first) j << ","; first = false; j << jstr(s); } j << "]}\n";
	if (!outf.empty()) { std::ofstream f(outf); f << j.str(); } else printf("%s", j.str().c_str());
	fflush(stdout);
	_exit(rc);
}
