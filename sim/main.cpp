// Runner: one seed is one repeatable execution, each in a process of its own.
#include "core.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {

struct Shared { std::size_t used; char text[4u << 20]; };
Shared *g_sh;
int g_cpu_s = 25;

void put(const std::string &s)
{
	if (g_sh->used + s.size() + 1 > sizeof g_sh->text) return;
	std::memcpy(g_sh->text + g_sh->used, s.data(), s.size());
	g_sh->used += s.size();
}

void limits()
{
	struct rlimit r; r.rlim_cur = r.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &r);
	r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
	struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu_s;
	setitimer(ITIMER_PROF, &it, 0);
	alarm(120);                              // a deadlock burns no CPU time
	int fd = open("/dev/null", O_WRONLY);
	if (fd >= 0) dup2(fd, 2);
}

Plan make_plan(const std::string &prop, u64 seed, u64 idx)
{
	const Property *p = find_property(prop);
	Plan pl; pl.prop = prop; pl.seed = seed; pl.idx = idx;
	Rng r(mix(mix(seed, hash_str(prop)), idx));
	p->gen(r, pl);
	return pl;
}

void report(const Outcome &o)
{
	for (auto &v : o.viol) put("V " + v.first + "\t" + v.second + "\n");
	put(fmt("H %llx %llx %d\n", (unsigned long long)o.hash.h, (unsigned long long)o.shape.h, int(o.nontrivial)));
	put(fmt("T %.17g %ld\n", o.sim_us, o.callbacks));
	for (auto &kv : o.fired) put(fmt("X %s %ld\n", kv.first.c_str(), kv.second));
	for (auto &kv : o.probes) put(fmt("R %s %ld\n", kv.first.c_str(), kv.second));
	put("E\n");
}

// Generates a plan in a process of its own, so that what generation runs
// leaves nothing behind. Returns false if that process died.
bool generate(const std::string &prop, u64 seed, u64 idx, std::string &text)
{
	g_sh->used = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		limits();
		Plan pl = make_plan(prop, seed, idx);
		put(pl.text());
		_exit(0);
	}
	if (pid < 0) { perror("fork"); exit(2); }
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) { }
	text.assign(g_sh->text, g_sh->used);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// Runs one plan (generated first if none is given) in a child; returns the text it left.
std::string isolated(const std::string &prop, u64 seed, u64 idx, const Plan *given, std::string &plan_text, std::string &death)
{
	Plan plan;
	plan_text.clear(); death.clear();
	if (given) plan = *given;
	if (!given || given->has("regen")) {
		std::string p = given ? given->prop : prop; u64 s = given ? given->seed : seed, i = given ? given->idx : idx;
		std::string text;
		if (!generate(p, s, i, text) || !Plan::parse(text, plan)) {
			plan = Plan(); plan.prop = p; plan.seed = s; plan.idx = i; plan.set("regen", 1L);
			plan_text = plan.text(); death = "died-in-fault-free-run";
			return "";
		}
	}
	plan_text = plan.text();
	g_sh->used = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		limits();
		if (plan.num("fun_budget") > 1e7) {     // the few plans that are allowed very many evaluations
			struct itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = 5*g_cpu_s;
			setitimer(ITIMER_PROF, &it, 0); alarm(500);
		}
		Outcome o;
		try { find_property(plan.prop)->exec(plan, o); }
		catch (std::exception &e) { o.fail("harness-exception", e.what()); put("HARNESS\n"); }
		catch (...) { o.fail("harness-exception", "?"); put("HARNESS\n"); }
		report(o);
		_exit(0);
	}
	if (pid < 0) { perror("fork"); exit(2); }
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) { }
	std::string out(g_sh->text, g_sh->used);
	if (WIFSIGNALED(st)) {
		int s = WTERMSIG(st);
		death = s == SIGPROF || s == SIGALRM ? "hang" : fmt("crash-signal-%d", s);
	} else if (WEXITSTATUS(st) != 0) death = fmt("exit-%d", WEXITSTATUS(st));
	return out;
}

std::string esc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32) r += fmt("\\u%04x", c);
		else r += char(c);
	}
	return r;
}

std::string slurp(const char *path)
{
	std::string s; FILE *f = fopen(path, "r");
	if (!f) return s;
	char b[65536]; std::size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}

} // namespace

int main(int argc, char **argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) {
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_NOPERS", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	std::string cmd = argc > 1 ? argv[1] : "";
	g_sh = static_cast<Shared *>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
	if (getenv("SIM_CPU_S")) g_cpu_s = atoi(getenv("SIM_CPU_S"));

	if (cmd == "gen" && argc == 5) {
		std::string text;
		if (!find_property(argv[2])) return 2;
		bool ok = generate(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), text);
		fputs(text.c_str(), stdout);
		return ok ? 0 : 3;
	}
	if (cmd == "exec" && argc == 3) {
		Plan p;
		if (!Plan::parse(slurp(argv[2]), p) || !find_property(p.prop)) { fprintf(stderr, "bad plan %s\n", argv[2]); return 2; }
		std::string pt, death;
		std::string out = isolated("", 0, 0, &p, pt, death);
		fputs(out.c_str(), stdout);
		if (!death.empty()) printf("V %s\tthe run died: %s\n", death.c_str(), death.c_str());
		return 0;
	}
	if (cmd == "batch" && argc >= 9) {
		std::string prop = argv[2], outdir = argv[8];
		u64 seed = strtoull(argv[3], 0, 10);
		long start = atol(argv[4]), stride = atol(argv[5]), count = atol(argv[6]);
		double cap = atof(argv[7]);
		FILE *hf = argc > 9 ? fopen(argv[9], "w") : 0;
		if (!find_property(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
		std::int64_t t0 = real_us();
		long runs = 0, nontriv = 0, nviol = 0; double sim_us = 0; long cbs = 0;
		std::map<std::string, long> fired, probes; std::set<u64> shapes, hashes;
		std::vector<std::string> samples, viols;
		// classes of listed findings: a few are kept, and they do not end the batch
		std::string known = getenv("SIM_KNOWN") ? getenv("SIM_KNOWN") : ""; known = "," + known + ",";
		long nknown = 0;
		for (long i = start; i < count && nviol < 3; i += stride) {
			if ((real_us() - t0)*1e-6 > cap) break;
			std::string pt, death;
			std::string out = isolated(prop, seed, u64(i), 0, pt, death);
			++runs;
			std::vector<std::pair<std::string, std::string> > v;
			bool ended = false; u64 h = 0, sh = 0; int nt = 0;
			std::size_t pos = 0;
			while (pos < out.size()) {
				std::size_t e = out.find('\n', pos); if (e == std::string::npos) e = out.size();
				std::string l = out.substr(pos, e - pos); pos = e + 1;
				if (l.compare(0, 2, "V ") == 0) {
					std::size_t q = l.find('\t');
					v.push_back(std::make_pair(l.substr(2, q - 2), q == std::string::npos ? "" : l.substr(q + 1)));
				} else if (l.compare(0, 2, "H ") == 0) {
					unsigned long long a, b; sscanf(l.c_str(), "H %llx %llx %d", &a, &b, &nt); h = a; sh = b;
				} else if (l.compare(0, 2, "T ") == 0) {
					double a; long b; sscanf(l.c_str(), "T %lf %ld", &a, &b); sim_us += a; cbs += b;
				} else if (l.compare(0, 2, "X ") == 0 || l.compare(0, 2, "R ") == 0) {
					char k[128]; long n; sscanf(l.c_str() + 2, "%127s %ld", k, &n);
					(l[0] == 'X' ? fired : probes)[k] += n;
				} else if (l == "E") ended = true;
			}
			if (!death.empty()) v.insert(v.begin(), std::make_pair(death, "the run died: " + death));
			else if (!ended) { fprintf(stderr, "run %ld of %s left no result\n", i, prop.c_str()); return 2; }
			if (nt) { ++nontriv; hashes.insert(h); }
			shapes.insert(sh);
			if (hf) fprintf(hf, "%ld %llx %llx\n", i, (unsigned long long)h, (unsigned long long)sh);
			if (nt && samples.size() < 2 && pt.size() < 3000) samples.push_back(pt);
			bool only_known = !v.empty();
			for (auto &x : v) if (known.find("," + x.first + ",") == std::string::npos) only_known = false;
			if (only_known && ++nknown > 2) continue;
			if (!v.empty()) {
				if (!only_known) ++nviol;
				std::string path = fmt("%s/v_%s_%ld.plan", outdir.c_str(), prop.c_str(), i);
				FILE *f = fopen(path.c_str(), "w");
				if (!f) { perror(path.c_str()); return 2; }
				fputs(pt.c_str(), f); fclose(f);
				viols.push_back("{\"idx\":" + fmt("%ld", i) + ",\"cls\":\"" + esc(v[0].first) + "\",\"detail\":\"" + esc(v[0].second) + "\",\"plan\":\"" + esc(path) + "\"}");
			}
		}
		if (hf) fclose(hf);
		std::string j = fmt("{\"runs\":%ld,\"nontrivial\":%ld,\"wall\":%.3f,\"sim_s\":%.6f,\"callbacks\":%ld", runs, nontriv, (real_us() - t0)*1e-6, sim_us*1e-6, cbs);
		j += ",\"fired\":{"; bool first = true;
		for (auto &kv : fired) { j += fmt("%s\"%s\":%ld", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
		j += "},\"probes\":{"; first = true;
		for (auto &kv : probes) { j += fmt("%s\"%s\":%ld", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
		j += "},\"samples\":["; first = true;
		for (auto &s : samples) { j += std::string(first ? "" : ",") + "\"" + esc(s) + "\""; first = false; }
		j += "],\"viol\":["; first = true;
		for (auto &s : viols) { j += std::string(first ? "" : ",") + s; first = false; }
		j += "],\"hashes\":["; first = true;
		for (u64 x : hashes) { j += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)x); first = false; }
		j += "],\"shapes\":["; first = true;
		for (u64 x : shapes) { j += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)x); first = false; }
		j += "]}";
		puts(j.c_str());
		return 0;
	}
	fprintf(stderr, "usage: sim gen PROP SEED IDX | exec PLAN | batch PROP SEED START STRIDE COUNT TIMECAP OUTDIR [HASHFILE]\n");
	return 2;
}
