// Driver main: runs a strided slice of the case space of one property and reports as JSON.
#include <csignal>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
static volatile long* g_progress = nullptr;
static void onProf(int) { const char m[] = "MONITOR-HANG: case exceeded its CPU budget\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(77); }
static std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) o += H::strf("\\u%04x", ch);
		else o += ch;
	}
	return o;
}
int main(int argc, char** argv)
{
	long from = 0, to = 0, stride = 1, seed = 1, only = -1, cpu = 40, maxf = 3;
	std::string out, prog;
	std::string onlyScen, probe;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i];
		if (a == "--from") from = atol(argv[i + 1]);
		else if (a == "--to") to = atol(argv[i + 1]);
		else if (a == "--stride") stride = atol(argv[i + 1]);
		else if (a == "--seed") seed = atol(argv[i + 1]);
		else if (a == "--case") only = atol(argv[i + 1]);
		else if (a == "--out") out = argv[i + 1];
		else if (a == "--progress") prog = argv[i + 1];
		else if (a == "--cpu") cpu = atol(argv[i + 1]);
		else if (a == "--max") maxf = atol(argv[i + 1]);
		else if (a == "--scenario") onlyScen = argv[i + 1];
		else if (a == "--probe") probe = argv[i + 1];
	}
	if (!prog.empty())
	{
		int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd >= 0 && ftruncate(fd, sizeof(long)) == 0)
			g_progress = (volatile long*)mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	signal(SIGPROF, onProf);
	if (!probe.empty())
	{
		// deterministic reproduction of a recorded finding: exit 0 when the behaviour is right now
		for (auto& s : H::probes())
			if (probe == s.name)
			{
				std::map<std::string, long> o;
				std::map<std::string, std::map<std::string, long>> b;
				std::vector<H::Finding> f;
				H::Ctx ctx(1, 0);
				ctx.scenario = s.name; ctx.obs = &o; ctx.buckets = &b; ctx.findings = &f;
				struct itimerval tv = { { 0, 0 }, { cpu, 0 } };
				setitimer(ITIMER_PROF, &tv, nullptr);
				try { s.fn(ctx); }
				catch (H::CaseAbort&) {}
				catch (std::exception& e) { fprintf(stderr, "threw %s\n", e.what()); return 3; }
				for (auto& x : f) fprintf(stderr, "%s: %s\n", x.monitor.c_str(), x.message.c_str());
				return f.empty() ? 0 : 3;
			}
		return 0;
	}
	std::vector<H::Scenario> wheel;
	{
		auto sc = H::scenarios();
		std::sort(sc.begin(), sc.end(), [](const H::Scenario& a, const H::Scenario& b) { return strcmp(a.name, b.name) < 0; });
		int mx = 0;
		for (auto& s : sc) mx = std::max(mx, s.weight);
		for (int k = 0; k < mx; k++) for (auto& s : sc) if (k < s.weight) wheel.push_back(s);
	}
	std::map<std::string, long> obs;
	std::map<std::string, std::map<std::string, long>> buckets;
	std::map<std::string, long> scen;
	std::vector<H::Finding> findings;
	std::set<uint64_t> classes;
	std::vector<std::string> samples;
	long ran = 0, nontriv = 0;
	if (only >= 0) { from = only; to = only + 1; stride = 1; }
	for (long i = from; i < to; i += stride)
	{
		const H::Scenario& s = wheel[i % wheel.size()];
		if (!onlyScen.empty() && onlyScen != s.name) continue;
		if (g_progress) *g_progress = i;
		uint64_t hs = 1469598103934665603ULL;
		auto mix = [&](uint64_t v) { for (int b = 0; b < 8; b++) { hs ^= (v >> (8 * b)) & 255; hs *= 1099511628211ULL; } };
		mix((uint64_t)seed); mix((uint64_t)i);
		for (const char* q = s.name; *q; q++) mix((uint64_t)*q);
		H::Ctx ctx(hs, i);
		ctx.scenario = s.name;
		ctx.obs = &obs; ctx.buckets = &buckets; ctx.findings = &findings;
		ctx.verbose = only >= 0;
		struct itimerval tv = { { 0, 0 }, { cpu, 0 } };
		setitimer(ITIMER_PROF, &tv, nullptr);
		try { s.fn(ctx); }
		catch (H::CaseAbort&) {}
		catch (std::exception& e)
		{
			findings.push_back({ s.name, "no-exception-on-valid-input", std::string("library threw: ") + e.what(), ctx.dumpText, i });
		}
		ran++;
		scen[s.name]++;
		if (ctx.nontrivial) { nontriv++; uint64_t ch = 1469598103934665603ULL; std::string ck = ctx.scenario + "|" + ctx.classKey; for (unsigned char q : ck) { ch ^= q; ch *= 1099511628211ULL; } if (classes.insert(ch).second && samples.size() < 4) { std::string sd = H::strf("case %ld: ", i) + ck + " | " + ctx.dumpText; if (sd.size() > 900) sd = sd.substr(0, 900) + "..."; samples.push_back(sd); } }
		if (only >= 0) fprintf(stderr, "case %ld scenario %s\n%s", i, s.name, ctx.dumpText.c_str());
		if ((long)findings.size() >= maxf) break;
	}
	struct itimerval z = { { 0, 0 }, { 0, 0 } };
	setitimer(ITIMER_PROF, &z, nullptr);
	std::string j = H::strf("{\"ran\":%ld,\"nontrivial\":%ld,\"classes\":[", ran, nontriv);
	{ bool f = true; for (auto c : classes) { j += (f ? "" : ","); j += "\"" + H::strf("%llx", (unsigned long long)c) + "\""; f = false; } }
	j += "],\"samples\":[";
	{ bool f = true; for (auto& c : samples) { j += (f ? "\"" : ",\"") + jesc(c) + "\""; f = false; } }
	j += "],\"observations\":{";
	{ bool f = true; for (auto& o : obs) { j += (f ? "\"" : ",\"") + jesc(o.first) + "\":" + std::to_string(o.second); f = false; } }
	j += "},\"scenarios\":{";
	{ bool f = true; for (auto& o : scen) { j += (f ? "\"" : ",\"") + jesc(o.first) + "\":" + std::to_string(o.second); f = false; } }
	j += "},\"buckets\":{";
	{
		bool f = true;
		for (auto& d : buckets)
		{
			j += (f ? "\"" : ",\"") + jesc(d.first) + "\":{"; f = false;
			bool g = true;
			for (auto& o : d.second) { j += (g ? "\"" : ",\"") + jesc(o.first) + "\":" + std::to_string(o.second); g = false; }
			j += "}";
		}
	}
	j += "},\"findings\":[";
	{
		bool f = true;
		for (auto& o : findings)
		{
			j += (f ? "{" : ",{"); f = false;
			j += "\"case\":" + std::to_string(o.index) + ",\"scenario\":\"" + jesc(o.scenario) + "\",\"monitor\":\"" + jesc(o.monitor) + "\",\"message\":\"" + jesc(o.message) + "\",\"dump\":\"" + jesc(o.dump) + "\"}";
		}
	}
	j += "]}\n";
	if (!out.empty())
	{
		FILE* fp = fopen(out.c_str(), "w");
		fputs(j.c_str(), fp);
		fclose(fp);
	}
	for (auto& o : findings) fprintf(stderr, "FINDING case %ld [%s] %s: %s\n", o.index, o.scenario.c_str(), o.monitor.c_str(), o.message.c_str());
	return findings.empty() ? 0 : 3;
}
