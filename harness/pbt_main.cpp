#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" void __gcov_dump(void) __attribute__((weak));

namespace pbt
{
std::vector<Facet> &facets()
{
	static std::vector<Facet> f;
	return f;
}
} // namespace pbt
using namespace pbt;
using Clock = std::chrono::steady_clock;
static double now()
{
	return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

struct Outcome
{
	// 'o' ok, 'd' discarded, 'f' failed (property violated), 'c' crashed, 'h' hung
	char status = 'o';
	std::string msg;
	std::vector<uint64_t> used;
	std::set<std::string> labels;
	std::vector<std::string> notes;
	bool nontrivial = false;
};

static Outcome run_case(const Facet &f, Case &c)
{
	Outcome o;
	try
	{
		if (case_init) case_init();
		f.fn(c);
	}
	catch (Discard &)
	{
		o.status = 'd';
	}
	catch (Failure &e)
	{
		o.status = 'f';
		o.msg = e.msg;
	}
	catch (std::exception &e)
	{
		o.status = 'f';
		std::string w = e.what();
		if (w.size() > 1500) w.resize(1500);
		o.msg = "unexpected exception: " + w;
	}
	catch (...)
	{
		o.status = 'f';
		o.msg = "unexpected exception of unknown type";
	}
	o.used = c.used;
	o.labels = c.labels;
	o.notes = c.notes;
	o.nontrivial = c.is_nontrivial;
	return o;
}

static std::string esc(const std::string &s)
{
	std::string o;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\')
			o += '\\', o += ch;
		else if (ch == '\n')
			o += "\\n";
		else if (ch < 32)
			o += ' ';
		else
			o += ch;
	}
	return o;
}

static void put(std::string &b, const std::string &s)
{
	uint64_t n = s.size();
	b.append((char *)&n, 8);
	b += s;
}
static std::string get(const std::string &b, size_t &p)
{
	if (p + 8 > b.size()) throw std::runtime_error("short record");
	uint64_t n;
	memcpy(&n, b.data() + p, 8);
	p += 8;
	if (p + n > b.size()) throw std::runtime_error("short record");
	std::string s = b.substr(p, n);
	p += n;
	return s;
}
static std::string pack(const Outcome &o)
{
	std::string b;
	put(b, std::string(1, o.status));
	put(b, o.msg);
	put(b, std::string((const char *)o.used.data(), o.used.size() * 8));
	put(b, std::string(1, o.nontrivial ? '1' : '0'));
	std::string l;
	for (auto &x : o.labels) put(l, x);
	put(b, l);
	std::string n;
	for (auto &x : o.notes) put(n, x);
	put(b, n);
	return b;
}
static Outcome unpack(const std::string &b)
{
	Outcome o;
	size_t p = 0;
	o.status = get(b, p)[0];
	o.msg = get(b, p);
	auto u = get(b, p);
	o.used.resize(u.size() / 8);
	memcpy(o.used.data(), u.data(), u.size());
	o.nontrivial = get(b, p) == "1";
	auto l = get(b, p);
	for (size_t q = 0; q < l.size();) o.labels.insert(get(l, q));
	auto n = get(b, p);
	for (size_t q = 0; q < n.size();) o.notes.push_back(get(n, q));
	return o;
}

static void limits()
{
#if !defined(__SANITIZE_ADDRESS__)
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 8ull << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
	struct rlimit rc;
	rc.rlim_cur = rc.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rc);
}

// run one case in a forked child, with a time limit.
static Outcome run_isolated(const Facet &f, const std::vector<uint64_t> &seq, double limit, bool notes)
{
	int fd[2];
	if (pipe(fd)) abort();
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0)
	{
		close(fd[0]);
		limits();
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1);
		if (!getenv("PBT_STDERR")) dup2(dn, 2);
		if (worker_init) worker_init();
		Case c(seq);
		c.want_notes = notes;
		auto o = run_case(f, c);
		auto b = pack(o);
		size_t p = 0;
		while (p < b.size())
		{
			auto w = write(fd[1], b.data() + p, b.size() - p);
			if (w <= 0) break;
			p += w;
		}
		_exit(0);
	}
	close(fd[1]);
	std::string b;
	double end = now() + limit;
	bool hung = false;
	char buf[65536];
	while (true)
	{
		double left = end - now();
		if (left <= 0)
		{
			hung = true;
			break;
		}
		pollfd pf{fd[0], POLLIN, 0};
		int r = poll(&pf, 1, int(left * 1000) + 1);
		if (r < 0 && errno == EINTR) continue;
		if (r == 0) continue;
		auto n = read(fd[0], buf, sizeof buf);
		if (n <= 0) break;
		b.append(buf, n);
	}
	close(fd[0]);
	if (hung) kill(pid, SIGKILL);
	int st = 0;
	waitpid(pid, &st, 0);
	if (hung)
	{
		Outcome o;
		o.status = 'h';
		o.msg = cat("no answer within ", limit, " s");
		o.used = seq;
		return o;
	}
	try
	{
		return unpack(b);
	}
	catch (std::exception &)
	{
	}
	Outcome o;
	o.status = 'c';
	o.msg = WIFSIGNALED(st) ? cat("crashed: signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")")
	                        : cat("process ended with code ", WEXITSTATUS(st));
	o.used = seq;
	return o;
}

static bool bad(const Outcome &o) { return o.status == 'f' || o.status == 'c' || o.status == 'h'; }

static Outcome shrink(const Facet &f, Outcome best, double budget, int attempts)
{
	double end = now() + budget;
	double lim = best.status == 'h' ? 20 : 30;
	auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	};
	auto tryit = [&](std::vector<uint64_t> s) {
		if (attempts-- <= 0 || now() > end) return false;
		auto o = run_isolated(f, s, lim, false);
		if (!bad(o) || (o.status == 'h' && best.status != 'h')) return false;
		if (o.status == 'c' || o.status == 'h') o.used = s;
		if (!better(o.used, best.used)) return false;
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && attempts > 0 && now() < end)
	{
		progress = false;
		for (size_t k : {64, 16, 8, 4, 2, 1})
			for (size_t i = 0; i + k <= best.used.size() && attempts > 0 && now() < end;)
			{
				auto s = best.used;
				s.erase(s.begin() + i, s.begin() + i + k);
				if (tryit(s))
					progress = true;
				else
					i += k;
			}
		for (size_t k : {16, 4, 1})
			for (size_t i = 0; i + k <= best.used.size() && attempts > 0 && now() < end; i += k)
			{
				auto s = best.used;
				bool nz = false;
				for (size_t j = i; j < i + k; ++j) nz |= s[j] != 0, s[j] = 0;
				if (nz && tryit(s)) progress = true;
			}
		for (size_t i = 0; i < best.used.size() && attempts > 0 && now() < end; ++i)
		{
			while (i < best.used.size() && best.used[i] > 1 && attempts > 0 && now() < end)
			{
				auto s = best.used;
				s[i] /= 2;
				if (tryit(s))
				{
					progress = true;
					continue;
				}
				s = best.used;
				s[i] -= 1;
				if (tryit(s))
				{
					progress = true;
					continue;
				}
				break;
			}
		}
	}
	return best;
}

static void write_replay(const std::string &path, const std::string &prop, const std::string &facet, const Outcome &o,
                         uint64_t seed, uint64_t idx)
{
	std::ofstream out(path);
	out << "property " << prop << "\nfacet " << facet << "\nseed " << seed << "\ncase " << idx << "\nkind "
	    << (o.status == 'f' ? "violated" : o.status == 'c' ? "crash" : "hang") << "\nchoices";
	for (auto v : o.used) out << ' ' << v;
	out << "\nmessage " << esc(o.msg) << "\n";
	for (auto &n : o.notes) out << "note " << n << "\n";
}

// A case that only fails after others ran in the same process (corrupted memory, leaked state) is reproduced by
// running the cases that preceded it.
struct Slot
{
	volatile uint64_t idx;
	volatile double start;
	volatile int facet;
	volatile uint64_t count;      // cases started by this worker
	volatile uint64_t hist[1024]; // the most recent of them
};
struct Step
{
	int facet;
	uint64_t seed;
};
static Outcome run_batch(const std::vector<Step> &b, double limit)
{
	Facet f{"batch", 1, [&](Case &) {
		        auto &F = facets();
		        for (auto &s : b)
		        {
			        Case c(s.seed);
			        auto o = run_case(F[s.facet], c);
			        if (o.status == 'f') throw Failure{F[s.facet].name + ": " + o.msg};
		        }
	        }, ""};
	return run_isolated(f, {}, limit, false);
}
static bool batch_fails(const std::vector<Step> &b, double limit)
{
	for (int k = 0; k < 2; ++k)
	{
		auto o = run_batch(b, limit);
		if (o.status != 'f' && o.status != 'c') return false;
	}
	return true;
}

int main(int argc, char **argv)
{
	std::string prop = "X", tier = "quick", out, replay, outdir = ".", only;
	uint64_t seed = 1;
	long cases = 0;
	double tlimit = 0, hang = 90, shrink_s = 60;
	int jobs = 8;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto v = [&]() { return std::string(argv[++i]); };
		if (a == "--prop") prop = v();
		else if (a == "--tier") tier = v();
		else if (a == "--out") out = v();
		else if (a == "--replay") replay = v();
		else if (a == "--replay-dir") outdir = v();
		else if (a == "--seed") seed = std::stoull(v());
		else if (a == "--cases") cases = std::stol(v());
		else if (a == "--time") tlimit = std::stod(v());
		else if (a == "--jobs") jobs = std::stoi(v());
		else if (a == "--facet") only = v();
		else if (a == "--hang") hang = std::stod(v());
		else if (a == "--shrink") shrink_s = std::stod(v());
		else
		{
			fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 2;
		}
	}
	auto &F = facets();
	if (!replay.empty())
	{
		std::ifstream in(replay);
		std::string line, fname;
		std::vector<uint64_t> seq;
		std::vector<Step> batch;
		bool got = false;
		while (std::getline(in, line))
		{
			std::istringstream s(line);
			std::string k;
			s >> k;
			if (k == "facet") s >> fname;
			if (k == "step")
			{
				std::string n;
				uint64_t x;
				s >> n >> x;
				for (size_t i = 0; i < F.size(); ++i)
					if (F[i].name == n) batch.push_back({(int)i, x});
			}
			if (k == "choices")
			{
				uint64_t x;
				while (s >> x) seq.push_back(x);
				got = true;
			}
		}
		if (!batch.empty())
		{
			auto o = run_batch(batch, 10 * hang);
			printf("replay of %s, %zu cases in one process: %s %s\n", prop.c_str(), batch.size(), bad(o) ? "FAILS" : "passes", o.msg.c_str());
			return bad(o) ? 1 : 0;
		}
		for (auto &f : F)
			if (f.name == fname && got)
			{
				auto o = run_isolated(f, seq, hang, true);
				for (auto &n : o.notes) printf("  %s\n", n.c_str());
				printf("replay of %s/%s: %s %s\n", prop.c_str(), fname.c_str(),
				       bad(o) ? "FAILS" : (o.status == 'd' ? "discarded" : "passes"), o.msg.c_str());
				return bad(o) ? 1 : 0;
			}
		fprintf(stderr, "replay file names no facet of this property\n");
		return 2;
	}

	double t0 = now();
	// known findings first: one isolated run each
	std::vector<std::pair<std::string, std::string>> known_hit;
	std::vector<std::string> known_gone;
	for (auto &f : F)
		if (!f.known.empty() && (only.empty() || only == f.name))
		{
			auto o = run_isolated(f, {}, hang, false);
			if (bad(o))
				known_hit.push_back({f.name, f.known});
			else
				known_gone.push_back(f.name);
		}
	std::vector<int> live;
	unsigned tot = 0;
	for (size_t i = 0; i < F.size(); ++i)
		if (F[i].known.empty() && (only.empty() || only == F[i].name)) live.push_back(i), tot += F[i].weight;
	if (live.empty())
	{
		fprintf(stderr, "no facet\n");
		return 2;
	}
	if (!cases) cases = tier == "quick" ? quick_cases : thorough_cases;
	if (tlimit <= 0) tlimit = tier == "quick" ? 150 : 600;
	// schedule: list of (facet, case number in facet), interleaved so that a time limit hits all facets evenly
	std::vector<std::pair<int, uint32_t>> sched;
	{
		std::vector<std::pair<double, std::pair<int, uint32_t>>> s;
		for (int fi : live)
		{
			long n = std::max<long>(1, cases * (long)F[fi].weight / tot);
			if (F[fi].cap) n = std::min<long>(n, F[fi].cap);
			for (long k = 0; k < n; ++k) s.push_back({double(k) / n + 1e-9 * fi, {fi, (uint32_t)k}});
		}
		std::sort(s.begin(), s.end());
		for (auto &x : s) sched.push_back(x.second);
	}
	size_t N = sched.size();
	Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * jobs + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	volatile uint64_t *counter = (volatile uint64_t *)(slots + jobs);
	*counter = 0;
	auto cseed = [&](size_t i) {
		return mix(mix(seed * 1000003ull + std::hash<std::string>{}(F[sched[i].first].name)) + sched[i].second);
	};
	std::vector<pid_t> pid(jobs, -1);
	std::vector<int> fds(jobs, -1);
	std::vector<std::string> buf(jobs);
	uint64_t evals = 0, discards = 0, nontriv = 0;
	std::set<std::pair<int, uint64_t>> distinct;
	std::map<std::string, uint64_t> labels;
	std::map<std::string, std::array<uint64_t, 3>> per;
	std::map<int, std::vector<std::string>> samples;
	std::vector<std::pair<size_t, Outcome>> failures;
	auto take = [&](size_t i, Outcome &o) {
		auto &f = F[sched[i].first];
		auto &pf = per[f.name];
		if (o.status == 'd')
		{
			++discards;
			++pf[2];
			return;
		}
		++evals;
		++pf[0];
		for (auto &l : o.labels) labels[f.name + ": " + l]++;
		if (o.nontrivial)
		{
			++nontriv;
			++pf[1];
			uint64_t h = 0;
			if (o.used.size() == 1 && o.notes.empty())
				h = o.used[0];
			else
			{
				h = 1469598103934665603ull;
				for (auto v : o.used) h = mix(h ^ v);
			}
			distinct.insert({sched[i].first, h});
			if (!o.notes.empty() && samples[sched[i].first].size() < 2)
			{
				std::string s = f.name + ": ";
				for (auto &n : o.notes) s += n + "; ";
				if (s.size() > 900) s = s.substr(0, 900) + "...";
				samples[sched[i].first].push_back(s);
			}
		}
		if (bad(o)) failures.push_back({i, o});
	};
	int violations = 0;
	std::string vline, unrepro;
	double t_run = 0;
	for (int round = 0; round < 12; ++round)
	{
	failures.clear();
	int alive = jobs;
	fflush(stdout);
	for (int j = 0; j < jobs; ++j)
	{
		int fd[2];
		if (pipe(fd)) return 2;
		slots[j].idx = ~0ull;
		slots[j].start = now();
		slots[j].count = 0;
		buf[j].clear();
		pid[j] = fork();
		if (pid[j] == 0)
		{
			close(fd[0]);
			for (int k = 0; k < j; ++k) close(fds[k]);
			limits();
			int dn = open("/dev/null", O_WRONLY);
			dup2(dn, 1);
			if (!getenv("PBT_STDERR")) dup2(dn, 2);
			if (worker_init) worker_init();
			double end = t0 + tlimit;
			while (true)
			{
				uint64_t i = __atomic_fetch_add((uint64_t *)counter, 1, __ATOMIC_SEQ_CST);
				if (i >= N || now() > end) break;
				slots[j].start = now();
				slots[j].facet = sched[i].first;
				slots[j].hist[slots[j].count % 1024] = i;
				slots[j].count = slots[j].count + 1;
				slots[j].idx = i;
				Case c(cseed(i));
				c.want_notes = sched[i].second < 3;
				auto o = run_case(F[sched[i].first], c);
				if (!bad(o) && !c.want_notes)
				{
					// send only a hash of the choices
					uint64_t h = 1469598103934665603ull;
					for (auto v : o.used) h = mix(h ^ v);
					o.used = {h};
				}
				std::string rec, b = pack(o);
				uint64_t n = b.size() + 8;
				rec.append((char *)&n, 8);
				rec.append((char *)&i, 8);
				rec += b;
				size_t p = 0;
				while (p < rec.size())
				{
					auto w = write(fd[1], rec.data() + p, rec.size() - p);
					if (w <= 0) _exit(3);
					p += w;
				}
				slots[j].idx = ~0ull;
				if (bad(o)) break;
			}
			if (__gcov_dump) __gcov_dump(); // only in the builds of tools/coverage.py
			_exit(0);
		}
		close(fd[1]);
		fds[j] = fd[0];
	}
	double killed_at = 0;
	while (alive > 0)
	{
		std::vector<pollfd> pf;
		std::vector<int> who;
		for (int j = 0; j < jobs; ++j)
			if (fds[j] >= 0) pf.push_back({fds[j], POLLIN, 0}), who.push_back(j);
		int r = poll(pf.data(), pf.size(), 500);
		if (r > 0)
			for (size_t q = 0; q < pf.size(); ++q)
				if (pf[q].revents)
				{
					int j = who[q];
					char tmp[1 << 16];
					auto n = read(fds[j], tmp, sizeof tmp);
					if (n > 0)
					{
						buf[j].append(tmp, n);
						size_t p = 0;
						while (buf[j].size() - p >= 8)
						{
							uint64_t len;
							memcpy(&len, buf[j].data() + p, 8);
							if (buf[j].size() - p < 8 + len) break;
							uint64_t i;
							memcpy(&i, buf[j].data() + p + 8, 8);
							auto o = unpack(buf[j].substr(p + 16, len - 8));
							take(i, o);
							p += 8 + len;
						}
						buf[j].erase(0, p);
					}
					else
					{
						close(fds[j]);
						fds[j] = -1;
						--alive;
						int st = 0;
						waitpid(pid[j], &st, 0);
						if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && killed_at == 0 && slots[j].idx != ~0ull)
						{
							Outcome o;
							o.status = 'c';
							o.msg = WIFSIGNALED(st) ? cat("crashed: signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")")
							                        : cat("process ended with code ", WEXITSTATUS(st));
							failures.push_back({slots[j].idx, o});
						}
						pid[j] = -1;
					}
				}
		for (int j = 0; j < jobs; ++j)
			if (pid[j] > 0 && slots[j].idx != ~0ull && now() - slots[j].start > hang && killed_at == 0)
			{
				Outcome o;
				o.status = 'h';
				o.msg = cat("no answer within ", hang, " s");
				failures.push_back({slots[j].idx, o});
				break;
			}
		if (!failures.empty() && killed_at == 0)
		{
			killed_at = now();
			for (int j = 0; j < jobs; ++j)
				if (pid[j] > 0) kill(pid[j], SIGKILL);
		}
	}
	t_run = now() - t0;
	if (failures.empty()) break;
	std::sort(failures.begin(), failures.end(), [](auto &a, auto &b) { return a.first < b.first; });
	for (auto &fl : failures)
	{
		size_t i = fl.first;
		auto &f = F[sched[i].first];
		Outcome o = fl.second;
		if (o.used.empty())
		{
			// The choices are a deterministic function of the case seed, only the bound of each draw depends on the
			// generator: raw 64-bit values reduced modulo the bound give the same case.
			Case probe(cseed(i));
			std::vector<uint64_t> raw;
			uint64_t st = cseed(i);
			for (int k = 0; k < 4000; ++k)
			{
				st += 0x9E3779B97F4A7C15ull;
				raw.push_back(mix(st));
			}
			o.used = raw;
		}
		auto reproduces = [&](const std::vector<uint64_t> &s, int need, int tries) {
			int hits = 0;
			for (int k = 0; k < tries && hits < need; ++k)
				if (bad(run_isolated(f, s, hang, false))) ++hits;
			return hits >= need;
		};
		if (!reproduces(o.used, 1, 3))
		{
			std::vector<Step> b;
			for (int j = 0; j < jobs; ++j)
			{
				uint64_t n = slots[j].count, k0 = n > 1024 ? n - 1024 : 0;
				if (n == 0 || slots[j].hist[(n - 1) % 1024] != i) continue;
				for (uint64_t k = k0; k < n; ++k)
				{
					size_t q = slots[j].hist[k % 1024];
					b.push_back({sched[q].first, cseed(q)});
				}
			}
			double end = now() + 60;
			if (b.size() > 1 && o.status != 'h' && batch_fails(b, 60))
			{
				// remove the cases that are not needed
				for (size_t len = b.size() / 2; len > 0; len /= 2)
					for (size_t k = 0; k + len <= b.size() && now() < end;)
					{
						auto t = b;
						t.erase(t.begin() + k, t.begin() + k + len);
						if (!t.empty() && batch_fails(t, 60))
							b = t;
						else
							k += len;
					}
				auto fin = run_batch(b, 60);
				std::string path = outdir + "/" + prop + "-batch-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
				std::ofstream out(path);
				out << "property " << prop << "\nkind " << (fin.status == 'f' ? "violated" : "crash") << ", several cases in one process\n";
				for (auto &st : b) out << "step " << F[st.facet].name << " " << st.seed << "\n";
				out << "message " << esc(fin.msg) << "\n";
				printf("failing after %zu cases in one process, the last of facet %s\n  %s\n", b.size(), F[b.back().facet].name.c_str(), fin.msg.c_str());
				printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
				++violations;
				break;
			}
			unrepro += f.name + ": " + o.msg + "; ";
			continue;
		}
		auto orig = o;
		Outcome s = shrink(f, o, shrink_s, o.status == 'h' ? 4 : 700);
		if (!reproduces(s.used, 3, o.status == 'h' ? 3 : 5)) s = orig;
		auto fin = run_isolated(f, s.used, hang, true);
		if (!bad(fin))
			for (int k = 0; k < 6 && !bad(fin); ++k) fin = run_isolated(f, s.used, hang, true);
		if (!bad(fin)) fin = s;
		if (fin.status != 'f') fin.used = s.used;
		if (fin.status != 'f') fin.notes.push_back("(the process died before its notes could be collected)");
		std::string path = outdir + "/" + prop + "-" + f.name + "-" + std::to_string(seed) + "-" + std::to_string(sched[i].second) + ".replay";
		write_replay(path, prop, f.name, fin, seed, sched[i].second);
		printf("failing facet: %s\n  %s\n", f.name.c_str(), fin.msg.c_str());
		for (auto &n : fin.notes) printf("  note: %s\n", n.c_str());
		printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
		++violations;
		break;
	}
	if (violations) break;
	}
	for (auto &k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.second.c_str());
	for (auto &k : known_gone) printf("note: known finding %s no longer reproduces\n", k.c_str());
	std::ostringstream js;
	js << "{\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"nontrivial\":" << nontriv
	   << ",\"distinct_nontrivial\":" << distinct.size() << ",\"scheduled\":" << N << ",\"run_s\":" << t_run
	   << ",\"violations\":" << violations << ",\"unreproduced\":\"" << esc(unrepro) << "\",\"rule\":\"" << esc(rule_text)
	   << "\",\"facets\":{";
	bool first = true;
	for (auto &p : per)
	{
		js << (first ? "" : ",") << "\"" << esc(p.first) << "\":{\"evaluations\":" << p.second[0]
		   << ",\"nontrivial\":" << p.second[1] << ",\"discarded\":" << p.second[2] << "}";
		first = false;
	}
	js << "},\"labels\":{";
	first = true;
	for (auto &p : labels)
	{
		js << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
		first = false;
	}
	js << "},\"samples\":[";
	first = true;
	for (auto &p : samples)
		for (auto &s : p.second)
		{
			js << (first ? "" : ",") << "\"" << esc(s) << "\"";
			first = false;
		}
	js << "],\"assumptions\":[";
	first = true;
	for (auto &s : assumptions)
	{
		js << (first ? "" : ",") << "\"" << esc(s) << "\"";
		first = false;
	}
	js << "],\"known\":[";
	first = true;
	for (auto &k : known_hit)
	{
		js << (first ? "" : ",") << "\"" << esc(k.second) << "\"";
		first = false;
	}
	js << "]}\n";
	if (!out.empty())
	{
		std::ofstream o(out);
		o << js.str();
	}
	printf("%s: %lu cases, %lu distinct non-trivial, %lu discarded of %lu scheduled, %.1f s\n", prop.c_str(), evals,
	       distinct.size(), discards, N, t_run);
	if (!unrepro.empty()) printf("unreproduced: %s\n", unrepro.c_str());
	return violations ? 1 : 0;
}
