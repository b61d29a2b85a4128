// C28: log output
#define VH_LIBRARY_LOG
#include "vh.h"
#include "include/ext/unpacker.h"
#include "include/ext/packer.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
using vh::Rng; using vh::violation; using vh::hex; using vh::fmt;
typedef std::string S;

static void call(const char* head, char* buff, size_t len, const char* f, ...) {va_list ap; va_start(ap, f); log_formater::all_out(head, buff, len, f, ap); va_end(ap);}
static S printable(Rng& r, size_t n) {S s(n, 0); for (auto& c : s) c = (char) (r.chance(1, 8) ? '%' : ' ' + r.below(95)); return s;}
static S stamp(time_t t) {char b[64]; ctime_r(&t, b); b[strlen(b) - 1] = 0; return b;}
static S tid() {std::ostringstream o; o << boost::this_thread::get_id(); return o.str();}
// text is "<optional head>[tid] time -> body"; checks the prefix and returns the body
static bool body_of(const S& line, const S& head, time_t a, time_t b, S& body, S& want_prefix)
{
	for (time_t t = a; t <= b; ++t) {want_prefix = head + "[" + tid() + "] " + stamp(t) + " -> "; if (!line.compare(0, want_prefix.size(), want_prefix)) {body = line.substr(want_prefix.size()); return true;}}
	return false;
}
static void format_case(Rng& r)
{
	S h = printable(r, r.below(12)); bool with = r.chance(1, 2); size_t cap = r.chance(1, 2) ? 1 + r.below(120) : 1 + r.below(2500);
	char* buf = (char*) malloc(cap); memset(buf, 'U', cap); // exactly sized: any overrun is seen by the sanitizer
	S text = printable(r, r.size(r.chance(1, 3) ? 4000 : 80)); int kind = (int) r.below(4); S expect; int num = (int) r.next(); time_t a = time(NULL);
	switch (kind)
	{
	case 0: call(with ? h.c_str() : NULL, buf, cap, "%s", text.c_str()); expect = text.c_str(); break;
	case 1: call(with ? h.c_str() : NULL, buf, cap, "no %d <%s> %08x", num, text.c_str(), num); expect = "no " + std::to_string(num) + " <" + text.c_str() + "> " + fmt("%08x", num); break;
	case 2: call(with ? h.c_str() : NULL, buf, cap, "%s", ""); break;
	default: {char t[64]; memset(t, 'q', sizeof t); size_t n = r.below(64); call(with ? h.c_str() : NULL, buf, cap, "%.*s|%zu", (int) n, t, n); expect = S(n, 'q') + "|" + std::to_string(n);}
	}
	time_t b = time(NULL); size_t n = strnlen(buf, cap); vh::count("formatted");
	if (n == cap) violation("unterminated", fmt("buffer of %zu bytes is not terminated, text of %zu bytes", cap, expect.size()));
	else
	{
		S line(buf, n), pre, body; S head = with ? "[" + h + "] " : S(); bool good = false;
		for (time_t t = a; t <= b && !good; ++t)
		{
			pre = head + "[" + tid() + "] " + stamp(t) + " -> "; S full = (pre + expect).substr(0, cap - 1);
			good = line == full || (cap <= pre.size() && line == full.substr(0, line.size())); // too small for the prefix: a terminated prefix of it
		}
		if (!good) violation("content", fmt("buffer %zu: '%s', expected the first %zu characters of '%s'", cap, line.substr(0, 200).c_str(), cap - 1, (pre + expect).substr(0, 200).c_str()));
	}
	vh::distinct(vh::hmix(vh::hmix(cap, expect.size()), kind * 2 + with)); if (vh::want_sample()) vh::sample(fmt("buffer %zu, head %d, text %zu bytes: %.80s", cap, (int) with, expect.size(), n < cap ? buf : "?"));
	free(buf);
}
struct Cap // what the library prints on stdout
{
	S path; Cap() {const char* d = getenv("VH_SCRATCH"); path = S(d ? d : "/tmp") + "/stdout." + std::to_string(getpid()); if (!freopen(path.c_str(), "w+", stdout)) abort();}
	S get() {fflush(stdout); long n = ftell(stdout); S s(n, 0); rewind(stdout); size_t k = fread(&s[0], 1, n, stdout); s.resize(k); rewind(stdout); if (ftruncate(fileno(stdout), 0)) abort(); return s;}
};
static Cap& cap() {static Cap* c = new Cap; return *c;}

static void dump_case(Rng& r)
{
	cap().get(); size_t n = 1 + r.below(r.chance(1, 3) ? 1500 : 200); S d = r.bytes(n); char* p = (char*) malloc(n); memcpy(p, d.data(), n); size_t cur = r.chance(1, 2) ? (size_t) -1 : r.below(5000);
	if (r.chance(1, 10)) {unpacker_helper::dump_left_data(NULL, cur, n); unpacker_helper::dump_left_data(p, cur, 0); if (!cap().get().empty()) violation("dump/nothing", "dumping nothing printed something"); free(p); vh::distinct(1); return;}
	time_t a = time(NULL); unpacker_helper::dump_left_data(p, cur, n); free(p); time_t b = time(NULL); S o = cap().get(), body, pre; vh::count("dumps");
	if (o.empty() || o[o.size() - 1] != '\n') {violation("dump/line", "no line printed"); return;}
	o.erase(o.size() - 1);
	if (o.size() >= ST_ASIO_UNIFIED_OUT_BUF_NUM) violation("dump/too-long", fmt("%zu", o.size()));
	if (!body_of(o, "", a, b, body, pre)) {violation("dump/prefix", o.substr(0, 120)); return;}
	size_t q = body.find('\n'); S first = q == S::npos ? body : body.substr(0, q), digits; if (q == S::npos && pre.size() + 80 < ST_ASIO_UNIFIED_OUT_BUF_NUM) {violation("dump/format", body.substr(0, 120)); return;}
	if (q != S::npos) for (char c : body.substr(q)) if (c != ' ' && c != '\n') digits += c;
	S want; for (unsigned char c : d) want += fmt("%02x", c);
	bool cut = o.size() == ST_ASIO_UNIFIED_OUT_BUF_NUM - 1;
	if (cut ? want.compare(0, digits.size(), digits) : digits != want) violation("dump/bytes", fmt("%zu bytes dumped as %s..., expected %s...", n, digits.substr(0, 80).c_str(), want.substr(0, 80).c_str()));
	if (!cut && first.find(std::to_string(cur == (size_t) -1 ? 0 : cur)) == S::npos) violation("dump/length", first);
	vh::distinct(vh::hmix(n, cur + 2)); 
}
static void through(int level, const S& s) {switch (level) {case 0: unified_out::fatal_out("%s", s.c_str()); break; case 1: unified_out::error_out("%s", s.c_str()); break; case 2: unified_out::warning_out("%s", s.c_str()); break; case 3: unified_out::info_out("%s", s.c_str()); break; default: unified_out::debug_out("%s", s.c_str());}}
static void threads_case(Rng& r)
{
	cap().get(); int nt = 2 + (int) r.below(4), per = 20; std::vector<std::vector<S> > txt(nt); std::map<S, int> want; std::vector<int> lev;
	for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {S s = fmt("T%d.%d:", t, i); size_t n = r.size(r.chance(1, 4) ? 3000 : 100); for (size_t k = 0; k < n; ++k) s += (char) ('a' + r.below(26)); txt[t].push_back(s);}
	std::vector<S> ids(nt); std::atomic<int> go(0); std::vector<std::thread> th; time_t a = time(NULL); unsigned seed = (unsigned) r.next();
	for (int t = 0; t < nt; ++t) th.emplace_back([&, t]() {ids[t] = tid(); ++go; while (go < nt) sched_yield(); for (int i = 0; i < per; ++i) through((seed + t + i) % 5, txt[t][i]);});
	for (auto& t : th) t.join(); time_t b = time(NULL); S o = cap().get(); size_t p = 0; int lines = 0;
	std::set<S> stamps; for (time_t t = a; t <= b; ++t) stamps.insert(stamp(t));
	std::map<S, S> by; // key T.i -> line
	while (p < o.size())
	{
		size_t q = o.find('\n', p); if (q == S::npos) {violation("threads/line", "last line not ended"); return;}
		S l = o.substr(p, q - p); p = q + 1; ++lines; size_t k = l.find(" -> T"), e = l.find(':', k == S::npos ? 0 : k);
		if (k == S::npos || e == S::npos) {violation("threads/garbled", l.substr(0, 200)); return;}
		int t = -1, i = -1; if (sscanf(l.c_str() + k + 4, "T%d.%d:", &t, &i) != 2 || t < 0 || t >= nt || i < 0 || i >= per) {violation("threads/garbled", l.substr(0, 200)); return;}
		S key = fmt("%d.%d", t, i); if (!by.emplace(key, l).second) {violation("threads/twice", l.substr(0, 100)); return;}
		bool good = false; for (auto& st : stamps) {S full = "[" + ids[t] + "] " + st + " -> " + txt[t][i]; if (l == full.substr(0, ST_ASIO_UNIFIED_OUT_BUF_NUM - 1)) good = true;}
		if (!good) {violation("threads/content", l.substr(0, 200)); return;}
	}
	if (lines != nt * per) violation("threads/count", fmt("%d lines printed, %d logged", lines, nt * per));
	vh::count("concurrent_lines", lines); vh::distinct(vh::hash_str(o));
}
static void one(Rng& r) {switch (r.below(16)) {case 0: threads_case(r); break; case 1: case 2: case 3: dump_case(r); break; default: format_case(r);}}
int main(int argc, char** argv)
{
	vh::g().rule = "random heads, texts and exactly sized buffers through the formatter; random dumps; 2-5 threads logging lines of up to 3000 characters at once; distinct = (buffer size, text size, kind) or the interleaved output";
	return vh::main(argc, argv, one);
}
