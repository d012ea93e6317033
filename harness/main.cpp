#include "common.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

int g_maxam = SIMINT_OSTEI_MAXAM, g_minam = 0;
int g_thorough = 0;
double g_tol = 3e-12;
int g_shard = 0, g_nshard = 1;
std::vector<std::string> g_quartets;
std::set<std::string> g_real;

std::map<std::string, Property> & registry()
{
    static std::map<std::string, Property> r;
    return r;
}

Case shrink(Case c, const Checker & chk, double seconds)
{
    const double t0 = now();
    auto fails = [&](const Case & d) {
        if(!wellformed(d)) return false;
        return !chk(d, nullptr).ok;
    };
    bool progress = true;
    while(progress && now() - t0 < seconds)
    {
        progress = false;
        auto attempt = [&](Case d) {
            if(now() - t0 > seconds) return false;
            if(d.text() == c.text()) return false;
            if(!fails(d)) return false;
            c = d;
            progress = true;
            return true;
        };
        for(int side = 0; side < 2; side++)
        {
            size_t n = (side ? c.ket : c.bra).size();
            for(size_t chunk = n / 2; chunk >= 1; chunk /= 2)
                for(size_t i = 0; i + chunk <= (side ? c.ket : c.bra).size() && (side ? c.ket : c.bra).size() > chunk;)
                {
                    Case d = c;
                    auto & v = side ? d.ket : d.bra;
                    v.erase(v.begin() + i, v.begin() + i + chunk);
                    int & cl = side ? d.clipQ : d.clipP;
                    if(cl > (int)v.size()) cl = (int)v.size();
                    if(!attempt(d)) i += chunk;
                }
        }
        // drop unreferenced shells
        if(!c.bra.empty())
        {
            std::vector<int> used(c.pool.size(), 0);
            for(auto v : {&c.bra, &c.ket})
                for(auto p : *v) used[p.first] = used[p.second] = 1;
            Case d = c;
            std::vector<int> map(c.pool.size(), -1);
            d.pool.clear();
            for(size_t i = 0; i < c.pool.size(); i++)
                if(used[i]) { map[i] = (int)d.pool.size(); d.pool.push_back(c.pool[i]); }
            for(auto v : {&d.bra, &d.ket})
                for(auto & p : *v) { p.first = map[p.first]; p.second = map[p.second]; }
            if(d.pool.size() < c.pool.size()) attempt(d);
        }
        for(size_t s = 0; s < c.pool.size(); s++)
        {
            for(size_t i = 0; i < c.pool[s].a.size() && c.pool[s].a.size() > 1;)
            {
                Case d = c;
                d.pool[s].a.erase(d.pool[s].a.begin() + i);
                d.pool[s].c.erase(d.pool[s].c.begin() + i);
                if(!attempt(d)) i++;
            }
            for(size_t i = 0; i < c.pool[s].a.size(); i++)
            {
                for(double val : {1.0, 0.5, 10.0})
                {
                    if(c.pool[s].a[i] == 1.0 || c.pool[s].zero) break;
                    Case d = c;
                    d.pool[s].a[i] = val;
                    if(attempt(d)) break;
                }
                if(c.pool[s].c[i] != 1.0) { Case d = c; d.pool[s].c[i] = 1.0; attempt(d); }
            }
            for(int k = 0; k < 3; k++)
                for(double val : {0.0, 1.0, std::round(c.pool[s].x[k])})
                {
                    if(c.pool[s].x[k] == 0.0 || c.pool[s].zero) break;
                    Case d = c;
                    d.pool[s].x[k] = val;
                    if(attempt(d)) break;
                }
        }
        if(c.tol != 0) { Case d = c; d.tol = 0; d.scrP = d.scrQ = 0; attempt(d); }
        if(c.scrP) { Case d = c; if(d.tol == 0) d.scrP = d.scrQ = 0; attempt(d); }
        if(c.clipP >= 0) { Case d = c; d.clipP = -1; attempt(d); }
        if(c.clipQ >= 0) { Case d = c; d.clipQ = -1; attempt(d); }
        if(c.kind == "life")
            for(size_t chunk = c.iextra.size() / 8 * 4; chunk >= 4; chunk = chunk / 8 * 4)
                for(size_t i = 0; i + chunk <= c.iextra.size();)
                {
                    Case d = c;
                    d.iextra.erase(d.iextra.begin() + i, d.iextra.begin() + i + chunk);
                    if(!attempt(d)) i += chunk;
                }
        for(size_t i = 0; i < c.extra.size(); i++)
            if(c.extra[i] != 0) { Case d = c; d.extra[i] = std::round(d.extra[i]); attempt(d); }
    }
    return c;
}

// Runs the checker in a child process: a crash or a hang is a failure of the case.
static Checker isolated(const Checker & chk, int seconds)
{
    return [chk, seconds](const Case & c, Stats *) {
        Verdict v;
        int fd[2];
        if(pipe(fd)) { perror("pipe"); exit(3); }
        fflush(stdout);
        fflush(stderr);
        const pid_t pid = fork();
        if(pid < 0) { perror("fork"); exit(3); }
        if(pid == 0)
        {
            close(fd[0]);
            alarm(seconds);
            Verdict w = chk(c, nullptr);
            std::string m = w.msg;
            if(!m.empty() && write(fd[1], m.data(), m.size()) < 0) _exit(3);
            _exit(w.ok ? 0 : 1);
        }
        close(fd[1]);
        std::string m;
        char b[4096];
        ssize_t n;
        while((n = read(fd[0], b, sizeof b)) > 0) m.append(b, n);
        close(fd[0]);
        int stt = 0;
        waitpid(pid, &stt, 0);
        if(WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM) v.fail(fmt("did not finish within %d s", seconds));
        else if(WIFSIGNALED(stt)) v.fail(fmt("crashed with signal %d (%s)", WTERMSIG(stt), strsignal(WTERMSIG(stt))));
        else if(WEXITSTATUS(stt) == 1 && !m.empty()) v.fail(m);
        else if(WEXITSTATUS(stt) == 3) { fprintf(stderr, "harness error in child\n"); exit(3); }
        else if(WEXITSTATUS(stt)) v.fail(fmt("stopped by a sanitizer (exit status %d)", WEXITSTATUS(stt)));
        return v;
    };
}

static std::string jstr(const std::string & s)
{
    std::string o = "\"";
    for(char ch : s)
    {
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if((unsigned char)ch < 32) o += ' ';
        else o += ch;
    }
    return o + "\"";
}

static std::string readfile(const std::string & f)
{
    std::string s;
    FILE * fp = fopen(f.c_str(), "r");
    if(!fp) return s;
    char b[65536];
    size_t n;
    while((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
    fclose(fp);
    return s;
}
static void writefile(const std::string & f, const std::string & s)
{
    FILE * fp = fopen(f.c_str(), "w");
    if(!fp) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(3); }
    fwrite(s.data(), 1, s.size(), fp);
    fclose(fp);
}

int main(int argc, char ** argv)
{
    std::string prop, out, replay, shrinkfile, current, fail;
    uint64_t seed = 1;
    double budget = 10;
    long ncase = 1000000000L, mincase = 0;
    for(int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if(a == "--prop") prop = val();
        else if(a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if(a == "--budget") budget = atof(val().c_str());
        else if(a == "--cases") ncase = atol(val().c_str());
        else if(a == "--mincases") mincase = atol(val().c_str());
        else if(a == "--out") out = val();
        else if(a == "--replay") replay = val();
        else if(a == "--shrink") shrinkfile = val(); // a case that crashes: shrink it in child processes
        else if(a == "--current") current = val(); // the case being run, for crashes
        else if(a == "--fail") fail = val();       // where the shrunk failing case goes
        else if(a == "--thorough") g_thorough = 1;
        else if(a == "--shard") { if(sscanf(val().c_str(), "%d/%d", &g_shard, &g_nshard) != 2) return 3; }
        else if(a == "--quartets") { std::istringstream is(val()); std::string t; while(std::getline(is, t, ',')) g_quartets.push_back(t); }
        else if(a == "--real") { std::istringstream is(val()); std::string t; while(std::getline(is, t, ',')) g_real.insert(t); }
        else if(a == "--maxam") g_maxam = atoi(val().c_str());
        else if(a == "--minam") g_minam = atoi(val().c_str());
        else if(a == "--ordering") { if(val() == "GAMESS") ref::set_ordering(ref::GAMESS); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    auto it = registry().find(prop);
    if(it == registry().end())
    {
        fprintf(stderr, "no such property %s\n", prop.c_str());
        for(auto & r : registry()) fprintf(stderr, "  %s\n", r.first.c_str());
        return 3;
    }
    Property & P = it->second;
    // initializing again, or after finalizing, is allowed
    simint_init();
    const unsigned how = (unsigned)((seed / 3 + g_shard) % 4);
    if(how == 1) simint_init();
    if(how >= 2) simint_finalize();
    if(how == 3) simint_finalize();
    if(how >= 2) simint_init();
    if(!shrinkfile.empty())
    {
        Case c;
        if(!c.parse(readfile(shrinkfile))) { fprintf(stderr, "cannot read %s\n", shrinkfile.c_str()); return 3; }
        Checker iso = isolated(P.chk, 60);
        Verdict v = iso(c, nullptr);
        if(v.ok) { printf("does not reproduce\n"); return 0; }
        Case m = P.shrinkable ? shrink(c, iso, budget) : c;
        Verdict w = iso(m, nullptr);
        if(w.ok) { m = c; w = v; }
        if(!fail.empty()) writefile(fail, "# " + w.msg + "\n" + m.text());
        printf("%s\n", w.msg.c_str());
        return 1;
    }
    if(!replay.empty())
    {
        Case c;
        if(!c.parse(readfile(replay))) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
        Verdict v = isolated(P.chk, 300)(c, nullptr);
        printf("%s: %s\n", v.ok ? "holds" : "FAILS", v.ok ? c.brief().c_str() : v.msg.c_str());
        return v.ok ? 0 : 1;
    }
    Stats st;
    const double t0 = now();
    Verdict bad;
    Case badcase;
    long n = 0;
    for(; n < ncase && (n < mincase || now() - t0 < budget); n++)
    {
        Rng r((seed * 1000003ULL + (uint64_t)n * 7919ULL + 17) ^ ((uint64_t)g_shard << 52));
        Case c = P.gen(r, (int)n);
        c.kind = prop;
        if(!current.empty()) writefile(current, c.text());
        Verdict v = P.chk(c, &st);
        st.evals++;
        if(v.nontrivial)
        {
            st.nontrivial++;
            if(st.distinct.size() < 2000000) st.distinct.insert(std::to_string(std::hash<std::string>()(c.text())));
            if(st.samples.size() < 12 && (n < 4 || n % 97 == 0)) st.samples.push_back(c.brief());
        }
        if(!v.ok)
        {
            bad = v;
            badcase = c;
            break;
        }
    }
    std::string js = "{";
    js += "\"prop\":" + jstr(prop) + ",\"seed\":" + std::to_string(seed) + ",\"evals\":" + std::to_string(st.evals) +
          ",\"nontrivial\":" + std::to_string(st.nontrivial) + ",\"distinct\":" + std::to_string(st.distinct.size()) + ",\"rule\":" + jstr(P.rule);
    js += ",\"worst\":" + fmt("%.3e", st.worst) + ",\"worst_at\":" + jstr(st.worst_at) + ",\"classes\":{";
    bool first = true;
    for(auto & k : st.classes)
    {
        js += std::string(first ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second);
        first = false;
    }
    js += "},\"samples\":[";
    for(size_t i = 0; i < st.samples.size(); i++) js += (i ? "," : "") + jstr(st.samples[i]);
    js += "]";
    if(!bad.ok)
    {
        Case s = P.shrinkable ? shrink(badcase, P.chk, 25) : badcase;
        Verdict v = P.chk(s, nullptr);
        if(v.ok) { s = badcase; v = bad; }
        if(!fail.empty()) writefile(fail, "# " + v.msg + "\n# first seen as: " + bad.msg + "\n" + s.text());
        js += ",\"violation\":" + jstr(v.msg) + ",\"case\":" + jstr(s.brief()) + ",\"fail\":" + jstr(fail);
    }
    js += fmt(",\"wall\":%.2f}", now() - t0);
    if(!out.empty()) writefile(out, js + "\n");
    else printf("%s\n", js.c_str());
    simint_finalize();
    return bad.ok ? 0 : 1;
}
