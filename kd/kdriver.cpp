// Kernel driver: executes a script of public YASK kernel API calls on every
// MPI rank and logs one JSON event per call (with everything the call
// returned, or the exception it threw).  The events are merged over ranks by
// /verif/lib and validated against the TLA+ specification.
//
// usage: kdriver SCRIPT OUTPREFIX     (writes OUTPREFIX.<rank>)
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <thread>
#include <unistd.h>
#include <signal.h>
#include "yask_kernel_api.hpp"
using namespace yask;
using namespace std;

typedef vector<idx_t> IV;

extern "C" void vomp_reseed(unsigned seed) __attribute__((weak));
extern "C" void vomp_shared(void* p, size_t n) __attribute__((weak));
extern "C" void vmpi_stats(char* buf, int n) __attribute__((weak));

static yk_factory fac;
static yk_env_ptr env;
static map<int, yk_solution_ptr> solns;
static map<string, yk_var_ptr> anonvars;
static int cur = 0;
static FILE* out = nullptr;
static int me = 0;
static vector<string> hook_log;

static yk_solution_ptr S() { return solns.at(cur); }
static yk_var_ptr V(const string& n) {
    // "k:name" = var of solution k; "$name" = a var made by newvar and kept by reference.
    auto c = n.find(':');
    if (c != string::npos) return solns.at(atoi(n.substr(0, c).c_str()))->get_var(n.substr(c + 1));
    if (n[0] == '$') return anonvars.at(n);
    return S()->get_var(n);
}

static string esc(const string& s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static string num(double d) {
    char b[64];
    if (std::isnan(d)) return "\"nan\"";
    if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
    if (d == floor(d) && fabs(d) < 1e15) snprintf(b, sizeof b, "%lld", (long long)d);
    else snprintf(b, sizeof b, "\"%.17g\"", d);
    return b;
}
static string arr(const IV& v) {
    string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + to_string(v[i]);
    return s + "]";
}
template <typename T> static string arrd(const T& v) {
    string s = "[";
    bool f = true;
    for (auto d : v) { if (!f) s += ","; f = false; s += num(double(d)); }
    return s + "]";
}
static string arrs(const vector<string>& v) {
    string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += string(i ? "," : "") + "\"" + v[i] + "\"";
    return s + "]";
}

// The fill formula: also defined in YaskBase.tla (FillVal).
static long fillval(long seed, const IV& ix) {
    static const long P[] = { 3, 17, 5, 29, 11, 7 };
    long lin = seed;
    for (size_t k = 0; k < ix.size(); k++) lin += P[k] * (ix[k] + 60);
    if (lin < 0) lin = -lin;
    return ((lin * lin) % 2017 + lin * 13) % 201 - 100;
}

struct Ev {
    string s;
    bool first = true;
    void kv(const string& k, const string& rawv) { s += ",\"" + k + "\":" + rawv; }
    void ki(const string& k, long v) { kv(k, to_string(v)); }
    void ks(const string& k, const string& v) { kv(k, "\"" + esc(v) + "\""); }
};

static bool is_domain_dim(const string& d) {
    for (auto& n : S()->get_domain_dim_names()) if (n == d) return true;
    return false;
}

// Is this rank the owner of these indices (inside its domain in every domain dim)?
static bool owner(yk_var_ptr v, const IV& ix) {
    if (v->is_fixed_size()) return true;
    auto dn = v->get_dim_names();
    for (size_t i = 0; i < dn.size(); i++)
        if (is_domain_dim(dn[i])) {
            if (ix[i] < S()->get_first_rank_domain_index(dn[i]) ||
                ix[i] > S()->get_last_rank_domain_index(dn[i])) return false;
        }
    return true;
}

// Bounds per var dim (step dim excluded: lo=hi=0 placeholder).
static void region(yk_var_ptr v, const string& how, IV& lo, IV& hi) {
    auto dn = v->get_dim_names();
    auto sd = S()->get_step_dim_name();
    lo.clear(); hi.clear();
    for (auto& d : dn) {
        if (d == sd) { lo.push_back(0); hi.push_back(0); continue; }
        if (v->is_fixed_size() || how == "alloc") {
            lo.push_back(v->get_first_local_index(d)); hi.push_back(v->get_last_local_index(d));
        }
        else if (is_domain_dim(d)) {
            idx_t f = S()->get_first_rank_domain_index(d), l = S()->get_last_rank_domain_index(d);
            // fl:<dim>, fr:<dim>: the copies of the left or right neighbour's points.
            if (how.size() > 3 && how.substr(3) == d) {
                idx_t f0 = f, l0 = l;
                if (how.substr(0, 3) == "fl:") { l = f0 - 1; f = f0 == 0 ? f0 : v->get_first_rank_halo_index(d); }
                else { f = l0 + 1; l = l0 == S()->get_overall_domain_size(d) - 1 ? l0 : v->get_last_rank_halo_index(d); }
            }
            if (how == "halo") { f = v->get_first_rank_halo_index(d); l = v->get_last_rank_halo_index(d); }
            else if (how == "own") {
                if (f == 0) f = v->get_first_rank_halo_index(d);
                if (l == S()->get_overall_domain_size(d) - 1) l = v->get_last_rank_halo_index(d);
            }
            lo.push_back(f); hi.push_back(l);
        }
        else { lo.push_back(v->get_first_misc_index(d)); hi.push_back(v->get_last_misc_index(d)); }
    }
}
static int step_pos(yk_var_ptr v) {
    auto dn = v->get_dim_names();
    for (size_t i = 0; i < dn.size(); i++) if (dn[i] == S()->get_step_dim_name()) return int(i);
    return -1;
}
static idx_t vol(const IV& lo, const IV& hi) {
    idx_t n = 1;
    for (size_t i = 0; i < lo.size(); i++) n *= max<idx_t>(0, hi[i] - lo[i] + 1);
    return n;
}
template <typename F> static void each(const IV& lo, const IV& hi, F f) {
    if (vol(lo, hi) == 0) return;
    IV p = lo;
    while (true) {
        f(p);
        int k = int(p.size()) - 1;
        while (k >= 0 && ++p[k] > hi[k]) { p[k] = lo[k]; k--; }
        if (k < 0) break;
    }
}

static void vinfo(Ev& e, yk_var_ptr v) {
    e.ks("v", v->get_name());
    auto dn = v->get_dim_names();
    e.kv("dims", arrs(dn));
    e.ki("fixed", v->is_fixed_size());
    e.ki("ndd", v->get_num_domain_dims());
    e.ki("alloced", v->is_storage_allocated());
    e.ki("dyn", v->is_dynamic_step_alloc());
    e.ki("l1", v->get_halo_exchange_l1_norm());
    e.kv("alloc", arr(v->get_alloc_size_vec()));
    e.kv("flo", arr(v->get_first_local_index_vec()));
    e.kv("llo", arr(v->get_last_local_index_vec()));
    if (v->is_storage_allocated() || true) {
        e.ki("nelems", v->get_num_storage_elements());
        e.ki("nbytes", v->get_num_storage_bytes());
    }
    {
        string s = "{"; bool f = true;
        for (auto& d : dn) {
            if (!is_domain_dim(d)) continue;
            IV a = { v->get_rank_domain_size(d), v->get_first_rank_domain_index(d), v->get_last_rank_domain_index(d),
                v->get_left_halo_size(d), v->get_right_halo_size(d),
                v->get_first_rank_halo_index(d), v->get_last_rank_halo_index(d),
                v->get_left_pad_size(d), v->get_right_pad_size(d),
                v->get_left_extra_pad_size(d), v->get_right_extra_pad_size(d),
                v->get_first_local_index(d), v->get_last_local_index(d), v->get_alloc_size(d) };
            s += string(f ? "" : ",") + "\"" + d + "\":" + arr(a); f = false;
        }
        e.kv(v->is_fixed_size() ? "domf" : "dom", s + "}");
    }
    int sp = step_pos(v);
    if (sp >= 0) { e.ki("fv", v->get_first_valid_step_index()); e.ki("lv", v->get_last_valid_step_index()); }
}

// Indices of a var: "F+k"/"L-k" stand for steps relative to the first/last valid one,
// "f+k"/"l-k" for the first/last local index of the dim, "d+k"/"e-k" for the
// first/last index of the rank's domain.
static IV vnums(yk_var_ptr v, const vector<string>& w, size_t from, size_t n) {
    IV r;
    auto dn = v->get_dim_names();
    if (from + n > w.size()) throw runtime_error("script: missing indices");
    for (size_t i = 0; i < n; i++) {
        const string& t = w[from + i];
        char c = t[0];
        idx_t k = atol(t.c_str() + (isalpha(c) ? 1 : 0));
        if (isalpha(c)) {
            const string& d = dn.at(i);
            if (d == S()->get_step_dim_name()) c = toupper(c) == 'D' ? 'F' : toupper(c) == 'E' ? 'L' : toupper(c);
            else if (!is_domain_dim(d) || v->is_fixed_size()) c = c == 'd' ? 'f' : c == 'e' ? 'l' : c;
            k += c == 'F' ? v->get_first_valid_step_index() : c == 'L' ? v->get_last_valid_step_index() :
                c == 'f' ? v->get_first_local_index(d) : c == 'l' ? v->get_last_local_index(d) :
                c == 'd' ? S()->get_first_rank_domain_index(d) : S()->get_last_rank_domain_index(d);
        }
        r.push_back(k);
    }
    return r;
}
static IV nums(const vector<string>& w, size_t from, size_t n) {
    IV r;
    if (from + n > w.size()) throw runtime_error("script: missing indices");
    for (size_t i = 0; i < n; i++) r.push_back(atol(w[from + i].c_str()));
    return r;
}

// Execute one command. Fields common to all: op.
static void exec(const vector<string>& w, Ev& e) {
    const string& op = w[0];
    if (op == "soln") { cur = atoi(w[1].c_str()); solns[cur] = fac.new_solution(env); }
    else if (op == "solnfrom") { int s = atoi(w[2].c_str()); cur = atoi(w[1].c_str()); solns[cur] = fac.new_solution(env, solns.at(s)); }
    else if (op == "delsoln") { solns.erase(atoi(w[1].c_str())); }
    else if (op == "use") cur = atoi(w[1].c_str());
    else if (op == "opts") {
        string s; for (size_t i = 1; i < w.size(); i++) s += (i > 1 ? " " : "") + w[i];
        e.ks("rem", S()->apply_command_line_options(s));
    }
    else if (op == "optsv") {
        vector<string> a(w.begin() + 1, w.end());
        e.ks("rem", S()->apply_command_line_options(a));
    }
    else if (op == "optx" || op == "optvx" || op == "optax") {     // as hex.
        vector<string> a;
        for (size_t i = 1; i < w.size(); i++) {
            string s;
            for (size_t k = 0; w[i] != "-" && k + 1 < w[i].size(); k += 2) s += char(stoi(w[i].substr(k, 2), nullptr, 16));
            a.push_back(s);
        }
        if (op == "optx") e.ks("rem", S()->apply_command_line_options(a.at(0)));
        else if (op == "optvx") e.ks("rem", S()->apply_command_line_options(a));
        else {
            vector<char*> p; string pn = "pgm"; p.push_back(&pn[0]);
            for (auto& s : a) p.push_back(&s[0]);
            p.push_back(nullptr);
            e.ks("rem", S()->apply_command_line_options(int(p.size()) - 1, p.data()));
        }
    }
    else if (op == "optvals") {
        auto s = S()->get_command_line_values();
        // one "-name value" or "* -name value" per line: report those asked for.
        e.ks("vals", s);
    }
    else if (op == "rsize") S()->set_rank_domain_size(w[1], atol(w[2].c_str()));
    else if (op == "osize") S()->set_overall_domain_size(w[1], atol(w[2].c_str()));
    else if (op == "rsizev") S()->set_rank_domain_size_vec(nums(w, 1, w.size() - 1));
    else if (op == "osizev") S()->set_overall_domain_size_vec(nums(w, 1, w.size() - 1));
    else if (op == "nr") S()->set_num_ranks(w[1], atol(w[2].c_str()));
    else if (op == "nrv") S()->set_num_ranks_vec(nums(w, 1, w.size() - 1));
    else if (op == "ri") S()->set_rank_index(w[1], atol(w[2].c_str()));
    else if (op == "riv") S()->set_rank_index_vec(nums(w, 1, w.size() - 1));
    else if (op == "bsize") S()->set_block_size(w[1], atol(w[2].c_str()));
    else if (op == "minpad") S()->set_min_pad_size(w[1], atol(w[2].c_str()));
    else if (op == "wrap") S()->set_step_wrap(w[1] == "1");
    else if (op == "geom") {
        e.ki("ranks", env->get_num_ranks()); e.ki("rank", env->get_rank_index());
        e.kv("dd", arrs(S()->get_domain_dim_names()));
        e.kv("osz", arr(S()->get_overall_domain_size_vec()));
        e.kv("rsz", arr(S()->get_rank_domain_size_vec()));
        e.kv("nr", arr(S()->get_num_ranks_vec()));
        e.kv("ri", arr(S()->get_rank_index_vec()));
        e.kv("bsz", arr(S()->get_block_size_vec()));
        if (w.size() > 1) {
            e.kv("frd", arr(S()->get_first_rank_domain_index_vec()));
            e.kv("lrd", arr(S()->get_last_rank_domain_index_vec()));
            e.ki("ot", S()->get_num_outer_threads()); e.ki("it", S()->get_num_inner_threads());
        }
    }
    else if (op == "nthr") { e.ki("ot", S()->get_num_outer_threads()); e.ki("it", S()->get_num_inner_threads()); }
    else if (op == "valloc") V(w[1])->set_alloc_size(w[2], atol(w[3].c_str()));
    else if (op == "vlhalo") V(w[1])->set_left_halo_size(w[2], atol(w[3].c_str()));
    else if (op == "vrhalo") V(w[1])->set_right_halo_size(w[2], atol(w[3].c_str()));
    else if (op == "vhalo") V(w[1])->set_halo_size(w[2], atol(w[3].c_str()));
    else if (op == "vlpad") V(w[1])->set_left_min_pad_size(w[2], atol(w[3].c_str()));
    else if (op == "vrpad") V(w[1])->set_right_min_pad_size(w[2], atol(w[3].c_str()));
    else if (op == "vpad") V(w[1])->set_min_pad_size(w[2], atol(w[3].c_str()));
    else if (op == "vmisc") V(w[1])->set_first_misc_index(w[2], atol(w[3].c_str()));
    else if (op == "vl1") V(w[1])->set_halo_exchange_l1_norm(atoi(w[2].c_str()));
    else if (op == "vnuma") V(w[1])->set_numa_preferred(atoi(w[2].c_str()));
    else if (op == "prep" || op == "tryprep") {
        S()->prepare_solution();
        if (vomp_shared) {
            vomp_shared(nullptr, 0);
            for (auto& s : solns) if (s.second) for (auto v : s.second->get_vars()) if (v->is_storage_allocated()) vomp_shared(v->get_raw_storage_buffer(), v->get_num_storage_bytes());
        }
    }
    else if (op == "vars") {
        vector<string> n; for (auto v : S()->get_vars()) n.push_back(v->get_name());
        e.kv("vars", arrs(n)); e.ki("nv", S()->get_num_vars());
        e.ki("eb", S()->get_element_bytes());
        e.kv("dd", arrs(S()->get_domain_dim_names()));
        e.ks("sd", S()->get_step_dim_name());
    }
    else if (op == "vinfo") vinfo(e, V(w[1]));
    else if (op == "win") { auto v = V(w[1]); e.ki("fv", v->get_first_valid_step_index()); e.ki("lv", v->get_last_valid_step_index()); }
    else if (op == "stor") { auto v = V(w[1]); e.ki("alloced", v->is_storage_allocated()); e.ki("raw", v->get_raw_storage_buffer() != nullptr); }
    else if (op == "sameraw") { e.ki("same", V(w[1])->get_raw_storage_buffer() == V(w[2])->get_raw_storage_buffer()); }
    else if (op == "samelay") { e.ki("same", V(w[1])->is_storage_layout_identical(V(w[2]))); }
    else if (op == "allocstor") V(w[1])->alloc_storage();
    else if (op == "relstor") V(w[1])->release_storage();
    else if (op == "fuse") V(w[1])->fuse_vars(V(w[2]));
    else if (op == "fusesoln") S()->fuse_vars(solns.at(atoi(w[1].c_str())));
    else if (op == "newvar") { vector<string> d(w.begin() + 2, w.end()); S()->new_var(w[1], d); }
    else if (op == "newfixed") {
        // newfixed name dim size dim size ...
        vector<string> d; IV z;
        for (size_t i = 2; i + 1 < w.size(); i += 2) { d.push_back(w[i]); z.push_back(atol(w[i + 1].c_str())); }
        S()->new_fixed_size_var(w[1], d, z);
    }
    else if (op == "keep") anonvars[w[1]] = V(w[2]);
    else if (op == "drop") anonvars.erase(w[1]);
    else if (op == "fill") {
        // fill v seed region how s0 s1
        auto v = V(w[1]); long seed = atol(w[2].c_str());
        IV lo, hi; region(v, w[3], lo, hi);
        auto& how = w[4];
        // steps: "win" = the currently valid window.
        int sp = step_pos(v);
        idx_t s0 = 0, s1 = 0;
        if (sp >= 0 && w[5] == "win") { s0 = v->get_first_valid_step_index(); s1 = v->get_last_valid_step_index(); }
        else if (sp >= 0) { s0 = atol(w[5].c_str()); s1 = atol(w[6].c_str()); }
        e.ki("s0", s0); e.ki("s1", s1);
        idx_t cnt = 0;
        for (idx_t s = s0; s <= s1; s++) {
            if (sp >= 0) lo[sp] = hi[sp] = s;
            if (how == "elem" || how == "add")
                each(lo, hi, [&](const IV& p) {
                    long fv = fillval(seed, p);
                    if (how == "add") { v->set_element(double(fv - 3), p, true); cnt += v->add_to_element(3.0, p, true); }
                    else cnt += v->set_element(double(fv), p, true); });
            else if (how == "fslice") {
                vector<float> b; each(lo, hi, [&](const IV& p) { b.push_back(float(fillval(seed, p))); });
                if (b.size()) cnt += v->set_elements_in_slice(b.data(), b.size(), lo, hi);
            } else {
                vector<double> b; each(lo, hi, [&](const IV& p) { b.push_back(double(fillval(seed, p))); });
                if (b.size()) cnt += v->set_elements_in_slice(b.data(), b.size(), lo, hi);
            }
        }
        e.ki("n", cnt);
        e.ki("expect", vol(lo, hi) * (s1 - s0 + 1));
    }
    else if (op == "dump") {
        // dump v region how [s0 s1]
        auto v = V(w[1]);
        IV lo, hi; region(v, w[2], lo, hi);
        auto& how = w[3];
        int sp = step_pos(v);
        idx_t s0 = 0, s1 = 0;
        if (sp >= 0) {
            s0 = v->get_first_valid_step_index(); s1 = v->get_last_valid_step_index();
            if (w.size() > 5) { s0 = atol(w[4].c_str()); s1 = atol(w[5].c_str()); }
        }
        e.ki("s0", s0); e.ki("s1", s1); e.ki("sp", sp);
        e.kv("lo", arr(lo)); e.kv("hi", arr(hi));
        string vals = "[";
        for (idx_t s = s0; s <= s1; s++) {
            if (sp >= 0) lo[sp] = hi[sp] = s;
            vector<double> b;
            if (how == "elem") each(lo, hi, [&](const IV& p) { b.push_back(v->get_element(p)); });
            else if (how == "fslice") {
                vector<float> fb(vol(lo, hi), -7e7f);
                if (fb.size()) v->get_elements_in_slice(fb.data(), fb.size(), lo, hi);
                for (auto f : fb) b.push_back(f);
            } else {
                b.assign(vol(lo, hi), -7e7);
                if (b.size()) v->get_elements_in_slice(b.data(), b.size(), lo, hi);
            }
            vals += string(s > s0 ? "," : "") + arrd(b);
        }
        e.kv("vals", vals + "]");
    }
    else if (op == "run") S()->run_solution(atol(w[1].c_str()), atol(w[2].c_str()));
    else if (op == "run1") S()->run_solution(atol(w[1].c_str()));
    else if (op == "xchg") S()->exchange_halos();
    else if (op == "end") S()->end_solution();
    else if (op == "set" || op == "add") {
        // set who v val strict idx...
        auto v = V(w[2]); auto ix = vnums(v, w, 5, w.size() - 5);
        e.kv("ix", arr(ix));
        bool doit = w[1] == "all" || (w[1] == "own" && owner(v, ix)) || (w[1] == to_string(me));
        e.ki("did", doit);
        if (doit) {
            double val = atof(w[3].c_str()); bool st = w[4] == "1";
            e.ki("n", op == "set" ? v->set_element(val, ix, st) : v->add_to_element(val, ix, st));
        }
    }
    else if (op == "get") {
        auto v = V(w[2]); auto ix = vnums(v, w, 3, w.size() - 3);
        e.kv("ix", arr(ix));
        bool doit = w[1] == "all" || (w[1] == "own" && owner(v, ix)) || (w[1] == to_string(me));
        e.ki("did", doit);
        if (doit) e.kv("val", num(v->get_element(ix)));
    }
    else if (op == "local") { auto v = V(w[1]); auto ix = vnums(v, w, 2, w.size() - 2); e.kv("ix", arr(ix)); e.ki("r", v->are_indices_local(ix)); }
    else if (op == "setsl" || op == "setslf" || op == "setslv") {
        // setsl v seed len_delta n first.. last..   (buffer of exactly the slice's size + delta)
        auto v = V(w[1]); long seed = atol(w[2].c_str()); long dl = atol(w[3].c_str());
        size_t n = atol(w[4].c_str());
        auto f = vnums(v, w, 5, n), l = vnums(v, w, 5 + n, n);
        e.kv("f", arr(f)); e.kv("z", arr(l));
        vector<double> b; each(f, l, [&](const IV& p) { b.push_back(double(fillval(seed, p))); });
        size_t z = b.size(); b.resize(z + 4, 0);
        dl = max(dl, -long(z)); e.ki("len", z + dl);
        if (op == "setsl") e.ki("n", v->set_elements_in_slice(b.data(), z + dl, f, l));
        else if (op == "setslv") {
            if (S()->get_element_bytes() == 8) e.ki("n", v->set_elements_in_slice((const void*)b.data(), f, l));
            else { vector<float> fb(b.begin(), b.end()); e.ki("n", v->set_elements_in_slice((const void*)fb.data(), f, l)); }
        }
        else { vector<float> fb(b.begin(), b.end()); e.ki("n", v->set_elements_in_slice(fb.data(), z + dl, f, l)); }
    }
    else if (op == "setslown") {
        // setslown v seed how n first.. last..   (the part of the slice this rank owns, outer halos included)
        auto v = V(w[1]); long seed = atol(w[2].c_str()); size_t n = atol(w[4].c_str());
        auto f = vnums(v, w, 5, n), l = vnums(v, w, 5 + n, n);
        e.kv("f", arr(f)); e.kv("z", arr(l));
        IV lo, hi; region(v, "own", lo, hi);
        int sp = step_pos(v);
        for (size_t i = 0; i < n; i++) if (int(i) != sp) { f[i] = max(f[i], lo[i]); l[i] = min(l[i], hi[i]); }
        idx_t cnt = 0, ex = vol(f, l);
        if (ex > 0) {
            vector<double> b; each(f, l, [&](const IV& p) { b.push_back(double(fillval(seed, p))); });
            if (w[3] == "elem") { each(f, l, [&](const IV& p) { cnt += v->set_element(double(fillval(seed, p)), p, true); }); }
            else if (w[3] == "fslice") { vector<float> fb(b.begin(), b.end()); cnt = v->set_elements_in_slice(fb.data(), fb.size(), f, l); }
            else cnt = v->set_elements_in_slice(b.data(), b.size(), f, l);
        }
        e.ki("n", cnt); e.ki("expect", ex);
    }
    else if (op == "getsl" || op == "getslf" || op == "getslv") {
        auto v = V(w[1]); long dl = atol(w[2].c_str());
        size_t n = atol(w[3].c_str());
        auto f = vnums(v, w, 4, n), l = vnums(v, w, 4 + n, n);
        e.kv("f", arr(f)); e.kv("z", arr(l));
        size_t z = vol(f, l);
        const double CAN = -77777777;
        vector<double> b(z + 4, CAN);
        idx_t r;
        dl = max(dl, -long(z)); e.ki("len", z + dl);
        bool flt = op == "getslf" || (op == "getslv" && S()->get_element_bytes() == 4);
        if (op == "getslv" && !flt) r = v->get_elements_in_slice((void*)b.data(), f, l);
        else if (op == "getsl") r = v->get_elements_in_slice(b.data(), z + dl, f, l);
        else { vector<float> fb(z + 4, float(-77777776)); r = op == "getslv" ? v->get_elements_in_slice((void*)fb.data(), f, l) : v->get_elements_in_slice(fb.data(), z + dl, f, l);
            for (size_t i = 0; i < fb.size(); i++) b[i] = (fb[i] == float(-77777776)) ? CAN : fb[i]; }
        e.ki("n", r);
        bool ok = true; for (size_t i = z; i < b.size(); i++) ok = ok && b[i] == CAN;
        e.ki("over", !ok);
        b.resize(z);
        e.kv("vals", arrd(b));
    }
    else if (op == "slsame") {
        // slsame v val strict n first.. last..
        auto v = V(w[1]); size_t n = atol(w[4].c_str());
        auto f = vnums(v, w, 5, n), l = vnums(v, w, 5 + n, n);
        e.kv("f", arr(f)); e.kv("z", arr(l));
        e.ki("n", v->set_elements_in_slice_same(atof(w[2].c_str()), f, l, w[3] == "1"));
    }
    else if (op == "setall") V(w[1])->set_all_elements_same(atof(w[2].c_str()));
    else if (op == "red") {
        // red v mask strict n first.. last..
        auto v = V(w[1]); int mask = atoi(w[2].c_str()); size_t n = atol(w[4].c_str());
        auto f = vnums(v, w, 5, n), l = vnums(v, w, 5 + n, n);
        e.kv("f", arr(f)); e.kv("z", arr(l));
        auto r = v->reduce_elements_in_slice(mask, f, l, w[3] == "1");
        e.ki("n", r->get_num_elements_reduced());
        e.ki("mask", r->get_reduction_mask());
        auto tryget = [&](const char* k, double (yk_var::yk_reduction_result::*g)() const) {
            try { e.kv(k, num((r.get()->*g)())); } catch (yask_exception& x) { e.kv(k, "\"exc\""); } };
        tryget("sum", &yk_var::yk_reduction_result::get_sum);
        tryget("sumsq", &yk_var::yk_reduction_result::get_sum_squares);
        tryget("prod", &yk_var::yk_reduction_result::get_product);
        tryget("max", &yk_var::yk_reduction_result::get_max);
        tryget("min", &yk_var::yk_reduction_result::get_min);
    }
    else if (op == "paradd") {
        // paradd v nthreads reps val idx... : concurrent add_to_element from several threads.
        auto v = V(w[1]); int nt = atoi(w[2].c_str()), reps = atoi(w[3].c_str());
        double val = atof(w[4].c_str());
        auto ix = vnums(v, w, 5, w.size() - 5);
        vector<thread> th; vector<idx_t> got(nt, 0);
        for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (int i = 0; i < reps; i++) got[t] += v->add_to_element(val, ix, true); });
        for (auto& t : th) t.join();
        idx_t s = 0; for (auto g : got) s += g;
        e.ki("n", s);
    }
    else if (op == "stats") {
        auto s = S()->get_stats();
        e.ki("elems", s->get_num_elements()); e.ki("steps", s->get_num_steps_done());
        e.ki("writes", s->get_num_writes_done()); e.ki("flops", s->get_est_fp_ops_done());
        e.ki("tneg", s->get_elapsed_secs() < 0);
    }
    else if (op == "clrstats") S()->clear_stats();
    else if (op == "at") S()->reset_auto_tuner(w[1] == "1", false);
    else if (op == "atq") e.ki("on", S()->is_auto_tuner_enabled());
    else if (op == "untiloff") {  // untiloff MAX T0 DIR K: run K steps at a time until tuned
        idx_t t = atol(w[2].c_str()), dir = atol(w[3].c_str()), k = atol(w[4].c_str()), n = 0;
        for (; n < atol(w[1].c_str()) && S()->is_auto_tuner_enabled(); n++, t += dir * k)
            S()->run_solution(t, t + dir * (k - 1));
        e.ki("n", n); e.ki("on", S()->is_auto_tuner_enabled());
    }
    else if (op == "atnow") S()->run_auto_tuner_now(false);
    else if (op == "hook") {
        // hook kind tag [command...]: the command is executed by the hook, on the solution it is given.
        string tag = w[2];
        vector<string> cmd(w.begin() + 3, w.end());
        auto fn = [tag, cmd](yk_solution& s, idx_t a, idx_t b) {
            int id = -1, was = cur;
            for (auto& x : solns) if (x.second.get() == &s) id = x.first;
            size_t at = hook_log.size();
            hook_log.push_back("");
            Ev h; h.ks("tag", tag); h.ki("s", id); h.ki("a", a); h.ki("b", b);
            if (cmd.size()) {
                cur = id;
                try { exec(cmd, h); }
                catch (yask_exception& x) { h.ks("exc", x.get_message()); }
                cur = was;
            }
            hook_log.at(at) = "{" + h.s.substr(1) + "}";
        };
        if (w[1] == "bp") S()->call_before_prepare_solution([fn](yk_solution& s) { fn(s, 0, 0); });
        if (w[1] == "ap") S()->call_after_prepare_solution([fn](yk_solution& s) { fn(s, 0, 0); });
        if (w[1] == "br") S()->call_before_run_solution(fn);
        if (w[1] == "ar") S()->call_after_run_solution(fn);
    }
    else if (op == "hooklog") {
        string l;
        for (auto& x : hook_log) l += (l.size() ? "," : "") + x;
        e.kv("log", "[" + l + "]");
        hook_log.clear();
    }
    else if (op == "ompseed") { if (vomp_reseed) vomp_reseed(atoi(w[1].c_str())); }
    else if (op == "barrier") env->global_barrier();
    else if (op == "mpistats") { char b[400] = ""; if (vmpi_stats) vmpi_stats(b, sizeof b); e.ks("st", b); }
    else throw runtime_error("script: unknown op " + op);
}

extern "C" void vclock_salt(int r);
int main(int argc, char** argv) {
    if (argc < 3) return 9;
    if (getenv("KD_VERBOSE")) yk_env::set_trace_enabled(true); else yk_env::disable_debug_output();
    env = fac.new_env();
    me = env->get_rank_index();
    vclock_salt(me);
    string of = string(argv[2]) + "." + to_string(me);
    out = fopen(of.c_str(), "w");
    if (!out) return 9;
    setvbuf(out, nullptr, _IOFBF, 1 << 20);
    ifstream is(argv[1]);
    string line;
    long ln = 0;
    bool flush_each = getenv("KD_FLUSH") != nullptr;
    while (getline(is, line)) {
        ln++;
        if (line.empty() || line[0] == '#') continue;
        if (line == "hist" || line.compare(0, 5, "hist ") == 0) {
            fprintf(out, "{\"op\":\"hist\",\"id\":\"%s\"}\n", line.size() > 5 ? line.substr(5).c_str() : "");
            fflush(out);
            continue;
        }
        istringstream ls(line);
        vector<string> w; string t;
        while (ls >> t) w.push_back(t);
        // "@r" prefix: only on that rank.
        if (w[0][0] == '@') {
            bool mine = atoi(w[0].c_str() + 1) == me;
            w.erase(w.begin());
            if (!mine) { fprintf(out, "{\"l\":%ld,\"op\":\"%s\",\"skip\":1}\n", ln, w[0].c_str()); continue; }
        }
        if (flush_each) { fprintf(stderr, "[%d] %s\n", me, line.c_str()); }
        Ev e;
        string exc, err;
        try { exec(w, e); }
        catch (yask_exception& x) { exc = x.get_message(); if (exc.empty()) exc = "?"; }
        catch (exception& x) { err = x.what(); }
        string s = "{\"l\":" + to_string(ln) + ",\"op\":\"" + w[0] + "\"" + e.s;
        if (exc.size()) s += ",\"exc\":\"" + esc(exc) + "\"";
        if (err.size()) s += ",\"err\":\"" + esc(err) + "\"";
        s += "}\n";
        fputs(s.c_str(), out);
        fflush(out);
        // The other ranks may be waiting for this one.
        if (exc.size() && w[0] == "prep" && env->get_num_ranks() > 1) _exit(77);
    }
    fprintf(out, "{\"op\":\"eof\"}\n");
    fclose(out);
    anonvars.clear();
    solns.clear();
    env->finalize();
    return 0;
}
