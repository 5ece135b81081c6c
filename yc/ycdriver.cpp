// Stencil-program driver: reads stencil programs written as S-expressions
// (the same programs the TLA+ module YaskDSL interprets) and builds them
// through the public YASK compiler API, then has the compiler write the
// kernel code or reports the exception it threw.
//
// usage: ycdriver PROGFILE OUTFILE STYLE [compiler options...]
//   STYLE 0: node-factory calls; 1: C++ operators.
// exit 0: code written; 3: yask_exception (message on stdout); else: error.
//
// usage: ycdriver -batch LISTFILE
//   each line: PROGFILE OUTFILE STYLE opts...; prints "RESULT <n> ok|throw <msg>".
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <vector>
#include <memory>
#include <string>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include "yask_compiler_api.hpp"
using namespace yask;
using namespace std;

struct SX { bool atom; string s; vector<SX> k; };
static SX parse(istream& is) {
    string tok;
    char c;
    while (is.get(c)) {
        if (isspace((unsigned char)c)) continue;
        if (c == '(') {
            SX r; r.atom = false;
            while (true) {
                while (isspace(is.peek())) is.get();
                if (is.peek() == ')') { is.get(); return r; }
                if (is.peek() == EOF) { cerr << "bad program: EOF\n"; exit(9); }
                r.k.push_back(parse(is));
            }
        }
        SX r; r.atom = true; r.s = string(1, c);
        while (is.peek() != EOF && !isspace(is.peek()) && is.peek() != '(' && is.peek() != ')')
            r.s += char(is.get());
        return r;
    }
    cerr << "bad program\n"; exit(9);
}

struct Builder {
    yc_factory fac;
    yc_node_factory nf;
    yc_solution_ptr soln;
    map<string, yc_index_node_ptr> idx;   // all dims.
    map<string, char> kind;               // s, d, m.
    map<string, yc_var_ptr> vars;
    map<string, vector<string>> vdims;
    vector<yc_equation_node_ptr> eqs;
    int style = 0;
    unsigned cnt = 0;

    bool ops() { return style == 1; }

    yc_number_node_ptr num(const SX& e) {
        if (e.atom) return nf.new_const_number_node(atof(e.s.c_str()));
        auto& o = e.k[0].s;
        if (o == "c") {
            long v = atol(e.k[1].s.c_str());
            if (ops() && (cnt++ & 1)) return nf.new_number_node(double(v));
            if (cnt++ & 1) return nf.new_const_number_node(idx_t(v));
            return nf.new_const_number_node(double(v));
        }
        if (o == "v") return point(e, 1);
        if (o == "r") return nf.new_const_number_node(atof(e.k[1].s.c_str()));
        if (o == "+" || o == "*") {
            auto r = num(e.k[1]);
            for (size_t i = 2; i < e.k.size(); i++) {
                auto b = num(e.k[i]);
                if (o == "+") {
                    if (ops() && i == 2 && (cnt++ % 3 == 0)) { r += b; }
                    else r = ops() ? (r + b) : nf.new_add_node(r, b);
                }
                else r = ops() ? (r * b) : nf.new_multiply_node(r, b);
            }
            return r;
        }
        if (o == "-") { auto a = num(e.k[1]), b = num(e.k[2]); return ops() ? (a - b) : nf.new_subtract_node(a, b); }
        if (o == "/") { auto a = num(e.k[1]), b = num(e.k[2]); return ops() ? (a / b) : nf.new_divide_node(a, b); }
        if (o == "fdiv") { // (a / b) * b
            auto a = num(e.k[1]), b = num(e.k[2]), b2 = num(e.k[2]);
            return ops() ? (a / b) * b2 : nf.new_multiply_node(nf.new_divide_node(a, b), b2);
        }
        if (o == "%") { auto a = num(e.k[1]), b = num(e.k[2]); return ops() ? (a % b) : nf.new_mod_node(a, b); }
        if (o == "neg") { auto a = num(e.k[1]); return ops() ? -a : nf.new_negate_node(a); }
        if (o == "min") { auto a = num(e.k[1]), b = num(e.k[2]); return yask::min(a, b); }
        if (o == "max") { auto a = num(e.k[1]), b = num(e.k[2]); return yask::max(a, b); }
        if (o == "abs") { auto a = num(e.k[1]); return yask::fabs(a); }
        if (o == "pow2") { auto a = num(e.k[1]); return ops() ? yask::pow(a, 2.0) : yask::pow(a, nf.new_const_number_node(2.0)); }
        if (o == "sin0" || o == "cos0" || o == "exp0" || o == "atan0" || o == "erf0" || o == "cbrt0" || o == "log1" || o == "sqrt0") {
            auto a = num(e.k[1]), b = num(e.k[1]);
            yc_number_node_ptr z = nf.new_subtract_node(a, b);
            if (o == "sin0") return yask::sin(z);
            if (o == "sqrt0") return yask::sqrt(z);
            if (o == "cos0") return yask::cos(z);
            if (o == "exp0") return yask::exp(z);
            if (o == "atan0") return yask::atan(z);
            if (o == "erf0") return yask::erf(z);
            if (o == "cbrt0") return yask::cbrt(z);
            return yask::log(nf.new_add_node(z, nf.new_const_number_node(1.0)));
        }
        if (o == "i") return idx.at(e.k[1].s);
        if (o == "first") return nf.new_first_domain_index(idx.at(e.k[1].s));
        if (o == "last") return nf.new_last_domain_index(idx.at(e.k[1].s));
        cerr << "bad num op '" << o << "'\n"; exit(9);
    }
    yc_bool_node_ptr boo(const SX& e) {
        auto& o = e.k[0].s;
        if (o == "and") { auto a = boo(e.k[1]), b = boo(e.k[2]); return ops() ? (a && b) : nf.new_and_node(a, b); }
        if (o == "or") { auto a = boo(e.k[1]), b = boo(e.k[2]); return ops() ? (a || b) : nf.new_or_node(a, b); }
        if (o == "not") { auto a = boo(e.k[1]); return ops() ? !a : nf.new_not_node(a); }
        auto a = num(e.k[1]), b = num(e.k[2]);
        if (o == "==") return ops() ? (a == b) : nf.new_equals_node(a, b);
        if (o == "!=") return ops() ? (a != b) : nf.new_not_equals_node(a, b);
        if (o == "<") return ops() ? (a < b) : nf.new_less_than_node(a, b);
        if (o == ">") return ops() ? (a > b) : nf.new_greater_than_node(a, b);
        if (o == "<=") return ops() ? (a <= b) : nf.new_not_greater_than_node(a, b);
        if (o == ">=") return ops() ? (a >= b) : nf.new_not_less_than_node(a, b);
        cerr << "bad bool op '" << o << "'\n"; exit(9);
    }
    yc_var_point_node_ptr point(const SX& e, size_t p) {
        auto& vn = e.k[p].s;
        auto& ds = vdims.at(vn);
        vector<yc_number_node_ptr> args;
        for (size_t i = 0; i + p + 1 < e.k.size(); i++) {
            auto& a = e.k[p + 1 + i];
            if (i >= ds.size()) { args.push_back(num(a)); continue; }   // for the API to refuse.
            if (!a.atom) { args.push_back(num(a)); continue; }
            long o = atol(a.s.c_str());
            if (kind[ds[i]] == 'm')
                args.push_back(nf.new_const_number_node(idx_t(o)));
            else {
                auto ix = idx.at(ds[i]);
                if (o == 0) args.push_back(ix);
                else if (ops()) args.push_back(o > 0 ? (ix + idx_t(o)) : (ix - idx_t(-o)));
                else if (o > 0) args.push_back(nf.new_add_node(ix, nf.new_const_number_node(idx_t(o))));
                else if (cnt++ & 1) args.push_back(nf.new_add_node(ix, nf.new_const_number_node(idx_t(o))));
                else args.push_back(nf.new_subtract_node(ix, nf.new_const_number_node(idx_t(-o))));
            }
        }
        return vars.at(vn)->new_var_point(args);
    }

    void build(const SX& p) {
        soln = fac.new_solution(p.k[1].s);
        yask_output_factory ofac;
        soln->set_debug_output(ofac.new_null_output());
        for (size_t i = 2; i < p.k.size(); i++) {
            auto& f = p.k[i];
            auto& o = f.k[0].s;
            if (o == "step") { idx[f.k[1].s] = nf.new_step_index(f.k[1].s); kind[f.k[1].s] = 's'; }
            else if (o == "domain") for (size_t j = 1; j < f.k.size(); j++) { idx[f.k[j].s] = nf.new_domain_index(f.k[j].s); kind[f.k[j].s] = 'd'; }
            else if (o == "misc") for (size_t j = 1; j < f.k.size(); j++) { idx[f.k[j].s] = nf.new_misc_index(f.k[j].s); kind[f.k[j].s] = 'm'; }
            else if (o == "setdims") {
                vector<yc_index_node_ptr> v;
                for (size_t j = 1; j < f.k.size(); j++) v.push_back(idx.at(f.k[j].s));
                soln->set_domain_dims(v);
            }
            else if (o == "setstep") soln->set_step_dim(idx.at(f.k[1].s));
            else if (o == "fold") soln->set_fold_len(idx.at(f.k[1].s), atoi(f.k[2].s.c_str()));
            else if (o == "nodeps") soln->set_dependency_checker_enabled(false);
            else if (o == "flow") soln->add_flow_dependency(eqs.at(atoi(f.k[1].s.c_str())), eqs.at(atoi(f.k[2].s.c_str())));
            else if (o == "var") {
                auto& nm = f.k[1].s;
                bool scr = f.k[2].s == "1";
                vector<yc_index_node_ptr> v;
                auto& vd = vdims[nm];
                for (size_t j = 3; j < f.k.size(); j++) { v.push_back(idx.at(f.k[j].s)); vd.push_back(f.k[j].s); }
                vars[nm] = scr ? soln->new_scratch_var(nm, v) : soln->new_var(nm, v);
            }
            else if (o == "alloc") vars.at(f.k[1].s)->set_step_alloc_size(atoi(f.k[2].s.c_str()));
            else if (o == "dyn") vars.at(f.k[1].s)->set_dynamic_step_alloc(f.k[2].s == "1");
            else if (o == "eq") {
                auto lhs = point(f.k[1], 0);
                auto rhs = num(f.k[2]);
                yc_bool_node_ptr c, sc;
                if (f.k.size() > 3 && !f.k[3].atom) c = boo(f.k[3]);
                if (f.k.size() > 4 && !f.k[4].atom) sc = boo(f.k[4]);
                yc_equation_node_ptr eq;
                if (c && (cnt++ & 1)) eq = nf.new_equation_node(lhs, rhs, c);
                else { eq = nf.new_equation_node(lhs, rhs); if (c) eq->set_cond(c); }
                if (sc) eq->set_step_cond(sc);
                eqs.push_back(eq);
            }
            else { cerr << "bad item '" << o << "'\n"; exit(9); }
        }
    }
};

static int do_one(const vector<string>& a, string& msg) {
    ifstream is(a[0]);
    if (!is) { msg = "cannot read " + a[0]; return 9; }
    auto p = parse(is);
    try {
        Builder b;
        b.style = atoi(a[2].c_str());
        b.build(p);
        string_vec opts(a.begin() + 3, a.end());
        auto rem = b.soln->apply_command_line_options(opts);
        if (rem.length()) { msg = "extraneous options: " + rem; return 9; }
        yask_output_factory ofac;
        if (a[1] == "-null") {
            auto os = ofac.new_string_output();
            b.soln->output_solution(os);
        } else {
            auto os = ofac.new_file_output(a[1]);
            b.soln->output_solution(os);
            os->close();
        }
    } catch (yask_exception& e) {
        msg = e.get_message();
        return 3;
    }
    return 0;
}

// usage: ycdriver -cmd SCRIPT: options of a new solution.
static string esc(const string& s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static int do_cmd(const char* f) {
    ifstream is(f);
    string line;
    yc_factory fac;
    yask_output_factory ofac;
    auto soln = fac.new_solution("cmd");
    soln->set_debug_output(ofac.new_null_output());
    int n = 0;
    while (getline(is, line)) {
        n++;
        istringstream ls(line);
        vector<string> w; string t;
        while (ls >> t) w.push_back(t);
        if (w.empty()) continue;
        vector<string> a;
        for (size_t i = 1; i < w.size() && w[0].substr(0, 3) == "opt"; i++) {
            string s;
            for (size_t k = 0; w[i] != "-" && k + 1 < w[i].size(); k += 2) s += char(stoi(w[i].substr(k, 2), nullptr, 16));
            a.push_back(s);
        }
        cout << "{\"l\":" << n << ",\"op\":\"" << w[0] << "\"";
        try {
            if (w[0] == "optx") { auto r = soln->apply_command_line_options(a.at(0)); cout << ",\"rem\":\"" << esc(r) << "\""; }
            else if (w[0] == "optvx") { auto r = soln->apply_command_line_options(a); cout << ",\"rem\":\"" << esc(r) << "\""; }
            else if (w[0] == "optax") {
                vector<char*> p; string pn = "pgm"; p.push_back(&pn[0]);
                for (auto& s : a) p.push_back(&s[0]);
                p.push_back(nullptr);
                auto r = soln->apply_command_line_options(int(p.size()) - 1, p.data());
                cout << ",\"rem\":\"" << esc(r) << "\"";
            }
            else if (w[0] == "optvals") cout << ",\"vals\":\"" << esc(soln->get_command_line_values()) << "\"";
            else if (w[0] == "fold") soln->set_fold_len(yc_node_factory().new_domain_index(w[1]), atoi(w[2].c_str()));
            else if (w[0] == "clrfold") soln->clear_folding();
            else if (w[0] == "elem") soln->set_element_bytes(atoi(w[1].c_str()));
            else if (w[0] == "pf") soln->set_prefetch_dist(atoi(w[1].c_str()), atoi(w[2].c_str()));
            else if (w[0] == "target") soln->set_target(w[1]);
            else if (w[0] == "eff") {
                cout << ",\"target\":\"" << (soln->is_target_set() ? soln->get_target() : string("")) << "\",\"elem\":" << soln->get_element_bytes();
            }
        } catch (yask_exception& e) {
            cout << ",\"exc\":\"" << esc(e.get_message()) << "\"";
        }
        cout << "}" << endl;
    }
    return 0;
}

// usage: ycdriver -fd FILE: calls for finite-difference coefficients.
static int do_fd(const char* f) {
    ifstream is(f);
    string line;
    int n = 0;
    while (getline(is, line)) {
        n++;
        istringstream ls(line);
        vector<string> w; string t;
        while (ls >> t) w.push_back(t);
        if (w.size() < 3) continue;
        {   // no freed memory holds zeros.
            vector<vector<double>> v;
            for (int i = 1; i < 40; i++) v.push_back(vector<double>(i * 13, 1234.5 + i));
        }
        cout << "{\"l\":" << n;
        try {
            int m = atoi(w[1].c_str());
            vector<double> c;
            if (w[0] == "C") c = get_center_fd_coefficients(m, atoi(w[2].c_str()));
            else if (w[0] == "F") c = get_forward_fd_coefficients(m, atoi(w[2].c_str()));
            else if (w[0] == "B") c = get_backward_fd_coefficients(m, atoi(w[2].c_str()));
            else {
                vector<double> x;
                for (size_t i = 4; i < w.size(); i++) x.push_back(strtod(w[i].c_str(), nullptr));
                c = get_arbitrary_fd_coefficients(m, strtod(w[2].c_str(), nullptr), x);
            }
            cout << ",\"c\":[";
            for (size_t i = 0; i < c.size(); i++) { char b[60]; snprintf(b, sizeof b, "%s\"%a\"", i ? "," : "", c[i]); cout << b; }
            cout << "]";
        } catch (yask_exception& e) {
            cout << ",\"exc\":1";
        }
        cout << "}" << endl;
    }
    return 0;
}

int main(int argc, char** argv) {
    if (argc == 3 && !strcmp(argv[1], "-fd")) return do_fd(argv[2]);
    if (argc == 3 && !strcmp(argv[1], "-cmd")) return do_cmd(argv[2]);
    if (argc == 3 && !strcmp(argv[1], "-batch")) {
        ifstream is(argv[2]);
        string line; int n = 0;
        while (getline(is, line)) {
            istringstream ls(line);
            vector<string> a; string w;
            while (ls >> w) a.push_back(w);
            if (a.size() < 3) continue;
            // isolate each program: a crash of the compiler is a result too.
            int pfd[2]; if (pipe(pfd)) return 9;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                close(pfd[0]); alarm(60);
                string msg; int rc = do_one(a, msg);
                for (auto& c : msg) if (c == '\n') c = ' ';
                if (msg.size() > 3000) msg.resize(3000);
                (void)!write(pfd[1], msg.data(), msg.size());
                _exit(rc);
            }
            close(pfd[1]);
            string msg; char buf[4096]; ssize_t k;
            while ((k = read(pfd[0], buf, sizeof buf)) > 0) msg.append(buf, k);
            close(pfd[0]);
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) cout << "RESULT " << n << " ok\n";
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) cout << "RESULT " << n << " throw " << msg << "\n";
            else if (WIFEXITED(st)) cout << "RESULT " << n << " error " << WEXITSTATUS(st) << " " << msg << "\n";
            else cout << "RESULT " << n << " crash " << WTERMSIG(st) << "\n";
            n++;
        }
        cout << flush;
        return 0;
    }
    if (argc < 4) { cerr << "usage\n"; return 9; }
    vector<string> a(argv + 1, argv + argc);
    string msg;
    int rc = do_one(a, msg);
    if (msg.length()) cout << msg << endl;
    return rc;
}
