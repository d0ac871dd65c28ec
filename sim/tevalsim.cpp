// Evaluates the repository's TEval from many simulated threads at once.
// tevalsim SPEC: "E expr" lines (the objects), then in any order
//   "Q object time"     evaluate (neighbouring Q lines are one parallel loop),
//   "A object expr"     assign another expression,
//   "X object expr"     assign an expression that must be rejected,
//   "C object object"   copy the second to the first,
//   "K object object"   replace the first by a copy-constructed second.
// Prints one line per query: the value seen in the parallel loop, and the
// value a fresh object gives when nothing else has happened to it.
#include "TEval.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <stdint.h>

static unsigned long long bits(double d)
{
    unsigned long long u;
    memcpy(&u, &d, 8);
    return u;
}

struct Query { int i; double t, got, ref; };

static std::vector<std::unique_ptr<TEval>> f;

static void serve(std::vector<Query>& q)
{
    int n = q.size();
    #pragma omp parallel for schedule(dynamic, 1)
    for (int i = 0; i < n; i++) {
        q[i].got = f[q[i].i]->eval(q[i].t);
    }
    for (Query& x: q) printf("%016llx %016llx\n", bits(x.got), bits(x.ref));
    q.clear();
}

int main(int argc, char** argv)
{
    std::vector<std::string> ex; // what each object holds
    std::vector<Query> q;
    std::ifstream in(argv[1]);
    std::string s;
    while (std::getline(in, s)) {
        const char k = s[0];
        std::istringstream is(s.substr(2));
        if (k == 'E') {
            ex.push_back(s.substr(2));
            f.emplace_back(new TEval(ex.back()));
            continue;
        }
        int i, j;
        std::string a;
        is >> i >> a;
        if (k == 'Q') {
            Query x = {i, strtod(a.c_str(), 0), 0, 0};
            TEval fresh(ex[i]);
            x.ref = fresh.eval(x.t);
            q.push_back(x);
            continue;
        }
        serve(q);
        j = atoi(a.c_str());
        const std::string e = s.substr(s.find(' ', 2) + 1);
        switch (k) {
        case 'A': *f[i] = e; ex[i] = e; break;
        case 'X':
            try {
                *f[i] = e;
                printf("accepted\n");
            } catch (const std::invalid_argument&) {
            }
            break;
        case 'C': *f[i] = *f[j]; ex[i] = ex[j]; break;
        case 'K': f[i].reset(new TEval(*f[j])); ex[i] = ex[j]; break;
        }
        if (std::string(*f[i]) != ex[i]) printf("text\n");
    }
    serve(q);
    return 0;
}
