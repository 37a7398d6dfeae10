// C27: see types.hh
#include "pbt.hh"

struct Totals {
    size_t changes = 0, commits = 0, grown = 0, touched = 0;
};
Totals types_1(pbt::Src &s);
Totals types_2(pbt::Src &s);
Totals types_3(pbt::Src &s);
Totals types_4(pbt::Src &s);
Totals types_5(pbt::Src &s);
Totals types_6(pbt::Src &s);

void pbt_init() {}

void pbt_case(pbt::Src &src) {
    Totals (*const worlds[])(pbt::Src &) = {types_1, types_2, types_3, types_4, types_5, types_6};
    static const char *const names[] = {"world 1", "world 2", "world 3", "world 4", "world 5", "world 6"};
    size_t k = src.below(6);
    pbt::label(names[k]);
    Totals t = worlds[k](src);
    pbt::count("changes", t.changes);
    pbt::count("commits", t.commits);
    if (t.grown > 3) pbt::label("created several times");
    if (t.touched >= 4) pbt::label("four or more types");
    if (t.commits >= 2 && t.touched >= 2 && t.changes >= 6) pbt::nontrivial();
}
