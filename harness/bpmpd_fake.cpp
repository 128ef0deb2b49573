// The solver behind bpmpd_caller: writes down what it is asked and answers as told in the file $VD_BPMPD_FILE.ask.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include "json_out.h"
extern "C" void bpmpd(int* m, int* n, int* nz, int* qn, int* qnz, int* acolcnt, int* acolidx, double* acolnzs, int* qcolcnt, int* qcolidx, double* qcolnzs,
                      double* rhs, double* obj, double* lbound, double* ubound, double* primal, double* dual, int* status, double*, int* code, double* opt, int*)
{
  using namespace vd;
  const std::string f = std::getenv("VD_BPMPD_FILE");
  int base = 0, c = 2;
  {
    std::ifstream in(f + ".ask");
    in >> c >> base;
  }
  const auto iv = [](const int* p, int k) { return std::vector<int>(p, p + (k > 0 ? k : 0)); };
  const auto dvec = [](const double* p, int k) { return std::vector<double>(p, p + (k > 0 ? k : 0)); };
  Obj o;
  o.i("m", *m).i("n", *n).i("nz", *nz).i("qn", *qn).i("qnz", *qnz).iv("ac", iv(acolcnt, *n)).iv("ai", iv(acolidx, *nz)).dv("av", dvec(acolnzs, *nz));
  o.iv("qc", iv(qcolcnt, *n)).iv("qi", iv(qcolidx, *qnz)).dv("qv", dvec(qcolnzs, *qnz)).dv("rhs", dvec(rhs, *m)).dv("obj", dvec(obj, *n));
  o.dv("lb", dvec(lbound, *n + *m)).dv("ub", dvec(ubound, *n + *m));
  {
    std::ofstream out(f + ".seen");
    out << o.done() << "\n";
  }
  for (int j = 0; j < *n + *m; ++j)
  {
    primal[j] = base + j + 1;
    dual[j] = -1;
    status[j] = 0;
  }
  *code = c;
  *opt = 0;
}
