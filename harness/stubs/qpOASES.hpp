// The interface of qpOASES 3.2, as far as trajopt uses it. The problem's functions are those of back_driver.cpp.
#pragma once
namespace qpOASES
{
typedef double real_t;
typedef int int_t;
typedef unsigned int uint_t;
typedef int sparse_int_t;
const real_t INFTY = 1e20;
enum BooleanType { BT_FALSE, BT_TRUE };
enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
enum returnValue
{
  TERMINAL_LIST_ELEMENT = -1,
  SUCCESSFUL_RETURN = 0,
  RET_DIV_BY_ZERO,
  RET_MAX_NWSR_REACHED,
  RET_INIT_FAILED,
  RET_INIT_FAILED_INFEASIBILITY,
  RET_INIT_FAILED_UNBOUNDEDNESS,
  RET_INIT_FAILED_HOTSTART,
  RET_HOTSTART_FAILED,
  RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED,
  RET_HOTSTART_STOPPED_INFEASIBILITY,
  RET_HOTSTART_STOPPED_UNBOUNDEDNESS,
  RET_QP_SOLUTION_STARTED,
  RET_QP_INFEASIBLE,
  RET_QP_NOT_SOLVED
};
struct Options
{
  PrintLevel printLevel{ PL_MEDIUM };
  BooleanType enableRegularisation{ BT_FALSE };
  BooleanType enableEqualities{ BT_FALSE };
  real_t terminationTolerance{ 0 };
  int_t numRegularisationSteps{ 0 };
  returnValue setToDefault() { return SUCCESSFUL_RETURN; }
  returnValue setToMPC() { return SUCCESSFUL_RETURN; }
  returnValue setToReliable() { return SUCCESSFUL_RETURN; }
  returnValue ensureConsistency() { return SUCCESSFUL_RETURN; }
};
class Matrix
{
public:
  virtual ~Matrix() = default;
};
class SymmetricMatrix : public virtual Matrix
{
};
class SparseMatrix : public virtual Matrix
{
public:
  SparseMatrix() = default;
  SparseMatrix(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : nRows(nr), nCols(nc), ir(r), jc(c), val(v) {}
  sparse_int_t* createDiagInfo()
  {
    diag = true;
    return nullptr;
  }
  int_t nRows{ 0 }, nCols{ 0 };
  sparse_int_t *ir{ nullptr }, *jc{ nullptr };
  real_t* val{ nullptr };
  bool diag{ false };
};
class SymSparseMat : public SymmetricMatrix, public SparseMatrix
{
public:
  SymSparseMat() = default;
  SymSparseMat(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : SparseMatrix(nr, nc, r, c, v) {}
};
class SQProblem
{
public:
  SQProblem(int_t nV, int_t nC) : nv(nV), nc(nC) {}
  returnValue init(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                   const real_t* ubA, int_t& nWSR, real_t* cputime = nullptr);
  returnValue hotstart(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                       const real_t* ubA, int_t& nWSR, real_t* cputime = nullptr);
  returnValue getPrimalSolution(real_t* x) const;
  BooleanType isInitialised() const { return ready ? BT_TRUE : BT_FALSE; }
  returnValue setOptions(const Options&) { return SUCCESSFUL_RETURN; }
  returnValue reset()
  {
    ready = false;
    return SUCCESSFUL_RETURN;
  }
  int_t getNV() const { return nv; }
  int_t getNC() const { return nc; }

private:
  int_t nv, nc;
  bool ready{ false }, solved{ false };
};
}  // namespace qpOASES
