// Declaration-only stand-ins for the libROM (and MUMPS) names scaleupROM uses, so
// that clang can parse and type-check the sources that need libROM, which is not
// installed here. Nothing is ever compiled to code or run from these headers.
#ifndef LIBROM_STUB_H
#define LIBROM_STUB_H
#include <memory>
#include <string>
#include <vector>
#include "mpi.h"
#include "mfem.hpp"
namespace CAROM {
class Vector {
public:
   Vector(int dim, bool distributed);
   Vector(double *data, int dim, bool distributed, bool copy = true);
   Vector(const Vector &);
   Vector &operator=(const Vector &);
   Vector &operator=(const double &);
   Vector &operator+=(const Vector &);
   Vector &operator-=(const Vector &);
   int dim() const;
   bool distributed() const;
   double norm() const;
   void setSize(int);
   double &operator()(int);
   const double &operator()(int) const;
   const double &item(int) const;
   double &item(int);
   double *getData() const;
   void gather();
};
class Matrix {
public:
   Matrix();
   Matrix(int, int, bool, bool = false);
   Matrix(double *, int, int, bool, bool = true);
   Matrix(const Matrix &);
   Matrix &operator=(const Matrix &);
   Matrix &operator=(double);
   int numRows() const;
   int numColumns() const;
   bool distributed() const;
   void setSize(int, int);
   double &operator()(int, int);
   const double &operator()(int, int) const;
   const double &item(int, int) const;
   double &item(int, int);
   double *getData() const;
   Vector *getColumn(int) const;
   Vector *mult(const Vector &) const;
   void mult(const Vector &, Vector &) const;
   Matrix *mult(const Matrix &) const;
   void transposeMult(const Vector &, Vector &) const;
   Matrix *transposeMult(const Matrix &) const;
   void transposeMult(const Matrix &, Matrix &) const;
   void gather();
   void distribute(const int &);
};
class Options {
public:
   Options(int dim_, int max_basis_dimension_ = -1, int max_time_intervals_ = -1,
           bool update_right_SV_ = false, bool write_snapshots_ = false);
   Options setMaxBasisDimension(int);
   bool static_svd_preserve_snapshot;
};
class Database { public: enum class formats { HDF5, HDF5_MPIO, CSV }; };
class HDFDatabase : public Database {
public:
   HDFDatabase();
   bool create(const std::string &, const MPI_Comm = MPI_COMM_NULL);
   bool open(const std::string &, const std::string &, const MPI_Comm = MPI_COMM_NULL);
   bool close();
   void putInteger(const std::string &, int);
   void getInteger(const std::string &, int &);
   void putDouble(const std::string &, double);
   void getDouble(const std::string &, double &);
   void putDoubleArray(const std::string &, const double *const, int, const bool = false);
   void getDoubleArray(const std::string &, double *, int, const bool = false);
   void putIntegerArray(const std::string &, const int *const, int, const bool = false);
   void getIntegerArray(const std::string &, int *, int, const bool = false);
   int getDoubleArraySize(const std::string &);
   int getIntegerArraySize(const std::string &);
};
class BasisGenerator {
public:
   BasisGenerator(Options, bool, const std::string & = "",
                  Database::formats = Database::formats::HDF5);
   bool takeSample(double *, bool = false);
   int getNumSamples() const;
   void writeSnapshot();
   void endSamples(const std::string & = "basis");
   void loadSamples(const std::string &, const std::string & = "basis", int = 1e9,
                    Database::formats = Database::formats::HDF5);
   std::shared_ptr<const Matrix> getSnapshotMatrix();
   std::shared_ptr<const Vector> getSingularValues();
   std::shared_ptr<const Matrix> getSpatialBasis();
};
class BasisReader {
public:
   BasisReader(const std::string &, Database::formats = Database::formats::HDF5,
               const int = -1, MPI_Comm = MPI_COMM_WORLD);
   std::unique_ptr<Matrix> getSpatialBasis();
   std::unique_ptr<Matrix> getSpatialBasis(int);
   std::unique_ptr<Vector> getSingularValues();
   int getDim(const std::string);
   int getNumSamples(const std::string);
};
enum class NNLS_termination { LINF, L2 };
class NNLSSolver {
public:
   NNLSSolver(double = 1.0e-14, unsigned = 0, unsigned = 0, unsigned = 2, double = 1.0e-4,
              double = 1.0e-14, unsigned = 100000, unsigned = 100000,
              const NNLS_termination = NNLS_termination::LINF);
   void set_qr_residual_mode(int);
   void solve_parallel_with_scalapack(const Matrix &, const Vector &, const Vector &,
                                      Vector &);
   void normalize_constraints(Matrix &, Vector &, Vector &);
};
int split_dimension(const int, const MPI_Comm & = MPI_COMM_WORLD);
int get_global_offsets(const int, std::vector<int> &, const MPI_Comm & = MPI_COMM_WORLD);
bool is_same(int, int, const MPI_Comm & = MPI_COMM_WORLD);
}
namespace mfem {
#ifndef MFEM_USE_MUMPS
class MUMPSSolver : public Solver {
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_POSITIVE_DEFINITE = 1, SYMMETRIC_INDEFINITE = 2 };
   MUMPSSolver(MPI_Comm comm_ = MPI_COMM_WORLD);
   void SetOperator(const Operator &op);
   void Mult(const Vector &x, Vector &y) const;
   void SetPrintLevel(int);
   void SetMatrixSymType(MatType);
};
#endif
}
#endif
