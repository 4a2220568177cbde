// Stand-ins for the part of VTK, ParaView Catalyst and MPI that ristra/io/catalyst uses.
// They keep what they are given, count their references as VTK does, and record what is
// written and co-processed, so that a monitor can compare it with what the caller described.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <mpi.h>
using std::cerr; using std::cin; using std::cout; using std::endl; using std::ifstream; using std::ios; using std::ofstream; using std::ostream; using std::istream; using std::ostringstream; // vtkIOStream.h

#define VTK_MAJOR_VERSION 8
#define VTK_MINOR_VERSION 2
#define VTK_FLOAT 10
#define VTK_DOUBLE 11
typedef long long vtkIdType;
typedef int vtkTypeBool;
enum { VTK_EMPTY_CELL = 0, VTK_VERTEX = 1, VTK_POLY_VERTEX = 2, VTK_LINE = 3, VTK_TRIANGLE = 5, VTK_POLYGON = 7, VTK_QUAD = 9, VTK_TETRA = 10, VTK_HEXAHEDRON = 12, VTK_POLYHEDRON = 42 };

namespace standin {
struct Log { long live = 0, made = 0; std::vector<std::string> misuse; std::map<std::string, long> by; };
inline Log & log() { static Log l; return l; }
}

class vtkObjectBase {
  int rc_ = 1;
public:
  vtkObjectBase() { standin::log().live++; standin::log().made++; }
  vtkObjectBase(const vtkObjectBase &) = delete;
  virtual ~vtkObjectBase() { standin::log().live--; }
  void Register(vtkObjectBase *) { rc_++; }
  void UnRegister(vtkObjectBase *) { if (--rc_ == 0) delete this; }
  void Delete() { UnRegister(nullptr); }
  void FastDelete() { UnRegister(nullptr); }
  int GetReferenceCount() const { return rc_; }
  virtual const char * GetClassName() const { return "vtkObjectBase"; }
  virtual void Modified() {}
};
typedef vtkObjectBase vtkObject;
#define STANDIN(T) static T * New() { return new T; } const char * GetClassName() const override { return #T; }

template <class T> class vtkSmartPointer {
  T * p_ = nullptr; template <class U> friend class vtkSmartPointer;
  void set(T * p) { if (p) p->Register(nullptr); T * o = p_; p_ = p; if (o) o->UnRegister(nullptr); }
public:
  vtkSmartPointer() {} vtkSmartPointer(std::nullptr_t) {}
  vtkSmartPointer(T * p) { set(p); }
  vtkSmartPointer(const vtkSmartPointer & o) { set(o.p_); }
  vtkSmartPointer(vtkSmartPointer && o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  template <class U> vtkSmartPointer(const vtkSmartPointer<U> & o) { set(o.p_); }
  ~vtkSmartPointer() { if (p_) p_->UnRegister(nullptr); }
  vtkSmartPointer & operator=(const vtkSmartPointer & o) { set(o.p_); return *this; }
  vtkSmartPointer & operator=(vtkSmartPointer && o) noexcept { T * t = o.p_; o.p_ = nullptr; T * old = p_; p_ = t; if (old) old->UnRegister(nullptr); return *this; }
  vtkSmartPointer & operator=(T * p) { set(p); return *this; }
  vtkSmartPointer & operator=(std::nullptr_t) { set(nullptr); return *this; }
  template <class U> vtkSmartPointer & operator=(const vtkSmartPointer<U> & o) { set(o.p_); return *this; }
  static vtkSmartPointer New() { vtkSmartPointer s; s.p_ = T::New(); return s; }
  static vtkSmartPointer Take(T * p) { vtkSmartPointer s; s.p_ = p; return s; }
  void TakeReference(T * p) { T * o = p_; p_ = p; if (o) o->UnRegister(nullptr); }
  void Reset() { set(nullptr); }
  T * operator->() const { return p_; } T & operator*() const { return *p_; } operator T *() const { return p_; }
  T * Get() const { return p_; } T * GetPointer() const { return p_; }
};
template <class T> vtkSmartPointer<T> vtkMakeSmartPointer(T * p) { return vtkSmartPointer<T>(p); }
template <class T> class vtkNew {
  T * p_ = T::New();
public:
  vtkNew() {} vtkNew(const vtkNew &) = delete; ~vtkNew() { p_->Delete(); }
  T * operator->() const { return p_; } T & operator*() const { return *p_; } operator T *() const { return p_; }
  T * Get() const { return p_; } T * GetPointer() const { return p_; }
};

class vtkAbstractArray : public vtkObject {
protected: std::string name_; bool named_ = false; int comps_ = 1;
public:
  enum { VTK_DATA_ARRAY_FREE = 0, VTK_DATA_ARRAY_DELETE = 1, VTK_DATA_ARRAY_ALIGNED_FREE = 2 };
  void SetName(const char * n) { named_ = n; name_ = n ? n : ""; } const char * GetName() const { return named_ ? name_.c_str() : nullptr; }
  virtual void SetNumberOfComponents(int n) { comps_ = n < 1 ? 1 : n; } int GetNumberOfComponents() const { return comps_; }
  virtual vtkIdType GetNumberOfValues() const = 0; vtkIdType GetNumberOfTuples() const { return GetNumberOfValues() / comps_; }
};
class vtkDataArray : public vtkAbstractArray { public: virtual double GetComponent(vtkIdType tuple, int comp) = 0; virtual const void * raw(vtkIdType tuple, int comp) = 0; virtual size_t width() const = 0; };

template <class T> struct standin_buffer { // memory of an array: its own, lent (save) or given (owned)
  std::vector<T> own; T * ext = nullptr; vtkIdType extn = 0; bool owned = false; int method = 0;
  void drop() { if (ext && owned) { if (method == vtkAbstractArray::VTK_DATA_ARRAY_DELETE) delete[] ext; else std::free((void *)ext); } ext = nullptr; extn = 0; owned = false; }
  ~standin_buffer() { drop(); }
  void detach() { if (ext) { std::vector<T> c(ext, ext + extn); drop(); own.swap(c); } }
  T & at(vtkIdType i) { return ext ? ext[i] : own.at((size_t)i); }
};
template <class T> class vtkAOSDataArrayTemplate : public vtkDataArray {
protected: standin_buffer<T> b_;
public:
  typedef T ValueType;
  STANDIN(vtkAOSDataArrayTemplate)
  vtkIdType GetNumberOfValues() const override { return b_.ext ? b_.extn : (vtkIdType)b_.own.size(); }
  void SetNumberOfTuples(vtkIdType n) { b_.detach(); b_.own.resize((size_t)(n * comps_)); } void SetNumberOfValues(vtkIdType n) { b_.detach(); b_.own.resize((size_t)n); }
  vtkTypeBool Allocate(vtkIdType n, vtkIdType = 1000) { b_.detach(); b_.own.clear(); b_.own.reserve((size_t)n); return 1; }
  void SetArray(T * a, vtkIdType size, int save, int method) { b_.drop(); b_.own.clear(); b_.ext = a; b_.extn = size; b_.owned = !save; b_.method = method; }
  void SetArray(T * a, vtkIdType size, int save) { SetArray(a, size, save, VTK_DATA_ARRAY_FREE); }
  vtkIdType InsertNextValue(T v) { b_.detach(); b_.own.push_back(v); return (vtkIdType)b_.own.size() - 1; }
  void InsertValue(vtkIdType i, T v) { b_.detach(); if ((size_t)i >= b_.own.size()) b_.own.resize((size_t)i + 1); b_.own[(size_t)i] = v; }
  void SetValue(vtkIdType i, T v) { b_.at(i) = v; } T GetValue(vtkIdType i) { return b_.at(i); }
  vtkIdType InsertNextTuple(const T * t) { for (int c = 0; c < comps_; ++c) InsertNextValue(t[c]); return GetNumberOfTuples() - 1; } vtkIdType InsertNextTypedTuple(const T * t) { return InsertNextTuple(t); }
  void SetTuple(vtkIdType i, const T * t) { for (int c = 0; c < comps_; ++c) SetValue(i * comps_ + c, t[c]); } void SetTypedTuple(vtkIdType i, const T * t) { SetTuple(i, t); }
  void SetComponent(vtkIdType i, int c, double v) { SetValue(i * comps_ + c, (T)v); } void SetTypedComponent(vtkIdType i, int c, T v) { SetValue(i * comps_ + c, v); }
  T * GetPointer(vtkIdType i) { return &b_.at(i); } T * WritePointer(vtkIdType i, vtkIdType n) { b_.detach(); if ((size_t)(i + n) > b_.own.size()) b_.own.resize((size_t)(i + n)); return b_.own.data() + i; }
  double GetComponent(vtkIdType t, int c) override { return (double)b_.at(t * comps_ + c); }
  const void * raw(vtkIdType t, int c) override { return &b_.at(t * comps_ + c); } size_t width() const override { return sizeof(T); }
};
template <class T> class vtkSOADataArrayTemplate : public vtkDataArray {
  std::vector<std::unique_ptr<standin_buffer<T>>> b_; vtkIdType values_ = 0; // values in use, over all components
  standin_buffer<T> & buf(int c) { while ((int)b_.size() <= c) b_.emplace_back(new standin_buffer<T>); return *b_[(size_t)c]; }
  T & cell(vtkIdType i) { return buf((int)(i % comps_)).at(i / comps_); }
  void grow(vtkIdType values) { for (int c = 0; c < comps_; ++c) { auto & x = buf(c); vtkIdType n = (values + comps_ - 1) / comps_; if (x.ext) { if (n > x.extn) x.detach(); else continue; } if ((vtkIdType)x.own.size() < n) x.own.resize((size_t)n); } values_ = std::max(values_, values); }
public:
  typedef T ValueType;
  STANDIN(vtkSOADataArrayTemplate)
  enum DeleteMethodEnum { FREE, DELETE };
  void SetNumberOfComponents(int n) override { vtkAbstractArray::SetNumberOfComponents(n); for (int c = 0; c < comps_; ++c) buf(c); }
  vtkIdType GetNumberOfValues() const override { return values_; }
  void SetNumberOfTuples(vtkIdType n) { grow(n * comps_); values_ = n * comps_; } void SetNumberOfValues(vtkIdType n) { grow(n); values_ = n; }
  vtkTypeBool Allocate(vtkIdType n, vtkIdType = 1000) { (void)n; values_ = 0; return 1; }
  void SetArray(int comp, T * a, vtkIdType size, bool updateMaxId = false, bool save = false, int method = FREE) {
    if (comp >= comps_) { standin::log().misuse.push_back("SetArray for a component the array does not have"); return; }
    auto & x = buf(comp); x.drop(); x.own.clear(); x.ext = a; x.extn = size; x.owned = !save; x.method = method; if (updateMaxId) values_ = size * comps_; }
  vtkIdType InsertNextValue(T v) { vtkIdType i = values_; grow(i + 1); cell(i) = v; return i; }
  void InsertValue(vtkIdType i, T v) { if (i >= values_) grow(i + 1); cell(i) = v; }
  void SetValue(vtkIdType i, T v) { check(i); cell(i) = v; } T GetValue(vtkIdType i) { check(i); return cell(i); }
  vtkIdType InsertNextTuple(const T * t) { for (int c = 0; c < comps_; ++c) InsertNextValue(t[c]); return GetNumberOfTuples() - 1; } vtkIdType InsertNextTypedTuple(const T * t) { return InsertNextTuple(t); }
  void SetTypedTuple(vtkIdType i, const T * t) { for (int c = 0; c < comps_; ++c) SetValue(i * comps_ + c, t[c]); } void SetTuple(vtkIdType i, const T * t) { SetTypedTuple(i, t); }
  void SetComponent(vtkIdType i, int c, double v) { SetValue(i * comps_ + c, (T)v); } void SetTypedComponent(vtkIdType i, int c, T v) { SetValue(i * comps_ + c, v); } T GetTypedComponent(vtkIdType i, int c) { return GetValue(i * comps_ + c); }
  double GetComponent(vtkIdType t, int c) override { check(t * comps_ + c); return (double)cell(t * comps_ + c); }
  const void * raw(vtkIdType t, int c) override { check(t * comps_ + c); return &cell(t * comps_ + c); } size_t width() const override { return sizeof(T); }
private:
  void check(vtkIdType i) { if (i < 0 || i >= values_) { standin::log().misuse.push_back("value outside the array"); } }
};
#define STANDIN_ARRAY(N, T) class N : public vtkAOSDataArrayTemplate<T> { public: STANDIN(N) };
STANDIN_ARRAY(vtkFloatArray, float) STANDIN_ARRAY(vtkDoubleArray, double) STANDIN_ARRAY(vtkIntArray, int) STANDIN_ARRAY(vtkLongArray, long) STANDIN_ARRAY(vtkLongLongArray, long long) STANDIN_ARRAY(vtkIdTypeArray, vtkIdType)

class vtkFieldData : public vtkObject {
  std::vector<vtkSmartPointer<vtkDataArray>> a_;
public:
  STANDIN(vtkFieldData)
  int AddArray(vtkDataArray * a) { for (size_t i = 0; i < a_.size(); ++i) if (a->GetName() && a_[i]->GetName() && !strcmp(a_[i]->GetName(), a->GetName())) { a_[i] = a; return (int)i; } a_.push_back(a); return (int)a_.size() - 1; }
  int SetScalars(vtkDataArray * a) { return AddArray(a); } int SetVectors(vtkDataArray * a) { return AddArray(a); } int SetTensors(vtkDataArray * a) { return AddArray(a); }
  int GetNumberOfArrays() const { return (int)a_.size(); }
  vtkDataArray * GetArray(int i) { return i >= 0 && i < (int)a_.size() ? a_[(size_t)i].Get() : nullptr; }
  vtkDataArray * GetArray(const char * n) { for (auto & x : a_) if (x->GetName() && !strcmp(x->GetName(), n)) return x; return nullptr; }
  int HasArray(const char * n) { return GetArray(n) ? 1 : 0; } void RemoveArray(const char * n) { for (size_t i = 0; i < a_.size(); ++i) if (a_[i]->GetName() && !strcmp(a_[i]->GetName(), n)) { a_.erase(a_.begin() + (long)i); return; } }
  void Initialize() { a_.clear(); }
};
class vtkPointData : public vtkFieldData { public: STANDIN(vtkPointData) };
class vtkCellData : public vtkFieldData { public: STANDIN(vtkCellData) };

class vtkPoints : public vtkObject { // single precision unless told otherwise, as in VTK
  std::vector<double> x_; bool dbl_ = false; double r(double v) const { return dbl_ ? v : (double)(float)v; }
public:
  STANDIN(vtkPoints)
  void SetDataType(int t) { dbl_ = t == VTK_DOUBLE; } void SetDataTypeToDouble() { dbl_ = true; } void SetDataTypeToFloat() { dbl_ = false; } int GetDataType() const { return dbl_ ? VTK_DOUBLE : VTK_FLOAT; }
  void SetNumberOfPoints(vtkIdType n) { x_.resize((size_t)n * 3); } vtkIdType GetNumberOfPoints() const { return (vtkIdType)x_.size() / 3; } vtkTypeBool Allocate(vtkIdType, vtkIdType = 1000) { x_.clear(); return 1; } void Reset() { x_.clear(); } void Initialize() { x_.clear(); }
  void SetPoint(vtkIdType i, double a, double b, double c) { if (i < 0 || i >= GetNumberOfPoints()) { standin::log().misuse.push_back("SetPoint outside the points"); return; } x_[(size_t)i * 3] = r(a); x_[(size_t)i * 3 + 1] = r(b); x_[(size_t)i * 3 + 2] = r(c); }
  void SetPoint(vtkIdType i, const float * p) { SetPoint(i, p[0], p[1], p[2]); } void SetPoint(vtkIdType i, const double * p) { SetPoint(i, p[0], p[1], p[2]); }
  void InsertPoint(vtkIdType i, double a, double b, double c) { if (i >= GetNumberOfPoints()) SetNumberOfPoints(i + 1); SetPoint(i, a, b, c); } void InsertPoint(vtkIdType i, const float * p) { InsertPoint(i, p[0], p[1], p[2]); } void InsertPoint(vtkIdType i, const double * p) { InsertPoint(i, p[0], p[1], p[2]); }
  vtkIdType InsertNextPoint(double a, double b, double c) { InsertPoint(GetNumberOfPoints(), a, b, c); return GetNumberOfPoints() - 1; } vtkIdType InsertNextPoint(const float * p) { return InsertNextPoint(p[0], p[1], p[2]); } vtkIdType InsertNextPoint(const double * p) { return InsertNextPoint(p[0], p[1], p[2]); }
  const double * GetPoint(vtkIdType i) const { return &x_.at((size_t)i * 3); } void GetPoint(vtkIdType i, double * p) const { for (int k = 0; k < 3; ++k) p[k] = x_.at((size_t)i * 3 + k); }
};
class vtkIdList : public vtkObject { std::vector<vtkIdType> v_; public: STANDIN(vtkIdList) void SetNumberOfIds(vtkIdType n) { v_.resize((size_t)n); } void SetId(vtkIdType i, vtkIdType x) { v_.at((size_t)i) = x; } vtkIdType InsertNextId(vtkIdType x) { v_.push_back(x); return (vtkIdType)v_.size() - 1; } vtkIdType GetNumberOfIds() const { return (vtkIdType)v_.size(); } vtkIdType GetId(vtkIdType i) const { return v_.at((size_t)i); } vtkIdType * GetPointer(vtkIdType i) { return v_.data() + i; } void Reset() { v_.clear(); } };
class vtkCellArray : public vtkObject {
public:
  std::vector<std::vector<vtkIdType>> cells;
  STANDIN(vtkCellArray)
  vtkIdType InsertNextCell(vtkIdType n, const vtkIdType * p) { cells.emplace_back(p, p + n); return (vtkIdType)cells.size() - 1; }
  vtkIdType InsertNextCell(const std::initializer_list<vtkIdType> & l) { cells.emplace_back(l); return (vtkIdType)cells.size() - 1; }
  vtkIdType InsertNextCell(vtkIdList * l) { return InsertNextCell(l->GetNumberOfIds(), l->GetPointer(0)); }
  vtkIdType InsertNextCell(int) { cells.emplace_back(); return (vtkIdType)cells.size() - 1; } void InsertCellPoint(vtkIdType i) { cells.back().push_back(i); }
  vtkIdType GetNumberOfCells() const { return (vtkIdType)cells.size(); } vtkTypeBool Allocate(vtkIdType, vtkIdType = 1000) { return 1; } void Reset() { cells.clear(); } void Initialize() { cells.clear(); }
};
class vtkDataObject : public vtkObject { vtkNew<vtkFieldData> f_; public: vtkFieldData * GetFieldData() { return f_.Get(); } };
class vtkDataSet : public vtkDataObject { vtkNew<vtkPointData> p_; vtkNew<vtkCellData> c_; public: vtkPointData * GetPointData() { return p_.Get(); } vtkCellData * GetCellData() { return c_.Get(); } };
class vtkPointSet : public vtkDataSet { vtkSmartPointer<vtkPoints> p_; public: void SetPoints(vtkPoints * p) { p_ = p; } vtkPoints * GetPoints() { return p_; } vtkIdType GetNumberOfPoints() { return p_ ? p_->GetNumberOfPoints() : 0; } };
class vtkUnstructuredGrid : public vtkPointSet {
public:
  struct Cell { int type; std::vector<vtkIdType> ids; std::vector<std::vector<vtkIdType>> faces; };
  std::vector<Cell> made; vtkSmartPointer<vtkCellArray> set; int settype = 0;
  STANDIN(vtkUnstructuredGrid)
  void SetCells(int type, vtkCellArray * c) { made.clear(); set = c; settype = type; }
  vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * p) { made.push_back({ type, { p, p + n }, {} }); return GetNumberOfCells() - 1; }
  vtkIdType InsertNextCell(int type, vtkIdList * l) { return InsertNextCell(type, l->GetNumberOfIds(), l->GetPointer(0)); }
  vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * p, vtkIdType nf, const vtkIdType * f) { Cell c{ type, { p, p + n }, {} }; for (vtkIdType i = 0; i < nf; ++i) { vtkIdType k = *f++; c.faces.emplace_back(f, f + k); f += k; } made.push_back(c); return GetNumberOfCells() - 1; }
  vtkTypeBool Allocate(vtkIdType = 1000, int = 1000) { made.clear(); set = nullptr; return 1; }
  vtkIdType GetNumberOfCells() const { return (set ? set->GetNumberOfCells() : 0) + (vtkIdType)made.size(); }
  std::vector<Cell> all() const { std::vector<Cell> r; if (set) for (auto & c : set->cells) r.push_back({ settype, c, {} }); r.insert(r.end(), made.begin(), made.end()); return r; }
  int GetCellType(vtkIdType i) { return all().at((size_t)i).type; }
};

class vtkMultiProcessController : public vtkObject { public: static vtkMultiProcessController *& global() { static vtkMultiProcessController * g = nullptr; return g; } static void SetGlobalController(vtkMultiProcessController * c) { global() = c; } static vtkMultiProcessController * GetGlobalController() { return global(); } void Initialize(int *, char ***, int) {} void Initialize(int *, char ***) {} void Finalize(int = 0) {} ~vtkMultiProcessController() override { if (global() == this) global() = nullptr; } int GetLocalProcessId() { return 0; } int GetNumberOfProcesses() { return 1; } };
class vtkMPIController : public vtkMultiProcessController { public: STANDIN(vtkMPIController) };

namespace standin { struct Written { std::string file, by; vtkSmartPointer<vtkUnstructuredGrid> grid; int pieces = 1, start = 0, end = 0, controller = 0, binary = 0; }; inline std::vector<Written> & written() { static std::vector<Written> w; return w; } }
class standin_writer : public vtkObject {
protected: standin::Written w_; vtkSmartPointer<vtkObject> contr_;
public:
  void SetFileName(const char * n) { w_.file = n ? n : ""; } void SetInputData(vtkDataObject * g) { w_.grid = dynamic_cast<vtkUnstructuredGrid *>(g); } void SetInputDataObject(vtkDataObject * g) { SetInputData(g); } void SetInputData(int, vtkDataObject * g) { SetInputData(g); }
  void SetDataModeToBinary() { w_.binary = 1; } void SetDataModeToAscii() { w_.binary = 0; } void SetDataModeToAppended() { w_.binary = 1; } void SetFileTypeToBinary() { w_.binary = 1; } void SetFileTypeToASCII() { w_.binary = 0; } void SetCompressor(std::nullptr_t) {} void SetCompressorTypeToNone() {}
  int Write() { w_.by = GetClassName(); standin::written().push_back(w_); return 1; } void Update() { Write(); }
};
class vtkXMLUnstructuredGridWriter : public standin_writer { public: STANDIN(vtkXMLUnstructuredGridWriter) };
class vtkUnstructuredGridWriter : public standin_writer { public: STANDIN(vtkUnstructuredGridWriter) };
class vtkUnstructuredGridReader : public vtkObject { public: STANDIN(vtkUnstructuredGridReader) };
class vtkXMLPUnstructuredGridWriter : public standin_writer { public: STANDIN(vtkXMLPUnstructuredGridWriter) void SetNumberOfPieces(int n) { w_.pieces = n; } void SetStartPiece(int n) { w_.start = n; } void SetEndPiece(int n) { w_.end = n; } void SetController(vtkMultiProcessController * c) { contr_ = c; w_.controller = c ? 1 : 0; } };

// ---- Catalyst
class vtkCPPipeline : public vtkObject { public: virtual int every() const { return 1; } virtual std::string script() const { return ""; } };
class vtkCPPythonScriptPipeline : public vtkCPPipeline { std::string s_; public: STANDIN(vtkCPPythonScriptPipeline) int Initialize(const char * f) { s_ = f; return 1; } std::string script() const override { return s_; } };
class vtkCPInputDataDescription : public vtkObject { vtkSmartPointer<vtkDataObject> g_; public: STANDIN(vtkCPInputDataDescription) void SetGrid(vtkDataObject * g) { g_ = g; } vtkDataObject * GetGrid() { return g_; } };
class vtkCPDataDescription : public vtkObject {
  std::map<std::string, vtkSmartPointer<vtkCPInputDataDescription>> in_;
public:
  double time = 0; vtkIdType step = -1; bool force = false, timed = false;
  STANDIN(vtkCPDataDescription)
  void AddInput(const char * n) { in_[n] = vtkSmartPointer<vtkCPInputDataDescription>::New(); } void SetTimeData(double t, vtkIdType s) { time = t; step = s; timed = true; } double GetTime() { return time; } vtkIdType GetTimeStep() { return step; }
  void ForceOutputOn() { force = true; } void ForceOutputOff() { force = false; } void SetForceOutput(bool b) { force = b; } bool GetForceOutput() { return force; }
  vtkCPInputDataDescription * GetInputDescriptionByName(const char * n) { auto i = in_.find(n); return i == in_.end() ? nullptr : i->second.Get(); } vtkCPInputDataDescription * GetInputDescription(int) { return in_.empty() ? nullptr : in_.begin()->second.Get(); }
};
namespace standin { struct Co { double time; long long step; bool force; vtkDataObject * grid; bool timed; }; struct Run { std::vector<std::string> scripts; std::vector<Co> asked, done; bool initialized = false; int dead = 0; }; inline Run & run() { static Run r; return r; } inline std::function<bool(double, long long)> & policy() { static std::function<bool(double, long long)> p; return p; } }
class vtkCPProcessor : public vtkObject {
  std::vector<vtkSmartPointer<vtkCPPipeline>> p_;
public:
  STANDIN(vtkCPProcessor)
  int Initialize() { standin::run() = standin::Run(); standin::run().initialized = true; return 1; } int Finalize() { return 1; }
  int AddPipeline(vtkCPPipeline * p) { p_.push_back(p); standin::run().scripts.push_back(p->script()); return 1; } int GetNumberOfPipelines() { return (int)p_.size(); }
  int RequestDataDescription(vtkCPDataDescription * d) { standin::run().asked.push_back({ d->time, d->step, d->force, nullptr, d->timed }); return d->force || standin::policy()(d->time, d->step); }
  int CoProcess(vtkCPDataDescription * d) { auto * i = d->GetInputDescriptionByName("input"); standin::run().done.push_back({ d->time, d->step, d->force, i ? i->GetGrid() : nullptr, d->timed }); return 1; }
  ~vtkCPProcessor() override { standin::run().dead++; }
};
