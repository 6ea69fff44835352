// In-memory stand-in for casacore tables (included inside namespace casacore
// by mini.h). Tables live in a registry by absolute name; subtables are
// name/SUB. A Table is a handle: a shared table, optionally a selection of its
// rows and columns.

// ---- column descriptions ----------------------------------------------------
template <class T> constexpr DataType TypeOf() {
  if constexpr (std::is_same_v<T, bool>) return TpBool;
  else if constexpr (std::is_same_v<T, int>) return TpInt;
  else if constexpr (std::is_same_v<T, Int64>) return TpInt64;
  else if constexpr (std::is_same_v<T, unsigned>) return TpUInt;
  else if constexpr (std::is_same_v<T, float>) return TpFloat;
  else if constexpr (std::is_same_v<T, double>) return TpDouble;
  else if constexpr (std::is_same_v<T, Complex>) return TpComplex;
  else if constexpr (std::is_same_v<T, DComplex>) return TpDComplex;
  else if constexpr (std::is_same_v<T, String>) return TpString;
  else return TpOther;
}
struct ColBase;
class ColumnDesc {
 public:
  enum Option { Direct = 1, Undefined = 2, FixedShape = 4 };
  ColumnDesc() = default;
  ColumnDesc(std::string n, DataType t, bool array, std::function<std::shared_ptr<ColBase>(const ColumnDesc&)> make) : name_(std::move(n)), type_(t), array_(array), make_(std::move(make)) {}
  const std::string& name() const { return name_; }
  DataType dataType() const { return type_; }
  bool isArray() const { return array_; }
  bool isScalar() const { return !array_; }
  const IPosition& shape() const { return shape_; }
  void setShape(const IPosition& s, bool direct = false) { shape_ = s; options_ |= FixedShape | (direct ? Direct : 0); }
  int options() const { return options_; }
  // As in casacore: an option that asks for a fixed shape needs one.
  void setOptions(int o) { options_ = o; if (!(o & FixedShape)) shape_ = IPosition(); }
  const Record& keywordSet() const { return kw_; }
  Record& rwKeywordSet() { return kw_; }
  std::string& dataManagerType() { return dm_type; }
  void Rename(const std::string& n) { name_ = n; }
  void SetMake(std::function<std::shared_ptr<ColBase>(const ColumnDesc&)> m) { make_ = std::move(m); }
  std::shared_ptr<ColBase> Make() const { return make_(*this); }
  std::string dm_type, dm_name;

 private:
  std::string name_;
  DataType type_ = TpOther;
  bool array_ = false;
  IPosition shape_;
  int options_ = 0;
  Record kw_;
  std::function<std::shared_ptr<ColBase>(const ColumnDesc&)> make_;
};
struct ColBase {
  explicit ColBase(const ColumnDesc& d) : desc(d) {}
  virtual ~ColBase() = default;
  virtual void AddRows(size_t n) = 0;
  virtual void RemoveRow(size_t i) = 0;
  virtual std::shared_ptr<ColBase> Copy() const = 0;
  virtual int Compare(size_t, size_t) const { throw AipsError("column " + desc.name() + " cannot be compared"); }
  virtual double Number(size_t) const { throw AipsError("column " + desc.name() + " is no number"); }
  virtual void CopyCell(size_t to, const ColBase& src, size_t from) = 0;
  virtual std::string Text(size_t) const { throw AipsError("column " + desc.name() + " is no string"); }
  ColumnDesc desc;
};
template <class T> struct ScaCol : ColBase {
  using ColBase::ColBase;
  std::deque<T> v;
  T def{};
  void CopyCell(size_t to, const ColBase& src, size_t from) override { v.at(to) = dynamic_cast<const ScaCol&>(src).v.at(from); }
  void AddRows(size_t n) override { v.resize(v.size() + n, def); }
  void RemoveRow(size_t i) override { v.erase(v.begin() + i); }
  std::shared_ptr<ColBase> Copy() const override { return std::make_shared<ScaCol>(*this); }
  int Compare(size_t i, size_t j) const override { return v[i] < v[j] ? -1 : v[j] < v[i] ? 1 : 0; }
  double Number(size_t i) const override { if constexpr (std::is_arithmetic_v<T>) return v.at(i); else return ColBase::Number(i); }
  std::string Text(size_t i) const override { if constexpr (std::is_same_v<T, String>) return v.at(i); else return ColBase::Text(i); }
};
template <class T> struct ArrCol : ColBase {
  using ColBase::ColBase;
  std::deque<Array<T>> v;
  void CopyCell(size_t to, const ColBase& src, size_t from) override { const Array<T>& a = dynamic_cast<const ArrCol&>(src).v.at(from); v.at(to).reference(a.ndim() ? a.copy() : Array<T>()); }
  void AddRows(size_t n) override { for (; n; --n) v.push_back(desc.shape().empty() ? Array<T>() : Array<T>(desc.shape())); }
  void RemoveRow(size_t i) override { for (; i + 1 < v.size(); ++i) v[i].reference(v[i + 1]); v.pop_back(); }
  std::shared_ptr<ColBase> Copy() const override {
    auto c = std::make_shared<ArrCol>(desc);
    for (const auto& a : v) c->v.push_back(a.ndim() ? a.copy() : Array<T>());
    return c;
  }
};
template <class T> class ScalarColumnDesc : public ColumnDesc {
 public:
  explicit ScalarColumnDesc(const std::string& n, const std::string& = "", int = 0) : ColumnDesc(n, TypeOf<T>(), false, [](const ColumnDesc& d) { return std::make_shared<ScaCol<T>>(d); }) {}
  void setDefault(const T& def) { SetMake([def](const ColumnDesc& d) { auto c = std::make_shared<ScaCol<T>>(d); c->def = def; return c; }); }
};
template <class T> class ArrayColumnDesc : public ColumnDesc {
 public:
  explicit ArrayColumnDesc(const std::string& n, const std::string& = "", const IPosition& shape = IPosition(), int options = 0) : ColumnDesc(n, TypeOf<T>(), true, [](const ColumnDesc& d) { return std::make_shared<ArrCol<T>>(d); }) {
    if (!shape.empty()) setShape(shape);
    if (options) { const IPosition s = shape; if (s.empty()) setOptions(options & ~FixedShape); else { setOptions(options); setShape(s); } }
  }
  ArrayColumnDesc(const std::string& n, int) : ArrayColumnDesc(n) {}
};
class TableDesc {
 public:
  enum TDOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  TableDesc() = default;
  explicit TableDesc(const std::string&, TDOption = New) {}
  TableDesc(const std::string&, const std::string&, TDOption) {}
  ColumnDesc& addColumn(const ColumnDesc& d) { if (isColumn(d.name())) throw AipsError("column " + d.name() + " exists already"); cols_.push_back(d); return cols_.back(); }
  ColumnDesc& addColumn(const ColumnDesc& d, const std::string& n) { ColumnDesc c(d); c.Rename(n); return addColumn(c); }
  void removeColumn(const std::string& n) { for (size_t i = 0; i < cols_.size(); ++i) if (cols_[i].name() == n) { cols_.erase(cols_.begin() + i); return; } throw AipsError("no column " + n); }
  bool isColumn(const std::string& n) const { for (auto& c : cols_) if (c.name() == n) return true; return false; }
  const ColumnDesc& columnDesc(const std::string& n) const { for (auto& c : cols_) if (c.name() == n) return c; throw AipsError("no column " + n); }
  const ColumnDesc& operator[](const std::string& n) const { return columnDesc(n); }
  const ColumnDesc& columnDesc(size_t i) const { return cols_.at(i); }
  const ColumnDesc& operator[](size_t i) const { return cols_.at(i); }
  ColumnDesc& rwColumnDesc(const std::string& n) { return const_cast<ColumnDesc&>(columnDesc(n)); }
  size_t ncolumn() const { return cols_.size(); }
  Vector<String> columnNames() const { Vector<String> v(cols_.size()); for (size_t i = 0; i < cols_.size(); ++i) v[i] = cols_[i].name(); return v; }
  void adjustHypercolumns(const std::map<String, String>&) {}
  void defineHypercolumn(const std::string&, size_t, const Vector<String>&) {}
  Record& rwKeywordSet() { return kw_; }
  const Record& keywordSet() const { return kw_; }
  std::string& comment() { return comment_; }

 private:
  std::string comment_;
  std::vector<ColumnDesc> cols_;
  Record kw_;
};

// ---- storage managers: only their names count ---------------------------------
class DataManager {
 public:
  DataManager(const std::string& type, const std::string& name) : type_(type), name_(name) {}
  virtual ~DataManager() = default;
  String dataManagerType() const { return type_; }
  String dataManagerName() const { return name_; }
  using Ctor = DataManager* (*)(const String&, const Record&);
  static Ctor getCtor(const std::string& type) {
    static std::mutex m; static std::map<std::string, Ctor> known;
    if (type == "DyscoStMan") return [](const String& n, const Record&) { return new DataManager("DyscoStMan", n); };
    if (type == "SiscoStMan") return [](const String& n, const Record&) { return new DataManager("SiscoStMan", n); };
    if (type == "StokesIStMan") return [](const String& n, const Record&) { return new DataManager("StokesIStMan", n); };
    if (type == "UvwStMan") return [](const String& n, const Record&) { return new DataManager("UvwStMan", n); };
    if (type == "AntennaPairStMan") return [](const String& n, const Record&) { return new DataManager("AntennaPairStMan", n); };
    throw AipsError("storage manager " + type + " is not available");
  }
 private:
  std::string type_, name_;
};
using DataManagerCtor = DataManager::Ctor;
struct TiledColumnStMan : DataManager { TiledColumnStMan(const std::string& n, const IPosition&) : DataManager("TiledColumnStMan", n) {} };
struct StandardStMan : DataManager { explicit StandardStMan(const std::string& n = "SSM", size_t = 0) : DataManager("StandardStMan", n) {} explicit StandardStMan(int) : StandardStMan() {} };
struct IncrementalStMan : DataManager { explicit IncrementalStMan(const std::string& n = "ISM", size_t = 0) : DataManager("IncrementalStMan", n) {} };
class DataManInfo {
 public:
  static Record adjustStMan(const Record& in, const std::string& type, bool = true) {
    Record out;
    for (uInt i = 0; i < in.nfields(); ++i) { Record s = in.subRecord(i); if (s.asString("TYPE") == "LofarStMan") s.define("TYPE", type); out.defineRecord(in.name(i), s); }
    return out;
  }
  static void removeDminfoColumns(Record& info, const Vector<String>& cols, const std::string& keep = "") {
    Record out;
    for (uInt i = 0; i < info.nfields(); ++i) {
      Record s = info.subRecord(i);
      if (s.asString("TYPE") != keep) {
        std::vector<String> left;
        for (const String& c : s.asArrayString("COLUMNS")) if (linearSearch1(cols, c) < 0) left.push_back(c);
        if (left.empty()) continue;
        s.define("COLUMNS", Vector<String>(left));
      }
      out.defineRecord(info.name(i), s);
    }
    info = out;
  }
  static void setTiledStMan(Record& info, const Vector<String>& cols, const std::string& type, const std::string& name, const IPosition&) {
    removeDminfoColumns(info, cols);
    Record s; s.define("TYPE", type); s.define("NAME", name); s.define("COLUMNS", cols);
    info.defineRecord("*" + name, s);
  }
};

// ---- tables -------------------------------------------------------------------
class TableInfo {
 public:
  void setType(const std::string& t) { type_ = t; }
  const std::string& type() const { return type_; }
  void readmeAddLine(const std::string& l) { readme_ += l + "\n"; }
 private:
  std::string type_, readme_;
};
struct TableRep {
  TableInfo info;
  std::string name;
  size_t nrow = 0;
  std::vector<std::shared_ptr<ColBase>> cols;
  Record kw;
  uint64_t n_flush = 0;
  std::shared_ptr<ColBase> Col(const std::string& n) const { for (auto& c : cols) if (c->desc.name() == n) return c; return nullptr; }
};
inline std::string AbsName(const std::string& n) {
  if (n.empty()) return n;
  std::string a = std::filesystem::absolute(n).lexically_normal().string();
  while (a.size() > 1 && a.back() == '/') a.pop_back();
  return a;
}
struct Registry {
  std::mutex m;
  std::map<std::string, std::shared_ptr<TableRep>> t;
  static Registry& I() { static Registry r; return r; }
  std::shared_ptr<TableRep> Find(const std::string& n) { std::lock_guard<std::mutex> l(m); auto i = t.find(AbsName(n)); return i == t.end() ? nullptr : i->second; }
  void Put(const std::string& n, std::shared_ptr<TableRep> r) { std::lock_guard<std::mutex> l(m); t[AbsName(n)] = std::move(r); }
  void Clear() { std::lock_guard<std::mutex> l(m); t.clear(); }
  void Remove(const std::string& n) { std::lock_guard<std::mutex> l(m); const std::string a = AbsName(n); for (auto i = t.begin(); i != t.end();) if (i->first == a || i->first.compare(0, a.size() + 1, a + "/") == 0) i = t.erase(i); else ++i; }
};
class FileLocker { public: enum LockType { Read, Write }; };
class TableLock { public: enum LockOption { PermanentLocking, AutoLocking, UserLocking, AutoNoReadLocking, NoLocking, DefaultLocking }; TableLock(LockOption = AutoLocking) {} };

// A value or condition per row of a table, or an expression on record fields.
class TableExprNode {
 public:
  TableExprNode() = default;
  template <class T> explicit TableExprNode(const Vector<T>& v) { auto s = std::make_shared<std::set<double>>(); for (const T& x : v) s->insert(double(x)); nums_ = s; }
  static TableExprNode Column(const std::shared_ptr<ColBase>& c) { TableExprNode n; n.col_ = c; return n; }
  static TableExprNode Predicate(std::function<bool(size_t)> f) { TableExprNode n; n.test_ = std::move(f); return n; }
  bool Test(size_t row) const { if (!test_) throw AipsError("not a condition"); return test_(row); }
  int getInt(size_t row) const { return int(Number(row)); }
  double getDouble(size_t row) const { return Number(row); }
  bool getBool(size_t row) const { return Number(row) != 0; }
  String getString(size_t row) const { return Text(row); }
  double Number(size_t row) const { if (!col_) throw AipsError("not a column"); return col_->Number(row); }
  std::string Text(size_t row) const { if (!col_) throw AipsError("not a column"); return col_->Text(row); }
  explicit TableExprNode(const std::string& e) : e_(e) { Record r; for (auto n : {"nchan", "bl"}) r.define(n, 1.0); double d; get(r, d); }
  TableExprNode in(const Vector<String>& v) const { auto c = col_; std::set<std::string> s(v.begin(), v.end()); return Predicate([c, s](size_t r) { return s.count(c->Text(r)) != 0; }); }
  TableExprNode in(const TableExprNode& e) const { auto c = col_; auto s = e.nums_; if (!c || !s) throw AipsError("in: not supported here"); return Predicate([c, s](size_t r) { return s->count(c->Number(r)) != 0; }); }
  bool isNull() const { return !col_ && !test_ && !nums_ && e_.empty(); }
  friend TableExprNode operator==(const TableExprNode& e, const Regex& x) { auto c = e.col_; return Predicate([c, x](size_t r) { return String(c->Text(r)).matches(x); }); }
  friend TableExprNode operator==(const TableExprNode& e, const String& x) { auto c = e.col_; return Predicate([c, x](size_t r) { return c->Text(r) == x; }); }
  friend TableExprNode operator<(double v, const TableExprNode& e) { auto c = e.col_; return Predicate([c, v](size_t r) { return v < c->Number(r); }); }
  friend TableExprNode operator>(double v, const TableExprNode& e) { auto c = e.col_; return Predicate([c, v](size_t r) { return v > c->Number(r); }); }
  friend TableExprNode near(double v, const TableExprNode& e, double tol) { auto c = e.col_; return Predicate([c, v, tol](size_t r) { return casacore::near(v, c->Number(r), tol); }); }
  TableExprNode operator!() const { auto f = test_; return Predicate([f](size_t r) { return !f(r); }); }
  friend TableExprNode operator==(const TableExprNode& e, double v) { auto c = e.col_; return Predicate([c, v](size_t r) { return c->Number(r) == v; }); }
  friend TableExprNode operator&&(const TableExprNode& a, const TableExprNode& b) { return Predicate([a, b](size_t r) { return a.Test(r) && b.Test(r); }); }
  friend TableExprNode operator||(const TableExprNode& a, const TableExprNode& b) { return Predicate([a, b](size_t r) { return a.Test(r) || b.Test(r); }); }
  template <class T> void get(const Record& r, T& out) const {
    Parser p{e_.c_str(), r};
    const double d = p.Cond();
    p.Skip();
    if (*p.s) throw AipsError("expression error in " + e_);
    out = T(d);
  }
 private:
  struct Parser {
    const char* s; const Record& r;
    void Skip() { while (*s == ' ' || *s == '\t') ++s; }
    bool Eat(const char* t) { Skip(); const size_t n = std::strlen(t); if (std::strncmp(s, t, n)) return false; s += n; return true; }
    double Cond() {
      double a = Sum();
      for (;;) {
        if (Eat("<=")) a = a <= Sum(); else if (Eat(">=")) a = a >= Sum(); else if (Eat("<")) a = a < Sum(); else if (Eat(">")) a = a > Sum();
        else if (Eat("==")) a = a == Sum(); else if (Eat("!=")) a = a != Sum(); else return a;
      }
    }
    double Sum() { double a = Prod(); for (;;) { if (Eat("+")) a += Prod(); else if (Eat("-")) a -= Prod(); else return a; } }
    double Prod() { double a = Atom(); for (;;) { if (Eat("**")) a = std::pow(a, Atom()); else if (Eat("*")) a *= Atom(); else if (Eat("//")) a = std::floor(a / Atom()); else if (Eat("/")) a /= Atom(); else if (Eat("%")) a = std::fmod(a, Atom()); else return a; } }
    double Atom() {
      if (Eat("-")) return -Atom();
      if (Eat("+")) return Atom();
      if (Eat("(")) { const double a = Cond(); if (!Eat(")")) throw AipsError("missing )"); return a; }
      Skip();
      if (std::isalpha((unsigned char)*s)) {
        std::string n;
        while (std::isalnum((unsigned char)*s) || *s == '_') n += *s++;
        if (Eat("(")) {
          std::vector<double> a;
          do a.push_back(Cond()); while (Eat(","));
          if (!Eat(")")) throw AipsError("missing )");
          if (n == "iif" && a.size() == 3) return a[0] ? a[1] : a[2];
          if (n == "min" && a.size() == 2) return std::min(a[0], a[1]);
          if (n == "max" && a.size() == 2) return std::max(a[0], a[1]);
          if (n == "sqrt" && a.size() == 1) return std::sqrt(a[0]);
          if ((n == "int" || n == "floor") && a.size() == 1) return n == "int" ? std::trunc(a[0]) : std::floor(a[0]);
          throw AipsError("unknown function " + n);
        }
        auto i = r.v.find(n);
        if (i == r.v.end()) throw AipsError("unknown field " + n);
        return i->second;
      }
      char* e = nullptr;
      const double d = std::strtod(s, &e);
      if (e == s) throw AipsError("expression error");
      s = e;
      return d;
    }
  };
  std::string e_;
  std::shared_ptr<ColBase> col_;
  std::function<bool(size_t)> test_;
  std::shared_ptr<std::set<double>> nums_;
};
class RecordGram { public: static TableExprNode parse(const Record& r, const std::string& e) { TableExprNode n; n = TableExprNode(e); double d; n.get(r, d); return n; } };

class SetupNewTable;
class Table {
 public:
  enum TableOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  enum TableType { Plain, Memory };
  Table() = default;
  explicit Table(const SetupNewTable&);
  Table(const SetupNewTable&, TableType, size_t = 0);
  Table(const SetupNewTable&, size_t);
  explicit Table(const std::string& name, TableOption = Old) : rep_(Registry::I().Find(name)) { if (!rep_) throw AipsError("Table " + name + " does not exist"); }
  Table(const std::string& name, const TableLock&, TableOption o = Old) : Table(name, o) {}
  explicit Table(std::shared_ptr<TableRep> r) : rep_(std::move(r)) {}
  virtual ~Table() = default;
  bool isNull() const { return !rep_; }
  const Record& keywordSet() const { return Rep().kw; }
  Record& rwKeywordSet() { return Rep().kw; }
  TableInfo& tableInfo() { return Rep().info; }
  size_t nrow() const { return rows_ ? rows_->size() : Rep().nrow; }
  String tableName() const { return rep_ ? rep_->name : std::string(); }
  // A reference that lives as long as the table, like casacore's.
  const TableDesc& tableDesc() const {
    auto d = std::make_shared<TableDesc>(MakeDesc());
    desc_keep_.push_back(d);
    return *d;
  }
  TableDesc MakeDesc() const {
    TableDesc d;
    for (auto& c : Rep().cols) if (Has(c->desc.name())) d.addColumn(c->desc);
    for (uInt i = 0; i < rep_->kw.nfields(); ++i) if (rep_->kw.type(i) == TpDouble) d.rwKeywordSet().define(rep_->kw.name(i), rep_->kw.asDouble(rep_->kw.name(i)));
    return d;
  }
  TableDesc actualTableDesc() const { return MakeDesc(); }
  Record dataManagerInfo() const {
    std::vector<std::string> names; std::map<std::string, std::vector<String>> cols; std::map<std::string, std::string> types;
    for (auto& c : Rep().cols) {
      if (!Has(c->desc.name())) continue;
      const std::string n = c->desc.dm_name;
      if (!cols.count(n)) names.push_back(n);
      cols[n].push_back(c->desc.name()); types[n] = c->desc.dm_type;
    }
    Record out;
    for (size_t i = 0; i < names.size(); ++i) { Record s; s.define("TYPE", types[names[i]]); s.define("NAME", names[i]); s.define("COLUMNS", Vector<String>(cols[names[i]])); out.defineRecord("*" + std::to_string(i + 1), s); }
    return out;
  }
  void addRow(size_t n = 1, bool = false) { Root(); for (auto& c : rep_->cols) c->AddRows(n); rep_->nrow += n; }
  void removeRow(size_t i) { Root(); if (i >= rep_->nrow) throw AipsError("removeRow: no such row"); for (auto& c : rep_->cols) c->RemoveRow(i); --rep_->nrow; }
  void removeRow(const Vector<rownr_t>& r) { std::vector<rownr_t> v = r.tovector(); std::sort(v.begin(), v.end(), std::greater<rownr_t>()); for (rownr_t i : v) removeRow(size_t(i)); }
  void addColumn(const ColumnDesc& d, const std::string& dm_type, const std::string& dm_name) {
    Root();
    if (rep_->Col(d.name())) throw AipsError("Column " + d.name() + " exists already");
    auto c = d.Make();
    c->desc.dm_type = dm_type; c->desc.dm_name = dm_name;
    c->AddRows(rep_->nrow);
    rep_->cols.push_back(c);
  }
  void addColumn(const ColumnDesc& d, bool = false) { addColumn(d, "StandardStMan", rep_->cols.empty() ? "SSM" : rep_->cols[0]->desc.dm_name); }
  void addColumn(const ColumnDesc& d, const DataManager& m) { addColumn(d, m.dataManagerType(), m.dataManagerName()); }
  void addColumn(const ColumnDesc& d, const std::string& dm, bool by_name) { addColumn(d, dm, dm); (void)by_name; }
  void addColumn(const ColumnDesc& d, const char* dm, bool by_name) { addColumn(d, std::string(dm), by_name); }
  void addColumn(const TableDesc& d, const DataManager& m) { for (size_t i = 0; i < d.ncolumn(); ++i) addColumn(d[i], m); }
  void addColumn(const TableDesc& d, const Record& dm) { for (size_t i = 0; i < d.ncolumn(); ++i) addColumn(d[i], dm.asString("TYPE"), dm.asString("NAME")); }
  void removeColumn(const std::string& n) { Root(); for (size_t i = 0; i < rep_->cols.size(); ++i) if (rep_->cols[i]->desc.name() == n) { rep_->cols.erase(rep_->cols.begin() + i); return; } throw AipsError("no column " + n); }
  void renameColumn(const std::string& to, const std::string& from) { Rep().Col(from)->desc.Rename(to); }
  void flush(bool = false, bool = false) { ++Rep().n_flush; }
  void reopenRW() { Rep(); }
  bool isWritable() const { return true; }
  void lock(bool = true) {}
  void unlock() {}
  void unmarkForDelete() {}
  Table project(const Block<String>& cols) const {
    Table t(*this);
    auto set = std::make_shared<std::set<std::string>>();
    for (size_t i = 0; i < cols.size(); ++i) { if (!Has(cols[i]) || !Rep().Col(cols[i])) throw AipsError("project: no column " + cols[i]); set->insert(cols[i]); }
    t.cols_ = set;
    return t;
  }
  Table operator()(const Vector<rownr_t>& r) const { Table t(*this); auto v = std::make_shared<std::vector<size_t>>(); for (rownr_t i : r) v->push_back(RootRow(i)); t.rows_ = v; return t; }
  Table operator()(const TableExprNode& e) const { Table t(*this); auto v = std::make_shared<std::vector<size_t>>(); for (size_t i = 0; i < nrow(); ++i) if (e.Test(RootRow(i))) v->push_back(RootRow(i)); t.rows_ = v; return t; }
  Table sort(const Block<String>& cols, int order = Sort::Ascending, int options = 0) const {
    auto v = std::make_shared<std::vector<size_t>>();
    for (size_t i = 0; i < nrow(); ++i) v->push_back(RootRow(i));
    std::vector<std::shared_ptr<ColBase>> c;
    for (size_t k = 0; k < cols.size(); ++k) c.push_back(Need(cols[k]));
    auto cmp = [&](size_t a, size_t b) { for (auto& x : c) { const int d = x->Compare(a, b); if (d) return order == Sort::Descending ? -d : d; } return 0; };
    std::stable_sort(v->begin(), v->end(), [&](size_t a, size_t b) { return cmp(a, b) < 0; });
    if (options & Sort::NoDuplicates) v->erase(std::unique(v->begin(), v->end(), [&](size_t a, size_t b) { return cmp(a, b) == 0; }), v->end());
    Table t(*this); t.rows_ = v;
    return t;
  }
  Table sort(const std::string& col, int order = Sort::Ascending, int options = 0) const { return sort(Block<String>(1, String(col)), order, options); }
  TableExprNode col(const std::string& n) const;
  // Row numbers in the underlying table, or in another selection of it.
  Vector<rownr_t> rowNumbers() const { Vector<rownr_t> v(nrow()); for (size_t i = 0; i < nrow(); ++i) v[i] = RootRow(i); return v; }
  Vector<rownr_t> rowNumbers(const Table& in, bool = false) const {
    if (in.rep_ != rep_) throw AipsError("rowNumbers: tables are not related");
    Vector<rownr_t> v = rowNumbers();
    if (in.rows_) { std::map<size_t, size_t> back; for (size_t i = 0; i < in.rows_->size(); ++i) back[(*in.rows_)[i]] = i; for (size_t i = 0; i < v.size(); ++i) v[i] = back.at(v[i]); }
    return v;
  }
  void deepCopy(const std::string& name, TableOption o, bool = false) const;
  void deepCopy(const std::string& name, const Record&, TableOption o, bool = false) const { deepCopy(name, o); }
  static bool isReadable(const std::string& n, bool = false) { return bool(Registry::I().Find(n)); }
  static bool canDeleteTable(const std::string& n) { return isReadable(n); }
  static void deleteTable(const std::string& n, bool = false) { Registry::I().Remove(n); }

  TableRep& Rep() const { if (!rep_) throw AipsError("null table used"); return *rep_; }
  const std::shared_ptr<TableRep>& Shared() const { return rep_; }
  size_t RootRow(size_t i) const { if (i >= nrow()) throw AipsError("row " + std::to_string(i) + " of table " + tableName() + " does not exist"); return rows_ ? (*rows_)[i] : i; }
  bool Has(const std::string& n) const { return !cols_ || cols_->count(n); }
  std::shared_ptr<ColBase> Need(const std::string& n) const { auto c = Has(n) ? Rep().Col(n) : nullptr; if (!c) throw AipsError("Table column " + n + " is unknown in " + tableName()); return c; }

 private:
  void Root() const { Rep(); if (rows_ || cols_) throw AipsError("not possible on a selection of a table"); }
  std::shared_ptr<TableRep> rep_;
  mutable std::vector<std::shared_ptr<const TableDesc>> desc_keep_;
  std::shared_ptr<std::vector<size_t>> rows_;
  std::shared_ptr<std::set<std::string>> cols_;
};
inline void Record::defineTable(const std::string& n, const Table& x) { Forget(n); order.push_back(n); t[n] = std::make_shared<Table>(x); }
inline const Table& Record::asTable(const std::string& n) const { return *At(t, n); }
inline const Table& Record::asTable(uInt i) const { return *At(t, order.at(i)); }

class SetupNewTable {
 public:
  SetupNewTable(const std::string& name, const TableDesc& d, Table::TableOption o) : rep_(std::make_shared<TableRep>()) {
    if (o == Table::NewNoReplace && Registry::I().Find(name)) throw AipsError("Table " + name + " already exists");
    rep_->name = AbsName(name);
    for (size_t i = 0; i < d.ncolumn(); ++i) { auto c = d[i].Make(); c->desc.dm_type = "StandardStMan"; c->desc.dm_name = "StandardStMan"; rep_->cols.push_back(c); }
    rep_->kw = d.keywordSet();
    store_ = o != Table::Scratch && !name.empty();
  }
  void setShapeColumn(const std::string& n, const IPosition& s) { rep_->Col(n)->desc.setShape(s); }
  void bindAll(const DataManager& m) { for (auto& c : rep_->cols) Bind(*c, m.dataManagerType(), m.dataManagerName()); }
  void bindColumn(const std::string& n, const DataManager& m) { if (auto c = rep_->Col(n)) Bind(*c, m.dataManagerType(), m.dataManagerName()); else throw AipsError("bindColumn: no column " + n); }
  void bindCreate(const Record& info) {
    for (uInt i = 0; i < info.nfields(); ++i) { const Record& s = info.subRecord(i); for (const String& n : s.asArrayString("COLUMNS")) if (auto c = rep_->Col(n)) Bind(*c, s.asString("TYPE"), s.asString("NAME")); }
  }
  std::shared_ptr<TableRep> Take(size_t rows, bool memory) const {
    for (auto& c : rep_->cols) c->AddRows(rows);
    rep_->nrow += rows;
    if (store_ && !memory) { Registry::I().Remove(rep_->name); Registry::I().Put(rep_->name, rep_); }
    return rep_;
  }
 private:
  static void Bind(ColBase& c, const std::string& t, const std::string& n) { c.desc.dm_type = t; c.desc.dm_name = n; }
  std::shared_ptr<TableRep> rep_;
  bool store_ = true;
};
inline Table::Table(const SetupNewTable& s) : rep_(s.Take(0, false)) {}
inline Table::Table(const SetupNewTable& s, TableType t, size_t n) : rep_(s.Take(n, t == Memory)) {}
inline Table::Table(const SetupNewTable& s, size_t n) : rep_(s.Take(n, false)) {}
inline void Table::deepCopy(const std::string& name, TableOption o, bool) const {
  auto r = std::make_shared<TableRep>();
  if (o == NewNoReplace && Registry::I().Find(name)) throw AipsError("Table " + name + " already exists");
  r->name = AbsName(name);
  if (rows_) throw AipsError("deepCopy of a selection is not supported here");
  for (auto& c : Rep().cols) if (Has(c->desc.name())) r->cols.push_back(c->Copy());
  r->nrow = rep_->nrow;
  r->kw = rep_->kw;
  Registry::I().Put(name, r);
}
inline TableExprNode Table::col(const std::string& n) const { auto c = Need(n); return TableExprNode::Column(c); }

class TableCopy { public: static void copyInfo(Table&, const Table&) {} 
  static void copySubTables(Table& out, const Table& in, bool no_rows = false, const Block<String>& omit = Block<String>()) {
    const Record kw = in.keywordSet();
    for (uInt i = 0; i < kw.nfields(); ++i) {
      if (kw.type(i) != TpTable) continue;
      const std::string n = kw.name(i);
      bool skip = false;
      for (size_t k = 0; k < omit.size(); ++k) skip = skip || omit[k] == n;
      if (skip) continue;
      const std::string name = out.tableName() + "/" + n;
      kw.asTable(i).deepCopy(name, Table::New);
      Table t(name);
      if (no_rows) while (t.nrow()) t.removeRow(t.nrow() - 1);
      out.rwKeywordSet().defineTable(n, t);
    }
  }
};
class TableLocker { public: TableLocker(Table&, FileLocker::LockType) {} };
class RefRows {
 public:
  RefRows(const Vector<rownr_t>& r) { rows_.assign(r); }
  // From the first up to and including the last.
  RefRows(rownr_t first, rownr_t last) : rows_(last + 1 - first) { for (size_t i = 0; i < rows_.size(); ++i) rows_[i] = first + i; }
  const Vector<rownr_t>& rowVector() const { return rows_; }
  Vector<rownr_t> convert() const { return rows_; }
  size_t nrows() const { return rows_.size(); }
 private:
  Vector<rownr_t> rows_;
};
class TableColumn {
 public:
  TableColumn() = default;
  TableColumn(const Table& t, const std::string& n) : tab_(t), base_(t.Need(n)) {}
  size_t nrow() const { return tab_.nrow(); }
  bool isNull() const { return !base_; }
  const ColumnDesc& columnDesc() const { return base_->desc; }
  const Record& keywordSet() const { return base_->desc.keywordSet(); }
  Record& rwKeywordSet() const { return base_->desc.rwKeywordSet(); }
  bool isDefined(size_t) const { return true; }
 protected:
  Table tab_;
  std::shared_ptr<ColBase> base_;
};
template <class T> class ScalarColumn : public TableColumn {
 public:
  ScalarColumn() = default;
  ScalarColumn(const Table& t, const std::string& n) : TableColumn(t, n), c_(std::dynamic_pointer_cast<ScaCol<T>>(base_).get()) { if (!c_) throw AipsError("column " + n + " has another type"); }
  void attach(const Table& t, const std::string& n) { *this = ScalarColumn(t, n); }
  T operator()(size_t i) const { return c_->v.at(tab_.RootRow(i)); }
  T get(size_t i) const { return (*this)(i); }
  void get(size_t i, T& v) const { v = (*this)(i); }
  void put(size_t i, const T& v) { c_->v.at(tab_.RootRow(i)) = v; }
  Vector<T> getColumn() const { Vector<T> v(nrow()); for (size_t i = 0; i < nrow(); ++i) v[i] = (*this)(i); return v; }
  Vector<T> getColumnCells(const RefRows& r) const { Vector<T> v(r.nrows()); for (size_t i = 0; i < v.size(); ++i) v[i] = (*this)(r.rowVector()[i]); return v; }
  void putColumn(const Vector<T>& v) { if (v.size() != nrow()) throw AipsError("putColumn: wrong number of rows"); for (size_t i = 0; i < nrow(); ++i) put(i, v[i]); }
  void putColumn(const ScalarColumn& o) { putColumn(o.getColumn()); }
  void putColumnCells(const RefRows& r, const Vector<T>& v) { if (v.size() != r.nrows()) throw AipsError("putColumnCells: wrong number of rows"); for (size_t i = 0; i < v.size(); ++i) put(r.rowVector()[i], v[i]); }
  void fillColumn(const T& v) { for (size_t i = 0; i < nrow(); ++i) put(i, v); }
 private:
  ScaCol<T>* c_ = nullptr;
};
template <class T> class ArrayColumn : public TableColumn {
 public:
  ArrayColumn() = default;
  ArrayColumn(const Table& t, const std::string& n) : TableColumn(t, n), c_(std::dynamic_pointer_cast<ArrCol<T>>(base_).get()) { if (!c_) throw AipsError("column " + n + " has another type"); }
  void attach(const Table& t, const std::string& n) { *this = ArrayColumn(t, n); }
  bool isDefined(size_t i) const { return Cell(i).ndim() > 0; }
  IPosition shape(size_t i) const { return Def(i).shape(); }
  IPosition shapeColumn() const { return c_->desc.shape(); }
  size_t ndim(size_t i) const { return Cell(i).ndim(); }
  Array<T> operator()(size_t i) const { return Def(i); }
  Array<T> get(size_t i) const { return Def(i); }
  void get(size_t i, Array<T>& a, bool resize = false) const { Fill(a, Def(i), resize); }
  Array<T> getSlice(size_t i, const Slicer& s) const { return Def(i)(s).copy(); }
  void setShape(size_t i, const IPosition& s) { Cell(i) = Array<T>(s); }
  void put(size_t i, const Array<T>& a) {
    Array<T>& c = Cell(i);
    if ((c_->desc.options() & ColumnDesc::FixedShape) && a.shape() != c_->desc.shape()) throw AipsError("put: shape of array differs from the fixed shape of column " + c_->desc.name());
    Array<T> n(a.shape()); n = a; c.reference(n);
  }
  void putSlice(size_t i, const Slicer& s, const Array<T>& a) {
    Array<T> part = const_cast<Array<T>&>(Def(i))(s);
    if (part.shape() != a.shape()) throw AipsError("putSlice: shapes differ");
    for (size_t k = 0; k < a.size(); ++k) part.At(k) = a.At(k);
  }
  Array<T> getColumn() const { return Cells(All(), nullptr); }
  Array<T> getColumn(const Slicer& s) const { return Cells(All(), &s); }
  void getColumn(Array<T>& a, bool resize = false) const { Fill(a, Cells(All(), nullptr), resize); }
  void getColumn(const Slicer& s, Array<T>& a, bool resize = false) const { Fill(a, Cells(All(), &s), resize); }
  Array<T> getColumnCells(const RefRows& r) const { return Cells(r.rowVector(), nullptr); }
  Array<T> getColumnCells(const RefRows& r, const Slicer& s) const { return Cells(r.rowVector(), &s); }
  void getColumnCells(const RefRows& r, Array<T>& a, bool resize = false) const { Fill(a, Cells(r.rowVector(), nullptr), resize); }
  void getColumnCells(const RefRows& r, const Slicer& s, Array<T>& a, bool resize = false) const { Fill(a, Cells(r.rowVector(), &s), resize); }
  void putColumn(const Array<T>& a) { PutCells(All(), a); }
  void putColumn(const ArrayColumn& o) { for (size_t i = 0; i < nrow(); ++i) put(i, o(i)); }
  void putColumnCells(const RefRows& r, const Array<T>& a) { PutCells(r.rowVector(), a); }
  void fillColumn(const Array<T>& a) { for (size_t i = 0; i < nrow(); ++i) put(i, a); }

 private:
  Vector<rownr_t> All() const { Vector<rownr_t> v(nrow()); for (size_t i = 0; i < nrow(); ++i) v[i] = i; return v; }
  Array<T>& Cell(size_t i) const { return c_->v.at(tab_.RootRow(i)); }
  Array<T>& Def(size_t i) const { Array<T>& a = Cell(i); if (a.ndim() == 0) throw AipsError("column " + c_->desc.name() + " holds no array in row " + std::to_string(i)); return a; }
  Array<T> Cells(const Vector<rownr_t>& rows, const Slicer* s) const {
    if (rows.size() == 0) return Array<T>();
    IPosition shape = s ? Def(rows[0])(*s).shape() : Def(rows[0]).shape();
    std::vector<ssize_t> dims(shape.begin(), shape.end()); dims.push_back(rows.size());
    IPosition full(dims.size()); for (size_t i = 0; i < dims.size(); ++i) full[i] = dims[i];
    Array<T> out(full);
    T* p = out.data();
    for (size_t r = 0; r < rows.size(); ++r) {
      const Array<T> c = s ? Def(rows[r])(*s) : Def(rows[r]);
      if (c.shape() != shape) throw AipsError("getColumn: shapes of cells differ in column " + c_->desc.name());
      for (size_t k = 0; k < c.size(); ++k) *p++ = c.At(k);
    }
    return out;
  }
  static void Fill(Array<T>& out, const Array<T>& v, bool resize) {
    if (out.shape() != v.shape()) {
      if (!resize && out.size() != 0) throw AipsError("table array conformance error");
      out.resize(v.shape());
    }
    for (size_t k = 0; k < v.size(); ++k) out.At(k) = v.At(k);
  }
  void PutCells(const Vector<rownr_t>& rows, const Array<T>& a) {
    if (a.ndim() == 0 || size_t(a.shape()[a.ndim() - 1]) != rows.size()) throw AipsError("putColumn: wrong number of rows");
    IPosition s(a.ndim() - 1);
    for (size_t i = 0; i < s.size(); ++i) s[i] = a.shape()[i];
    const size_t n = s.product();
    for (size_t r = 0; r < rows.size(); ++r) { Array<T> c(s); for (size_t k = 0; k < n; ++k) c.At(k) = a.At(r * n + k); put(rows[r], c); }
  }
  ArrCol<T>* c_ = nullptr;
};
template <class T> using ROScalarColumn = ScalarColumn<T>;
#define ROArrayColumn ArrayColumn
/// Finds the rows with a value of one numeric column.
class ColumnsIndex {
 public:
  ColumnsIndex(const Table& t, const std::string& n) : tab_(t), col_(t.Need(n)), name_(n) { key_.define(n, 0.0); }
  Record& accessKey() { return key_; }
  Vector<rownr_t> getRowNumbers() {
    std::vector<rownr_t> v;
    for (size_t i = 0; i < tab_.nrow(); ++i) if (col_->Number(tab_.RootRow(i)) == key_.asDouble(name_)) v.push_back(i);
    return Vector<rownr_t>(v);
  }
 private:
  Table tab_;
  std::shared_ptr<ColBase> col_;
  std::string name_;
  Record key_;
};
inline MPosition MakeMeas(const Array<double>& a, size_t i, MPosition*, int) { return MPosition(MVPosition(a.At(3 * i), a.At(3 * i + 1), a.At(3 * i + 2)), MPosition::ITRF); }
inline MDirection MakeMeas(const Array<double>& a, size_t i, MDirection*, int type) { return MDirection(MVDirection(a.At(2 * i), a.At(2 * i + 1)), MDirection::Ref(type)); }
inline std::vector<double> MeasValues(const MPosition& p) { return {p.getValue()(0), p.getValue()(1), p.getValue()(2)}; }
inline std::vector<double> MeasValues(const MDirection& d) { return {d.getValue().getLong(), d.getValue().getLat()}; }
template <class M> class MeasColumn {
 public:
  MeasColumn() = default;
  MeasColumn(const Table& t, const std::string& n) : c_(t, n) {}
  void attach(const Table& t, const std::string& n) { c_.attach(t, n); }
  bool isNull() const { return c_.isNull(); }
  void setDescRefCode(uInt code, bool = true) { c_.rwKeywordSet().define("MEASREF", double(code)); }
 protected:
  int Type() const { return c_.keywordSet().isDefined("MEASREF") ? c_.keywordSet().asInt("MEASREF") : 0; }
  ArrayColumn<double> c_;
};
template <class M> class ScalarMeasColumn : public MeasColumn<M> {
 public:
  using MeasColumn<M>::MeasColumn;
  M operator()(size_t i) const { return MakeMeas(this->c_(i), 0, static_cast<M*>(nullptr), this->Type()); }
  void put(size_t i, const M& m) { this->c_.put(i, Vector<double>(MeasValues(m))); }
};
template <class M> class ArrayMeasColumn : public MeasColumn<M> {
 public:
  using MeasColumn<M>::MeasColumn;
  Array<M> operator()(size_t i) const {
    const Array<double> a = this->c_(i);
    Vector<M> v(a.size() / a.shape()[0]);
    for (size_t k = 0; k < v.size(); ++k) v[k] = MakeMeas(a, k, static_cast<M*>(nullptr), this->Type());
    return v;
  }
  void put(size_t i, const Array<M>& m) {
    const size_t w = MeasValues(m.At(0)).size();
    Matrix<double> a(w, m.size());
    for (size_t k = 0; k < m.size(); ++k) { auto v = MeasValues(m.At(k)); for (size_t j = 0; j < w; ++j) a(j, k) = v[j]; }
    this->c_.put(i, a);
  }
};
class TableIterator {
 public:
  enum Order { Descending = -1, Ascending = 1 };
  enum Option { QuickSort = 4, HeapSort = 1, InsSort = 2, ParSort = 16, NoSort = 64 };
  TableIterator() = default;
  TableIterator(const Table& t, const Block<String>& cols, Order o = Ascending, Option opt = ParSort) : tab_(opt == NoSort ? t : t.sort(cols, o)) { for (size_t i = 0; i < cols.size(); ++i) cols_.push_back(tab_.Need(cols[i])); Sub(); }
  TableIterator(const Table& t, const std::string& col, Order o = Ascending, Option opt = ParSort) : TableIterator(t, Block<String>(1, String(col)), o, opt) {}
  void reset() { at_ = 0; Sub(); }
  void next() { at_ += n_; Sub(); }
  void operator++() { next(); }
  void operator++(int) { next(); }
  bool pastEnd() const { return n_ == 0; }
  Table table() const { return cur_; }
 private:
  void Sub() {
    n_ = 0;
    const size_t total = tab_.isNull() ? 0 : tab_.nrow();
    if (at_ < total) {
      auto same = [&](size_t a, size_t b) { for (auto& c : cols_) if (c->Compare(tab_.RootRow(a), tab_.RootRow(b))) return false; return true; };
      while (at_ + n_ < total && same(at_, at_ + n_)) ++n_;
    }
    if (!tab_.isNull()) { Vector<rownr_t> r(n_); for (size_t i = 0; i < n_; ++i) r[i] = at_ + i; cur_ = tab_(r); }
  }
  Table tab_, cur_;
  std::vector<std::shared_ptr<ColBase>> cols_;
  size_t at_ = 0, n_ = 0;
};

// ---- measurement sets -------------------------------------------------------------
class MSDataDescriptionEnums { public: enum Columns { POLARIZATION_ID, SPECTRAL_WINDOW_ID, FLAG_ROW }; };
class MSDataDescription : public Table, public MSDataDescriptionEnums { public: using Table::Table; MSDataDescription(const Table& t) : Table(t) {} static std::string columnName(Columns c) { return c == POLARIZATION_ID ? "POLARIZATION_ID" : c == SPECTRAL_WINDOW_ID ? "SPECTRAL_WINDOW_ID" : "FLAG_ROW"; } };
class MSPolarizationEnums { public: enum Columns { CORR_TYPE, CORR_PRODUCT, NUM_CORR }; };
class MSPolarization : public Table, public MSPolarizationEnums { public: using Table::Table; MSPolarization(const Table& t) : Table(t) {} static std::string columnName(Columns c) { return c == CORR_TYPE ? "CORR_TYPE" : c == NUM_CORR ? "NUM_CORR" : "CORR_PRODUCT"; } };
#define VERIF_NAMES(CLASS, ...) \
  enum CLASS##Columns { __VA_ARGS__ }; \
  static std::string columnName(CLASS##Columns c) { static const std::vector<std::string> n = SplitNames(#__VA_ARGS__); return n.at(c); }
inline std::vector<std::string> SplitNames(const std::string& s) { std::vector<std::string> v(1); for (char c : s) if (c == ',') v.emplace_back(); else if (c != ' ') v.back() += c; return v; }
class MSSpectralWindow : public Table {
 public:
  using Table::Table;
  MSSpectralWindow(const Table& t) : Table(t) {}
  VERIF_NAMES(Spw, CHAN_FREQ, CHAN_WIDTH, EFFECTIVE_BW, RESOLUTION, MEAS_FREQ_REF, NAME, NUM_CHAN, REF_FREQUENCY, TOTAL_BANDWIDTH)
  static TableDesc requiredTableDesc() {
    TableDesc d;
    for (auto n : {"CHAN_FREQ", "CHAN_WIDTH", "EFFECTIVE_BW", "RESOLUTION"}) d.addColumn(ArrayColumnDesc<double>(n));
    for (auto n : {"MEAS_FREQ_REF", "NUM_CHAN"}) d.addColumn(ScalarColumnDesc<int>(n));
    for (auto n : {"REF_FREQUENCY", "TOTAL_BANDWIDTH"}) d.addColumn(ScalarColumnDesc<double>(n));
    d.addColumn(ScalarColumnDesc<String>("NAME"));
    d.addColumn(ScalarColumnDesc<bool>("FLAG_ROW"));
    return d;
  }
};
class MSField : public Table { public: using Table::Table; MSField(const Table& t) : Table(t) {} VERIF_NAMES(Field, PHASE_DIR, DELAY_DIR, REFERENCE_DIR, NAME) };
class MSObservation : public Table { public: using Table::Table; MSObservation(const Table& t) : Table(t) {} VERIF_NAMES(Obs, TELESCOPE_NAME, OBSERVER) };
class MSAntenna : public Table {
 public:
  explicit MSAntenna(const Table& t) : Table(t) {}
  VERIF_NAMES(Ant, NAME, DISH_DIAMETER, POSITION)
  static TableDesc requiredTableDesc() { TableDesc d; d.addColumn(ScalarColumnDesc<String>("NAME")); d.addColumn(ArrayColumnDesc<double>("POSITION")); return d; }
};
class MSMainEnums {
 public:
  enum PredefinedColumns { ANTENNA1, ANTENNA2, ARRAY_ID, DATA_DESC_ID, EXPOSURE, FEED1, FEED2, FIELD_ID, FLAG, FLAG_CATEGORY, FLAG_ROW, INTERVAL, OBSERVATION_ID, PROCESSOR_ID, SCAN_NUMBER, SIGMA, STATE_ID, TIME, TIME_CENTROID, UVW, WEIGHT, CORRECTED_DATA, DATA, MODEL_DATA, WEIGHT_SPECTRUM, IMAGING_WEIGHT };
  static std::string columnName(PredefinedColumns c) {
    static const char* n[] = {"ANTENNA1", "ANTENNA2", "ARRAY_ID", "DATA_DESC_ID", "EXPOSURE", "FEED1", "FEED2", "FIELD_ID", "FLAG", "FLAG_CATEGORY", "FLAG_ROW", "INTERVAL", "OBSERVATION_ID", "PROCESSOR_ID", "SCAN_NUMBER", "SIGMA", "STATE_ID", "TIME", "TIME_CENTROID", "UVW", "WEIGHT", "CORRECTED_DATA", "DATA", "MODEL_DATA", "WEIGHT_SPECTRUM", "IMAGING_WEIGHT"};
    return n[c];
  }
};
class MeasurementSet : public Table, public MSMainEnums {
 public:
  static ColumnDesc MainColumn(PredefinedColumns c) {
    const std::string n = columnName(c);
    switch (c) {
      case EXPOSURE: case INTERVAL: case TIME: case TIME_CENTROID: return ScalarColumnDesc<double>(n);
      case UVW: return ArrayColumnDesc<double>(n);
      case SIGMA: case WEIGHT: case WEIGHT_SPECTRUM: case IMAGING_WEIGHT: return ArrayColumnDesc<float>(n);
      case DATA: case MODEL_DATA: case CORRECTED_DATA: return ArrayColumnDesc<Complex>(n);
      case FLAG: case FLAG_CATEGORY: return ArrayColumnDesc<bool>(n);
      case FLAG_ROW: return ScalarColumnDesc<bool>(n);
      default: return ScalarColumnDesc<int>(n);
    }
  }
  static TableDesc requiredTableDesc() {
    TableDesc d;
    for (int c = ANTENNA1; c <= WEIGHT; ++c) d.addColumn(MainColumn(PredefinedColumns(c)));
    return d;
  }
  static void addColumnToDesc(TableDesc& d, PredefinedColumns c) { d.addColumn(MainColumn(c)); }
  // Only the subtables that code writes to without copying them.
  void createDefaultSubtables(TableOption) {
    TableDesc dd; for (auto n : {"SPECTRAL_WINDOW_ID", "POLARIZATION_ID"}) dd.addColumn(ScalarColumnDesc<int>(n)); dd.addColumn(ScalarColumnDesc<bool>("FLAG_ROW"));
    TableDesc hist; 
    for (auto n : {"TIME"}) hist.addColumn(ScalarColumnDesc<double>(n));
    for (auto n : {"OBSERVATION_ID", "OBJECT_ID"}) hist.addColumn(ScalarColumnDesc<int>(n));
    for (auto n : {"MESSAGE", "APPLICATION", "PRIORITY", "ORIGIN"}) hist.addColumn(ScalarColumnDesc<String>(n));
    for (auto n : {"APP_PARAMS", "CLI_COMMAND"}) hist.addColumn(ArrayColumnDesc<String>(n));
    TableDesc obs; for (auto n : {"TELESCOPE_NAME", "OBSERVER"}) obs.addColumn(ScalarColumnDesc<String>(n)); obs.addColumn(ArrayColumnDesc<double>("TIME_RANGE"));
    for (auto& [n, d] : std::map<std::string, TableDesc>{{"DATA_DESCRIPTION", dd}, {"HISTORY", hist}, {"OBSERVATION", obs}, {"SPECTRAL_WINDOW", MSSpectralWindow::requiredTableDesc()}}) {
      SetupNewTable s(tableName() + "/" + n, d, Table::New);
      rwKeywordSet().defineTable(n, Table(s));
    }
  }
  MSObservation observation() const { return keywordSet().asTable("OBSERVATION"); }
  MeasurementSet() = default;
  MeasurementSet(const Table& t) : Table(t) {}
  explicit MeasurementSet(const std::string& n, TableOption o = Old) : Table(n, o) {}
  MeasurementSet(const std::string& n, const TableLock& l, TableOption o = Old) : Table(n, l, o) {}
  bool isColumn(PredefinedColumns c) const { return MakeDesc().isColumn(columnName(c)); }
  MSDataDescription dataDescription() const { return keywordSet().asTable("DATA_DESCRIPTION"); }
  MSPolarization polarization() const { return keywordSet().asTable("POLARIZATION"); }
  MSAntenna antenna() const { return MSAntenna(keywordSet().asTable("ANTENNA")); }
  MSSpectralWindow spectralWindow() const { return keywordSet().asTable("SPECTRAL_WINDOW"); }
  MSField field() const { return keywordSet().asTable("FIELD"); }
};
using MS = MeasurementSet;
class MSAntennaColumns {
 public:
  explicit MSAntennaColumns(const MSAntenna& t) : name_(t, "NAME"), pos_(t, "POSITION") {}
  ScalarColumn<String>& name() { return name_; }
  ScalarMeasColumn<MPosition>& positionMeas() { return pos_; }
 private:
  ScalarColumn<String> name_;
  ScalarMeasColumn<MPosition> pos_;
};
class TableRow {
 public:
  struct Values { std::map<std::string, std::shared_ptr<ColBase>> v; };
  explicit TableRow(const Table& t) : t_(t) {}
  Values get(size_t row) const {
    Values out;
    for (auto& c : t_.Rep().cols) { auto one = c->desc.Make(); one->AddRows(1); one->CopyCell(0, *c, t_.RootRow(row)); out.v[c->desc.name()] = one; }
    return out;
  }
  void put(size_t row, const Values& r) { for (auto& c : t_.Rep().cols) { auto i = r.v.find(c->desc.name()); if (i != r.v.end()) c->CopyCell(t_.RootRow(row), *i->second, 0); } }
 private:
  Table t_;
};
// Only the minimum and maximum of TIME_CENTROID.
class TaQLResult { public: explicit TaQLResult(const Table& t) : t_(t) {} Table table() const { return t_; } private: Table t_; };
inline TaQLResult tableCommand(const std::string& q, const Table& in) {
  if (q.find("gmin(TIME_CENTROID) as first_time") == std::string::npos || q.find("gmax(TIME_CENTROID) as last_time") == std::string::npos) throw AipsError("unsupported query " + q);
  TableDesc d; d.addColumn(ScalarColumnDesc<double>("first_time")); d.addColumn(ScalarColumnDesc<double>("last_time"));
  Table t(SetupNewTable("", d, Table::Scratch), Table::Memory, 1);
  double lo = 0, hi = 0;
  ScalarColumn<double> c(in, "TIME_CENTROID");
  for (size_t i = 0; i < in.nrow(); ++i) { lo = i ? std::min(lo, c(i)) : c(i); hi = i ? std::max(hi, c(i)) : c(i); }
  ScalarColumn<double>(t, "first_time").put(0, lo); ScalarColumn<double>(t, "last_time").put(0, hi);
  return TaQLResult(t);
}
class MSSelectionErrorHandler { public: virtual ~MSSelectionErrorHandler() = default; virtual void reportError(const char*, const String) {} };
class MSAntennaParse { public: static inline std::shared_ptr<MSSelectionErrorHandler> thisMSAErrorHandler; };
// Baseline selection: terms separated by ';', each [!]list&list, list& (cross
// correlations only), list&& (also autocorrelations), list&&& (only those) or
// list; a list holds antenna numbers, ranges a~b and name patterns.
inline std::vector<std::vector<char>> SelectBaselines(const std::vector<std::string>& names, const std::string& expr) {
  const size_t n = names.size();
  auto split = [](const std::string& s, char c) { std::vector<std::string> v(1); for (char x : s) if (x == c) v.emplace_back(); else if (x != ' ') v.back() += x; return v; };
  auto antennas = [&](const std::string& list) {
    std::vector<char> sel(n, 0);
    if (list.empty()) { sel.assign(n, 1); return sel; }
    for (std::string p : split(list, ',')) {
      if (p.empty()) throw AipsError("empty antenna in selection");
      const size_t t = p.find('~');
      const bool number = p.find_first_not_of("0123456789~") == std::string::npos;
      if (number) { const size_t a = std::stoul(p), b = t == std::string::npos ? a : std::stoul(p.substr(t + 1)); for (size_t i = a; i <= b && i < n; ++i) sel[i] = 1; continue; }
      const Regex re(Regex::fromPattern(p));
      bool any = false;
      for (size_t i = 0; i < n; ++i) if (String(names[i]).matches(re)) sel[i] = any = true;
      if (!any && MSAntennaParse::thisMSAErrorHandler) MSAntennaParse::thisMSAErrorHandler->reportError(("no match found for " + p).c_str(), "");
    }
    return sel;
  };
  std::vector<std::vector<char>> out(n, std::vector<char>(n, 0));
  bool first = true;
  for (std::string term : split(expr, ';')) {
    const bool neg = !term.empty() && term[0] == '!';
    if (neg) term.erase(0, 1);
    const size_t a = term.find('&');
    size_t amp = 0;
    if (a != std::string::npos) while (a + amp < term.size() && term[a + amp] == '&') ++amp;
    const std::vector<char> left = antennas(term.substr(0, a));
    const std::string rest = amp ? term.substr(a + amp) : "";
    const std::vector<char> right = amp == 3 ? left : rest.empty() && amp > 0 ? left : antennas(rest);
    if (neg && first) for (auto& r : out) r.assign(n, 1);
    first = false;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        const bool is_auto = i == j;
        const bool hit = (amp == 3 ? is_auto : amp == 2 ? true : !is_auto) && ((left[i] && right[j]) || (left[j] && right[i]));
        if (hit) out[i][j] = !neg;
      }
  }
  return out;
}
class MSSelection {
 public:
  MSSelection() { MSAntennaParse::thisMSAErrorHandler = std::make_shared<MSSelectionErrorHandler>(); }
  void setAntennaExpr(const std::string& e) { e_ = e; }
  TableExprNode toTableExprNode(const MeasurementSet* ms) {
    const Vector<String> names = ScalarColumn<String>(ms->keywordSet().asTable("ANTENNA"), "NAME").getColumn();
    auto sel = SelectBaselines(std::vector<std::string>(names.begin(), names.end()), e_);
    auto a1 = ms->Need("ANTENNA1"), a2 = ms->Need("ANTENNA2");
    return TableExprNode::Predicate([=](size_t r) { return sel.at(size_t(a1->Number(r))).at(size_t(a2->Number(r))); });
  }
 private:
  std::string e_;
};
inline TableExprNode msAntennaGramParseCommand(const Table& ants, const TableExprNode& a1, const TableExprNode& a2, const std::string& e, Vector<int>&, Vector<int>&, Matrix<int>&) {
  const Vector<String> names = ScalarColumn<String>(ants, "NAME").getColumn();
  auto sel = SelectBaselines(std::vector<std::string>(names.begin(), names.end()), e);
  return TableExprNode::Predicate([=](size_t r) { return sel.at(size_t(a1.Number(r))).at(size_t(a2.Number(r))); });
}
class MeasTable {
 public:
  static bool Observatory(MPosition& p, const std::string& name) {
    if (name != "LOFAR") return false;
    p = MPosition(MVPosition(3826577.066, 461022.948, 5064892.786), MPosition::ITRF);
    return true;
  }
};

template <class T> Array<size_t> partialNFalse(const Array<T>& a, const IPosition& axes) {
  if (a.ndim() != 3 || axes.size() != 2 || axes[0] != 0 || axes[1] != 1) throw AipsError("partialNFalse: not supported here");
  Array<size_t> r(IPosition(1, a.shape()[2]));
  const size_t n = a.shape()[0] * a.shape()[1];
  for (size_t i = 0; i < r.size(); ++i) for (size_t k = 0; k < n; ++k) r.At(i) += !a.At(i * n + k);
  return r;
}
inline Array<bool> operator==(const Array<size_t>& a, const size_t& v) { Array<bool> r(a.shape()); for (size_t i = 0; i < a.size(); ++i) r.At(i) = a.At(i) == v; return r; }
// Steps through the parts formed by the first axes of a contiguous array.
template <class T> class ArrayIterator {
 public:
  ArrayIterator(Array<T>& a, size_t by) : a_(a), shape_(by) { for (size_t d = 0; d < by; ++d) shape_[d] = a.shape()[d]; Sub(); }
  Array<T>& array() { return cur_; }
  bool pastEnd() const { return at_ >= a_.size(); }
  void next() { at_ += shape_.product(); Sub(); }
 private:
  void Sub() { if (!pastEnd()) cur_.reference(Array<T>(shape_, a_.data() + at_, SHARE)); }
  Array<T>& a_;
  IPosition shape_;
  size_t at_ = 0;
  Array<T> cur_;
};
template <class T> class ReadOnlyArrayIterator {
 public:
  ReadOnlyArrayIterator(const Array<T>& a, size_t by) : a_(a.copy()), by_(by) { n_ = 1; for (size_t d = 0; d < by; ++d) n_ *= a.shape()[d]; }
  bool pastEnd() const { return at_ >= a_.size(); }
  void next() { at_ += n_; }
  Array<T> array() const { IPosition s(by_); for (size_t d = 0; d < by_; ++d) s[d] = a_.shape()[d]; Array<T> r(s); for (size_t k = 0; k < n_; ++k) r.At(k) = a_.At(at_ + k); return r; }
 private:
  Array<T> a_; size_t by_, n_, at_ = 0;
};

// ---- files ----------------------------------------------------------------------
class Path {
 public:
  Path() = default;
  Path(const std::string& n) : n_(n) {}
  String absoluteName() const { return AbsName(n_); }
  String expandedName() const { return n_; }
  String originalName() const { return n_; }
  String resolvedName() const { return AbsName(n_); }
  String baseName() const { return std::filesystem::path(AbsName(n_)).filename().string(); }
  String dirName() const { const size_t i = n_.rfind('/'); return i == std::string::npos ? "." : i == 0 ? "/" : n_.substr(0, i); }
  void append(const std::string& s) { n_ += "/" + s; }
 private:
  std::string n_;
};
class Directory { public: Directory(const std::string& n) : name(AbsName(n)) {} std::string name; };
// Lists the tables (not files) in a directory.
class DirectoryIterator {
 public:
  DirectoryIterator(const Directory& d, const Regex& re) {
    std::lock_guard<std::mutex> l(Registry::I().m);
    for (auto& [n, t] : Registry::I().t) if (n.compare(0, d.name.size() + 1, d.name + "/") == 0 && n.find('/', d.name.size() + 1) == std::string::npos) { const String b = n.substr(d.name.size() + 1); if (b.matches(re)) names_.push_back(b); }
  }
  bool pastEnd() const { return at_ >= names_.size(); }
  String name() const { return names_.at(at_); }
  void operator++(int) { ++at_; }
 private:
  std::vector<String> names_; size_t at_ = 0;
};
class Time { public: double modifiedJulianDay() const { return 59000; } };
