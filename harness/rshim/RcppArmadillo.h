// Stand-ins for the Rcpp and Armadillo types the R bridge uses (and for those close to them, so that the bridge may be
// rewritten). Vectors share their data when copied, as in R. Every access is checked: one outside a vector throws
// rshim::Bounds.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace rshim {
struct Bounds : std::runtime_error { Bounds(const std::string&s):std::runtime_error(s){} };
inline void chk(long i,long n){ if(i<0||i>=n) throw Bounds("element "+std::to_string(i)+" of a vector of "+std::to_string(n)); }
typedef std::shared_ptr<std::vector<double>> NumP; typedef std::shared_ptr<std::vector<int>> IntP;
}
// an R object
struct RObj { enum K { NUM, INT, LIST, NIL } k=NIL; rshim::NumP num; rshim::IntP in; rshim::IntP dim; std::vector<std::pair<std::string,RObj>> items;
  const RObj& at(const std::string&n) const { for(auto&x:items) if(x.first==n) return x.second; throw std::out_of_range("no item named "+n); }
  bool has(const std::string&n) const { for(auto&x:items) if(x.first==n) return true; return false; }
  std::size_t len() const { return k==NUM?num->size():k==INT?in->size():items.size(); }
  double val(std::size_t i) const { rshim::chk((long)i,(long)len()); return k==NUM?(*num)[i]:(double)(*in)[i]; }
  std::vector<double> vals() const { std::vector<double> r; for(std::size_t i=0;i<len();i++) r.push_back(val(i)); return r; } };
typedef const RObj* SEXP;

namespace Rcpp {
typedef long R_xlen_t;
template<class T> struct Store;
template<> struct Store<double>{ static void put(RObj&o,rshim::NumP d){ o.k=RObj::NUM; o.num=d; } static rshim::NumP get(const RObj&o){ return o.k==RObj::NUM?o.num:std::make_shared<std::vector<double>>(o.vals()); } };
template<> struct Store<int>{ static void put(RObj&o,rshim::IntP d){ o.k=RObj::INT; o.in=d; } static rshim::IntP get(const RObj&o){ if(o.k==RObj::INT) return o.in; auto r=std::make_shared<std::vector<int>>(); for(double x:o.vals()) r->push_back((int)x); return r; } };
template<class T> class Vec;
template<class T> T as(const RObj&s);
struct AttrProxy { rshim::IntP d; template<class T,class=decltype(as<T>(std::declval<const RObj&>()))> operator T() const { RObj o; Store<int>::put(o,d?d:std::make_shared<std::vector<int>>()); return as<T>(o); } bool isNULL() const { return !d; } operator bool() const { return (bool)d; } };
template<class T> class Vec { protected: std::shared_ptr<std::vector<T>> d; rshim::IntP dm;
 public: typedef T stored_type; typedef T* iterator; typedef const T* const_iterator;
  Vec():d(new std::vector<T>()){}
  template<class I,class=typename std::enable_if<std::is_integral<I>::value>::type> Vec(I n):d(new std::vector<T>((std::size_t)n)){}
  template<class I,class U,class=typename std::enable_if<std::is_integral<I>::value&&std::is_arithmetic<U>::value>::type> Vec(I n,U v):d(new std::vector<T>((std::size_t)n,(T)v)){}
  Vec(std::shared_ptr<std::vector<T>> d,rshim::IntP dm):d(d),dm(dm){}
  Vec(std::initializer_list<T> l):d(new std::vector<T>(l)){}
  Vec(const RObj&o):d(Store<T>::get(o)),dm(o.dim){}
  Vec(SEXP o):d(Store<T>::get(*o)),dm(o->dim){}
  template<class It,class=typename std::iterator_traits<It>::iterator_category> Vec(It a,It b):d(new std::vector<T>(a,b)){}
  static Vec create(std::initializer_list<T> l){ return Vec(l); }
  template<class...A> static Vec create(A...a){ return Vec({(T)a...}); }
  template<class U> static Vec import(const U&x){ return Vec(std::begin(x),std::end(x)); }
  T& operator[](long i){ rshim::chk(i,(long)d->size()); return (*d)[i]; } const T& operator[](long i) const { rshim::chk(i,(long)d->size()); return (*d)[i]; }
  T& operator()(long i){ return (*this)[i]; } const T& operator()(long i) const { return (*this)[i]; } T& at(long i){ return (*this)[i]; } const T& at(long i) const { return (*this)[i]; }
  R_xlen_t size() const { return (R_xlen_t)d->size(); } R_xlen_t length() const { return size(); } bool empty() const { return d->empty(); }
  T* begin(){ return d->data(); } T* end(){ return d->data()+d->size(); } const T* begin() const { return d->data(); } const T* end() const { return d->data()+d->size(); } const T* cbegin() const { return begin(); } const T* cend() const { return end(); }
  void push_back(T x){ d=std::make_shared<std::vector<T>>(*d); d->push_back(x); } void fill(T x){ std::fill(d->begin(),d->end(),x); }
  AttrProxy attr(const std::string&n) const { AttrProxy p; if(n=="dim") p.d=dm; return p; } bool hasAttribute(const std::string&n) const { return n=="dim"&&dm; }
  operator RObj() const { RObj o; Store<T>::put(o,d); o.dim=dm; return o; }
  // element-wise arithmetic, as Rcpp sugar
#define RSHIM_OP(op) friend Vec operator op(const Vec&a,double b){ Vec r; for(T x:*a.d) r.d->push_back((T)(x op b)); return r; } friend Vec operator op(const Vec&a,const Vec&b){ Vec r; for(long i=0;i<a.size();i++) r.d->push_back((T)(a[i] op b[i])); return r; }
  RSHIM_OP(+) RSHIM_OP(-) RSHIM_OP(*) RSHIM_OP(/)
#undef RSHIM_OP
};
class NumericVector : public Vec<double> { public: using Vec<double>::Vec; NumericVector(){} NumericVector(const Vec<double>&v):Vec<double>(v){} NumericVector(const Vec<int>&v):Vec<double>(v.begin(),v.end()){} };
class IntegerVector : public Vec<int> { public: using Vec<int>::Vec; IntegerVector(){} IntegerVector(const Vec<int>&v):Vec<int>(v){} };
class Dimension { std::vector<int> d; public: Dimension(){} Dimension(const RObj&o){ for(double x:o.vals()) d.push_back((int)x); } Dimension(SEXP o):Dimension(*o){} int operator[](long i) const { rshim::chk(i,(long)d.size()); return d[i]; } int size() const { return (int)d.size(); } };
inline NumericVector clone(const NumericVector&v){ return NumericVector(v.begin(),v.end()); } inline IntegerVector clone(const IntegerVector&v){ return IntegerVector(v.begin(),v.end()); }
inline RObj toR(const RObj&o){ return o; }
template<class T> typename std::enable_if<std::is_floating_point<T>::value,RObj>::type toR(T x){ RObj o; o.k=RObj::NUM; o.num=std::make_shared<std::vector<double>>(1,(double)x); return o; }
template<class T> typename std::enable_if<std::is_integral<T>::value,RObj>::type toR(T x){ RObj o; o.k=RObj::INT; o.in=std::make_shared<std::vector<int>>(1,(int)x); return o; }
inline RObj toR(const NumericVector&v){ return v; } inline RObj toR(const IntegerVector&v){ return v; } inline RObj toR(const Vec<double>&v){ return v; } inline RObj toR(const Vec<int>&v){ return v; }
template<class It> RObj rangeToR(It a,It b){ typedef typename std::iterator_traits<It>::value_type T; RObj o; if(std::is_integral<T>::value){ o.k=RObj::INT; o.in=std::make_shared<std::vector<int>>(); for(;a!=b;++a) o.in->push_back((int)*a); } else { o.k=RObj::NUM; o.num=std::make_shared<std::vector<double>>(); for(;a!=b;++a) o.num->push_back((double)*a); } return o; }
template<class T> typename std::enable_if<std::is_arithmetic<T>::value,RObj>::type toR(const std::vector<T>&v){ return rangeToR(v.begin(),v.end()); }
template<class T> typename std::enable_if<std::is_arithmetic<T>::value,RObj>::type toR(const std::list<T>&v){ return rangeToR(v.begin(),v.end()); }
class List; RObj toR(const List&l);
template<class T> RObj wrap(const T&x){ return toR(x); } template<class It> RObj wrap(It a,It b){ return rangeToR(a,b); }
typedef std::pair<std::string,RObj> NamedItem;
struct Named { std::string n; explicit Named(const std::string&n):n(n){} template<class T> NamedItem operator=(const T&x) const { return NamedItem(n,toR(x)); } };
template<class T> NamedItem NamedValue(const std::string&n,const T&x){ return NamedItem(n,toR(x)); }
struct Placeholder { Named operator[](const std::string&n) const { return Named(n); } };
static const Placeholder _;
class List { public: RObj o; List(){ o.k=RObj::LIST; } List(const RObj&x):o(x){} template<class...A> static List create(const A&...a){ List l; int z[]={0,(l.add(a),0)...}; (void)z; return l; }
  void add(const NamedItem&p){ o.items.push_back(p); } template<class T> void add(const T&x){ o.items.push_back(NamedItem("",toR(x))); } template<class T> void push_back(const T&x,const std::string&n=""){ o.items.push_back(NamedItem(n,toR(x))); } operator RObj() const { return o; } int size() const { return (int)o.items.size(); } int length() const { return size(); }
  struct Slot { List&l; std::string n; template<class T> Slot& operator=(const T&x){ for(auto&i:l.o.items) if(i.first==n){ i.second=toR(x); return *this; } l.o.items.push_back(NamedItem(n,toR(x))); return *this; } operator RObj() const { return l.o.at(n); } template<class T,class=decltype(as<T>(std::declval<const RObj&>()))> operator T() const { return as<T>(l.o.at(n)); } }; Slot operator[](const std::string&n){ return Slot{*this,n}; } };
class DataFrame : public List { public: DataFrame(){} DataFrame(const RObj&x):List(x){} DataFrame(const List&l):List(l){} template<class...A> static DataFrame create(const A&...a){ DataFrame l; int z[]={0,(l.add(a),0)...}; (void)z; return l; } int nrows() const { return o.items.empty()?0:(int)o.items[0].second.len(); } int nrow() const { return nrows(); } };
inline RObj toR(const List&l){ return l.o; }
typedef RObj RObject; typedef List GenericVector;
template<class T,class=void> struct Exporter;
template<class T> struct Exporter<T,typename std::enable_if<std::is_arithmetic<T>::value>::type>{ static T get(const RObj&s){ return (T)s.val(0); } };
template<class T> struct Exporter<std::vector<T>,typename std::enable_if<std::is_arithmetic<T>::value>::type>{ static std::vector<T> get(const RObj&s){ std::vector<T> r; for(std::size_t i=0;i<s.len();i++) r.push_back((T)s.val(i)); return r; } };
template<> struct Exporter<NumericVector>{ static NumericVector get(const RObj&s){ return NumericVector(s); } };
template<> struct Exporter<IntegerVector>{ static IntegerVector get(const RObj&s){ return IntegerVector(s); } };
template<> struct Exporter<Dimension>{ static Dimension get(const RObj&s){ return Dimension(s); } };
template<> struct Exporter<List>{ static List get(const RObj&s){ return List(s); } };
template<> struct Exporter<DataFrame>{ static DataFrame get(const RObj&s){ return DataFrame(s); } };
template<class T> T as(const RObj&s){ return Exporter<T>::get(s); } template<class T> T as(SEXP s){ return Exporter<T>::get(*s); }
inline void stop(const std::string&s){ throw std::runtime_error(s); } inline void warning(const std::string&){ } inline void checkUserInterrupt(){ }
static std::ostream&Rcout=std::cerr; static std::ostream&Rcerr=std::cerr;
}
namespace arma { typedef unsigned long long uword;
class cube { double*p; std::vector<double> own; public: uword n_rows,n_cols,n_slices,n_elem; cube(const double*q,uword a,uword b,uword c):p(nullptr),own(q,q+a*b*c),n_rows(a),n_cols(b),n_slices(c),n_elem(a*b*c){ p=own.data(); } cube(double*q,uword a,uword b,uword c,bool copy=true,bool strict=false):p(q),n_rows(a),n_cols(b),n_slices(c),n_elem(a*b*c){ (void)strict; if(copy){ own.assign(q,q+n_elem); p=own.data(); } }
  cube(const cube&x):p(x.p),own(x.own),n_rows(x.n_rows),n_cols(x.n_cols),n_slices(x.n_slices),n_elem(x.n_elem){ if(!own.empty()) p=own.data(); }
  double& operator()(uword i,uword j,uword k) const { rshim::chk((long)i,(long)n_rows); rshim::chk((long)j,(long)n_cols); rshim::chk((long)k,(long)n_slices); return p[i+n_rows*(j+n_cols*k)]; } double& at(uword i,uword j,uword k) const { return (*this)(i,j,k); } double& operator()(uword i) const { rshim::chk((long)i,(long)n_elem); return p[i]; } double& operator[](uword i) const { return (*this)(i); } uword size() const { return n_elem; } const double* memptr() const { return p; } const double* begin() const { return p; } const double* end() const { return p+n_elem; } };
typedef cube Cube; }
namespace rshim {
// an argument of an entry point, converted the way the entry point declares it
struct Arg { RObj o; Arg(const RObj&o):o(o){} operator SEXP() const { return &o; } template<class T,class=decltype(Rcpp::Exporter<typename std::remove_cv<T>::type>::get(std::declval<const RObj&>()))> operator T() const { return Rcpp::as<T>(o); } };
}
