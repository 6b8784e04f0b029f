// Contract stubs of the C++ standard library used when extracting /repo's sources for verification.
// They replace libstdc++ / Eigen headers; /repo's own sources are compiled unmodified against them.
#ifndef VCG_STUB_H
#define VCG_STUB_H
typedef decltype(sizeof(0)) size_t;
typedef decltype(nullptr) nullptr_t_;
typedef long ptrdiff_t;
typedef unsigned char uint8_t; typedef int int32_t; typedef unsigned int uint32_t; typedef long int64_t; typedef unsigned long uint64_t;
extern "C" {
// region for a vector: unbounded, addressed from offset 0; obligations of the executor track release
void *__vcg_region(size_t elem);
void __vcg_region_free(void *);
double sqrt(double); double cbrt(double); double pow(double, double); double sin(double); double cos(double); double tan(double);
double asin(double); double acos(double); double atan(double); double atan2(double, double); double fabs(double);
double floor(double); double ceil(double); double trunc(double); double fmod(double, double); double exp(double); double log(double);
double hypot(double, double); double round(double); double copysign(double, double); double fmax(double, double); double fmin(double, double);
double remainder(double, double); double rint(double); double nearbyint(double); double fdim(double, double); double fma(double, double, double);
double log10(double); double log2(double); double cosh(double); double sinh(double); double tanh(double); double modf(double, double *);
void sincos(double, double *, double *);
int abs(int); long labs(long);
void abort();
void *malloc(size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
int printf(const char *, ...); 
}
namespace std {
using ::size_t; using ::ptrdiff_t; using ::uint8_t; using ::int32_t; using ::uint32_t; using ::int64_t; using ::uint64_t;
using nullptr_t = decltype(nullptr);
template<class T, T v> struct integral_constant { static constexpr T value = v; typedef T value_type; typedef integral_constant type; constexpr operator T() const { return v; } constexpr T operator()() const { return v; } };
typedef integral_constant<bool, true> true_type; typedef integral_constant<bool, false> false_type;
template<class T> struct remove_reference { typedef T type; };
template<class T> struct remove_reference<T &> { typedef T type; };
template<class T> struct remove_reference<T &&> { typedef T type; };
template<class T> using remove_reference_t = typename remove_reference<T>::type;
template<class T> struct remove_const { typedef T type; }; template<class T> struct remove_const<const T> { typedef T type; };
template<class T> using remove_const_t = typename remove_const<T>::type;
template<class T> struct remove_cv { typedef typename remove_const<T>::type type; };
template<class T> using remove_cv_t = typename remove_cv<T>::type;
template<class T> struct decay { typedef typename remove_cv<typename remove_reference<T>::type>::type type; };
template<class T> using decay_t = typename decay<T>::type;
template<bool B, class T = void> struct enable_if {}; template<class T> struct enable_if<true, T> { typedef T type; };
template<bool B, class T = void> using enable_if_t = typename enable_if<B, T>::type;
template<bool B, class T, class F> struct conditional { typedef T type; }; template<class T, class F> struct conditional<false, T, F> { typedef F type; };
template<bool B, class T, class F> using conditional_t = typename conditional<B, T, F>::type;
template<class A, class B> struct is_same : false_type {}; template<class A> struct is_same<A, A> : true_type {};
template<class T> struct is_integral : false_type {};
template<> struct is_integral<bool> : true_type {}; template<> struct is_integral<char> : true_type {}; template<> struct is_integral<int> : true_type {};
template<> struct is_integral<unsigned> : true_type {}; template<> struct is_integral<long> : true_type {}; template<> struct is_integral<unsigned long> : true_type {};
template<> struct is_integral<short> : true_type {}; template<> struct is_integral<long long> : true_type {}; template<> struct is_integral<unsigned long long> : true_type {};
template<class T> struct is_floating_point : false_type {}; template<> struct is_floating_point<double> : true_type {}; template<> struct is_floating_point<float> : true_type {};
template<class T> struct is_arithmetic : integral_constant<bool, is_integral<T>::value || is_floating_point<T>::value> {};
template<class T> constexpr remove_reference_t<T> &&move(T &&t) noexcept { return static_cast<remove_reference_t<T> &&>(t); }
template<class T> constexpr T &&forward(remove_reference_t<T> &t) noexcept { return static_cast<T &&>(t); }
template<class T> constexpr T &&forward(remove_reference_t<T> &&t) noexcept { return static_cast<T &&>(t); }
template<class T> T &&declval() noexcept;
template<class T> T *addressof(T &t) { return &t; }
template<class T> const T &as_const(T &t) { return t; }
template<class T> void swap(T &a, T &b) { T c(move(a)); a = move(b); b = move(c); }
template<class T, size_t N> void swap(T (&a)[N], T (&b)[N]) { for (size_t i = 0; i < N; ++i) swap(a[i], b[i]); }
template<class T, class U = T> T exchange(T &a, U &&b) { T c(move(a)); a = forward<U>(b); return c; }
template<class T> constexpr const T &max(const T &a, const T &b) { return (a < b) ? b : a; }
template<class T> constexpr const T &min(const T &a, const T &b) { return (b < a) ? b : a; }
template<class T, class C> constexpr const T &max(const T &a, const T &b, C c) { return c(a, b) ? b : a; }
template<class T, class C> constexpr const T &min(const T &a, const T &b, C c) { return c(b, a) ? b : a; }
template<class T> constexpr const T &clamp(const T &v, const T &lo, const T &hi) { return (v < lo) ? lo : (hi < v) ? hi : v; }
template<class A, class B> struct pair {
  typedef A first_type; typedef B second_type; A first; B second;
  pair() : first(), second() {} pair(const A &a, const B &b) : first(a), second(b) {}
  template<class U, class V> pair(U &&u, V &&v) : first(forward<U>(u)), second(forward<V>(v)) {}
  template<class U, class V> pair(const pair<U, V> &o) : first(o.first), second(o.second) {}
  pair(const pair &) = default; pair(pair &&) = default; pair &operator=(const pair &) = default; pair &operator=(pair &&) = default;
};
template<class A, class B> pair<decay_t<A>, decay_t<B>> make_pair(A &&a, B &&b) { return pair<decay_t<A>, decay_t<B>>(forward<A>(a), forward<B>(b)); }
template<class A, class B> bool operator<(const pair<A, B> &x, const pair<A, B> &y) { return x.first < y.first || (!(y.first < x.first) && x.second < y.second); }
template<class A, class B> bool operator==(const pair<A, B> &x, const pair<A, B> &y) { return x.first == y.first && x.second == y.second; }
template<class E> class initializer_list { const E *a; size_t n; public: constexpr initializer_list() : a(0), n(0) {} constexpr initializer_list(const E *p, size_t k) : a(p), n(k) {}
  constexpr size_t size() const { return n; } constexpr const E *begin() const { return a; } constexpr const E *end() const { return a + n; } };
template<class T> constexpr T max(initializer_list<T> l) { const T *m = l.begin(); for (const T *p = m + 1; p != l.end(); ++p) if (*m < *p) m = p; return *m; }
template<class T> constexpr T min(initializer_list<T> l) { const T *m = l.begin(); for (const T *p = m + 1; p != l.end(); ++p) if (*p < *m) m = p; return *m; }
template<class T> struct numeric_limits;
template<> struct numeric_limits<double> { static constexpr bool is_specialized = true; static constexpr double max() { return 1.7976931348623157e+308; } static constexpr double min() { return 2.2250738585072014e-308; } static constexpr double lowest() { return -1.7976931348623157e+308; }
  static constexpr double epsilon() { return 2.2204460492503131e-16; } static constexpr double infinity() { return __builtin_huge_val(); } static constexpr double quiet_NaN() { return __builtin_nan(""); } static constexpr bool has_infinity = true; };
template<> struct numeric_limits<int> { static constexpr int max() { return 2147483647; } static constexpr int min() { return -2147483647 - 1; } static constexpr int lowest() { return min(); } };
template<> struct numeric_limits<unsigned> { static constexpr unsigned max() { return 4294967295u; } static constexpr unsigned min() { return 0; } };
template<> struct numeric_limits<size_t> { static constexpr size_t max() { return ~0ul; } static constexpr size_t min() { return 0; } };
using ::sqrt; using ::cbrt; using ::pow; using ::sin; using ::cos; using ::tan; using ::asin; using ::acos; using ::atan; using ::atan2; using ::fabs; using ::floor; using ::ceil; using ::trunc; using ::fmod; using ::exp; using ::log; using ::hypot; using ::round; using ::copysign; using ::fmax; using ::fmin; using ::remainder; using ::abs; using ::log10; using ::log2; using ::cosh; using ::sinh; using ::tanh; using ::rint; using ::nearbyint; using ::fdim; using ::fma; using ::modf;
inline double abs(double x) { return ::fabs(x); }
inline long abs(long x) { return x < 0 ? -x : x; }
inline double hypot(double a, double b, double c) { return ::sqrt(a * a + b * b + c * c); }
inline bool isnan(double x) { return x != x; } inline bool isinf(double x) { return ::fabs(x) > 1.7976931348623157e+308; } inline bool isfinite(double x) { return !isinf(x); } inline bool signbit(double x) { return x < 0; }

// iterators are plain pointers
struct random_access_iterator_tag {}; template<class I> struct iterator_traits; template<class T> struct iterator_traits<T *> { typedef T value_type; typedef T &reference; typedef T *pointer; typedef ptrdiff_t difference_type; typedef random_access_iterator_tag iterator_category; };
template<class T> struct iterator_traits<const T *> { typedef T value_type; typedef const T &reference; typedef const T *pointer; typedef ptrdiff_t difference_type; typedef random_access_iterator_tag iterator_category; };
template<class T> struct reverse_iterator { T *p; typedef T *iterator_type; explicit reverse_iterator(T *q = 0) : p(q) {} template<class U> reverse_iterator(const reverse_iterator<U> &o) : p(o.p) {} T &operator*() const { return p[-1]; } T *operator->() const { return p - 1; } reverse_iterator &operator++() { --p; return *this; } reverse_iterator operator++(int) { reverse_iterator r(*this); --p; return r; } reverse_iterator &operator--() { ++p; return *this; } reverse_iterator operator+(ptrdiff_t n) const { return reverse_iterator(p - n); } reverse_iterator operator-(ptrdiff_t n) const { return reverse_iterator(p + n); } T *base() const { return p; } T &operator[](ptrdiff_t n) const { return p[-1 - n]; } };
template<class T, class U> bool operator!=(const reverse_iterator<T> &a, const reverse_iterator<U> &b) { return a.p != b.p; }
template<class T, class U> bool operator==(const reverse_iterator<T> &a, const reverse_iterator<U> &b) { return a.p == b.p; }
template<class T, class U> bool operator<(const reverse_iterator<T> &a, const reverse_iterator<U> &b) { return b.p < a.p; }
template<class T, class U> ptrdiff_t operator-(const reverse_iterator<T> &a, const reverse_iterator<U> &b) { return b.p - a.p; }
template<class C> auto begin(C &c) -> decltype(c.begin()) { return c.begin(); } template<class C> auto end(C &c) -> decltype(c.end()) { return c.end(); }
template<class C> auto begin(const C &c) -> decltype(c.begin()) { return c.begin(); } template<class C> auto end(const C &c) -> decltype(c.end()) { return c.end(); }
template<class C> auto cbegin(const C &c) -> decltype(c.begin()) { return c.begin(); } template<class C> auto cend(const C &c) -> decltype(c.end()) { return c.end(); }
template<class C> auto rbegin(C &c) -> decltype(c.rbegin()) { return c.rbegin(); } template<class C> auto rend(C &c) -> decltype(c.rend()) { return c.rend(); }
template<class T, size_t N> T *begin(T (&a)[N]) { return a; } template<class T, size_t N> T *end(T (&a)[N]) { return a + N; }
template<class I> I next(I i, ptrdiff_t n = 1) { return i + n; } template<class I> I prev(I i, ptrdiff_t n = 1) { return i - n; } template<class I> ptrdiff_t distance(I a, I b) { return b - a; } template<class I> void advance(I &i, ptrdiff_t n) { i = i + n; }
template<class T> struct default_delete { void operator()(T *p) const { delete p; } };
template<class T, class D = default_delete<T>> class unique_ptr { T *p_; public: typedef T element_type; typedef T *pointer;
  unique_ptr() : p_(nullptr) {} unique_ptr(nullptr_t) : p_(nullptr) {} explicit unique_ptr(T *p) : p_(p) {} unique_ptr(unique_ptr &&o) : p_(o.release()) {} unique_ptr(const unique_ptr &) = delete; unique_ptr &operator=(const unique_ptr &) = delete;
  template<class U, class E> unique_ptr(unique_ptr<U, E> &&o) : p_(o.release()) {}
  unique_ptr &operator=(unique_ptr &&o) { reset(o.release()); return *this; } unique_ptr &operator=(nullptr_t) { reset(); return *this; }
  ~unique_ptr() { if (p_) D()(p_); } T *release() { T *q = p_; p_ = nullptr; return q; } void reset(T *q = nullptr) { T *o = p_; p_ = q; if (o) D()(o); } T *get() const { return p_; } T &operator*() const { return *p_; } T *operator->() const { return p_; } explicit operator bool() const { return p_ != nullptr; } void swap(unique_ptr &o) { std::swap(p_, o.p_); } };
template<class T, class... A> unique_ptr<T> make_unique(A &&... a) { return unique_ptr<T>(new T(forward<A>(a)...)); }
template<class T, class D> bool operator==(const unique_ptr<T, D> &a, nullptr_t) { return a.get() == nullptr; } template<class T, class D> bool operator!=(const unique_ptr<T, D> &a, nullptr_t) { return a.get() != nullptr; }
}
inline void *operator new(size_t, void *p) noexcept { return p; }
inline void *operator new[](size_t, void *p) noexcept { return p; }
void *operator new(size_t); void *operator new[](size_t); void operator delete(void *) noexcept; void operator delete[](void *) noexcept; void operator delete(void *, size_t) noexcept; void operator delete[](void *, size_t) noexcept;
namespace std {
template<class T> class allocator {};
template<class T, class A = allocator<T>> class vector { T *b_; T *e_;
  void mk() { b_ = (T *)__vcg_region(sizeof(T)); e_ = b_; }
public: typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef T &reference; typedef const T &const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef std::reverse_iterator<T> reverse_iterator; typedef std::reverse_iterator<const T> const_reverse_iterator;
  vector() { mk(); }
  explicit vector(size_t n) { mk(); for (size_t i = 0; i < n; ++i) emplace_back(); }
  vector(size_t n, const T &v) { mk(); for (size_t i = 0; i < n; ++i) push_back(v); }
  vector(int n, const T &v) { mk(); for (int i = 0; i < n; ++i) push_back(v); }
  template<class I, class = typename iterator_traits<I>::value_type> vector(I f, I l) { mk(); for (; f != l; ++f) push_back(*f); }
  vector(std::reverse_iterator<T> f, std::reverse_iterator<T> l) { mk(); for (; f != l; ++f) push_back(*f); }
  vector(std::reverse_iterator<const T> f, std::reverse_iterator<const T> l) { mk(); for (; f != l; ++f) push_back(*f); }
  vector(initializer_list<T> l) { mk(); for (const T *f = l.begin(); f != l.end(); ++f) push_back(*f); }
  vector(const vector &o) { mk(); for (const T *f = o.b_; f != o.e_; ++f) push_back(*f); }
  vector(vector &&o) { b_ = o.b_; e_ = o.e_; o.mk(); }
  vector &operator=(const vector &o) { if (this != &o) { clear(); for (const T *f = o.b_; f != o.e_; ++f) push_back(*f); } return *this; }
  vector &operator=(vector &&o) { swap(o); o.clear(); return *this; }
  vector &operator=(initializer_list<T> l) { clear(); for (const T *f = l.begin(); f != l.end(); ++f) push_back(*f); return *this; }
  ~vector() { clear(); __vcg_region_free(b_); }
  void swap(vector &o) { T *t = b_; b_ = o.b_; o.b_ = t; t = e_; e_ = o.e_; o.e_ = t; }
  void clear() { while (e_ != b_) { --e_; e_->~T(); } }
  void reserve(size_t) {} void shrink_to_fit() {} size_t capacity() const { return ~0ul; }
  void push_back(const T &v) { ::new ((void *)e_) T(v); ++e_; }
  void push_back(T &&v) { ::new ((void *)e_) T(std::move(v)); ++e_; }
  template<class... X> T &emplace_back(X &&... x) { ::new ((void *)e_) T(std::forward<X>(x)...); ++e_; return e_[-1]; }
  void pop_back() { --e_; e_->~T(); }
  size_t size() const { return e_ - b_; } bool empty() const { return e_ == b_; }
  void resize(size_t n) { while (size() > n) pop_back(); while (size() < n) emplace_back(); }
  void resize(size_t n, const T &v) { while (size() > n) pop_back(); while (size() < n) push_back(v); }
  void assign(size_t n, const T &v) { clear(); for (size_t i = 0; i < n; ++i) push_back(v); }
  template<class I, class = typename iterator_traits<I>::value_type> void assign(I f, I l) { clear(); for (; f != l; ++f) push_back(*f); }
  T *begin() { return b_; } T *end() { return e_; } const T *begin() const { return b_; } const T *end() const { return e_; } const T *cbegin() const { return b_; } const T *cend() const { return e_; }
  reverse_iterator rbegin() { return reverse_iterator(e_); } reverse_iterator rend() { return reverse_iterator(b_); } const_reverse_iterator rbegin() const { return const_reverse_iterator(e_); } const_reverse_iterator rend() const { return const_reverse_iterator(b_); } const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
  T &operator[](size_t i) { return b_[i]; } const T &operator[](size_t i) const { return b_[i]; } T &at(size_t i) { return b_[i]; } const T &at(size_t i) const { return b_[i]; }
  T &front() { return *b_; } const T &front() const { return *b_; } T &back() { return e_[-1]; } const T &back() const { return e_[-1]; } T *data() { return b_; } const T *data() const { return b_; }
  T *insert(const T *pos, const T &v) { T c(v); ptrdiff_t k = pos - b_; ptrdiff_t n = e_ - b_; if (k == n) { push_back(c); } else { push_back(b_[n - 1]); for (ptrdiff_t i = n - 1; i > k; --i) b_[i] = b_[i - 1]; b_[k] = c; } return b_ + k; }
  template<class I, class = typename iterator_traits<I>::value_type> T *insert(const T *pos, I f, I l) { ptrdiff_t k = pos - b_; ptrdiff_t i = k; for (; f != l; ++f) { insert(b_ + i, *f); ++i; } return b_ + k; }
  template<class... X> T *emplace(const T *pos, X &&... x) { return insert(pos, T(std::forward<X>(x)...)); }
  T *erase(const T *pos) { ptrdiff_t k = pos - b_; for (T *p = b_ + k; p + 1 != e_; ++p) *p = p[1]; pop_back(); return b_ + k; }
  T *erase(const T *f, const T *l) { ptrdiff_t k = f - b_; ptrdiff_t c = l - f; for (; c > 0; --c) erase(b_ + k); return b_ + k; }
};
template<class T, class A> bool operator==(const vector<T, A> &a, const vector<T, A> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
template<class T, size_t N> struct array { T a_[N]; typedef T value_type; typedef T *iterator; typedef const T *const_iterator; T &operator[](size_t i) { return a_[i]; } const T &operator[](size_t i) const { return a_[i]; } T &at(size_t i) { return a_[i]; } const T &at(size_t i) const { return a_[i]; } constexpr size_t size() const { return N; } bool empty() const { return false; } T *begin() { return a_; } T *end() { return a_ + N; } const T *begin() const { return a_; } const T *end() const { return a_ + N; } const T *cbegin() const { return a_; } const T *cend() const { return a_ + N; } T *data() { return a_; } const T *data() const { return a_; } T &front() { return a_[0]; } const T &front() const { return a_[0]; } T &back() { return a_[N - 1]; } const T &back() const { return a_[N - 1]; } void fill(const T &v) { for (size_t i = 0; i < N; ++i) a_[i] = v; } };
template<class I> void reverse(I f, I l) { while (f != l) { --l; if (f == l) break; auto t = *f; *f = *l; *l = t; ++f; } }
template<class I, class T> T accumulate(I f, I l, T v) { for (; f != l; ++f) v = v + *f; return v; }
template<class I, class T, class F> T accumulate(I f, I l, T v, F g) { for (; f != l; ++f) v = g(v, *f); return v; }
template<class I, class J, class T> T inner_product(I f, I l, J g, T v) { for (; f != l; ++f, ++g) v = v + *f * *g; return v; }
template<class I> I min_element(I f, I l) { if (f == l) return l; I m = f; for (++f; f != l; ++f) if (*f < *m) m = f; return m; }
template<class I, class C> I min_element(I f, I l, C c) { if (f == l) return l; I m = f; for (++f; f != l; ++f) if (c(*f, *m)) m = f; return m; }
template<class I> I max_element(I f, I l) { if (f == l) return l; I m = f; for (++f; f != l; ++f) if (*m < *f) m = f; return m; }
template<class I, class C> I max_element(I f, I l, C c) { if (f == l) return l; I m = f; for (++f; f != l; ++f) if (c(*m, *f)) m = f; return m; }
// insertion sort: an implementation of the standard's contract (sorted permutation)
template<class I, class C> void sort(I f, I l, C c) { if (f == l) return; for (I i = f + 1; i != l; ++i) for (I j = i; j != f; --j) if (c(*j, j[-1])) { auto t = *j; *j = j[-1]; j[-1] = t; } }
template<class I> void sort(I f, I l) { if (f == l) return; for (I i = f + 1; i != l; ++i) for (I j = i; j != f; --j) if (*j < j[-1]) { auto t = *j; *j = j[-1]; j[-1] = t; } }
template<class I, class C> void stable_sort(I f, I l, C c) { sort(f, l, c); }
template<class I, class J> J copy(I f, I l, J o) { for (; f != l; ++f, ++o) *o = *f; return o; }
template<class I, class N, class J> J copy_n(I f, N n, J o) { for (N i = 0; i < n; ++i, ++f, ++o) *o = *f; return o; }
template<class I, class T> void fill(I f, I l, const T &v) { for (; f != l; ++f) *f = v; }
template<class I, class N, class T> I fill_n(I f, N n, const T &v) { for (N i = 0; i < n; ++i, ++f) *f = v; return f; }
template<class I, class J, class F> J transform(I f, I l, J o, F g) { for (; f != l; ++f, ++o) *o = g(*f); return o; }
template<class I, class F> F for_each(I f, I l, F g) { for (; f != l; ++f) g(*f); return g; }
template<class I, class F> bool any_of(I f, I l, F g) { for (; f != l; ++f) if (g(*f)) return true; return false; }
template<class I, class F> bool all_of(I f, I l, F g) { for (; f != l; ++f) if (!g(*f)) return false; return true; }
template<class I, class F> I find_if(I f, I l, F g) { for (; f != l; ++f) if (g(*f)) return f; return l; }
template<class I, class T> I find(I f, I l, const T &v) { for (; f != l; ++f) if (*f == v) return f; return l; }
template<class I, class J> J move(I f, I l, J o) { for (; f != l; ++f, ++o) *o = std::move(*f); return o; }
template<class V> struct back_insert_iterator { V *v; back_insert_iterator &operator*() { return *this; } back_insert_iterator &operator++() { return *this; } back_insert_iterator operator++(int) { return *this; } template<class T> back_insert_iterator &operator=(const T &x) { v->push_back(x); return *this; } };
template<class V> back_insert_iterator<V> back_inserter(V &v) { back_insert_iterator<V> r; r.v = &v; return r; }
struct ostream { template<class T> ostream &operator<<(const T &) { return *this; } ostream &operator<<(ostream &(*)(ostream &)) { return *this; } };
extern ostream cout; extern ostream cerr;
inline ostream &endl(ostream &o) { return o; } inline ostream &flush(ostream &o) { return o; }
struct string { const char *s; string(const char *p = "") : s(p) {} };
template<class... T> struct tuple;
template<class A, class B> struct tuple<A, B> { A a; B b; tuple() : a(), b() {} tuple(const A &x, const B &y) : a(x), b(y) {} template<class U, class V> tuple &operator=(const pair<U, V> &p) { a = p.first; b = p.second; return *this; } template<class U, class V> tuple &operator=(const tuple<U, V> &p) { a = p.a; b = p.b; return *this; } };
template<class A, class B, class C> struct tuple<A, B, C> { A a; B b; C c; tuple() : a(), b(), c() {} tuple(const A &x, const B &y, const C &z) : a(x), b(y), c(z) {} template<class U, class V, class W> tuple &operator=(const tuple<U, V, W> &p) { a = p.a; b = p.b; c = p.c; return *this; } };
template<class A, class B> tuple<A &, B &> tie(A &a, B &b) { return tuple<A &, B &>(a, b); }
template<class A, class B, class C> tuple<A &, B &, C &> tie(A &a, B &b, C &c) { return tuple<A &, B &, C &>(a, b, c); }
template<class A, class B> tuple<A, B> make_tuple(A a, B b) { return tuple<A, B>(a, b); }
template<class A, class B, class C> tuple<A, B, C> make_tuple(A a, B b, C c) { return tuple<A, B, C>(a, b, c); }
template<class F> class function;
template<class R, class... A> class function<R(A...)> { struct base { virtual R call(A...) = 0; virtual ~base() {} }; template<class F> struct impl : base { F f; impl(const F &g) : f(g) {} R call(A... a) override { return f(a...); } }; base *p; public: template<class F> function(const F &f) : p(new impl<F>(f)) {} ~function() { delete p; } R operator()(A... a) const { return p->call(a...); } };
template<class T> struct less { bool operator()(const T &a, const T &b) const { return a < b; } };
template<class T> struct plus { T operator()(const T &a, const T &b) const { return a + b; } };
}
inline double abs(double x) { return ::fabs(x); }
#undef assert
#define assert(x) ((void)0)
#endif
