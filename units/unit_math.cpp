// Analysis unit: uses the public templates of the library so that they are
// instantiated. Never linked or run.
#include "firefly/DenseSolver.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ThreadPool.hpp"

namespace ffunit {
  template<typename T>
  void use_solver(firefly::mat_ff<T> a, firefly::mat_ff<T> b, std::vector<int> p, uint32_t n, std::vector<T> r) {
    firefly::calc_inverse(a, n);
    firefly::solve_gauss_system(a, n);
    firefly::calc_lu_decomposition(a, p, n);
    firefly::calc_inverse_lu(a, b, p, n);
    firefly::solve_lu(a, p, r, n);
    firefly::calc_determinant_lu(a, p, n);
  }

  template<typename T>
  void use_parser(firefly::ShuntingYardParser& par, const std::vector<T>& v) {
    par.evaluate(v);
    par.evaluate_pre_2(v);
    par.evaluate_pre(v);
  }

  template<typename I>
  void use_ffint(I i) {
    firefly::FFInt a(i);
    a = i;
    firefly::FFIntVec<4> v(i);
    v = firefly::FFIntVec<4>(a);
    v = v.pow(i);
    v = v.pow(std::vector<I>(4, i));
    a = v.at(0);
    a = v[0];
    if (!v) v = firefly::FFIntVec<4>();
    v = firefly::FFIntVec<4>(std::array<firefly::FFInt, 4>());
    (void)v;
  }

  void use_all(firefly::ShuntingYardParser& par, firefly::ThreadPool& tp) {
    use_solver<firefly::FFInt>({}, {}, {}, 0, {});
    use_solver<firefly::FFIntVec<4>>({}, {}, {}, 0, {});
    use_parser<firefly::FFInt>(par, {});
    use_parser<firefly::FFIntVec<2>>(par, {});
    use_parser<firefly::FFIntVec<4>>(par, {});
    use_ffint<bool>(true);
    use_ffint<char>(0);
    use_ffint<signed char>(0);
    use_ffint<unsigned char>(0);
    use_ffint<short>(0);
    use_ffint<unsigned short>(0);
    use_ffint<int>(0);
    use_ffint<unsigned int>(0);
    use_ffint<long>(0);
    use_ffint<unsigned long>(0);
    use_ffint<long long>(0);
    use_ffint<unsigned long long>(0);
    tp.run_task([]() {});
    tp.run_priority_task([]() {});
    tp.run_packaged_task([]() {});
    tp.run_priority_packaged_task([]() {});
  }
}
