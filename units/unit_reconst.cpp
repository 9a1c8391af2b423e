// Analysis unit: instantiates the whole driver (and in the MPI configuration
// the worker) for a black box that forwards to a parser. Never linked or run.
#include "firefly/Reconstructor.hpp"
#include "firefly/ShuntingYardParser.hpp"

namespace ffunit {
  class StubBlackBox : public firefly::BlackBoxBase<StubBlackBox> {
  public:
    explicit StubBlackBox(const firefly::ShuntingYardParser& p) : par(p) {}
    template<typename T>
    std::vector<T> operator()(const std::vector<T>& values) {
      return par.evaluate_pre(values);
    }
    void prime_changed() {
      par.precompute_tokens();
    }
  private:
    firefly::ShuntingYardParser par;
  };
}

namespace ffunit {
  void use_driver(StubBlackBox& bb) {
    firefly::Reconstructor<StubBlackBox> a(1, 1, bb);
    firefly::Reconstructor<StubBlackBox> r(1, 1, 1, bb, 0);
    r.reconstruct();
    r.get_factors_string({});
    r.get_result();
    r.get_result_ff();
    r.get_early_results();
    r.enable_scan();
    r.enable_shift_scan();
    r.enable_factor_scan();
    r.set_safe_interpolation();
    r.set_tags({});
    r.set_tags();
    r.resume_from_saved_state({});
    r.resume_from_saved_state();
    r.set_anchor_points({});
    r.set_shifts({});
    r.load_precomputed_probes();
    r.reconstruction_done();
    r.stop_after_factor_scan();
#ifdef WITH_MPI
    firefly::MPIWorker<StubBlackBox> w(1, 1, bb);
    firefly::MPIWorker<StubBlackBox> v(1, 1, 1, bb);
#endif
  }
}
