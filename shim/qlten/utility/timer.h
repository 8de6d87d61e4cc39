// Stand-in for TensorToolkit's timer (TensorToolkit is not installed in the
// sandbox).  Wall-clock values never enter any checked result.
#ifndef SHIM_QLTEN_TIMER_H
#define SHIM_QLTEN_TIMER_H
#include <chrono>
#include <cstddef>
#include <iostream>
#include <string>
namespace qlten {
inline double GetWallTime() {
  return std::chrono::duration<double>(
      std::chrono::steady_clock::now().time_since_epoch()).count();
}
class Timer {
 public:
  Timer(const std::string &notes) : start_(GetWallTime()), pass_(0), notes_(notes), running_(true) {}
  Timer() : Timer("") {}
  void Suspend() { if (running_) { pass_ += GetWallTime() - start_; running_ = false; } }
  void Restart() { start_ = GetWallTime(); running_ = true; }
  void ClearAndRestart() { pass_ = 0; Restart(); }
  double Elapsed() const { return pass_ + (running_ ? GetWallTime() - start_ : 0.0); }
  double PrintElapsed(std::size_t = 5) const {
    double t = Elapsed();
    if (notes_.empty()) std::cout << "[timing] " << t << "\n";
    else std::cout << "[timing] " << notes_ << " " << t << "\n";
    return t;
  }
 private:
  double start_, pass_;
  std::string notes_;
  bool running_;
};
}
#endif
