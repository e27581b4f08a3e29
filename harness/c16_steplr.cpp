#include "common.h"
#include "Optimizer.h"
#include "Scheduler.h"
using namespace tinytorch::optim;
// every period and factor; the optimizer may step, or not, between scheduler steps
static void drive(int64_t size, int epochs, bool optSteps) {
  float lr = sym_f32("lr"), gamma = sym_f32("gamma"); sym_assume(lr > 0 && gamma > 0); Tensor p = mk({1}, {1}, true); SGD o({&p}, lr); lr_scheduler::StepLR s(o, size, gamma); float e = lr;
  CHECKF(o.getLr(), lr, "the initial rate holds in epoch 0"); CHECKF(s.getLastLr(), lr, "reported rate"); CHECK(s.getLastEpoch() == 0, "epoch 0");
  for (int k = 1; k <= epochs; k++) {
    if (optSteps) { float g = sym_f32("g"); p.setGrad(mk({g}, {1})); for (int64_t i = pick("optSteps", 0, 1); i-- > 0;) { float b = fp(p)[0]; o.step(); checkT(p, {b - e * g}, {1}, "the optimizer uses the scheduled rate"); } }
    s.step(); if (k % size == 0) e = e * gamma;
    CHECKF(o.getLr(), e, "rate after the scheduler step"); CHECKF(s.getLastLr(), e, "reported rate"); CHECK(s.getLastEpoch() == k, "epoch count");
  }
  END();
}
HARNESS(rates) { beginReal(); drive(pick("size", 1, TIER == 2 ? 20 : 8), TIER == 2 ? 60 : 18, false); }
HARNESS(with_optimizer) { beginReal(); drive(pick("size", 1, 3), TIER == 2 ? 6 : 4, true); }
// one step from an arbitrary epoch: the rate changes exactly at multiples of the period
HARNESS(any_epoch) {
  beginReal(); int64_t size = sym_i64("size", 1, 1000000), e = sym_i64("epoch", 0, 1000000000); float lr = sym_f32("lr"), gamma = sym_f32("gamma"); sym_assume(lr > 0 && gamma > 0); Tensor p = mk({1}, {1}, true); SGD o({&p}, lr); lr_scheduler::StepLR s(o, size, gamma, e - 1);
  CHECKF(o.getLr(), lr, "construction leaves the rate"); CHECK(s.getLastEpoch() == e, "epoch"); s.step(); CHECK(s.getLastEpoch() == e + 1, "next epoch"); CHECK(o.getLr() == ((e + 1) % size == 0 ? lr * gamma : lr), "the rate changes exactly when a period completes"); CHECK(s.getLastLr() == o.getLr(), "reported rate"); END();
}
// the period in units of steps counts from the construction, for rates changed by hand as well
HARNESS(set_lr) {
  beginReal(); float lr = sym_f32("lr"), l2 = sym_f32("lr2"), gamma = sym_f32("gamma"); sym_assume(lr > 0 && l2 > 0 && gamma > 0); Tensor p = mk({1}, {1}, true); SGD o({&p}, lr); lr_scheduler::StepLR s(o, 2, gamma); s.step(); s.step(); CHECKF(o.getLr(), lr * gamma, "one period"); o.setLr(l2); s.step(); CHECKF(o.getLr(), l2, "manual rate holds inside a period"); s.step(); CHECKF(o.getLr(), l2 * gamma, "and is multiplied at its end"); END();
}
HARNESS(two_schedulers_share_nothing) {
  beginReal(); float a = sym_f32("lrA"), b = sym_f32("lrB"), ga = sym_f32("gA"), gb = sym_f32("gB"); sym_assume(a > 0 && b > 0 && ga > 0 && gb > 0); Tensor p = mk({1}, {1}, true); SGD o({&p}, a); Adam q({&p}, b); lr_scheduler::StepLR s(o, 1, ga), t(q, 2, gb);
  s.step(); CHECKF(q.getLr(), b, "the other optimizer is untouched"); t.step(); t.step(); CHECKF(o.getLr(), a * ga, "own period"); CHECKF(q.getLr(), b * gb, "own period"); END();
}
