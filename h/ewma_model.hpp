#pragma once
// The exponentially weighted recurrence, in extended precision. Times are in the clock's own ticks.
#include "vf.hpp"
namespace vf
{
template<typename T> struct EwmaModel
{
    long double alpha = 0; int64_t interval = 1;
    T rate{}, pending{}; int64_t last = 0; bool ticked = false; uint64_t folds = 0;
    EwmaModel() = default;
    EwmaModel(int64_t window, int64_t interval_, int64_t now) : alpha((double)(1 - expl(-(long double)interval_ / (2.0L * (long double)window)))), interval(interval_), last(now) { }
    // what a reading at t gives; fold: and closes the intervals that passed
    T tick(int64_t t, bool fold)
    {
        if (t < last) return rate;
        if (rate == T{} && !ticked)
        {
            T p = pending;
            if (t - last >= interval && fold) { ticked = true; rate = pending; pending = T{}; last = t; folds++; }
            return p;
        }
        long double e = (long double)rate + alpha * ((long double)pending - (long double)rate);
        int64_t n = (t - last) / interval;
        if (n > 1) e *= powl(1 - alpha, (long double)(n - 1));
        if (std::isnan(e) || std::isinf(e)) e = 0;
        if (n >= 1 && fold) { rate = (T)e; pending = T{}; last = t; folds++; }
        return (T)e;
    }
    void mark(int64_t t, T amount) { if (t < last) return; tick(t, true); pending = (T)(pending + amount); }
    uint64_t hash() const { return mix(mix(hbits((double)rate), hbits((double)pending)), mix((uint64_t)last, (uint64_t)ticked)); }
};
template<typename T> struct EwmaTol { static long double rel() { return std::is_same<T, float>::value ? 3e-5L : 1e-9L; } static long double abs() { return std::is_integral<T>::value ? 1.0L : 1e-290L; } };
template<> struct EwmaTol<float> { static long double rel() { return 3e-5L; } static long double abs() { return 1e-36L; } };
// scale: the largest magnitude involved, when signs mix; a small alpha has few digits
template<typename T> bool ewma_close(T a, T b, long double scale = 0, long double alpha = 1)
{
    long double x = (long double)a, y = (long double)b;
    return x == y || std::fabs(x - y) <= EwmaTol<T>::abs() + (EwmaTol<T>::rel() + 1e-14L / alpha) * std::max(std::max(std::fabs(x), std::fabs(y)), scale);
}
}
